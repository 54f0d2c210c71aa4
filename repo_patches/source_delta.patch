From 16fab519a4c6ac63c2730f72b45f4060dc5164bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:34 +0000
Subject: [PATCH 01/21] fix: count error columns in characters, not bytes

Describing a parse error on a long line with multi-byte characters panicked,
and the caret was misplaced on short ones.
---
 src/parser/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/error.rs b/src/parser/error.rs
index 74bce1d..44d63d1 100644
--- a/src/parser/error.rs
+++ b/src/parser/error.rs
@@ -85,7 +85,7 @@ struct LocatedLine<'a> {
     line: &'a str,
     // Line number, starting at 1.
     line_number: usize,
-    // Column number, starting at 1.
+    // Column number (in characters), starting at 1.
     column_number: usize,
 }
 
@@ -98,7 +98,7 @@ impl<'a> LocatedLine<'a> {
 
         let line_start_offset = input_before.rfind('\n').map(|n| n + 1).unwrap_or(0);
         let line_number = input_before.split('\n').count();
-        let column_number = offset - line_start_offset + 1;
+        let column_number = input[line_start_offset..offset].chars().count() + 1;
 
         LocatedLine {
             line: input[line_start_offset..].lines().next().unwrap_or(""),
-- 
2.43.0


From 084aeb4e3023fe8e79f29056e0affe21f27d84de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:36 +0000
Subject: [PATCH 02/21] fix: do not drop the rest of an INCLUDE section after
 invalid content

When an item inside an expanded INCLUDE section failed to parse, everything up
to the next "]]>" was silently discarded instead of failing the parse.
---
 src/parser/events.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 029db1f..0641490 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -143,7 +143,10 @@ where
                     recognize(|input| {
                         content(input, config, MarkedSectionEndHandling::StopParsing)
                     }),
-                    raw::marked_section_end,
+                    context(
+                        r##"marked section end ("]]>")"##,
+                        cut(raw::marked_section_end),
+                    ),
                 )(input),
             }?;
             Ok((
@@ -175,7 +178,10 @@ where
                     |input| content(input, config, MarkedSectionEndHandling::StopParsing),
                     EventIter::from_iter,
                 ),
-                raw::marked_section_body_character_data,
+                context(
+                    r##"marked section end ("]]>")"##,
+                    cut(raw::marked_section_end),
+                ),
             )(input),
         },
     }
-- 
2.43.0


From 8b69c8539b6ea2aeac4d8eb3162003d8d531f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:38 +0000
Subject: [PATCH 03/21] fix: recognize the empty comment declaration (<!>)
 after text

---
 src/parser/raw.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index 31c6ece..7b2f02b 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -183,6 +183,7 @@ where
                     tag("?"),
                     tag("!-"),
                     tag("!["),
+                    tag("!>"),
                     preceded(tag("!"), name_start),
                     // Minimally matching start/end tags: "<>", "</>", "<x", or "</x"
                     preceded(opt(tag("/")), alt((name_start, tag(">")))),
-- 
2.43.0


From 5eb73e04697603dda245b33f0629baf4c8e08746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:39 +0000
Subject: [PATCH 04/21] fix: accept INCLUDE sections that are empty or start
 with a comment

---
 src/parser/events.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 0641490..a4c6049 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -5,10 +5,10 @@ use std::iter::{FromIterator, FusedIterator};
 use std::{fmt, mem};
 
 use nom::branch::alt;
-use nom::combinator::{all_consuming, cut, map, recognize, value};
+use nom::combinator::{all_consuming, cut, map, opt, recognize, value};
 use nom::error::{context, ContextError, ErrorKind, FromExternalError, ParseError};
 use nom::multi::{many0, many0_count, many1};
-use nom::sequence::{terminated, tuple};
+use nom::sequence::{preceded, terminated, tuple};
 use nom::IResult;
 
 use crate::marked_sections::MarkedSectionStatus;
@@ -140,9 +140,7 @@ where
                 MarkedSectionStatus::CData => raw::marked_section_body_character_data(input),
                 MarkedSectionStatus::RcData => raw::marked_section_body_character_data(input),
                 MarkedSectionStatus::Include => terminated(
-                    recognize(|input| {
-                        content(input, config, MarkedSectionEndHandling::StopParsing)
-                    }),
+                    recognize(|input| included_content(input, config)),
                     context(
                         r##"marked section end ("]]>")"##,
                         cut(raw::marked_section_end),
@@ -175,8 +173,8 @@ where
             }
             MarkedSectionStatus::Include => terminated(
                 map(
-                    |input| content(input, config, MarkedSectionEndHandling::StopParsing),
-                    EventIter::from_iter,
+                    |input| included_content(input, config),
+                    |items| EventIter::from_iter(items.into_iter().flatten()),
                 ),
                 context(
                     r##"marked section end ("]]>")"##,
@@ -219,6 +217,20 @@ where
     )(input)
 }
 
+/// Matches the content of an `INCLUDE` marked section, which may be empty or start with comments.
+fn included_content<'a, E>(
+    input: &'a str,
+    config: &ParserConfig,
+) -> IResult<&'a str, Option<impl Iterator<Item = SgmlEvent<'a>>>, E>
+where
+    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
+{
+    preceded(
+        many0_count(comment_declaration),
+        opt(|input| content(input, config, MarkedSectionEndHandling::StopParsing)),
+    )(input)
+}
+
 /// Matches a single unit of content --- a tag, text data, processing instruction, or section declaration.
 pub fn content_item<'a, E>(
     input: &'a str,
-- 
2.43.0


From a49e187521705e734f8292b634f44e1bbe5dae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 05/21] fix: do not recurse for each marked section pair inside
 IGNORE

A long IGNORE section with many nested or sibling pairs overflowed the stack.
---
 src/parser/raw.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index 7b2f02b..cdd21bd 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -129,21 +129,23 @@ pub fn marked_section_body_ignore<'a, E>(input: &'a str) -> IResult<&'a str, &'a
 where
     E: ParseError<&'a str> + ContextError<&'a str>,
 {
-    use nom::{FindSubstring, Slice};
-    let (close_suffix, close_match) = marked_section_body_character_data(input)?;
-    match close_match.find_substring(MARKED_SECTION_START) {
-        Some(n) => {
-            let (suffix_after_matched_pair, _) =
-                context("nested marked section pair", marked_section_body_ignore)(
-                    input.slice(n + MARKED_SECTION_START.len()..),
-                )?;
-            let (final_suffix, _) = marked_section_body_ignore(suffix_after_matched_pair)?;
-            Ok((
-                final_suffix,
-                input.slice(..input.len() - final_suffix.len() - MARKED_SECTION_END.len()),
-            ))
+    let mut depth = 0usize;
+    let mut start = 0;
+    let (mut after_close, _) = marked_section_body_character_data(input)?;
+    loop {
+        let close = input.len() - after_close.len() - MARKED_SECTION_END.len();
+        match input[start..close].find(MARKED_SECTION_START) {
+            Some(n) => {
+                depth += 1;
+                start += n + MARKED_SECTION_START.len();
+            }
+            None if depth > 0 => {
+                depth -= 1;
+                start = input.len() - after_close.len();
+                after_close = marked_section_body_character_data(after_close)?.0;
+            }
+            None => return Ok((after_close, &input[..close])),
         }
-        _ => Ok((close_suffix, close_match)),
     }
 }
 
-- 
2.43.0


From c707634d1058c2f4b7fcd80d11be60c668819c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:42 +0000
Subject: [PATCH 06/21] fix: normalize the case of titlecase characters in
 names

---
 src/parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 15e0f87..ff52e9a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -158,10 +158,12 @@ impl Default for NameNormalization {
 impl NameNormalization {
     pub fn normalize<'a>(&self, name: Cow<'a, str>) -> Cow<'a, str> {
         match self {
-            NameNormalization::ToLowercase if name.chars().any(char::is_uppercase) => {
+            // Don't rely on `char::is_uppercase` and `char::is_lowercase`:
+            // titlecase characters ("\u{1c5}") are neither, but change in both cases
+            NameNormalization::ToLowercase if name.chars().any(|c| !c.to_lowercase().eq([c])) => {
                 name.to_lowercase().into()
             }
-            NameNormalization::ToUppercase if name.chars().any(char::is_lowercase) => {
+            NameNormalization::ToUppercase if name.chars().any(|c| !c.to_uppercase().eq([c])) => {
                 name.to_uppercase().into()
             }
             _ => name,
-- 
2.43.0


From 1333058142421f4a8c0e92e854899e001b6a37a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:43 +0000
Subject: [PATCH 07/21] fix: accept comment declarations inside a declaration
 subset

---
 src/parser/raw.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index cdd21bd..8da6ffc 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -78,6 +78,7 @@ where
         delimited(
             char('['),
             recognize(many0_count(alt((
+                comment_declaration,
                 comment,
                 quoted_attribute_value,
                 declaration_subset,
-- 
2.43.0


From 9941c9d45d3e2418497fc44caed8aa87b8694161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 08/21] fix: report undefined references instead of a generic
 parse error

An undefined reference in text, RCDATA or section keywords was a recoverable
error, so the message pointed at the surrounding text and did not name it.
---
 src/parser/events.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index a4c6049..8f93148 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -94,7 +94,9 @@ where
 {
     context("marked section declaration", |input| {
         let (rest, raw_status_keywords) = raw::marked_section_start_and_keywords(input)?;
-        let status_keywords = config.parse_markup_declaration_text(raw_status_keywords)?;
+        let status_keywords = config
+            .parse_markup_declaration_text(raw_status_keywords)
+            .map_err(into_failure)?;
 
         let status = match config
             .marked_section_handling
@@ -167,7 +169,9 @@ where
                 Ok((
                     rest,
                     EventIter::once(SgmlEvent::Character(
-                        config.parse_rcdata(config.trim(content))?,
+                        config
+                            .parse_rcdata(config.trim(content))
+                            .map_err(into_failure)?,
                     )),
                 ))
             }
@@ -361,10 +365,20 @@ where
     }
     Ok((
         rest,
-        EventIter::once(SgmlEvent::Character(config.parse_rcdata(s)?)),
+        EventIter::once(SgmlEvent::Character(
+            config.parse_rcdata(s).map_err(into_failure)?,
+        )),
     ))
 }
 
+/// Prevents recovery from an error, so that it is reported instead of trying alternatives.
+fn into_failure<E>(err: nom::Err<E>) -> nom::Err<E> {
+    match err {
+        nom::Err::Error(err) => nom::Err::Failure(err),
+        err => err,
+    }
+}
+
 /// An iterator over a sequence of events.
 ///
 /// This struct exists to minimize the number of allocations during the
-- 
2.43.0


From e2d53986ba00e5c30bf045e92971c51a8d29f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 09/21] fix: do not recurse when skipping nested elements

Ignoring a deeply nested element overflowed the stack.
---
 src/de/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 387547e..8587d0a 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -240,10 +240,8 @@ impl<'de> SgmlDeserializer<'de> {
             {
                 SgmlEvent::XmlCloseEmptyElement => {
                     self.stack.pop();
-                    return Ok(());
                 }
                 SgmlEvent::EndTag { name } => {
-                    self.check_stack_size(stack_size);
                     let expected = self.stack.pop().unwrap();
                     if name != expected {
                         return Err(DeserializationError::MismatchedCloseTag {
@@ -251,15 +249,14 @@ impl<'de> SgmlDeserializer<'de> {
                             found: name.to_string(),
                         });
                     }
-                    debug!("popped({}): {:?}", stack_size - 1, name);
-                    return Ok(());
-                }
-                SgmlEvent::OpenStartTag { name } => {
-                    self.stack.push(name);
-                    self.pop_elt()?;
+                    debug!("popped({}): {:?}", self.stack.len(), name);
                 }
+                SgmlEvent::OpenStartTag { name } => self.stack.push(name),
                 _ => {}
             };
+            if self.stack.len() < stack_size {
+                return Ok(());
+            }
         }
     }
 
-- 
2.43.0


From 0e8b2b7022f6dab28ecdfe01526438d7327aaea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 10/21] fix: reject unsupported events that follow a child
 element

A processing instruction, declaration, marked section or empty tag right after
a child element was not checked: it panicked with "unreachable" in maps.
---
 src/de/mod.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 8587d0a..7a0e3d8 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -141,6 +141,7 @@ impl<'de> SgmlDeserializer<'de> {
             .get(0)
             .ok_or(DeserializationError::UnexpectedEof)?;
         trace!("peeked: {:?}", current);
+        check_supported(current)?;
         Ok(current)
     }
 
@@ -151,6 +152,7 @@ impl<'de> SgmlDeserializer<'de> {
             .get_mut(0)
             .ok_or(DeserializationError::UnexpectedEof)?;
         trace!("peeked: {:?}", current);
+        check_supported(current)?;
         Ok(current)
     }
 
@@ -189,20 +191,10 @@ impl<'de> SgmlDeserializer<'de> {
     /// Rejects unsupported events (like empty start tags), ignores markup declarations and processing instructions,
     /// and ensures any `Data` is expanded
     fn normalize_at_cursor(&mut self) -> Result<(), DeserializationError> {
-        let event = match self.events.as_mut_slice().get_mut(0) {
-            Some(event) => event,
-            None => return Ok(()),
-        };
-        match event {
-            SgmlEvent::MarkupDeclaration { .. }
-            | SgmlEvent::ProcessingInstruction(_)
-            | SgmlEvent::MarkedSection { .. } => {}
-            SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } if name.is_empty() => {}
-            _ => return Ok(()),
+        match self.events.as_slice().get(0) {
+            Some(event) => check_supported(event),
+            None => Ok(()),
         }
-        Err(DeserializationError::Unsupported(
-            self.events.next().unwrap().into_owned(),
-        ))
     }
 
     fn expect_start_tag(&self) -> Result<&Cow<'de, str>, DeserializationError> {
@@ -354,6 +346,19 @@ impl<'de> SgmlDeserializer<'de> {
     }
 }
 
+fn check_supported(event: &SgmlEvent) -> Result<(), DeserializationError> {
+    match event {
+        SgmlEvent::MarkupDeclaration { .. }
+        | SgmlEvent::ProcessingInstruction(_)
+        | SgmlEvent::MarkedSection { .. } => {}
+        SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } if name.is_empty() => {}
+        _ => return Ok(()),
+    }
+    Err(DeserializationError::Unsupported(
+        event.clone().into_owned(),
+    ))
+}
+
 macro_rules! forward_parse {
     ($deserialize:ident => $visit:ident) => {
         fn $deserialize<V>(self, visitor: V) -> Result<V::Value, DeserializationError>
-- 
2.43.0


From 96553f6137d1fa5d8784c20b8bd10c3f99d5b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 11/21] fix: return an error for a start tag nested in an
 unclosed start tag

Reading such an (invalid) fragment into a struct with "$value" panicked.
---
 src/de/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 7a0e3d8..9b82b30 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -761,7 +761,9 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
                         debug!("next key: $value (for element {:?})", name);
                         seed.deserialize("$value".into_deserializer()).map(Some)
                     }
-                    ContentStrategy::TextOnly => unreachable!(),
+                    ContentStrategy::TextOnly => Err(DeserializationError::Unsupported(
+                        SgmlEvent::OpenStartTag { name: name.clone() }.into_owned(),
+                    )),
                 },
                 SgmlEvent::Character(text) => {
                     let text = mem::take(text);
-- 
2.43.0


From 92c91ac09c9aa624efc315a5cfd2dab91226d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 12/21] fix: do not loop when a sequence is requested from an
 attribute

The sequence was empty but left the attribute in place, so maps of sequences
kept finding the same key forever.
---
 src/de/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 9b82b30..8ecaf02 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -525,6 +525,10 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
         V: de::Visitor<'de>,
     {
         trace!("deserialize_seq (tag: {:?})", self.map_key);
+        if let Ok(SgmlEvent::Attribute { .. }) = self.peek() {
+            return Err(DeserializationError::ExpectedStartTag);
+        }
+
         let stack_size = self.stack.len();
 
         let tag_name = self.map_key.take().map(Into::into);
-- 
2.43.0


From c3e3e92f7b90a8c3e008b37f37133d5729706724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 13/21] fix: do not restrict a sequence inside an enum to the
 field's name

A sequence in a newtype variant only accepted elements named like the field
holding the enum, and ended up empty.
---
 src/de/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 8ecaf02..958dbff 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -596,8 +596,8 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
 
         // If true, we have a <map-key>(enum-value)</map-key> case;
         // if false, it's (enum-value) directly
-        let enum_within_element = self
-            .map_key
+        let map_key = self.map_key.take();
+        let enum_within_element = map_key
             .as_deref()
             .and_then(|map_key| {
                 self.expect_start_tag()
-- 
2.43.0


From 7802efa89e110e2bd6ed56c206f2f33daab4905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 14/21] fix: deserialize enums from attributes and text content

An enum in an attribute (as in the README) or in the text of a "$value" field
was rejected with "expected start tag".
---
 src/de/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 958dbff..7ba29a9 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -594,6 +594,11 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
 
         let stack_size = self.stack.len();
 
+        if self.accumulated_text.is_some() || matches!(self.peek()?, SgmlEvent::Attribute { .. }) {
+            trace!("enum in attribute or text content");
+            return visitor.visit_enum(EnumAccess::new(self, false));
+        }
+
         // If true, we have a <map-key>(enum-value)</map-key> case;
         // if false, it's (enum-value) directly
         let map_key = self.map_key.take();
-- 
2.43.0


From 09214d745813205d5bd7e9b882162dcdcd65a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:29 +0000
Subject: [PATCH 15/21] fix: do not read an enum's contents from the elements
 that follow it

When text selected a newtype, tuple or struct variant, its contents were taken
from the next sibling instead of reporting an error.
---
 src/de/mod.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 7ba29a9..f0628b9 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -872,6 +872,21 @@ impl<'de, 'r> EnumAccess<'de, 'r> {
     }
 }
 
+impl<'de, 'r> EnumAccess<'de, 'r> {
+    /// Text can only select unit variants; other variants would take their
+    /// contents from whatever follows the text.
+    fn expect_tag_name_for_variant(
+        &self,
+        expected: &'static str,
+    ) -> Result<(), DeserializationError> {
+        if self.use_tag_name_for_variant {
+            Ok(())
+        } else {
+            Err(de::Error::invalid_type(Unexpected::UnitVariant, &expected))
+        }
+    }
+}
+
 impl<'de, 'r> de::EnumAccess<'de> for EnumAccess<'de, 'r> {
     type Error = DeserializationError;
     type Variant = Self;
@@ -910,10 +925,10 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         seed: T,
     ) -> Result<T::Value, Self::Error> {
         trace!("newtype_variant");
+        self.expect_tag_name_for_variant("newtype variant")?;
         // If we just used the current tag name as a variant, we need to push the tag into the stack,
         // or else we might get stuck in a loop
-        let push =
-            self.use_tag_name_for_variant && self.de.peek_content_type()?.contains_child_elements;
+        let push = self.de.peek_content_type()?.contains_child_elements;
         if push {
             self.de.push_elt()?;
             self.de.advance_to_content()?;
@@ -930,9 +945,8 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("tuple_variant({} items)", len);
-        if self.use_tag_name_for_variant {
-            self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
-        }
+        self.expect_tag_name_for_variant("tuple variant")?;
+        self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
         self.de.deserialize_seq(visitor)
     }
 
@@ -945,6 +959,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("struct_variant");
+        self.expect_tag_name_for_variant("struct variant")?;
         self.de.do_map(visitor, fields.contains(&"$value"))
     }
 }
-- 
2.43.0


From 9acc7d3270eea0835af9bfd718b68c21a67f072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 16/21] fix: read the payload of a newtype variant from the
 variant's own element

---
 src/de/mod.rs | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index f0628b9..db33012 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -81,6 +81,8 @@ pub struct SgmlDeserializer<'de> {
     stack: Vec<Cow<'de, str>>,
     map_key: Option<Rc<str>>,
     accumulated_text: Option<Cow<'de, str>>,
+    /// Whether the cursor is on the element of a newtype variant, whose payload is about to be read
+    at_newtype_variant: bool,
 }
 
 /// The error type for deserialization problems.
@@ -120,6 +122,7 @@ impl<'de> SgmlDeserializer<'de> {
             stack: Vec::new(),
             map_key: None,
             accumulated_text: None,
+            at_newtype_variant: false,
         };
         reader.normalize_at_cursor()?;
         Ok(reader)
@@ -211,6 +214,7 @@ impl<'de> SgmlDeserializer<'de> {
             _ => return Err(DeserializationError::ExpectedStartTag),
         };
         debug!("push({}): {:?}", self.stack.len(), stag);
+        self.at_newtype_variant = false;
         self.stack.push(stag);
         self.normalize_at_cursor()?;
         Ok(self.stack.last().unwrap())
@@ -531,9 +535,26 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
 
         let stack_size = self.stack.len();
 
-        let tag_name = self.map_key.take().map(Into::into);
+        // The items of a sequence in a newtype variant are the contents of the variant's element,
+        // unless all it has is text or attributes, in which case it is an item itself
+        let within_variant = mem::take(&mut self.at_newtype_variant) && {
+            let content = self.peek_content_type()?;
+            content.contains_child_elements
+                || !(content.contains_text || content.contains_attributes)
+        };
+        let mut tag_name = self.map_key.take();
+        if within_variant {
+            tag_name = None;
+            self.push_elt()?;
+            self.advance_to_content()?;
+        }
+
         let value = visitor.visit_seq(SeqAccess::new(self, tag_name))?;
 
+        if within_variant {
+            self.pop_elt()?;
+        }
+
         self.check_stack_size(stack_size);
 
         Ok(value)
@@ -926,17 +947,12 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
     ) -> Result<T::Value, Self::Error> {
         trace!("newtype_variant");
         self.expect_tag_name_for_variant("newtype variant")?;
-        // If we just used the current tag name as a variant, we need to push the tag into the stack,
-        // or else we might get stuck in a loop
-        let push = self.de.peek_content_type()?.contains_child_elements;
-        if push {
-            self.de.push_elt()?;
-            self.de.advance_to_content()?;
-        }
+        // The payload is read from the variant's own element, like that of a field with its name
+        self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
+        self.de.at_newtype_variant = true;
         let value = seed.deserialize(self.de.borrow_mut())?;
-        if push {
-            self.de.pop_elt()?;
-        }
+        self.de.at_newtype_variant = false;
+        self.de.map_key = None;
         Ok(value)
     }
 
-- 
2.43.0


From e4163a3823074fc0cc04fac5963883d4d2d30916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:22 +0000
Subject: [PATCH 17/21] fix: do not drop the elements left after a sequence in
 a newtype variant

---
 src/de/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index db33012..d7cbbfa 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -552,6 +552,14 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
         let value = visitor.visit_seq(SeqAccess::new(self, tag_name))?;
 
         if within_variant {
+            while let SgmlEvent::Character(_) = self.peek()? {
+                self.advance()?;
+            }
+            if let leftover @ SgmlEvent::OpenStartTag { .. } = self.peek()? {
+                return Err(DeserializationError::Unsupported(
+                    leftover.clone().into_owned(),
+                ));
+            }
             self.pop_elt()?;
         }
 
-- 
2.43.0


From f175095af5b82729d6df9029eb8f85dd805de3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:47 +0000
Subject: [PATCH 18/21] fix: skip blank text around the elements of sequences
 and enums

---
 src/de/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index d7cbbfa..7c8995c 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -256,14 +256,18 @@ impl<'de> SgmlDeserializer<'de> {
         }
     }
 
-    /// Skips attributes and CloseStartTag, going to the main content.
+    /// Skips attributes, CloseStartTag and blank text, going to the main content.
     ///
     /// Should only be used immediately after `push_elt`.
     fn advance_to_content(&mut self) -> Result<(), DeserializationError> {
-        while let SgmlEvent::Attribute { .. } | SgmlEvent::CloseStartTag = self.peek()? {
+        loop {
+            match self.peek()? {
+                SgmlEvent::Attribute { .. } | SgmlEvent::CloseStartTag => {}
+                SgmlEvent::Character(text) if text.trim().is_empty() => {}
+                _ => return Ok(()),
+            }
             self.advance()?;
         }
-        Ok(())
     }
 
     /// Consumes an element and returns all its text.
@@ -880,7 +884,7 @@ impl<'de, 'r> de::SeqAccess<'de> for SeqAccess<'de, 'r> {
                         return Ok(Some(seed.deserialize(&mut *self.de)?));
                     }
                 },
-                SgmlEvent::Character(text) if text.is_empty() => self.de.advance()?,
+                SgmlEvent::Character(text) if text.trim().is_empty() => self.de.advance()?,
                 _ => return Ok(None),
             };
         }
-- 
2.43.0


From 75f049a3faefe14dd1e19f1969f9e7136a0d2d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:03 +0000
Subject: [PATCH 19/21] fix: do not loop on values that consume nothing

---
 src/de/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 7c8995c..9adbec7 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -336,6 +336,14 @@ impl<'de> SgmlDeserializer<'de> {
         Ok(value)
     }
 
+    /// Fails if nothing was consumed since there were that many events remaining; trying again would never end.
+    fn check_advanced(&self, remaining: usize) -> Result<(), DeserializationError> {
+        if self.events.len() == remaining {
+            return Err(de::Error::custom("value did not consume its element"));
+        }
+        Ok(())
+    }
+
     #[track_caller]
     fn check_stack_size(&self, expected_size: usize) {
         let stack = &self.stack;
@@ -838,7 +846,9 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
             seed.deserialize(&mut *self.de)
         } else {
             self.de.map_key = self.map_key.take();
+            let remaining = self.de.events.len();
             let value = seed.deserialize(&mut *self.de)?;
+            self.de.check_advanced(remaining)?;
             self.de.map_key = None;
             Ok(value)
         }
@@ -881,7 +891,10 @@ impl<'de, 'r> de::SeqAccess<'de> for SeqAccess<'de, 'r> {
                         if self.de.map_key != self.tag_name {
                             self.de.map_key = self.tag_name.clone();
                         }
-                        return Ok(Some(seed.deserialize(&mut *self.de)?));
+                        let remaining = self.de.events.len();
+                        let item = seed.deserialize(&mut *self.de)?;
+                        self.de.check_advanced(remaining)?;
+                        return Ok(Some(item));
                     }
                 },
                 SgmlEvent::Character(text) if text.trim().is_empty() => self.de.advance()?,
-- 
2.43.0


From 36cf37059e1bc91fd2c145a4311d8fc93474750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 20/21] fix: do not loop on map values that consume nothing of
 an attribute

---
 src/de/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 9adbec7..85d0082 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -843,7 +843,10 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
             self.de.accumulated_text = None;
             Ok(value)
         } else if let Ok(SgmlEvent::Attribute { .. }) = self.de.peek() {
-            seed.deserialize(&mut *self.de)
+            let remaining = self.de.events.len();
+            let value = seed.deserialize(&mut *self.de)?;
+            self.de.check_advanced(remaining)?;
+            Ok(value)
         } else {
             self.de.map_key = self.map_key.take();
             let remaining = self.de.events.len();
-- 
2.43.0


From a82ce4582c937a6d8c074d9f62ccc990f593a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 21/21] fix: lend the empty text of an attribute without a
 value

---
 src/de/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 85d0082..00d8c1b 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -286,7 +286,7 @@ impl<'de> SgmlDeserializer<'de> {
             let value = mem::take(value);
             debug!("consumed text from attribute({}): {:?}", name, value);
             self.advance()?;
-            return Ok(value.unwrap_or_default());
+            return Ok(value.unwrap_or(Cow::Borrowed("")));
         }
 
         let starting_stack_size = self.stack.len();
-- 
2.43.0

