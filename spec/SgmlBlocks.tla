---------------------------- MODULE SgmlBlocks ----------------------------
(***************************************************************************)
(* The public building blocks of the parser: functions that recognize one  *)
(* construct at the beginning of a text (parser::raw, parser::util,        *)
(* parser::events) and helpers that treat a whole text (ParserConfig,      *)
(* NameNormalization, MarkedSectionHandling, MarkedSectionStatus).         *)
(*                                                                         *)
(* A result is <<next, out, lens>>: the position after what was consumed   *)
(* (0: nothing is recognized here; -1: not specified), what the function   *)
(* yields, and for iterators of events the lengths they announce, before   *)
(* the first event and after each.  Functions of a whole text have next 1. *)
(***************************************************************************)
EXTENDS SgmlParser

No           == <<0, <<>>, <<>>>>
NoOneOf(ws)  == <<0, ws, <<>>>>              \* an error that carries one of ws
Free         == <<-1, <<>>, <<>>>>
Yes(next, o) == <<next, o, <<>>>>
Lengths(n)   == [i \in 1..(n + 1) |-> n + 1 - i]
Iter(r)      == IF r.ok THEN <<r.next, r.evs, Lengths(Len(r.evs))>> ELSE No
Many(r)      == IF r.ok THEN Yes(r.next, r.evs) ELSE No
\* a result that yields the consumed text, without a characters in front and b at the end
Part(s, r, a, b) == IF r.ok THEN Yes(r.next, Slice(s, 1 + a, r.next - b)) ELSE No
Only(c, x)   == IF c THEN x ELSE No
UpTo(s, p)   == LET e == Find(s, 1, p) IN Only(e > 0, Yes(e + Len(p), Slice(s, 1, e)))

----------------------------- (* parser::util *) -----------------------------
RECURSIVE Skips(_, _)      \* comment declarations and spaces
Skips(s, i) == IF Ch(s, i) \in Space THEN Skips(s, SkipSp(s, i))
               ELSE IF AtComment(s, i)
               THEN (LET c == CommentDecl(s, i) IN IF c.ok THEN Skips(s, c.next) ELSE c)
               ELSE Good(i, <<>>)
NameAt(s, i) == IF Ch(s, i) \in NameStart THEN SkipName(s, i) ELSE 0

----------------------------- (* parser::raw *) ------------------------------
Value(s, i, unq, quo) ==      \* an attribute value at i
   IF Ch(s, i) \in {"\"", "'"}
   THEN LET q == Find(s, i + 1, <<s[i]>>) IN Only(quo /\ q > 0, Yes(q + 1, <<Slice(s, i + 1, q), TRUE>>))
   ELSE LET u == SkipNotIn(s, i, {"\"", "'", ">"} \cup Space) IN Only(unq /\ u > i, Yes(u, <<Slice(s, i, u), FALSE>>))
Attribute(s, F(_, _)) ==      \* F gives what becomes of a value
   LET ne == NameAt(s, 1)
       k  == SkipSp(s, ne)
       v  == Value(s, SkipSp(s, k + 1), TRUE, TRUE)
       x  == F(v[2][1], v[2][2])
       n  == Slice(s, 1, ne)
   IN IF ne = 0 THEN No
      ELSE IF Ch(s, k) # "=" THEN Yes(ne, <<n>>)
      ELSE IF v[1] = 0 \/ ~x.ok THEN No
      ELSE Yes(v[1], <<n, x.out>>)
AsIs(v, quoted) == [ok |-> TRUE, out |-> v]

Lex == << "raw.comment_declaration", "raw.comment", "raw.markup_declaration", "raw.marked_section_start_and_keywords",
   "raw.marked_section_body_character_data", "raw.marked_section_body_ignore", "raw.marked_section_end",
   "raw.processing_instruction", "raw.text", "raw.text/stop", "raw.plain_text", "raw.plain_text/stop",
   "raw.open_start_tag", "raw.close_start_tag", "raw.xml_close_empty_element", "raw.empty_start_tag", "raw.attribute",
   "raw.attribute_value", "raw.unquoted_attribute_value", "raw.quoted_attribute_value", "raw.end_tag", "raw.name",
   "raw.name_start", "raw.is_name_start_char", "raw.is_name_char", "util.take_until_terminated/]]>",
   "util.take_until_terminated/--", "util.spaces", "util.comments_and_spaces", "util.strip_spaces_after",
   "util.strip_spaces_around", "util.strip_comments_and_spaces_after", "text.is_sgml_whitespace",
   "marked_sections.from_keywords", "marked_sections.from_str" >>

Statuses == {"include", "rcdata", "cdata", "ignore"}
BadWords(s) == SelectSeq(Words(s, 1), LAMBDA w : KwRank(w) = -1)

LexBlock(b, s) ==
   LET name == NameAt(s, 1)
       plain(stop) == LET k == SkipNotIn(s, 1, {"<"})
                          m == IF stop THEN Find(s, 1, MseClose) ELSE 0
                          e == IF m > 0 /\ m < k THEN m ELSE k
                      IN Only(e > 1, Yes(e, Slice(s, 1, e)))
       text(stop) == LET e == TextEnd(s, 1, stop) IN Only(e > 1, Yes(e, Slice(s, 1, e)))
       tag(p) == Only(At(s, 1, p), Yes(Len(p) + 1, p))
       after(from, to) == Yes(to, Slice(s, from, SkipName(s, from)))
   IN
   CASE b = "raw.comment_declaration" -> Only(AtComment(s, 1), Part(s, CommentDecl(s, 1), 0, 0))
     [] b = "raw.comment"             -> Only(At(s, 1, Dash2), Part(s, Cmt(s, 1), 2, 2))
     [] b = "raw.markup_declaration"  ->
          LET r == MarkupDecl(s, 1) IN Only(AtDecl(s, 1), IF r.ok THEN Yes(r.next, <<r.evs[1][2], r.evs[1][3]>>) ELSE No)
     [] b = "raw.marked_section_start_and_keywords" ->
          LET k == SkipNotIn(s, 4, {"[", "]", "<", ">", "!"})
          IN Only(At(s, 1, MseOpen), Only(Ch(s, k) = "[", Yes(k + 1, Trim(Slice(s, 4, k)))))
     [] b \in {"raw.marked_section_body_character_data", "util.take_until_terminated/]]>"} -> UpTo(s, MseClose)
     [] b = "util.take_until_terminated/--" -> UpTo(s, Dash2)
     [] b = "raw.marked_section_body_ignore" ->
          LET e == IgnoreEnd(s, 1, 0) IN Only(e > 0, Yes(e + 3, Slice(s, 1, e)))
     [] b = "raw.marked_section_end"  -> tag(MseClose)
     [] b = "raw.processing_instruction" ->
          LET e == Find(s, 3, <<">">>) IN Only(At(s, 1, <<"<", "?">>), Only(e > 0, Yes(e + 1, Slice(s, 1, e + 1))))
     [] b = "raw.text"                -> text(FALSE)
     [] b = "raw.text/stop"           -> text(TRUE)
     [] b = "raw.plain_text"          -> plain(FALSE)
     [] b = "raw.plain_text/stop"     -> plain(TRUE)
     [] b = "raw.open_start_tag"      ->
          Only(Ch(s, 1) = "<" /\ NameAt(s, 2) > 0, after(2, NameAt(s, 2)))
     [] b = "raw.close_start_tag"     -> tag(<<">">>)
     [] b = "raw.xml_close_empty_element" -> tag(<<"/", ">">>)
     [] b = "raw.empty_start_tag"     -> tag(<<"<", ">">>)
     [] b = "raw.attribute"           -> Attribute(s, AsIs)
     [] b = "raw.attribute_value"     -> Value(s, 1, TRUE, TRUE)
     [] b \in {"raw.unquoted_attribute_value", "raw.quoted_attribute_value"} ->
          LET v == Value(s, 1, b = "raw.unquoted_attribute_value", b = "raw.quoted_attribute_value")
          IN Only(v[1] > 0, Yes(v[1], v[2][1]))
     [] b = "raw.end_tag"             ->
          LET e == NameAt(s, 3)
              q == IF e = 0 THEN 3 ELSE SkipSp(s, e)
          IN Only(At(s, 1, <<"<", "/">>) /\ Ch(s, q) = ">", Yes(q + 1, IF e = 0 THEN <<>> ELSE <<Slice(s, 3, e)>>))
     [] b = "raw.name"                -> Only(name > 0, Yes(name, Slice(s, 1, name)))
     [] b = "raw.name_start"          -> Only(name > 0, Yes(2, Slice(s, 1, 2)))
     [] b = "raw.is_name_start_char"  -> Only(s # <<>>, Yes(1, <<Ch(s, 1) \in NameStart>>))
     [] b = "raw.is_name_char"        -> Only(s # <<>>, Yes(1, <<Ch(s, 1) \in NameChar>>))
     [] b = "text.is_sgml_whitespace" -> Only(s # <<>>, Yes(1, <<Ch(s, 1) \in Space>>))
     [] b = "util.spaces"             -> Yes(SkipSp(s, 1), Slice(s, 1, SkipSp(s, 1)))
     [] b = "util.comments_and_spaces" -> Part(s, Skips(s, 1), 0, 0)
     [] b = "util.strip_spaces_after" -> Only(name > 0, after(1, SkipSp(s, name)))
     [] b = "util.strip_spaces_around" ->
          LET i == SkipSp(s, 1) IN Only(NameAt(s, i) > 0, after(i, SkipSp(s, NameAt(s, i))))
     [] b = "util.strip_comments_and_spaces_after" ->
          LET r == Skips(s, name) IN Only(name > 0 /\ (name > 0 => r.ok), after(1, r.next))
     [] b = "marked_sections.from_keywords" ->
          LET st == Status(s, "all") IN IF st = "bad" THEN NoOneOf(BadWords(s)) ELSE Yes(1, <<st>>)
     [] b = "marked_sections.from_str" -> Only(KwRank(s) # -1, Yes(1, <<RankName[KwRank(s) + 1]>>))

---------------------------- (* parser::events *) ----------------------------
Configured == << "events.document_entity", "events.prolog", "events.content", "events.content/stop", "events.content_item",
   "events.content_item/stop", "events.markup_declaration", "events.marked_section_declaration",
   "events.marked_section_body/include", "events.marked_section_body/rcdata", "events.marked_section_body/cdata",
   "events.marked_section_body/ignore", "events.processing_instruction", "events.start_tag", "events.open_start_tag",
   "events.close_start_tag", "events.xml_close_empty_element", "events.empty_start_tag", "events.attribute", "events.text",
   "events.text/stop", "config.trim", "config.parse_rcdata", "config.parse_markup_declaration_text", "names.normalize",
   "sections.parse_keywords" >>

Items == {"Section", "Instruction", "Text", "EmptyStartTag", "EndTag", "StartTag"}
KwText == S(" Kw %x;\t")
\* the parser's machine, in the middle of content, outside or inside an included section
Inside == <<[kw |-> KwText, start |-> 1, mark |-> 0]>>
InContent(stop) == [PInit EXCEPT !.phase = "content", !.stack = IF stop THEN Inside ELSE <<>>]
Ended(st) == IF st.phase = "err" THEN Bad(st.lo) ELSE Good(st.pos, st.out)
\* until the sections opened after the first d ones are closed
RECURSIVE Closing(_, _, _, _)
Closing(s, cfg, st, d) == IF st.phase = "err" \/ Len(st.stack) <= d THEN st ELSE Closing(s, cfg, Step(s, cfg, st), d)
OneItem(s, cfg, st) == Closing(s, cfg, Step(s, cfg, st), Len(st.stack))
RECURSIVE AllItems(_, _, _), PrologItems(_, _, _)
AllItems(s, cfg, st) ==
   IF st.phase = "err" \/ Kind(s, st) \notin Items \cup {"Comment"} THEN st ELSE AllItems(s, cfg, OneItem(s, cfg, st))
PrologItems(s, cfg, st) ==
   IF st.phase = "err" \/ Kind(s, st) = "EnterContent" THEN st ELSE PrologItems(s, cfg, OneItem(s, cfg, st))
Expanded(cfg, v, quoted) == IF quoted THEN Expand(v, cfg.ents) ELSE [ok |-> TRUE, out |-> v]
\* characters whose case mappings are in the table of SgmlChars
KnownCase == (NameChar \ {"u3a3"}) \cup {c \in {AsciiPrintable[i] : i \in 1..Len(AsciiPrintable)} : TRUE} \cup Space

ConfiguredBlock(b, s, cfg) ==
   LET item(stop) == LET st == InContent(stop) IN
                     IF Kind(s, st) \in Items THEN Iter(Ended(OneItem(s, cfg, st))) ELSE No
       items(stop) == LET st == InContent(stop) IN
                      IF Kind(s, st) \in Items THEN Many(Ended(AllItems(s, cfg, st))) ELSE No
       body(status) == IF status = "include" THEN Iter(Ended(Closing(s, cfg, InContent(TRUE), 0)))
                       ELSE Iter(FlatSection(s, 1, status, KwText, cfg))
       text(stop) == Only(TextEnd(s, 1, stop) > 1, Iter(Text(s, 1, stop, cfg)))
       one(ok, next, ev) == Only(ok, Yes(next, <<ev>>))
   IN
   CASE b = "events.document_entity" -> LET p == Parse(s, cfg) IN IF POk(p) THEN Yes(p.pos, p.out) ELSE No
     [] b = "events.prolog" ->      \* blanks and comments before the prolog are the document's business
          IF Kind(s, PInit) \in {"Comment", "PrologSpace"} THEN Free ELSE Many(Ended(PrologItems(s, cfg, PInit)))
     [] b = "events.content"           -> items(FALSE)
     [] b = "events.content/stop"      -> items(TRUE)
     [] b = "events.content_item"      -> item(FALSE)
     [] b = "events.content_item/stop" -> item(TRUE)
     [] b = "events.markup_declaration" -> Only(AtDecl(s, 1), Iter(Declaration(s, 1, cfg)))
     [] b = "events.marked_section_declaration" -> Only(At(s, 1, MseOpen), item(FALSE))
     [] b = "events.marked_section_body/include" -> body("include")
     [] b = "events.marked_section_body/rcdata"  -> body("rcdata")
     [] b = "events.marked_section_body/cdata"   -> body("cdata")
     [] b = "events.marked_section_body/ignore"  -> body("ignore")
     [] b = "events.processing_instruction" -> Only(At(s, 1, <<"<", "?">>), Iter(Instruction(s, 1, cfg)))
     [] b = "events.start_tag"         -> IF At(s, 1, <<"<", ">">>) THEN Iter(EmptyStartTag(s, 1))
                                          ELSE Only(Ch(s, 1) = "<" /\ Ch(s, 2) \in NameStart, Iter(StartTag(s, 1, cfg)))
     [] b = "events.open_start_tag"    -> one(Ch(s, 1) = "<" /\ NameAt(s, 2) > 0, NameAt(s, 2),
                                              <<"open", NormName(Slice(s, 2, NameAt(s, 2)), cfg)>>)
     [] b = "events.close_start_tag"   -> one(Ch(s, 1) = ">", 2, <<"close">>)
     [] b = "events.xml_close_empty_element" -> one(At(s, 1, <<"/", ">">>), 3, <<"xclose">>)
     [] b = "events.empty_start_tag"   -> Only(At(s, 1, <<"<", ">">>), Iter(EmptyStartTag(s, 1)))
     [] b = "events.attribute"         ->
          LET a == Attribute(s, LAMBDA v, q : Expanded(cfg, v, q))
              n == NormName(a[2][1], cfg)
          IN IF a[1] = 0 THEN No
             ELSE Yes(a[1], <<IF Len(a[2]) = 1 THEN <<"attr0", n>> ELSE <<"attr", n, a[2][2]>>>>)
     [] b = "events.text"              -> text(FALSE)
     [] b = "events.text/stop"         -> text(TRUE)
     [] b = "config.trim"              -> Yes(1, IF cfg.trim THEN Trim(s) ELSE s)
     [] b = "config.parse_rcdata"      -> LET x == Expand(s, cfg.ents) IN Only(x.ok, Yes(1, x.out))
     [] b = "config.parse_markup_declaration_text" -> LET x == ExpandParam(s, cfg.pents) IN Only(x.ok, Yes(1, x.out))
     [] b = "names.normalize"          ->
          IF \E i \in 1..Len(s) : s[i] \notin KnownCase THEN Free ELSE Yes(1, NormName(s, cfg))
     [] b = "sections.parse_keywords"  ->
          LET st == Status(s, cfg.sect) IN
          IF st # "bad" THEN Yes(1, <<st>>) ELSE NoOneOf(IF cfg.sect = "chars" THEN <<s>> ELSE BadWords(s))

All(s, cfg) == [k \in 1..(Len(Lex) + Len(Configured)) |->
   IF k <= Len(Lex) THEN LexBlock(Lex[k], s) ELSE ConfiguredBlock(Configured[k - Len(Lex)], s, cfg)]
AllNames == Lex \o Configured

\* does an observed result agree with the specified one?
SameResult(x, got) ==
   \/ x[1] = -1
   \/ x[1] = 0 /\ got[1] = 0 /\ (x[2] = <<>> \/ \E i \in 1..Len(x[2]) : got[2] = <<x[2][i]>>)
   \/ x[1] > 0 /\ got[1] = x[1] /\ got[2] = x[2] /\ got[3] = x[3]
=============================================================================
