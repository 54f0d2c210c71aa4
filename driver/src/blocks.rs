//! The public building blocks of the parser (C29): each is called on the same text.
use std::borrow::Cow;
use std::panic::{catch_unwind, AssertUnwindSafe};

use nom::error::{ContextError, FromExternalError, ParseError, VerboseError};
use nom::{IResult, Parser as _};
use serde_json::{json, Value};
use sgmlish::marked_sections::MarkedSectionStatus;
use sgmlish::parser::events::{self, EventIter};
use sgmlish::parser::raw::{self, MarkedSectionEndHandling::{StopParsing, TreatAsText}};
use sgmlish::parser::{util, ContextualizedError, MarkedSectionHandling, NameNormalization, ParserConfig};
use sgmlish::{Parser, SgmlEvent};

use crate::cfg::{lookup, Cfg};
use crate::chars::{char_pos, dec, enc};
use crate::events::enc_event;
use crate::gen::{Gen, Prof};
use crate::replay::{printed, Tally};
use crate::watch::Watch;

/// next, output, announced lengths
type Res = (usize, Value, Value);

fn no() -> Res {
    (0, json!([]), json!([]))
}

struct At<'a>(&'a str);

impl<'a> At<'a> {
    fn pos(&self, rest: &str) -> usize {
        let from = (rest.as_ptr() as usize).wrapping_sub(self.0.as_ptr() as usize);
        if from + rest.len() == self.0.len() { char_pos(self.0, from) } else { 0 }
    }
    fn res<O, E>(&self, r: IResult<&'a str, O, E>, f: impl FnOnce(O) -> Value) -> Res {
        match r {
            Ok((rest, o)) => (self.pos(rest), f(o), json!([])),
            Err(_) => no(),
        }
    }
    fn text<E>(&self, r: IResult<&'a str, &'a str, E>) -> Res {
        self.res(r, enc)
    }
    fn event<E>(&self, r: IResult<&'a str, SgmlEvent<'a>, E>) -> Res {
        self.res(r, |e| json!([enc_event(&e)]))
    }
    fn many<E, I: Iterator<Item = SgmlEvent<'a>>>(&self, r: IResult<&'a str, I, E>) -> Res {
        self.res(r, |i| Value::Array(i.map(|e| enc_event(&e)).collect()))
    }
    fn iter<E>(&self, r: IResult<&'a str, EventIter<'a>, E>) -> Res {
        let (rest, mut it) = match r {
            Ok(x) => x,
            Err(_) => return no(),
        };
        let announced = |it: &EventIter| {
            let n = it.len();
            if it.size_hint() == (n, Some(n)) { json!(n) } else { json!("inconsistent") }
        };
        let mut lens = vec![announced(&it)];
        let mut evs = vec![];
        while let Some(e) = it.next() {
            evs.push(enc_event(&e));
            lens.push(announced(&it));
        }
        if it.next().is_some() || it.next().is_some() || it.len() != 0 {
            lens.push(json!("not finished"));
        }
        (self.pos(rest), json!(evs), json!(lens))
    }
}

fn status(s: MarkedSectionStatus) -> &'static str {
    match s {
        MarkedSectionStatus::Include => "include",
        MarkedSectionStatus::RcData => "rcdata",
        MarkedSectionStatus::CData => "cdata",
        MarkedSectionStatus::Ignore => "ignore",
    }
}

fn config(c: &Cfg) -> ParserConfig {
    let mut b = Parser::builder()
        .trim_whitespace(c.trim)
        .name_normalization(names(c))
        .marked_section_handling(sections(c))
        .ignore_markup_declarations(c.ign_d)
        .ignore_processing_instructions(c.ign_p);
    if !c.ents.is_empty() {
        let t = c.ents.clone();
        b = b.expand_entities(move |n| lookup(&t, n));
    }
    if !c.pents.is_empty() {
        let t = c.pents.clone();
        b = b.expand_parameter_entities(move |n| lookup(&t, n));
    }
    b.into_config()
}

fn names(c: &Cfg) -> NameNormalization {
    match c.names.as_str() {
        "lower" => NameNormalization::ToLowercase,
        "upper" => NameNormalization::ToUppercase,
        _ => NameNormalization::Unchanged,
    }
}

fn sections(c: &Cfg) -> MarkedSectionHandling {
    match c.sect.as_str() {
        "keep" => MarkedSectionHandling::KeepUnmodified,
        "all" => MarkedSectionHandling::ExpandAll,
        _ => MarkedSectionHandling::AcceptOnlyCharacterData,
    }
}

fn call<'a, E>(name: &str, s: &'a str, c: &Cfg, conf: &ParserConfig) -> Res
where
    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, sgmlish::Error>,
{
    let at = At(s);
    let first = |f: fn(char) -> bool| s.chars().next().map_or_else(no, |c| (1, json!([f(c)]), json!([])));
    let keywords = |r: Result<MarkedSectionStatus, &str>| match r {
        Ok(x) => (1, json!([status(x)]), json!([])),
        Err(k) => (0, json!([enc(k)]), json!([])),
    };
    const KEYWORDS: &str = " Kw %x;\t";
    let given = || if s.len() % 2 == 0 { Cow::Owned(KEYWORDS.to_owned()) } else { Cow::Borrowed(KEYWORDS) };
    let body = |st| at.iter(events::marked_section_body::<E>(s, given(), st, conf));
    match name {
        "raw.comment_declaration" => at.text(raw::comment_declaration::<E>(s)),
        "raw.comment" => at.text(raw::comment::<E>(s)),
        "raw.markup_declaration" => at.res(raw::markup_declaration::<E>(s), |(n, b)| json!([enc(n), enc(b)])),
        "raw.marked_section_start_and_keywords" => at.text(raw::marked_section_start_and_keywords::<E>(s)),
        "raw.marked_section_body_character_data" => at.text(raw::marked_section_body_character_data::<E>(s)),
        "raw.marked_section_body_ignore" => at.text(raw::marked_section_body_ignore::<E>(s)),
        "raw.marked_section_end" => at.text(raw::marked_section_end::<E>(s)),
        "raw.processing_instruction" => at.text(raw::processing_instruction::<E>(s)),
        "raw.text" => at.text(raw::text::<E>(s, TreatAsText)),
        "raw.text/stop" => at.text(raw::text::<E>(s, StopParsing)),
        "raw.plain_text" => at.text(raw::plain_text::<E>(s, TreatAsText)),
        "raw.plain_text/stop" => at.text(raw::plain_text::<E>(s, StopParsing)),
        "raw.open_start_tag" => at.text(raw::open_start_tag::<E>(s)),
        "raw.close_start_tag" => at.text(raw::close_start_tag::<E>(s)),
        "raw.xml_close_empty_element" => at.text(raw::xml_close_empty_element::<E>(s)),
        "raw.empty_start_tag" => at.text(raw::empty_start_tag::<E>(s)),
        "raw.attribute" => at.res(raw::attribute::<E>(s), |(n, v)| match v {
            Some(v) => json!([enc(n), enc(v)]),
            None => json!([enc(n)]),
        }),
        "raw.attribute_value" => at.res(raw::attribute_value::<E>(s), |(v, q)| json!([enc(v), q])),
        "raw.unquoted_attribute_value" => at.text(raw::unquoted_attribute_value::<E>(s)),
        "raw.quoted_attribute_value" => at.text(raw::quoted_attribute_value::<E>(s)),
        "raw.end_tag" => at.res(raw::end_tag::<E>(s), |n| Value::Array(n.iter().map(|n| enc(n)).collect())),
        "raw.name" => at.text(raw::name::<E>(s)),
        "raw.name_start" => at.text(raw::name_start::<E>(s)),
        "raw.is_name_start_char" => first(raw::is_name_start_char),
        "raw.is_name_char" => first(raw::is_name_char),
        "text.is_sgml_whitespace" => first(sgmlish::text::is_sgml_whitespace),
        "util.take_until_terminated/]]>" => at.text(util::take_until_terminated::<E>("the end", "]]>")(s)),
        "util.take_until_terminated/--" => at.text(util::take_until_terminated::<E>("the end", "--")(s)),
        "util.spaces" => at.text(util::spaces::<E>(s)),
        "util.comments_and_spaces" => at.text(util::comments_and_spaces::<E>(s)),
        "util.strip_spaces_after" => at.text(util::strip_spaces_after(raw::name::<E>).parse(s)),
        "util.strip_spaces_around" => at.text(util::strip_spaces_around(raw::name::<E>).parse(s)),
        "util.strip_comments_and_spaces_after" => at.text(util::strip_comments_and_spaces_after(raw::name::<E>).parse(s)),
        "marked_sections.from_keywords" => keywords(MarkedSectionStatus::from_keywords(s)),
        "marked_sections.from_str" => s.parse().map_or_else(|_| no(), |x| (1, json!([status(x)]), json!([]))),
        "events.document_entity" => at.many(events::document_entity::<E>(s, conf)),
        "events.prolog" => at.many(events::prolog::<E>(s, conf).map(|(r, v)| (r, v.into_iter()))),
        "events.content" => at.many(events::content::<E>(s, conf, TreatAsText)),
        "events.content/stop" => at.many(events::content::<E>(s, conf, StopParsing)),
        "events.content_item" => at.iter(events::content_item::<E>(s, conf, TreatAsText)),
        "events.content_item/stop" => at.iter(events::content_item::<E>(s, conf, StopParsing)),
        "events.markup_declaration" => at.iter(events::markup_declaration::<E>(s, conf)),
        "events.marked_section_declaration" => at.iter(events::marked_section_declaration::<E>(s, conf)),
        "events.marked_section_body/include" => body(MarkedSectionStatus::Include),
        "events.marked_section_body/rcdata" => body(MarkedSectionStatus::RcData),
        "events.marked_section_body/cdata" => body(MarkedSectionStatus::CData),
        "events.marked_section_body/ignore" => body(MarkedSectionStatus::Ignore),
        "events.processing_instruction" => at.iter(events::processing_instruction::<E>(s, conf)),
        "events.start_tag" => at.iter(events::start_tag::<E>(s, conf)),
        "events.open_start_tag" => at.event(events::open_start_tag::<E>(s, conf)),
        "events.close_start_tag" => at.event(events::close_start_tag::<E>(s)),
        "events.xml_close_empty_element" => at.event(events::xml_close_empty_element::<E>(s)),
        "events.empty_start_tag" => at.iter(events::empty_start_tag::<E>(s)),
        "events.attribute" => at.event(events::attribute::<E>(s, conf)),
        "events.text" => at.iter(events::text::<E>(s, conf, TreatAsText)),
        "events.text/stop" => at.iter(events::text::<E>(s, conf, StopParsing)),
        "config.trim" => (1, enc(conf.trim(s)), json!([])),
        "config.parse_rcdata" => conf.parse_rcdata::<E>(s).map_or_else(|_| no(), |x| (1, enc(&x), json!([]))),
        "config.parse_markup_declaration_text" => {
            conf.parse_markup_declaration_text::<E>(s).map_or_else(|_| no(), |x| (1, enc(&x), json!([])))
        }
        "names.normalize" => (1, enc(&names(c).normalize(s.into())), json!([])),
        "sections.parse_keywords" => keywords(sections(c).parse_keywords(s)),
        x => panic!("unknown block {:?}", x),
    }
}

fn call_all(names: &[&str], s: &str, c: &Cfg, conf: &ParserConfig, variant: usize) -> Option<Vec<Value>> {
    catch_unwind(AssertUnwindSafe(|| {
        names.iter().enumerate().map(|(i, n)| {
            let (next, out, lens) = match (i + variant) % 4 {
                0 => call::<ContextualizedError<&str>>(n, s, c, conf),
                1 => call::<()>(n, s, c, conf),
                2 => call::<VerboseError<&str>>(n, s, c, conf),
                _ => call::<nom::error::Error<&str>>(n, s, c, conf),
            };
            json!([next, out, lens])
        }).collect()
    })).ok()
}

/// Input: names (of blocks), src, cfg, variant. Result: got (a result for each), panic.
pub fn run(input: &Value) -> Value {
    let c = Cfg::from_json(&input["cfg"]);
    let names: Vec<&str> = input["names"].as_array().unwrap().iter().map(|n| n.as_str().unwrap()).collect();
    let got = call_all(&names, &dec(&input["src"]), &c, &config(&c), input["variant"].as_u64().unwrap_or(0) as usize);
    json!({"panic": got.is_none(), "got": got.unwrap_or_default()})
}

/// See SameResult in spec/SgmlBlocks.tla.
fn same(x: &Value, got: &Value) -> bool {
    match x[0].as_i64().unwrap() {
        -1 => true,
        0 => {
            let ws = x[1].as_array().unwrap();
            got[0] == json!(0) && (ws.is_empty() || got[1].as_array().is_some_and(|g| g.len() == 1 && ws.contains(&g[0])))
        }
        _ => x == got,
    }
}

pub fn session(path: &str, w: &Watch) -> Tally {
    let mut it = printed(path);
    let head = it.next().expect("TLC printed nothing");
    let names: Vec<&str> = head["names"].as_array().unwrap().iter().map(|n| n.as_str().unwrap()).collect();
    let cfgs: Vec<(Cfg, ParserConfig)> = head["cfgs"].as_array().unwrap().iter().map(|c| {
        let c = Cfg::from_json(c);
        let conf = config(&c);
        (c, conf)
    }).collect();
    let mut t = Tally::new();
    for v in it {
        let src = dec(&v[0]);
        let (c, conf) = &cfgs[v[1].as_u64().unwrap() as usize - 1];
        let want = v[2].as_array().unwrap();
        w.begin(t.cases);
        let got = call_all(&names, &src, c, conf, t.cases);
        t.cases += 1;
        t.ok += 1;
        let wrong: Vec<usize> = match &got {
            None => vec![],
            Some(g) => (0..names.len()).filter(|i| !same(&want[*i], &g[*i])).collect(),
        };
        if got.is_none() || !wrong.is_empty() {
            let pick = |v: &[Value]| wrong.iter().map(|i| v[*i].clone()).collect::<Vec<_>>();
            t.fail(json!({"k": "blocks", "src": v[0], "text": src, "cfg": c.to_json(), "variant": t.cases - 1,
                "names": if got.is_none() { names.clone() } else { wrong.iter().map(|i| names[*i]).collect() },
                "expected": pick(want), "observed": got.as_ref().map(|g| pick(g))}));
        }
        t.sample(|| json!({"text": src, "recognized by": names.iter().zip(want).filter(|(_, w)| w[0].as_i64() > Some(0)).map(|(n, _)| *n).collect::<Vec<_>>()}));
    }
    t
}

pub const NAMES: &[&str] = &[
    "raw.comment_declaration", "raw.comment", "raw.markup_declaration", "raw.marked_section_start_and_keywords",
    "raw.marked_section_body_character_data", "raw.marked_section_body_ignore", "raw.marked_section_end",
    "raw.processing_instruction", "raw.text", "raw.text/stop", "raw.plain_text", "raw.plain_text/stop",
    "raw.open_start_tag", "raw.close_start_tag", "raw.xml_close_empty_element", "raw.empty_start_tag", "raw.attribute",
    "raw.attribute_value", "raw.unquoted_attribute_value", "raw.quoted_attribute_value", "raw.end_tag", "raw.name",
    "raw.name_start", "raw.is_name_start_char", "raw.is_name_char", "util.take_until_terminated/]]>",
    "util.take_until_terminated/--", "util.spaces", "util.comments_and_spaces", "util.strip_spaces_after",
    "util.strip_spaces_around", "util.strip_comments_and_spaces_after", "text.is_sgml_whitespace",
    "marked_sections.from_keywords", "marked_sections.from_str", "events.document_entity", "events.prolog",
    "events.content", "events.content/stop", "events.content_item", "events.content_item/stop",
    "events.markup_declaration", "events.marked_section_declaration", "events.marked_section_body/include",
    "events.marked_section_body/rcdata", "events.marked_section_body/cdata", "events.marked_section_body/ignore",
    "events.processing_instruction", "events.start_tag", "events.open_start_tag", "events.close_start_tag",
    "events.xml_close_empty_element", "events.empty_start_tag", "events.attribute", "events.text", "events.text/stop",
    "config.trim", "config.parse_rcdata", "config.parse_markup_declaration_text", "names.normalize",
    "sections.parse_keywords",
];

pub fn input(seed: u64) -> Value {
    let mut g = Gen::new(seed, Prof {
        refs: 15, undef: 15, attrs: 4, garble: 35, cdata: 10, rcdata: 10, ignore: 12, include: 12, comment: 15, norm: 50, no_trim: 40,
        modes: [3, 3, 6], prolog: 60, unicode: 20, bad_kw: 10, weird_kw: 60, ignores: 30, soup: 10, ..Prof::default()
    });
    let cfg = g.config();
    // what every block is likely to meet at the start of the text
    let s = match g.r.below(20) {
        0 => {
            let st = g.r.pick(&["cdata", "rcdata", "ignore", "include"]);
            g.keywords(st)
        }
        1 => g.attribute(),
        2 => g.comment(),
        3 => g.text(),
        4 => g.name(),
        _ => g.document(),
    };
    let cs: Vec<char> = s.chars().collect();
    let from = match g.r.below(10) {
        0..=1 => 0,
        2 => g.r.below(cs.len() + 1),
        k => {
            // where something begins
            let starts: Vec<usize> = (0..cs.len()).filter(|&i| match k {
                3..=4 => cs[i] == '<',
                5 => matches!(cs[i], '>' | ']' | '/' | '-' | '=' | '\'' | '"' | '&' | '%'),
                6 => i > 0 && cs[i].is_alphabetic() && !cs[i - 1].is_alphanumeric(),
                7 => i > 1 && (cs[i - 1] == '[' || cs[i - 1] == '=' || cs[i - 1] == ' '),
                8 => i > 0 && cs[i - 1] == '>',
                _ => cs[i] == '<' && cs.get(i + 1) == Some(&'!'),
            }).collect();
            if starts.is_empty() { 0 } else { starts[g.r.below(starts.len())] }
        }
    };
    let mut to = cs.len();
    if g.r.pct(15) {
        to = from + g.r.below(cs.len() - from + 1);
    }
    let src: String = cs[from..to].iter().collect();
    // some of them
    let mut names = NAMES.to_vec();
    while names.len() > 20 {
        let k = g.r.below(names.len());
        names.swap_remove(k);
    }
    json!({"k": "blocks", "names": names, "src": enc(&src), "cfg": cfg.to_json(), "variant": g.r.below(4)})
}
