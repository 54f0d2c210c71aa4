//! Builders, and parsers that read several documents (C30).
use std::borrow::Cow;
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};
use sgmlish::parser::{events, MarkedSectionHandling, NameNormalization, ParserBuilder};
use sgmlish::{Parser, ParserConfig, SgmlFragment};

use crate::cfg::lookup;
use crate::chars::{dec, enc};
use crate::events::enc_events;
use crate::expand::{dec_table, enc_table};
use crate::gen::{Gen, Prof};
use crate::replay::{printed, Tally};
use crate::watch::Watch;

fn names(v: &Value) -> NameNormalization {
    match v.as_str().unwrap() {
        "lower" => NameNormalization::ToLowercase,
        "upper" => NameNormalization::ToUppercase,
        _ => NameNormalization::Unchanged,
    }
}

fn sections(v: &Value) -> MarkedSectionHandling {
    match v.as_str().unwrap() {
        "keep" => MarkedSectionHandling::KeepUnmodified,
        "all" => MarkedSectionHandling::ExpandAll,
        _ => MarkedSectionHandling::AcceptOnlyCharacterData,
    }
}

/// One call. Lookup functions may answer with any kind of string.
fn called(b: ParserBuilder, c: &Value, variant: usize) -> ParserBuilder {
    let flag = || c[1].as_bool().unwrap();
    match c[0].as_str().unwrap() {
        "trim" => b.trim_whitespace(flag()),
        "names" => b.name_normalization(names(&c[1])),
        "lowercase" => b.lowercase_names(),
        "uppercase" => b.uppercase_names(),
        "sections" => b.marked_section_handling(sections(&c[1])),
        "expand" => b.expand_marked_sections(),
        "declarations" => b.ignore_markup_declarations(flag()),
        "instructions" => b.ignore_processing_instructions(flag()),
        k @ ("entities" | "parameters") => {
            let t = dec_table(&c[1]);
            match (k, variant % 2) {
                ("entities", 0) => b.expand_entities(move |n| lookup(&t, n)),
                ("entities", _) => b.expand_entities(move |n| lookup(&t, n).map(Cow::from)),
                (_, 0) => b.expand_parameter_entities(move |n| lookup(&t, n)),
                _ => b.expand_parameter_entities(move |n| lookup(&t, n).map(Cow::from)),
            }
        }
        k => panic!("unknown call {:?}", k),
    }
}

fn builder(calls: &[Value], variant: usize) -> ParserBuilder {
    let b = match variant % 3 {
        0 => Parser::builder(),
        1 => ParserBuilder::new(),
        _ => ParserBuilder::default(),
    };
    calls.iter().enumerate().fold(b, |b, (i, c)| called(b, c, variant + i))
}

fn show(c: &ParserConfig, text: &str) -> Value {
    let some = |x: Result<Cow<str>, _>| x.map_or(json!([]), |x| json!([enc(&x)]));
    type E<'a> = nom::error::VerboseError<&'a str>;
    json!([
        c.trim_whitespace,
        match c.name_normalization {
            NameNormalization::Unchanged => "keep",
            NameNormalization::ToLowercase => "lower",
            NameNormalization::ToUppercase => "upper",
        },
        match c.marked_section_handling {
            MarkedSectionHandling::KeepUnmodified => "keep",
            MarkedSectionHandling::AcceptOnlyCharacterData => "chars",
            MarkedSectionHandling::ExpandAll => "all",
        },
        c.ignore_markup_declarations,
        c.ignore_processing_instructions,
        enc(c.trim(text)),
        some(c.parse_rcdata::<E>(text)),
        some(c.parse_markup_declaration_text::<E>(text)),
    ])
}

fn outcome(f: Option<SgmlFragment>) -> Value {
    match f {
        Some(f) => json!(["ok", enc_events(f.as_slice())]),
        None => json!(["err"]),
    }
}

/// The parser under test, in one of the forms it can be used.
enum Built {
    Parser(Parser),
    Config(ParserConfig),
}

impl Built {
    fn read(&self, doc: &str, detailed: bool) -> Value {
        type E<'a> = nom::error::VerboseError<&'a str>;
        match self {
            Built::Parser(p) if detailed => outcome(p.parse_with_detailed_errors::<E>(doc).ok()),
            Built::Parser(p) => outcome(p.parse(doc).ok()),
            Built::Config(c) => outcome(
                events::document_entity::<E>(doc, c).ok().map(|(_, evs)| evs.collect::<Vec<_>>().into()),
            ),
        }
    }
}

/// Input: calls, docs, text, variant. Result: outs (what becomes of each document), shown (the configuration), panic.
pub fn run(input: &Value) -> Value {
    let calls = input["calls"].as_array().unwrap();
    let docs: Vec<String> = input["docs"].as_array().unwrap().iter().map(dec).collect();
    let text = dec(&input["text"]);
    let v = input["variant"].as_u64().unwrap() as usize;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let shown = show(&builder(calls, v).into_config(), &text);
        let built = match v % 4 {
            // settings assigned to the fields of the configuration
            3 => {
                let lookups: Vec<Value> = calls.iter().filter(|c| c[0] == "entities" || c[0] == "parameters").cloned().collect();
                let mut c = builder(&lookups, v).into_config();
                for k in calls {
                    match k[0].as_str().unwrap() {
                        "trim" => c.trim_whitespace = k[1].as_bool().unwrap(),
                        "names" => c.name_normalization = names(&k[1]),
                        "lowercase" => c.name_normalization = NameNormalization::ToLowercase,
                        "uppercase" => c.name_normalization = NameNormalization::ToUppercase,
                        "sections" => c.marked_section_handling = sections(&k[1]),
                        "expand" => c.marked_section_handling = MarkedSectionHandling::ExpandAll,
                        "declarations" => c.ignore_markup_declarations = k[1].as_bool().unwrap(),
                        "instructions" => c.ignore_processing_instructions = k[1].as_bool().unwrap(),
                        _ => {}
                    }
                }
                Built::Config(c)
            }
            2 => Built::Config(builder(calls, v).into_config()),
            _ if calls.is_empty() && v % 8 == 0 => Built::Parser(Parser::new()),
            _ if calls.is_empty() && v % 8 == 4 => Built::Parser(Parser::default()),
            _ => Built::Parser(builder(calls, v).build()),
        };
        let other = Parser::builder().expand_marked_sections().lowercase_names().build();
        let mut outs = vec![];
        for (i, d) in docs.iter().enumerate() {
            if i == 0 && v % 5 == 0 {
                // the builder's own shortcut
                outs.push(outcome(builder(calls, v).parse(d).ok()));
                continue;
            }
            if i % 3 == 1 {
                // another parser in between
                let _ = other.parse(d);
            }
            outs.push(built.read(d, (i + v) % 2 == 0));
        }
        json!({"panic": false, "outs": outs, "shown": shown})
    }));
    r.unwrap_or_else(|_| json!({"panic": true, "outs": [], "shown": []}))
}

pub fn session(path: &str, w: &Watch) -> Tally {
    let mut it = printed(path);
    let head = it.next().expect("TLC printed nothing");
    let docs = head["docs"].as_array().unwrap();
    let mut t = Tally::new();
    for v in it {
        let calls: Vec<Value> = v[0].as_array().unwrap().iter().map(|i| head["calls"][i.as_u64().unwrap() as usize - 1].clone()).collect();
        let want = v[3].as_array().unwrap();
        let build = v[1] == "build";
        let mine: Vec<Value> = if build {
            // the last document read comes before the next one
            let first = v[2].as_u64().unwrap() as usize + docs.len() - 1 - (want.len() % docs.len());
            (0..want.len()).map(|i| docs[(first + i) % docs.len()].clone()).collect()
        } else {
            vec![]
        };
        let mut input = json!({"k": "builder", "calls": calls, "docs": mine, "text": head["text"], "variant": t.cases});
        w.begin(t.cases);
        let res = run(&input);
        t.cases += 1;
        t.ok += 1;
        let good = res["panic"] == json!(false) && if build { res["outs"] == v[3] } else { res["shown"] == v[3][0] };
        if !good {
            input["expected"] = v[3].clone();
            input["observed"] = res;
            t.fail(input);
        } else {
            t.sample(|| json!({"calls": calls, "ends": v[1], "documents": mine.iter().map(dec).collect::<Vec<_>>()}));
        }
    }
    t
}

pub fn input(seed: u64) -> Value {
    let mut g = Gen::new(seed, Prof {
        norm: 60, no_trim: 50, modes: [4, 4, 4], ignores: 50, prolog: 60, decl: 15, pi: 20, lookup: 80, refs: 12, undef: 10, garble: 10,
        items: 4, ..Prof::default()
    });
    // the configuration the documents are made for is what the last calls say
    let c = g.config();
    let mut calls: Vec<Value> = vec![];
    if g.r.pct(75) {
        calls.push(json!(["trim", c.trim]));
    }
    if g.r.pct(75) {
        let k = g.r.pct(50);
        calls.push(match c.names.as_str() {
            "lower" if k => json!(["lowercase"]),
            "upper" if k => json!(["uppercase"]),
            n => json!(["names", n]),
        });
    }
    if g.r.pct(80) {
        calls.push(if c.sect == "all" && g.r.pct(50) { json!(["expand"]) } else { json!(["sections", c.sect]) });
    }
    if g.r.pct(75) {
        calls.push(json!(["declarations", c.ign_d]));
    }
    if g.r.pct(75) {
        calls.push(json!(["instructions", c.ign_p]));
    }
    if g.r.pct(90) {
        calls.push(json!(["entities", enc_table(&c.ents)]));
    }
    if g.r.pct(80) {
        calls.push(json!(["parameters", enc_table(&c.pents)]));
    }
    for i in (1..calls.len()).rev() {
        let j = g.r.below(i + 1);
        calls.swap(i, j);
    }
    // earlier calls, overridden if they concern the same setting
    let mut earlier = vec![];
    for _ in 0..g.r.size(30) {
        let b = g.r.pct(50);
        earlier.push(match g.r.below(10) {
            0 => json!(["trim", b]),
            1 => json!(["names", g.r.pick(&["keep", "lower", "upper"])]),
            2 => json!(["lowercase"]),
            3 => json!(["uppercase"]),
            4 => json!(["sections", g.r.pick(&["keep", "chars", "all"])]),
            5 => json!(["expand"]),
            6 => json!(["declarations", b]),
            7 => json!(["instructions", b]),
            8 => json!(["entities", enc_table(&c.pents)]),
            _ => json!(["parameters", enc_table(&c.ents)]),
        });
    }
    earlier.extend(calls);
    let mut docs: Vec<Value> = vec![];
    for _ in 0..g.r.range(1, 6) {
        let again = !docs.is_empty() && g.r.pct(25);
        docs.push(if again { docs[g.r.below(docs.len())].clone() } else { enc(&g.document()) });
    }
    let mut text = g.sp0();
    for _ in 0..g.r.below(5) {
        text += &g.piece();
    }
    json!({"k": "builder", "calls": earlier, "docs": docs, "text": enc(&text), "variant": g.r.below(120)})
}
