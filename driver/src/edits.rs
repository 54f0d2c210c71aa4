//! Transforms: histories of edits applied to fragments (C19).
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};
use sgmlish::transforms::Transform;
use sgmlish::{SgmlEvent, SgmlFragment};

use crate::events::{dec_event, dec_events, enc_event, enc_events};
use crate::replay::{printed, Tally};
use crate::rng::Rng;
use crate::watch::Watch;

/// Positions from here on stand for the largest ones a usize can hold (the specification's integers are smaller).
const HUGE: u64 = 2_000_000_000;

fn position(v: &Value) -> usize {
    let p = v.as_u64().unwrap();
    if p >= HUGE { usize::MAX - 1000 + (p - HUGE) as usize } else { p as usize }
}

/// Input: orig (events), ops (["ins", position, event] or ["del", position]).
/// Result: empty (is_empty before each edit and at the end), out, again (a clone gives the same), panic.
pub fn run(input: &Value) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let orig = SgmlFragment::from(dec_events(&input["orig"]));
        let mut t = Transform::new();
        let mut empty = vec![t.is_empty()];
        for op in input["ops"].as_array().unwrap() {
            match op[0].as_str().unwrap() {
                "ins" => t.insert_at(position(&op[1]), dec_event(&op[2])),
                _ => t.remove_at(position(&op[1])),
            }
            empty.push(t.is_empty());
        }
        let clone = t.clone();
        let out = t.apply(orig.clone());
        let again = clone.apply(orig) == out;
        json!({"empty": empty, "out": enc_events(out.as_slice()), "again": again, "panic": false})
    }));
    r.unwrap_or_else(|_| json!({"empty": [], "out": [], "again": false, "panic": true}))
}

/// The event a behaviour of the specification calls <<"o", p>> or <<"i", k>>: all different, all equal, or from a few.
fn symbol(v: &Value, style: usize) -> SgmlEvent<'static> {
    let k = v[1].as_u64().unwrap();
    let s = match style {
        0 => format!("{}{}", v[0].as_str().unwrap(), k),
        1 => "x".into(),
        _ => ["", " "][k as usize / 6 % 2].into(),
    };
    match (k, style) {
        (_, 1) => SgmlEvent::Character(s.into()),
        (0, 0) | (5, 0) => SgmlEvent::OpenStartTag { name: s.into() },
        (1, 0) => SgmlEvent::Character(s.into()),
        (2, 0) => SgmlEvent::EndTag { name: s.into() },
        (3, 0) => SgmlEvent::Attribute { name: s.into(), value: None },
        (_, 0) => SgmlEvent::ProcessingInstruction(s.into()),
        _ => match k % 6 {
            0 => SgmlEvent::OpenStartTag { name: s.into() },
            1 => SgmlEvent::CloseStartTag,
            2 => SgmlEvent::EndTag { name: s.into() },
            3 => SgmlEvent::Character(s.into()),
            4 => SgmlEvent::XmlCloseEmptyElement,
            _ => SgmlEvent::MarkupDeclaration { keyword: s.into(), body: "".into() },
        },
    }
}

pub fn session(path: &str, w: &Watch) -> Tally {
    let mut it = printed(path);
    it.next().expect("TLC printed nothing");
    let mut t = Tally::new();
    for v in it {
        for style in 0..3 {
            let n = v[0].as_u64().unwrap();
            let event = |e: &Value| enc_event(&symbol(e, style));
            let orig: Vec<_> = (0..n).map(|p| event(&json!(["o", p]))).collect();
            let ops: Vec<_> = v[1].as_array().unwrap().iter().map(|op| match op[0].as_str().unwrap() {
                "ins" => json!(["ins", op[1], event(&op[2])]),
                _ => op.clone(),
            }).collect();
            let want: Vec<_> = v[2].as_array().unwrap().iter().map(event).collect();
            let input = json!({"k": "edits", "orig": orig, "ops": ops});
            w.begin(t.cases);
            let res = run(&input);
            t.ok += 1;
            let last = res["empty"].as_array().unwrap().last().cloned();
            if res["panic"] == json!(true) || res["out"] != json!(want) || res["again"] != json!(true) || last.as_ref() != Some(&v[3]) {
                t.fail(json!({"k": "edits", "orig": orig, "ops": ops, "expected": {"out": want, "empty": v[3]}, "observed": res}));
            }
        }
        t.cases += 1;
        t.sample(|| json!({"length": n_of(&v), "edits": v[1], "result": v[2]}));
    }
    t
}

fn n_of(v: &Value) -> u64 {
    v[0].as_u64().unwrap()
}

pub fn input(seed: u64) -> Value {
    let mut r = Rng::new(seed);
    let n = if r.pct(8) { r.below(60) } else { r.below(8) };
    let distinct = r.pct(60);
    let mut count = 0;
    let mut event = |r: &mut Rng| {
        count += 1;
        let s = if distinct { format!("e{}", count) } else { (*r.pick(&["x", "y"])).to_string() };
        let e = match r.below(9) {
            0 => SgmlEvent::OpenStartTag { name: s.into() },
            1 => SgmlEvent::Attribute { name: s.into(), value: None },
            2 => SgmlEvent::Attribute { name: "k".into(), value: Some(s.into()) },
            3 => if distinct { SgmlEvent::Character(s.into()) } else { SgmlEvent::CloseStartTag },
            4 => if distinct { SgmlEvent::Character(s.into()) } else { SgmlEvent::XmlCloseEmptyElement },
            5 => SgmlEvent::EndTag { name: s.into() },
            6 => SgmlEvent::MarkupDeclaration { keyword: s.into(), body: "b".into() },
            7 => SgmlEvent::MarkedSection { status_keywords: "CDATA".into(), section: s.into() },
            _ => SgmlEvent::Character(s.into()),
        };
        enc_event(&e)
    };
    let orig: Vec<_> = (0..n).map(|_| event(&mut r)).collect();
    let m = match r.below(10) {
        0 => 0,
        1..=5 => r.range(1, 6),
        6..=8 => r.range(5, 25),
        _ => r.range(20, 70),
    };
    // how the positions are spread
    let style = r.below(5);
    let hot = r.below(n + 3);
    let ops: Vec<_> = (0..m).map(|k| {
        let p = match style {
            0 => hot,
            1 => (n + 3).saturating_sub(k % (n + 4)),
            2 => if r.pct(70) { n + r.below(6) } else { r.below(n + 1) },
            _ => r.below(n + 4),
        };
        let p = if r.pct(3) { HUGE as usize + r.below(3) * 500 } else { p };
        if r.pct(60) { json!(["ins", p, event(&mut r)]) } else { json!(["del", p]) }
    }).collect();
    json!({"k": "edits", "orig": orig, "ops": ops})
}
