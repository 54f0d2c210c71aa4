//! Rendering of fragments and reading them back (C15).
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};
use sgmlish::transforms::normalize_end_tags;

use crate::cfg::Cfg;
use crate::chars::enc;
use crate::events::{dec_fragment, enc_events, show};
use crate::gen::{Gen, Prof};
use crate::replay::{printed, Tally};
use crate::watch::Watch;

/// Input: ev, cfg. Result: text, ok/ev (reading it back), same (rendering twice, and rendering the owned fragment, gives
/// the same text), panic.
pub fn run(input: &Value) -> Value {
    let blank = json!({"panic": false, "text": [], "ok": false, "ev": [], "same": false});
    let r = catch_unwind(AssertUnwindSafe(|| {
        let f = dec_fragment(&input["ev"]);
        let cfg = Cfg {
            trim: false,
            sect: "keep".into(),
            names: "keep".into(),
            ign_d: false,
            ign_p: false,
            ..Cfg::from_json(&input["cfg"])
        };
        let text = f.to_string();
        let mut v = blank.clone();
        v["text"] = enc(&text);
        v["same"] = json!(f.to_string() == text && format!("{}", f.clone().into_owned()) == text);
        if let Ok(g) = cfg.parser(text.len()).parse(&text) {
            v["ok"] = json!(true);
            v["ev"] = enc_events(g.as_slice());
        }
        v
    }));
    r.unwrap_or_else(|_| {
        let mut v = blank.clone();
        v["panic"] = json!(true);
        v
    })
}

/// Behaviours of the specification: [groups of events, or events].
pub fn behaviour(head: &Value, v: &Value) -> Value {
    let ev: Vec<Value> = v[0].as_array().unwrap().iter().flat_map(|i| match i.as_u64() {
        Some(i) => head["groups"][i as usize - 1].as_array().unwrap().clone(),
        None => vec![i.clone()],
    }).collect();
    json!({"k": "render", "ev": ev, "cfg": Cfg::default().to_json()})
}

/// Behaviours of the specification: [events, the events read back].
pub fn session(path: &str, w: &Watch) -> Tally {
    let mut it = printed(path);
    let head = it.next().expect("TLC printed nothing");
    let mut t = Tally::new();
    for v in it {
        let input = behaviour(&head, &v);
        w.begin(t.cases);
        let res = run(&input);
        t.cases += 1;
        t.ok += 1;
        if res["panic"] != json!(false) || res["ok"] != json!(true) || res["same"] != json!(true) || res["ev"] != v[1] {
            let mut case = input.clone();
            case["expected"] = v[1].clone();
            case["observed"] = res.clone();
            t.fail(case);
        }
        t.sample(|| json!({"fragment": show(input["ev"].as_array().unwrap())}));
    }
    t
}

fn value(g: &mut Gen) -> String {
    let mut s = String::new();
    for _ in 0..g.r.below(5) {
        s += g.r.pick(&["\"", "'", "&", "&#", "&#34;", "&lt;", "<", ">", "/>", "\n", " ", "x", "\u{e9}", "]]>", "--", "<!--", "=", "1", "%a;", "\r\n"]);
    }
    s
}

pub fn input(seed: u64) -> Value {
    let mut g = Gen::new(seed, Prof { refs: 20, stag: 40, attrs: 3, garble: 3, cdata: 8, rcdata: 6, modes: [5, 2, 5], prolog: 40, ..Prof::default() });
    let mut cfg = g.config();
    let mut parsed = None;
    for _ in 0..20 {
        let src = g.document();
        if let Ok(f) = cfg.parser(0).parse(&src) {
            parsed = Some(f.into_owned());
            break;
        }
        if g.r.pct(20) {
            cfg = g.config();
        }
    }
    let mut ev = match parsed {
        Some(f) => {
            let f = if g.r.pct(25) { normalize_end_tags(f.clone()).unwrap_or(f) } else { f };
            enc_events(f.as_slice()).as_array().unwrap().clone()
        }
        None => vec![json!(["text", enc("x")])],
    };
    if g.r.pct(60) {
        for _ in 0..g.r.range(1, 5) {
            let i = g.r.below(ev.len() + 1);
            let in_tag = i > 0 && (matches!(ev[i - 1][0].as_str().unwrap(), "attr" | "attr0")
                || ev[i - 1][0] == "open" && ev[i - 1][1] != json!([]));
            match g.r.below(7) {
                0 if i < ev.len() && matches!(ev[i][0].as_str().unwrap(), "text" | "attr" | "attr0" | "sect" | "pi" | "decl") => {
                    ev.remove(i);
                }
                1..=2 if i < ev.len() && ev[i][0] == "text" => ev[i][1] = enc(&value(&mut g)),
                1..=3 if i < ev.len() && ev[i][0] == "attr" => ev[i][2] = enc(&value(&mut g)),
                _ if in_tag => {
                    let k = enc(g.r.pick(&["k", "K-1", "a.b", "\u{e9}"]));
                    ev.insert(i, if g.r.pct(25) { json!(["attr0", k]) } else { json!(["attr", k, enc(&value(&mut g))]) });
                }
                3 => {
                    let &(kw, nested) = g.r.pick(&[&("CDATA", false), &("RCDATA ", false), &(" ignore", true), &("cdata  temp", false), &("", true)]);
                    let body = if nested && g.r.pct(40) { "<![ [ ]]> " } else { g.r.pick(&["", "<&", "x]] >", "]]", " \n"]) };
                    ev.insert(i, json!(["sect", enc(kw), enc(body)]));
                }
                4 => ev.insert(i, json!(["text", enc(g.r.pick(&["", " ", "\n", "\t\t", "\u{a0}"]))])),
                _ => ev.insert(i, json!(["text", enc(&value(&mut g))])),
            }
        }
    }
    json!({"k": "render", "ev": ev, "cfg": cfg.to_json()})
}
