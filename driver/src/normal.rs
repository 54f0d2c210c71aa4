//! Insertion of omitted end tags (C17, C18).
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};
use sgmlish::transforms::{normalize_end_tags, NormalizationError};

use crate::chars::{dec, enc};
use crate::events::{dec_fragment, enc_events};
use crate::gen::{Gen, Prof, SPECIAL};
use crate::replay::{printed, Tally};
use crate::watch::Watch;

/// Input: ev. Result: ok, out, again (normalizing the result changes nothing), ek/en (kind of error, name), msg, panic.
pub fn run(input: &Value) -> Value {
    let blank = json!({"ok": false, "out": [], "again": false, "ek": "", "en": [], "msg": [], "panic": false});
    let r = catch_unwind(AssertUnwindSafe(|| {
        let f = dec_fragment(&input["ev"]);
        let mut v = blank.clone();
        match normalize_end_tags(f) {
            Ok(f) => {
                v["ok"] = json!(true);
                v["out"] = enc_events(f.as_slice());
                v["again"] = json!(normalize_end_tags(f.clone()).as_ref() == Ok(&f));
            }
            Err(e) => {
                v["msg"] = enc(&sgmlish::Error::from(e.clone()).to_string());
                match e {
                    NormalizationError::EmptyTagNotSupported => v["ek"] = json!("empty"),
                    NormalizationError::UnpairedEndTag(n) => {
                        v["ek"] = json!("unpaired");
                        v["en"] = enc(&n);
                    }
                }
            }
        }
        v
    }));
    r.unwrap_or_else(|_| {
        let mut v = blank.clone();
        v["panic"] = json!(true);
        v
    })
}

fn conforms(exp: &Value, res: &Value) -> bool {
    if res["panic"] != json!(false) {
        return false;
    }
    if exp[1] == "ok" {
        return res["ok"] == json!(true) && res["out"] == exp[2] && res["again"] == json!(true);
    }
    res["ok"] == json!(false)
        && exp[2].as_array().unwrap().contains(&json!([res["ek"], res["en"]]))
        && dec(&res["msg"]).contains(&dec(&res["en"]))
}

pub fn session(path: &str, w: &Watch) -> Tally {
    let mut it = printed(path);
    let head = it.next().expect("TLC printed nothing");
    let groups = head["groups"].as_array().unwrap();
    let mut t = Tally::new();
    for v in it {
        let ev: Vec<Value> = v[0].as_array().unwrap().iter()
            .flat_map(|i| match i.as_u64() {
                Some(i) => groups[i as usize - 1].as_array().unwrap().clone(),
                None => vec![i.clone()],
            }).collect();
        let input = json!({"k": "normalize", "ev": ev});
        w.begin(t.cases);
        let res = run(&input);
        t.cases += 1;
        t.ok += (v[1] == "ok") as usize;
        if !conforms(&v, &res) {
            t.fail(json!({"k": "normalize", "ev": ev, "text": crate::events::show(&ev), "expected": v, "observed": res}));
        }
        t.sample(|| json!({"fragment": crate::events::show(&ev), "specified": v[1]}));
    }
    t
}

struct Build {
    out: Vec<Value>,
    omit: usize,
    wrong: usize,
}

fn blank(g: &mut Gen) -> Option<Value> {
    if g.r.pct(35) { Some(json!(["text", enc(&g.sp1())])) } else { None }
}

/// An element and what it contains. Elements whose end tag may be omitted contain no element.
fn element(g: &mut Gen, b: &mut Build, depth: usize) {
    let name = if g.r.pct(80) { (*g.r.pick(&["a", "b", "c"])).to_string() } else { g.name() };
    b.out.push(json!(["open", enc(&name)]));
    for _ in 0..g.r.below(3) {
        let k = g.name();
        b.out.push(if g.r.pct(30) { json!(["attr0", enc(&k)]) } else { json!(["attr", enc(&k), enc(&g.text())]) });
    }
    if g.r.pct(12) {
        b.out.push(json!(["xclose"]));
        return;
    }
    b.out.push(json!(["close"]));
    let leaf = depth == 0 || g.r.pct(40);
    if leaf {
        for _ in 0..g.r.below(3) {
            match g.r.below(8) {
                0 => b.out.push(json!(["pi", enc("<?p>")])),
                1 => b.out.push(json!(["text", []])),
                2 => b.out.push(json!(["text", enc(g.r.pick(&["\u{a0}", "\u{c}", " \u{2003} ", "\u{b}"]))])),
                3..=4 => b.out.push(json!(["text", enc(&g.sp1())])),
                _ => b.out.push(json!(["text", enc(&g.text())])),
            }
        }
    } else {
        let n = g.r.range(1, 4);
        for _ in 0..n {
            b.out.extend(blank(g));
            element(g, b, depth - 1);
        }
        b.out.extend(blank(g));
    }
    let omit = b.omit;
    let wrong = b.wrong;
    if leaf && g.r.pct(omit) || !leaf && g.r.pct(wrong) {
        b.out.extend(blank(g));
        return;
    }
    let end = if g.r.pct(wrong) { (*g.r.pick(&["a", "b", "c", "A", ""])).to_string() } else { name };
    b.out.push(json!(["end", enc(&end)]));
}

pub fn input(seed: u64) -> Value {
    let mut g = Gen::new(seed, Prof { unicode: 10, ..Prof::default() });
    let cfg = g.config();
    if g.r.pct(15) {
        let src = g.document();
        if let Ok(f) = cfg.parser(0).parse(&src) {
            return json!({"k": "normalize", "ev": enc_events(f.as_slice())});
        }
    }
    if g.r.pct(20) {
        // no structure at all
        let n = g.r.size(30);
        let strict = g.r.pct(80);
        let mut out = vec![];
        for _ in 0..n {
            let name = enc(g.r.pick(&["a", "b", "a", "b", "a", "c", "A", ""]));
            match g.r.below(if strict { 7 } else { 11 }) {
                0..=1 => {
                    out.push(json!(["open", name]));
                    if strict || g.r.pct(50) {
                        out.push(json!([if g.r.pct(10) { "xclose" } else { "close" }]));
                    }
                }
                2..=3 => out.push(json!(["end", name])),
                4 => out.push(json!(["text", enc(&g.sp1())])),
                5 => out.push(json!(["text", enc("x")])),
                6 => out.push(json!(["pi", enc("<?x>")])),
                7 => out.push(json!(["close"])),
                8 => out.push(json!(["xclose"])),
                9 => out.push(json!(["attr0", enc("k")])),
                _ => out.push(json!(["sect", enc("CDATA"), enc("x")])),
            }
        }
        return json!({"k": "normalize", "ev": out});
    }
    let table = if g.r.pct(20) { Some([g.r.pick(SPECIAL).to_string(), g.r.pick(SPECIAL).to_string(), g.r.pick(SPECIAL).to_string()]) } else { None };
    let mut b = Build { out: vec![], omit: *g.r.pick(&[&0usize, &30, &60, &100]), wrong: *g.r.pick(&[&0usize, &0, &2, &10]) };
    b.out.extend(blank(&mut g));
    for _ in 0..g.r.range(1, 3) {
        let d = g.r.below(5);
        element(&mut g, &mut b, d);
        b.out.extend(blank(&mut g));
    }
    if let Some(t) = table {
        // other names
        for e in &mut b.out {
            if matches!(e[0].as_str().unwrap(), "open" | "end") {
                if let Some(i) = ["a", "b", "c"].iter().position(|n| e[1] == enc(n)) {
                    e[1] = enc(&t[i]);
                }
            }
        }
    }
    json!({"k": "normalize", "ev": b.out})
}
