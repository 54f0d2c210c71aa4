//! Direct calls of the expansion functions.
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};
use sgmlish::entities::{expand_characters, expand_entities, expand_parameter_entities};

use crate::cfg::lookup;
use crate::chars::{char_pos, dec, enc};
use crate::gen::{Gen, Prof, ENTS, PENTS};
use crate::replay::{printed, Tally};
use crate::watch::Watch;

type Table = Vec<(String, String)>;

pub fn enc_table(t: &Table) -> Value {
    Value::Array(t.iter().map(|(n, x)| json!([enc(n), enc(x)])).collect())
}
pub fn dec_table(v: &Value) -> Table {
    v.as_array().unwrap().iter().map(|p| (dec(&p[0]), dec(&p[1]))).collect()
}

/// Result fields: ok, out, name, from, to (1-based character positions), calls (names looked up), msg, panic.
pub fn run(kind: &str, src: &str, tab: &Table, variant: usize) -> Value {
    let calls = RefCell::new(vec![]);
    let owned = |n: &str| {
        calls.borrow_mut().push(n.to_string());
        lookup(tab, n)
    };
    let map: HashMap<&str, &str> = tab.iter().rev().map(|(n, t)| (n.as_str(), t.as_str())).collect();
    let borrowed = |n: &str| {
        calls.borrow_mut().push(n.to_string());
        map.get(n)
    };
    let r = catch_unwind(AssertUnwindSafe(|| match (kind, variant % 3) {
        ("&", 0) if tab.is_empty() => expand_characters(src),
        ("&", 1) => expand_entities(src, borrowed),
        ("&", _) => expand_entities(src, owned),
        (_, 1) => expand_parameter_entities(src, borrowed),
        (_, _) => expand_parameter_entities(src, owned),
    }));
    let mut v = json!({"ok": false, "out": [], "name": [], "from": 0, "to": 0, "calls": [], "msg": [], "panic": false});
    match r {
        Err(_) => v["panic"] = json!(true),
        Ok(Ok(s)) => {
            v["ok"] = json!(true);
            v["out"] = enc(&s);
        }
        Ok(Err(e)) => {
            v["name"] = enc(&e.entity);
            v["from"] = json!(char_pos(src, e.position.start));
            v["to"] = json!(char_pos(src, e.position.end));
            v["msg"] = enc(&e.to_string());
            if kind == "&" && tab.is_empty() && variant % 3 == 0 {
                // expand_characters takes no lookup: what it failed on is all we can observe
                calls.borrow_mut().push(e.entity.clone());
            }
        }
    }
    v["calls"] = Value::Array(calls.borrow().iter().map(|c| enc(c)).collect());
    v
}

/// The same names are looked up; how often does not matter.
fn same_names(a: &Value, b: &Value) -> bool {
    let set = |v: &Value| v.as_array().unwrap().iter().map(dec).collect::<std::collections::BTreeSet<_>>();
    set(a) == set(b)
}

pub fn conforms(exp: &Value, res: &Value) -> bool {
    if res["panic"] != json!(false) {
        return false;
    }
    if exp[0] == "ok" {
        return res["ok"] == json!(true) && res["out"] == exp[1] && same_names(&res["calls"], &exp[2]);
    }
    res["ok"] == json!(false)
        && res["name"] == exp[1]
        && res["from"] == exp[2]
        && res["to"] == exp[3]
        && same_names(&res["calls"], &exp[4])
}

pub fn session(path: &str, w: &Watch) -> Tally {
    let mut it = printed(path);
    let head = it.next().expect("TLC printed nothing");
    let toks: Vec<String> = head["toks"].as_array().unwrap().iter().map(dec).collect();
    let tabs: Vec<Table> = head["tabs"].as_array().unwrap().iter().map(dec_table).collect();
    let mut t = Tally::new();
    for v in it {
        // tokens and one of the tables, or the text and the table themselves
        let src: String = match toks.is_empty() {
            true => dec(&v[0]),
            false => v[0].as_array().unwrap().iter().map(|i| toks[i.as_u64().unwrap() as usize - 1].as_str()).collect(),
        };
        let kind = v[1].as_str().unwrap();
        let given = v[2].as_array().map(|_| dec_table(&v[2]));
        let tab = given.as_ref().unwrap_or_else(|| &tabs[v[2].as_u64().unwrap() as usize - 1]);
        w.begin(t.cases);
        let mut all = vec![run(kind, &src, tab, t.cases)];
        if given.is_some() {
            all.extend((1..3).map(|k| run(kind, &src, tab, t.cases + k)));
        }
        let res = all.iter().position(|r| !conforms(&v[3], r)).map_or(all[0].clone(), |k| all[k].clone());
        t.cases += 1;
        t.ok += (v[3][0] == "ok") as usize;
        if !conforms(&v[3], &res) {
            t.fail(json!({"k": "expand", "kind": kind, "src": enc(&src), "text": src, "tab": enc_table(tab), "expected": v[3], "observed": res}));
        }
        t.sample(|| json!({"text": src.chars().take(1500).collect::<String>(), "kind": kind, "specified": v[3][0]}));
    }
    t
}

pub fn input(seed: u64) -> (&'static str, String, Table, usize) {
    let mut g = Gen::new(seed, Prof { refs: 55, unicode: 20, lookup: 85, undef: 0, ..Prof::default() });
    let cfg = g.config();
    let undef = g.r.pct(25);
    let kind = if g.r.pct(65) { "&" } else { "%" };
    let n = g.r.size(30);
    let mut s = String::new();
    for _ in 0..n {
        if kind == "&" {
            if undef && g.r.pct(15) {
                s += &format!("&{}", g.r.pick(&["undef;", "#NOPE", "#x110000;", "#55296", "LT;", "lt.;", "\u{984c}\u{e9};", "#4294967297", "#x100000041;"]));
            } else if g.r.pct(15) {
                let k = g.r.below(ENTS.len());
                s += &format!("&{};", ENTS[k].0);
            } else {
                s += &g.piece();
            }
        } else if g.r.pct(60) {
            let semi = *g.r.pick(&[&";", &";", &";", &" ", &"", &";;", &"\u{e9}"]);
            if undef && g.r.pct(30) {
                s += &format!("%{}{}", g.r.pick(&["undef", "#NOPE", "#65", "#x41", "\u{984c}", "INC", "inc-"]), semi);
            } else {
                let k = g.r.below(PENTS.len());
                s += &format!("%{}{}", PENTS[k].0, semi);
            }
        } else {
            s += &g.piece();
        }
    }
    let tab = match (kind, g.r.below(12)) {
        (_, 0) => vec![],
        ("&", _) => cfg.ents,
        _ => cfg.pents,
    };
    let variant = g.r.below(30);
    (kind, s, tab, variant)
}

pub fn trace(seed: u64) -> Value {
    let (kind, src, tab, variant) = input(seed);
    let res = run(kind, &src, &tab, variant);
    json!({"k": "expand", "kind": kind, "src": enc(&src), "tab": enc_table(&tab), "res": res})
}
