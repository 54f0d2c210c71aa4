//! Executes behaviours printed by TLC on the real code and compares the outcomes.
use std::io::{BufRead, BufReader};

use serde_json::{json, Value};

use crate::cfg::Cfg;
use crate::chars::{dec, enc};
use crate::parse;
use crate::watch::Watch;

/// The JSON values a TLC run printed with PrintT(ToJson(...)).
pub fn printed(path: &str) -> impl Iterator<Item = Value> {
    let f = BufReader::with_capacity(1 << 20, std::fs::File::open(path).unwrap());
    f.lines().filter_map(|l| {
        let l = l.unwrap();
        if !l.starts_with('"') {
            return None;
        }
        let inner: String = serde_json::from_str(&l).expect("unreadable TLC output");
        Some(serde_json::from_str(&inner).expect("unreadable TLC output"))
    })
}

/// How closely errors are compared.
#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Outcome,
    /// ... and undefined references are named
    Entity,
    /// ... and errors are reported at the right place
    Position,
}

/// Does the recorded result agree with the outcome the specification prescribes?
pub fn parse_conforms(exp: &Value, res: &Value, what: What) -> bool {
    if res["panic"] != json!(false) || res["agree"] != json!(true) {
        return false;
    }
    if exp[0] == "ok" {
        return res["ok"] == json!(true) && res["ev"] == exp[1];
    }
    if res["ok"] != json!(false) {
        return false;
    }
    match what {
        What::Outcome => true,
        What::Entity => {
            (exp[3] != "entity" && res["ek"] != "entity")
                || (res["ek"] == exp[3] && res["en"] == exp[4] && dec(&res["msg"]).contains(&dec(&exp[4])))
        }
        What::Position => {
            let at = res["at"].as_u64().unwrap();
            exp[1].as_u64().unwrap() <= at && at <= exp[2].as_u64().unwrap() && res["ek"] == exp[3]
        }
    }
}

pub struct Tally {
    pub cases: usize,
    pub ok: usize,
    pub failures: Vec<Value>,
    pub failed: usize,
    pub samples: Vec<Value>,
}

impl Tally {
    pub fn new() -> Self {
        Tally { cases: 0, ok: 0, failures: vec![], failed: 0, samples: vec![] }
    }
    pub fn fail(&mut self, v: Value) {
        self.failed += 1;
        if self.failures.len() < 20 {
            self.failures.push(v);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        // cases 1, 10, 100, ... 
        let n = self.cases;
        if n == 7 || n == 77 || n == 777 || n == 7777 || n == 77777 {
            let s = f();
            if s.to_string().len() < 4000 {
                self.samples.push(s);
            }
        }
    }
    pub fn to_json(&self) -> Value {
        json!({"cases": self.cases, "ok": self.ok, "failed": self.failed, "failures": self.failures, "samples": self.samples})
    }
}

pub fn parser_session(path: &str, what: What, w: &Watch) -> Tally {
    let mut it = printed(path);
    let head = it.next().expect("TLC printed nothing");
    let toks: Vec<String> = head["toks"].as_array().unwrap().iter().map(dec).collect();
    let cfgs: Vec<Cfg> = head["cfgs"].as_array().unwrap().iter().map(Cfg::from_json).collect();
    let parsers: Vec<_> = cfgs.iter().enumerate().map(|(i, c)| c.parser(i * 3)).collect();
    let mut t = Tally::new();
    for v in it {
        let src: String = v[0].as_array().unwrap().iter().map(|i| toks[i.as_u64().unwrap() as usize - 1].as_str()).collect();
        let c = v[1].as_u64().unwrap() as usize - 1;
        w.begin(t.cases);
        let res = parse::run_with(&parsers[c], &cfgs[c], &src, t.cases);
        t.cases += 1;
        t.ok += (v[2][0] == "ok") as usize;
        if !parse_conforms(&v[2], &res, what) {
            t.fail(json!({"k": "parse", "src": enc(&src), "text": src, "cfg": cfgs[c].to_json(), "expected": v[2], "observed": res}));
        }
        t.sample(|| json!({"document": src, "cfg": c + 1, "specified": v[2][0], "observed": if res["ok"] == json!(true) { "ok" } else { "err" }}));
    }
    t
}
