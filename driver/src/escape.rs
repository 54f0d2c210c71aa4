//! Escaping of text, step by step (C16).
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};
use sgmlish::text::{escape, is_sgml_whitespace, Escape};

use crate::chars::{dec, enc};
use crate::gen::{Gen, Prof};

/// The state of the iterator before a step: lo and hi of the size hint (hi -1 if absent), the number of characters
/// actually left, and whether displaying it shows exactly those and
/// taking them in other ways yields them.
fn look(e: &Escape) -> Value {
    let (lo, hi) = e.size_hint();
    let rest: String = e.clone().collect();
    // however what is left is taken, it is the same
    let chars: Vec<char> = rest.chars().collect();
    let n = chars.len();
    let mut skipped = e.clone();
    let again = e.clone().count() == n
        && e.clone().last() == chars.last().copied()
        && e.clone().fold(String::new(), |mut s, c| { s.push(c); s }) == rest
        && [0, 1, 2, 3, 4, 5, 9, n.saturating_sub(1), n].iter().all(|&j| {
            let mut x = e.clone();
            x.nth(j) == chars.get(j).copied() && x.eq(chars.iter().skip(j + 1).copied())
        })
        && skipped.by_ref().take(2).eq(chars.iter().take(2).copied())
        && skipped.to_string() == chars.iter().skip(2).collect::<String>()
        && e.clone().skip(3).step_by(2).eq(chars.iter().skip(3).step_by(2).copied());
    let small = |n: usize| n.min(1_000_000_000) as i64;
    json!([small(lo), hi.map(small).unwrap_or(-1), rest.chars().count(), e.to_string() == rest && format!("{}", e) == rest && again])
}

/// Input: src, amp (escape ampersands? set before the first step), sched ([[step, setting], ...]: changes of the setting).
/// Result: out (what iteration yields), steps (one look per state), plain (what escape(src).to_string() gives),
/// fused (nothing comes after the end), panic.
pub fn run(input: &Value) -> Value {
    let src = dec(&input["src"]);
    let amp = input["amp"].as_bool().unwrap();
    let empty: Vec<Value> = vec![];
    let sched = input["sched"].as_array().unwrap_or(&empty);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut e = escape(&src);
        if !amp {
            e.set_escape_ampersand(false);
        } else if src.len() % 2 == 0 {
            e.set_escape_ampersand(true);
        }
        let mut out = String::new();
        let mut steps = vec![];
        let mut k = 0;
        loop {
            for s in sched {
                if s[0].as_u64().unwrap() == k {
                    e.set_escape_ampersand(s[1].as_bool().unwrap());
                }
            }
            steps.push(look(&e));
            match e.next() {
                Some(c) => out.push(c),
                None => break,
            }
            k += 1;
        }
        let fused = e.next().is_none() && e.next().is_none() && e.to_string().is_empty();
        let ws: Vec<bool> = src.chars().map(is_sgml_whitespace).collect();
        json!({"out": enc(&out), "steps": steps, "plain": enc(&escape(&src).to_string()), "fused": fused, "ws": ws, "panic": false})
    }));
    r.unwrap_or_else(|_| json!({"out": [], "steps": [], "plain": [], "fused": false, "ws": [], "panic": true}))
}

/// Behaviours of the specification: [tokens or characters, amp, schedule].
pub fn behaviour(head: &Value, v: &Value) -> Value {
    let src: String = v[0].as_array().unwrap().iter().map(|i| match i.as_u64() {
        Some(i) => dec(&head["toks"][i as usize - 1]),
        None => dec(&json!([i])),
    }).collect();
    json!({"k": "escape", "src": enc(&src), "amp": v[1], "sched": v[2]})
}

pub fn input(seed: u64) -> Value {
    let mut g = Gen::new(seed, Prof { refs: 20, unicode: 30, ..Prof::default() });
    g.config();
    let n = g.r.size(12);
    let mut s = String::new();
    for _ in 0..n {
        if g.r.pct(30) {
            s += g.r.pick(&["<", ">", "&", "&&", "<<", "&#", "&#60;", "&lt;", "&;", "]]>", "<>", "&#38;", "&#x3c;"]);
        } else {
            s += &g.piece();
        }
    }
    let amp = g.r.pct(60);
    let mut sched = vec![];
    if g.r.pct(40) {
        let len = s.chars().count() * 2 + 2;
        for _ in 0..g.r.range(1, 3) {
            sched.push(json!([g.r.below(len), g.r.pct(50)]));
        }
    }
    json!({"k": "escape", "src": enc(&s), "amp": amp, "sched": sched})
}
