//! Executes parses on the real code and records what happened.
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};
use sgmlish::parser::ContextualizedError;
use sgmlish::Parser;

use crate::cfg::Cfg;
use crate::chars::{char_pos, dec, enc};
use crate::events::enc_events;

fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// One parse, with every way of asking for it.
///
/// Result fields: ok, ev (events), at (1-based position of the error), ek/en (kind of error and the
/// undefined name), msg (rendered message), agree (all the error handlers, repeated calls and entry
/// points agree), panic.
pub fn run_input(input: &Value) -> Value {
    let cfg = Cfg::from_json(&input["cfg"]);
    let variant = input["variant"].as_u64().unwrap_or(0) as usize;
    run_with(&cfg.parser(variant), &cfg, &dec(&input["src"]), variant)
}

/// Behaviours of the specification: [tokens, configuration, outcome].
pub fn behaviour(head: &Value, v: &Value) -> Value {
    let index = |x: &Value| x.as_u64().unwrap() as usize - 1;
    // tokens, or the source itself
    let src: Vec<Value> = match v[0].as_array().unwrap() {
        a if head["toks"].as_array().unwrap().is_empty() => a.clone(),
        a => a.iter().flat_map(|i| head["toks"][index(i)].as_array().unwrap().iter().cloned()).collect(),
    };
    let variant = src.len();
    json!({"k": "parse", "src": src, "cfg": head["cfgs"][index(&v[1])], "variant": variant})
}

pub fn run_with(parser: &Parser, cfg: &Cfg, src: &str, variant: usize) -> Value {
    type CE<'a> = ContextualizedError<&'a str>;
    let blank = |panic: bool| {
        json!({"ok": false, "ev": [], "at": 0, "ek": "", "en": [], "msg": [], "agree": true, "panic": panic})
    };
    let detailed = match guarded(|| parser.parse_with_detailed_errors::<CE>(src)) {
        Some(r) => r,
        None => return blank(true),
    };
    let mut out = blank(false);
    let mut agree = true;

    // Other error handlers
    let simple = guarded(|| parser.parse_with_detailed_errors::<nom::error::Error<&str>>(src));
    let verbose = guarded(|| parser.parse_with_detailed_errors::<nom::error::VerboseError<&str>>(src));
    let unit = guarded(|| parser.parse_with_detailed_errors::<()>(src));
    let (simple, verbose, unit) = match (simple, verbose, unit) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => return blank(true),
    };
    let plain = match guarded(|| parser.parse(src)) {
        Some(r) => r,
        None => return blank(true),
    };
    match &detailed {
        Ok(f) => {
            out["ok"] = json!(true);
            out["ev"] = enc_events(f.as_slice());
            agree &= simple.as_ref().ok() == Some(f);
            agree &= verbose.as_ref().ok() == Some(f);
            agree &= unit.as_ref().ok() == Some(f);
            agree &= plain.as_ref().ok() == Some(f);
        }
        Err(e) => {
            agree &= simple.is_err() && verbose.is_err() && unit.is_err() && plain.is_err();
            let offset = (e.input.as_ptr() as usize).wrapping_sub(src.as_ptr() as usize);
            out["at"] = json!(char_pos(src, offset));
            match &e.error {
                Some(sgmlish::Error::EntityError(x)) => {
                    out["ek"] = json!("entity");
                    out["en"] = enc(&x.entity);
                }
                Some(sgmlish::Error::InvalidMarkedSectionKeyword(k)) => {
                    out["ek"] = json!("keyword");
                    out["en"] = enc(k);
                }
                _ => out["ek"] = json!("syntax"),
            }
        }
    }
    if let Err(e) = &plain {
        match guarded(|| e.to_string()) {
            Some(m) => out["msg"] = enc(&m),
            None => out["panic"] = json!(true),
        }
        if let (Err(d), sgmlish::Error::ParseError(m)) = (&detailed, e) {
            match guarded(|| d.describe(&src)) {
                Some(x) => agree &= x == *m,
                None => out["panic"] = json!(true),
            }
        } else {
            agree = false;
        }
    }
    // The one-shot entry points
    if variant % 3 == 0 {
        match guarded(|| cfg.parser(variant + 1).parse(src).ok()) {
            Some(r) => agree &= r == plain.ok(),
            None => out["panic"] = json!(true),
        }
    } else if variant % 3 == 1 && variant % 5 == 4 {
        let d = Cfg::default();
        if format!("{:?}", d) == format!("{:?}", cfg) {
            match guarded(|| sgmlish::parse(src).ok()) {
                Some(r) => agree &= r == plain.ok(),
                None => out["panic"] = json!(true),
            }
        }
    }
    out["agree"] = json!(agree);
    out
}
