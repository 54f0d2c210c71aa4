//! Large members of families of inputs whose outcome the specification gives in closed form
//! (see spec/SgmlFamily.tla). A rope is an array of pieces [flag, items]; a piece with flag 1
//! occurs n times in a row.
use serde_json::Value;
use sgmlish::parser::ContextualizedError;
use sgmlish::SgmlEvent;

use crate::cfg::Cfg;
use crate::chars::dec;

fn pieces(rope: &Value) -> impl Iterator<Item = (bool, &Value)> {
    rope.as_array().unwrap().iter().map(|p| (p[0] == 1, &p[1]))
}

pub fn text(rope: &Value, n: usize) -> String {
    let mut s = String::new();
    for (many, items) in pieces(rope) {
        s += &dec(items).repeat(if many { n } else { 1 });
    }
    s
}

fn event(e: &Value, n: usize) -> SgmlEvent<'static> {
    let s = |i: usize| -> std::borrow::Cow<'static, str> { text(&e[i], n).into() };
    match e[0].as_str().unwrap() {
        "decl" => SgmlEvent::MarkupDeclaration { keyword: s(1), body: s(2) },
        "pi" => SgmlEvent::ProcessingInstruction(s(1)),
        "sect" => SgmlEvent::MarkedSection { status_keywords: s(1), section: s(2) },
        "open" => SgmlEvent::OpenStartTag { name: s(1) },
        "attr" => SgmlEvent::Attribute { name: s(1), value: Some(s(2)) },
        "attr0" => SgmlEvent::Attribute { name: s(1), value: None },
        "close" => SgmlEvent::CloseStartTag,
        "xclose" => SgmlEvent::XmlCloseEmptyElement,
        "end" => SgmlEvent::EndTag { name: s(1) },
        "text" => SgmlEvent::Character(s(1)),
        k => panic!("bad event kind {:?}", k),
    }
}

pub fn events(rope: &Value, n: usize) -> Vec<SgmlEvent<'static>> {
    let mut out = Vec::new();
    for (many, items) in pieces(rope) {
        let unit: Vec<SgmlEvent> = items.as_array().unwrap().iter().map(|e| event(e, n)).collect();
        for _ in 0..if many { n } else { 1 } {
            out.extend(unit.iter().cloned());
        }
    }
    out
}

fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| format!("{} panics", what))
}

fn short(s: &str) -> String {
    s.chars().take(300).collect()
}

fn differ(got: &[SgmlEvent], want: &[SgmlEvent]) -> String {
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!(
        "{} events instead of {}; event {} is {} instead of {}",
        got.len(),
        want.len(),
        i + 1,
        short(&format!("{:?}", got.get(i))),
        short(&format!("{:?}", want.get(i)))
    )
}

/// Recursive types to read nested fragments as (see spec/MC_Depths.tla).
mod deep {
    use serde::{Deserialize, Serialize};
    #[derive(Deserialize, Serialize)]
    pub struct List {
        a: Option<Box<List>>,
    }
    #[derive(Deserialize, Serialize)]
    pub struct Items {
        #[serde(default)]
        a: Vec<Items>,
    }
    #[derive(Deserialize, Serialize)]
    pub struct Content {
        #[serde(rename = "$value", default)]
        inner: Vec<Content>,
    }
    #[derive(Deserialize, Serialize)]
    #[allow(non_camel_case_types)]
    pub enum Choice {
        a(Box<Choice>),
        b,
    }
    #[derive(Deserialize, Serialize)]
    #[allow(non_camel_case_types)]
    pub enum Tree {
        a { a: Option<Box<Tree>> },
        b,
    }
    #[derive(Deserialize, Serialize)]
    pub struct Map(std::collections::BTreeMap<String, Map>);
    #[derive(Deserialize, Serialize)]
    pub struct Flat {
        #[serde(default)]
        b: String,
        c: String,
    }
}

fn value<T: serde::de::DeserializeOwned + serde::Serialize>(events: Vec<SgmlEvent<'static>>) -> Result<Option<String>, String> {
    let r = guarded("deserialization", || sgmlish::from_fragment::<T>(sgmlish::SgmlFragment::from(events)))?;
    match r {
        Ok(v) => Ok(Some(serde_json::to_string(&v).unwrap())),
        Err(e) => guarded("the error", || e.to_string()).map(|_| None),
    }
}

fn deser(f: &Value, n: usize) -> Result<(), String> {
    let evs = events(&f["ev"], n);
    let got = match f["ty"].as_str().unwrap() {
        "value" => value::<Value>(evs),
        "list" => value::<deep::List>(evs),
        "items" => value::<deep::Items>(evs),
        "content" => value::<deep::Content>(evs),
        "choice" => value::<deep::Choice>(evs),
        "tree" => value::<deep::Tree>(evs),
        "map" => value::<deep::Map>(evs),
        "str" => value::<String>(evs),
        "unit" => value::<()>(evs),
        "flat" => value::<deep::Flat>(evs),
        t => panic!("bad type {:?}", t),
    }?;
    let want = if f["ok"] == true { Some(text(&f["js"], n)) } else { None };
    if got == want {
        Ok(())
    } else {
        Err(format!("read as {}, to be read as {}", short(&format!("{:?}", got)), short(&format!("{:?}", want))))
    }
}

pub fn run(f: &Value, n: usize) -> Result<(), String> {
    if f["kind"] == "deser" {
        return deser(f, n);
    }
    let cfg = Cfg::from_json(&f["cfg"]);
    let src = text(&f["src"], n);
    let parser = cfg.parser(0);
    let got = guarded("the parser", || parser.parse(&src))?;
    let want_ok = f["ok"].as_bool().unwrap();
    match got {
        Err(e) => {
            let msg = guarded("rendering the error", || e.to_string())?;
            if want_ok {
                return Err(format!("rejected: {}", short(&msg)));
            }
            let detailed = guarded("the parser", || parser.parse_with_detailed_errors::<ContextualizedError<&str>>(&src))?;
            let d = match detailed {
                Err(d) => d,
                Ok(_) => return Err("accepted by parse_with_detailed_errors".into()),
            };
            let described = guarded("describe", || d.describe(&src.as_str()))?;
            if !matches!(&e, sgmlish::Error::ParseError(m) if *m == described) {
                return Err(format!("parse reports {}, parse_with_detailed_errors {}", short(&msg), short(&described)));
            }
            let at = (d.input.as_ptr() as usize).wrapping_sub(src.as_ptr() as usize);
            let (kind, name) = match &d.error {
                Some(sgmlish::Error::EntityError(x)) => ("entity", x.entity.to_string()),
                Some(sgmlish::Error::InvalidMarkedSectionKeyword(_)) => ("keyword", String::new()),
                _ => ("syntax", String::new()),
            };
            let (lo, hi) = (text(&f["lo"], n).len(), text(&f["hi"], n).len());
            if kind != f["ek"].as_str().unwrap() {
                return Err(format!("reported as {}, to be reported as {}: {}", kind, f["ek"], short(&msg)));
            }
            if kind == "entity" {
                let en = text(&f["en"], n);
                if name != en {
                    return Err(format!("names {} instead of {}", short(&name), short(&en)));
                }
                if !msg.contains(&en) {
                    return Err("the message does not name the reference".into());
                }
            }
            if at < lo || at > hi {
                return Err(format!("reported at byte {}, to be reported within {}..={}", at, lo, hi));
            }
            report(&src, at, &msg)
        }
        Ok(fragment) => {
            if !want_ok {
                return Err("accepted, but it is to be rejected".into());
            }
            let want = events(&f["ev"], n);
            if fragment.as_slice() == want.as_slice() {
                Ok(())
            } else {
                Err(differ(fragment.as_slice(), &want))
            }
        }
    }
}

/// The operator ReportOk of spec/SgmlReport.tla, for messages too long for TLC.
fn report(src: &str, at: usize, msg: &str) -> Result<(), String> {
    if src.is_empty() {
        return Ok(());
    }
    let before = &src[..at];
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    let line: Vec<char> = {
        let rest = &src[start..];
        let l = match rest.find('\n') {
            Some(i) => rest[..i].strip_suffix('\r').unwrap_or(&rest[..i]),
            None => rest,
        };
        l.chars().collect()
    };
    let col = src[start..at].chars().count() + 1;
    let number = before.matches('\n').count() + 1;
    let p = msg.find("line ").ok_or("the message names no line")? + 5;
    let digits: String = msg[p..].chars().take_while(|c| c.is_ascii_digit()).collect();
    if digits != number.to_string() {
        return Err(format!("the message names line {} instead of {}", digits, number));
    }
    let lines: Vec<Vec<char>> = msg.split('\n').map(|l| l.chars().collect()).collect();
    let caret = |l: &[char]| match l.split_last() {
        Some((&'^', rest)) if rest.iter().all(|&c| c == ' ') => Some(l.len()),
        _ => None,
    };
    let points = |x: &[char], caret: usize| {
        [0usize, 3].iter().any(|&pre| {
            [0usize, 3].iter().any(|&post| {
                let dots = |t: &[char]| t == ['.', '.', '.'];
                if x.len() < pre + post || col + pre < caret {
                    return false;
                }
                let (m, o) = (x.len() - pre - post, col + pre - caret);
                o + m <= line.len()
                    && (pre == 0 || dots(&x[..3]))
                    && (post == 0 || dots(&x[x.len() - 3..]))
                    && (pre > 0 || o == 0)
                    && (post > 0 || o + m == line.len())
                    && x[pre..pre + m] == line[o..o + m]
                    && (line.len() > 30 || pre + post == 0)
                    && (line.len() <= 200 || x.len() <= 120)
                    && caret > pre
                    && (caret <= x.len() - post || post == 0)
            })
        })
    };
    if (1..lines.len()).any(|k| caret(&lines[k]).map_or(false, |c| points(&lines[k - 1], c))) {
        Ok(())
    } else {
        Err(format!("the message does not point at column {} of line {}: {}", col, number, short(msg)))
    }
}
