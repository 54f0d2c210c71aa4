//! Fragments passed around, changed, and detached from their source (C28).
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde::Deserialize;
use serde_json::{json, Value};
use sgmlish::transforms::{normalize_end_tags, Transform};
use sgmlish::{SgmlEvent, SgmlFragment};

use crate::cfg::Cfg;
use crate::chars::{dec, enc};
use crate::events::{dec_event, enc_events};
use crate::gen::{Gen, Prof};
use crate::replay::{printed, Tally};
use crate::watch::Watch;

#[derive(Debug, Deserialize)]
#[allow(dead_code)]
struct Record {
    #[serde(default)]
    a: Option<String>,
    #[serde(default)]
    b: Vec<Value>,
    #[serde(default, rename = "$value")]
    text: String,
}

/// Everything a program can learn from a fragment by deserializing it.
fn values(f: &SgmlFragment) -> Vec<String> {
    fn one<T: std::fmt::Debug + serde::de::DeserializeOwned>(f: &SgmlFragment) -> String {
        // the fragment may be ill-formed: what a panic says is not compared here, only that both panic
        catch_unwind(AssertUnwindSafe(|| format!("{:?}", sgmlish::from_fragment::<T>(f.clone())))).unwrap_or_else(|_| "panic".into())
    }
    let mut all = vec![one::<String>(f), one::<BTreeMap<String, String>>(f)];
    // (types that are as deep as the fragment use as much stack)
    if depth(f) <= 1000 {
        all.push(one::<Value>(f));
        all.push(one::<Record>(f));
    }
    all
}

fn depth(f: &SgmlFragment) -> usize {
    let (mut now, mut most) = (0usize, 0);
    for e in f.as_slice() {
        match e {
            SgmlEvent::OpenStartTag { .. } => now += 1,
            SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => now = now.saturating_sub(1),
            _ => {}
        }
        most = most.max(now);
    }
    most
}

fn well_formed(ev: &[SgmlEvent]) -> bool {
    let mut in_tag = false;
    for e in ev {
        match e {
            SgmlEvent::OpenStartTag { .. } if !in_tag => in_tag = true,
            SgmlEvent::Attribute { .. } if in_tag => {}
            SgmlEvent::CloseStartTag | SgmlEvent::XmlCloseEmptyElement if in_tag => in_tag = false,
            SgmlEvent::OpenStartTag { .. } | SgmlEvent::Attribute { .. } | SgmlEvent::CloseStartTag | SgmlEvent::XmlCloseEmptyElement => return false,
            _ if in_tag => return false,
            _ => {}
        }
    }
    !in_tag
}

fn normalized(f: &SgmlFragment) -> String {
    catch_unwind(AssertUnwindSafe(|| format!("{:?}", normalize_end_tags(f.clone())))).unwrap_or_else(|_| "panic".into())
}

/// Whether all views of the fragment agree, and its owned form can not be told from it.
fn agree(f: &SgmlFragment, deep: bool) -> bool {
    let es = f.as_slice();
    let n = es.len();
    let text: String = es.iter().map(|e| match e {
        SgmlEvent::Attribute { .. } => format!(" {}", e),
        _ => e.to_string(),
    }).collect();
    let mut m = f.clone();
    let views = f.len() == n
        && f.iter().eq(es.iter())
        && f.iter().len() == n
        && f.iter().rev().eq(es.iter().rev())
        && f.into_iter().eq(es.iter())
        && m.iter_mut().map(|e| &*e).eq(es.iter())
        && (&mut m).into_iter().map(|e| &*e).eq(es.iter())
        && f.clone().into_iter().eq(es.iter().cloned())
        && f.clone().into_vec() == es
        && f.to_string() == text
        && SgmlFragment::from(es.to_vec()) == *f
        && m == *f;
    if !views {
        return false;
    }
    let whole = f.clone().into_owned();
    let each = SgmlFragment::from(f.iter().map(|e| e.clone().into_owned()).collect::<Vec<_>>());
    let twice = whole.clone().into_owned();
    [&whole, &each, &twice].iter().all(|o| {
        **o == *f
            && o.len() == n
            && enc_events(o.as_slice()) == enc_events(es)
            && o.to_string() == text
            && format!("{:?}", o) == format!("{:?}", f)
    }) && normalized(&whole) == normalized(f)
        && (!deep || values(&whole) == values(f))
}

fn transform(ops: &Value) -> Transform<'static> {
    let mut t = Transform::new();
    for op in ops.as_array().unwrap() {
        match op[0].as_str().unwrap() {
            "ins" => t.insert_at(op[1].as_u64().unwrap() as usize, dec_event(&op[2])),
            _ => t.remove_at(op[1].as_u64().unwrap() as usize),
        }
    }
    t
}

/// One operation that keeps the lifetime of the fragment. Whether the owned form took it the same way.
fn step<'a>(mut f: SgmlFragment<'a>, op: &Value) -> (SgmlFragment<'a>, bool) {
    let twin = f.clone().into_owned();
    match op[0].as_str().unwrap() {
        "own" => (f.into_owned(), true),
        "ownEach" => (f.into_vec().into_iter().map(|e| e.into_owned()).collect::<Vec<_>>().into(), true),
        "drop" => (f, true),
        "clone" => (f.clone(), true),
        "vec" => (f.into_vec().into(), true),
        "iter" => (f.into_iter().collect::<Vec<_>>().into(), true),
        "refs" => (f.iter().cloned().collect::<Vec<_>>().into(), true),
        "slice" => (f.as_slice().to_vec().into(), true),
        "norm" if !well_formed(f.as_slice()) => (f, true),
        "norm" => match (normalize_end_tags(f.clone()), normalize_end_tags(twin)) {
            (Ok(a), Ok(b)) => {
                let same = a == b;
                (a, same)
            }
            (Err(a), Err(b)) => (f, a == b),
            _ => (f, false),
        },
        "edit" => {
            let a = transform(&op[1]).apply(f);
            let b = transform(&op[1]).apply(twin);
            let same = a == b;
            (a, same)
        }
        "set" => {
            let i = op[1].as_u64().unwrap() as usize;
            let mut twin = twin;
            if let Some(e) = f.iter_mut().nth(i) {
                *e = dec_event(&op[2]);
            }
            if let Some(e) = (&mut twin).into_iter().nth(i) {
                *e = dec_event(&op[2]);
            }
            let same = f == twin;
            (f, same)
        }
        k => panic!("bad operation {:?}", k),
    }
}

struct Seen {
    seen: Vec<Value>,
    views: Vec<bool>,
}

impl Seen {
    fn add(&mut self, f: &SgmlFragment, same: bool) {
        let n = self.seen.len();
        self.seen.push(enc_events(f.as_slice()));
        self.views.push(same && agree(f, n % 4 == 0));
    }
}

fn steps<'a>(mut f: SgmlFragment<'a>, ops: &[Value], s: &mut Seen) -> SgmlFragment<'a> {
    for op in ops {
        let (g, same) = step(f, op);
        f = g;
        s.add(&f, same);
    }
    f
}

/// The operations before the source is dropped, the last of them the one that detaches the fragment.
fn attached(f: SgmlFragment, ops: &[Value], s: &mut Seen) -> SgmlFragment<'static> {
    s.add(&f, true);
    let (op, before) = match ops.split_last() {
        Some(x) => x,
        None => return f.into_owned(),
    };
    let f = steps(f, before, s);
    let f: SgmlFragment<'static> = match op[0].as_str() {
        Some("own") => f.into_owned(),
        Some("ownEach") => f.into_vec().into_iter().map(|e| e.into_owned()).collect::<Vec<_>>().into(),
        _ => {
            let (f, same) = step(f, op);
            s.add(&f, same);
            return f.into_owned();
        }
    };
    s.add(&f, true);
    f
}

/// Input: given, and orig (events) or src and cfg; ops. Result: parsed, seen (the events before the first operation and
/// after each), views, panic.
pub fn run(input: &Value) -> Value {
    let blank = json!({"panic": false, "parsed": false, "seen": [], "views": []});
    let r = catch_unwind(AssertUnwindSafe(|| {
        let ops = input["ops"].as_array().unwrap();
        let kind = |op: &Value| op[0].as_str().unwrap().to_string();
        let dropped = ops.iter().position(|op| kind(op) == "drop").unwrap_or(ops.len());
        let detached = if dropped == ops.len() { ops.len() } else {
            ops[..dropped].iter().rposition(|op| kind(op) == "own" || kind(op) == "ownEach").expect("dropped too early") + 1
        };
        let mut s = Seen { seen: vec![], views: vec![] };
        let mut source;
        let f = if input["given"] == json!(true) {
            // all strings in one buffer
            source = String::new();
            let mut ends = vec![];
            let orig = input["orig"].as_array().unwrap();
            for e in orig {
                for x in &e.as_array().unwrap()[1..] {
                    source += &dec(x);
                    ends.push(source.len());
                }
            }
            let mut at = 0;
            let mut ends = ends.into_iter();
            let src = &source;
            let mut next = move || {
                let end = ends.next().unwrap();
                let x = &src[at..end];
                at = end;
                std::borrow::Cow::Borrowed(x)
            };
            let events: Vec<SgmlEvent> = orig.iter().map(|e| match e[0].as_str().unwrap() {
                "decl" => {
                    let keyword = next();
                    SgmlEvent::MarkupDeclaration { keyword, body: next() }
                }
                "pi" => SgmlEvent::ProcessingInstruction(next()),
                "sect" => {
                    let status_keywords = next();
                    SgmlEvent::MarkedSection { status_keywords, section: next() }
                }
                "open" => SgmlEvent::OpenStartTag { name: next() },
                "attr" => {
                    let name = next();
                    SgmlEvent::Attribute { name, value: Some(next()) }
                }
                "attr0" => SgmlEvent::Attribute { name: next(), value: None },
                "close" => SgmlEvent::CloseStartTag,
                "xclose" => SgmlEvent::XmlCloseEmptyElement,
                "end" => SgmlEvent::EndTag { name: next() },
                "text" => SgmlEvent::Character(next()),
                k => panic!("bad event {:?}", k),
            }).collect();
            attached(events.into(), &ops[..detached], &mut s)
        } else {
            source = dec(&input["src"]);
            match Cfg::from_json(&input["cfg"]).parser(ops.len()).parse(&source) {
                Ok(f) => attached(f, &ops[..detached], &mut s),
                Err(_) => return blank.clone(),
            }
        };
        let f = steps(f, &ops[detached..dropped], &mut s);
        if dropped < ops.len() {
            // overwritten before it is freed
            let filler = "\u{0}".repeat(source.len());
            source.replace_range(.., &filler);
            drop(source);
            steps(f, &ops[dropped..], &mut s);
        }
        json!({"panic": false, "parsed": true, "seen": s.seen, "views": s.views})
    }));
    r.unwrap_or_else(|_| {
        let mut v = blank.clone();
        v["panic"] = json!(true);
        v
    })
}

pub fn session(path: &str, w: &Watch) -> Tally {
    let mut it = printed(path);
    let head = it.next().expect("TLC printed nothing");
    let mut t = Tally::new();
    for v in it {
        let orig = v[0].as_u64().map_or(&v[0], |i| &head["sources"][i as usize - 1]);
        let input = json!({"k": "views", "given": true, "orig": orig, "ops": v[1]});
        w.begin(t.cases);
        let res = run(&input);
        t.cases += 1;
        t.ok += 1;
        let seen: Vec<_> = std::iter::once(orig).chain(v[2].as_array().unwrap()).cloned().collect();
        if res["panic"] != json!(false) || res["seen"] != json!(seen) || !res["views"].as_array().unwrap().iter().all(|x| *x == json!(true)) {
            t.fail(json!({"k": "views", "given": true, "orig": orig, "ops": v[1], "expected": seen, "observed": res}));
        }
        t.sample(|| json!({"fragment": orig, "operations": v[1]}));
    }
    t
}

fn event(g: &mut Gen) -> Value {
    let s = |g: &mut Gen| match g.r.below(6) {
        0 => enc(""),
        1 => enc(&g.sp0()),
        2..=3 => enc(&g.name()),
        _ => enc(&g.text()),
    };
    match g.r.below(12) {
        0 => json!(["decl", s(g), s(g)]),
        1 => json!(["pi", s(g)]),
        2 => json!(["sect", s(g), s(g)]),
        3..=4 => json!(["open", s(g)]),
        5 => json!(["attr", s(g), s(g)]),
        6 => json!(["attr0", s(g)]),
        7 => json!(["close"]),
        8 => json!(["xclose"]),
        9 => json!(["end", s(g)]),
        _ => json!(["text", s(g)]),
    }
}

pub fn input(seed: u64) -> Value {
    let mut g = Gen::new(seed, Prof { refs: 15, attrs: 3, garble: 3, cdata: 6, rcdata: 6, norm: 40, modes: [5, 3, 4], prolog: 40, ..Prof::default() });
    let mut v = json!({"k": "views", "given": false, "orig": [], "src": [], "cfg": Cfg::default().to_json(), "ops": []});
    let n;
    if g.r.pct(40) {
        v["given"] = json!(true);
        let orig: Vec<_> = (0..g.r.below(8)).map(|_| event(&mut g)).collect();
        n = orig.len();
        v["orig"] = json!(orig);
    } else {
        let mut cfg = g.config();
        let mut src = g.document();
        let mut len = 4;
        for _ in 0..10 {
            match cfg.parser(0).parse(&src) {
                Ok(f) => {
                    len = f.len();
                    break;
                }
                Err(_) => {
                    src = g.document();
                    if g.r.pct(30) {
                        cfg = g.config();
                    }
                }
            }
        }
        n = len;
        v["cfg"] = cfg.to_json();
        v["src"] = enc(&src);
    }
    let mut ops = vec![];
    let (mut owned, mut alive) = (false, true);
    for _ in 0..g.r.below(7) {
        let op = match g.r.below(14) {
            0..=1 => json!(["own"]),
            2..=3 => json!(["ownEach"]),
            4..=6 if owned && alive => {
                alive = false;
                json!(["drop"])
            }
            7 => json!([*g.r.pick(&["clone", "vec", "iter", "refs", "slice"])]),
            8..=9 => json!(["norm"]),
            10..=11 => {
                let edits: Vec<_> = (0..g.r.range(1, 4)).map(|_| {
                    let p = g.r.below(n + 2);
                    if g.r.pct(60) { json!(["ins", p, event(&mut g)]) } else { json!(["del", p]) }
                }).collect();
                json!(["edit", edits])
            }
            12 => {
                let p = g.r.below(n + 1);
                json!(["set", p, event(&mut g)])
            }
            _ => json!(["own"]),
        };
        owned |= op[0] == "own" || op[0] == "ownEach";
        ops.push(op);
    }
    v["ops"] = json!(ops);
    v
}
