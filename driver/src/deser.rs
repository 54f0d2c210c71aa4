//! Deserialization (C20 to C26).
use std::borrow::Cow;
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde::de::DeserializeSeed;
use serde_json::{json, Value};
use sgmlish::de::{DeserializationError, SgmlDeserializer};
use sgmlish::SgmlFragment;

use crate::chars::{dec, enc};
use crate::events::{dec_fragment, enc_event, show};
use crate::gen::{Gen, Prof};
use crate::replay::{printed, Tally};
use crate::types::{set_alt, with_type, Dyn, Ty};
use crate::watch::Watch;

/// What an error says: its kind, and what it names (see spec/SgmlDeser.tla).
fn why(e: &DeserializationError) -> Value {
    use DeserializationError::*;
    match e {
        UnexpectedEof => json!(["eof"]),
        EmptyStack => json!(["stack"]),
        ExpectedStartTag => json!(["start"]),
        MismatchedCloseTag { expected, found } => json!(["mismatch", enc(expected), enc(found)]),
        Unsupported(ev) => json!(["unsupported", enc_event(ev)]),
        ParseIntError { source } => json!(["int", format!("{:?}", source.kind())]),
        ParseFloatError { .. } => json!(["float"]),
        Message(m) => message(m),
    }
}

/// The messages of serde.
fn message(m: &str) -> Value {
    let quoted = |prefix: &str, end: &str| m.strip_prefix(prefix).and_then(|r| r.rfind(end).map(|i| r[..i].to_string()));
    if let Some(n) = quoted("missing field `", "`") {
        json!(["missing", enc(&n)])
    } else if let Some(n) = quoted("duplicate field `", "`") {
        json!(["duplicate", enc(&n)])
    } else if let Some(n) = quoted("unknown variant `", "`, ") {
        // of those, the first: the variants there are follow it in the same form
        let end = ["`, expected ", "`, there are no variants"].iter().filter_map(|e| m.find(e)).min().unwrap_or(m.len());
        json!(["variant", enc(m.get("unknown variant `".len()..end).unwrap_or(&n))])
    } else if let Some(n) = quoted("invalid length ", ", expected ") {
        json!(["length", n.parse::<u64>().unwrap_or(u64::from(u32::MAX))])
    } else if let Some(t) = quoted("invalid value: string ", ", expected ") {
        match unquote(&t) {
            Some(t) => json!(["value", enc(&t)]),
            None => json!(["msg"]),
        }
    } else if m.starts_with("invalid type: ") {
        json!(["type"])
    } else {
        json!(["msg"])
    }
}

/// The string that has this debug representation.
fn unquote(t: &str) -> Option<String> {
    let mut it = t.strip_prefix('"')?.strip_suffix('"')?.chars();
    let mut out = String::new();
    while let Some(c) = it.next() {
        out.push(match c {
            '\\' => match it.next()? {
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                '0' => '\0',
                'u' => {
                    let hex: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                    char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?
                }
                c => c,
            },
            c => c,
        });
    }
    Some(out)
}

/// Input: ev, ty, alt. Result: panic, ok, v (the value), agree (the different entry points, and derived implementations
/// where there are some, agree), why (what their errors say), msg.
pub fn run(input: &Value) -> Value {
    let a = input["alt"].as_u64().unwrap_or(0) as usize;
    let f = dec_fragment(&input["ev"]);
    if wants_lent(&input["ty"]) {
        return read_lent(lend(&f), &input["ty"], a);
    }
    read(f, &input["ty"], a)
}

/// Whether a value of the described type borrows from the source.
pub fn wants_lent(t: &Value) -> bool {
    match t {
        Value::Array(v) => v.first().is_some_and(|x| x == "ref") || v.iter().any(wants_lent),
        _ => false,
    }
}

/// The fragment, as one whose texts are in a source.
pub fn lend<'a>(f: &'a SgmlFragment) -> SgmlFragment<'a> {
    use sgmlish::SgmlEvent::*;
    let evs: Vec<_> = f.iter().map(|e| match e {
        MarkupDeclaration { keyword, body } => MarkupDeclaration { keyword: Cow::Borrowed(keyword), body: Cow::Borrowed(body) },
        ProcessingInstruction(s) => ProcessingInstruction(Cow::Borrowed(s)),
        MarkedSection { status_keywords, section } => MarkedSection { status_keywords: Cow::Borrowed(status_keywords), section: Cow::Borrowed(section) },
        OpenStartTag { name } => OpenStartTag { name: Cow::Borrowed(name) },
        Attribute { name, value } => Attribute { name: Cow::Borrowed(name), value: value.as_deref().map(Cow::Borrowed) },
        CloseStartTag => CloseStartTag,
        XmlCloseEmptyElement => XmlCloseEmptyElement,
        EndTag { name } => EndTag { name: Cow::Borrowed(name) },
        Character(s) => Character(Cow::Borrowed(s)),
    }).collect();
    SgmlFragment::from(evs)
}

/// Reads a fragment that is in a source as the described type, in every way there is.
pub fn read_lent<'a>(f: SgmlFragment<'a>, described: &Value, a: usize) -> Value {
    let blank = json!({"panic": false, "ok": false, "v": [], "agree": true, "why": [], "msg": ""});
    let ty = Ty::from_json(described);
    set_alt(a);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut v = blank.clone();
        let seeded = SgmlDeserializer::from_fragment(f.clone()).and_then(|mut d| (&ty).deserialize(&mut d));
        if let Err(e) = &seeded {
            v["msg"] = json!(format!("{} {:?}", e, e));
        }
        let mut says: Vec<Value> = seeded.as_ref().err().map(why).into_iter().collect();
        let seeded = seeded.ok();
        if let Some(x) = &seeded {
            v["ok"] = json!(true);
            v["v"] = x.clone();
        }
        let other = with_type(&ty, || if a % 2 == 0 { sgmlish::from_fragment::<Dyn>(f.clone()) } else { f.clone().deserialize::<Dyn>() });
        says.extend(other.as_ref().err().map(why));
        let mut agree = other.ok().map(|d| d.0) == seeded;
        if let Some(real) = crate::real::lent(described, f.clone()) {
            says.extend(real.as_ref().err().map(why));
            agree &= real.ok() == seeded;
        }
        says.dedup();
        v["why"] = Value::Array(says);
        v["agree"] = json!(agree);
        v
    }));
    r.unwrap_or_else(|_| {
        let mut v = blank.clone();
        v["panic"] = json!(true);
        v
    })
}

/// Reads f as the described type, in every way there is.
pub fn read(f: SgmlFragment<'static>, described: &Value, a: usize) -> Value {
    let blank = json!({"panic": false, "ok": false, "v": [], "agree": true, "why": [], "msg": ""});
    let ty = Ty::from_json(described);
    set_alt(a);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut v = blank.clone();
        let owned = f.clone();
        let seeded = SgmlDeserializer::from_fragment(owned).and_then(|mut d| (&ty).deserialize(&mut d));
        match &seeded {
            Ok(x) => {
                v["ok"] = json!(true);
                v["v"] = x.clone();
            }
            Err(e) => v["msg"] = json!(format!("{} {:?}", e, e)),
        }
        let mut says: Vec<Value> = seeded.as_ref().err().map(why).into_iter().collect();
        let seeded = seeded.ok();
        let other = with_type(&ty, || if a % 2 == 0 { sgmlish::from_fragment::<Dyn>(f.clone()) } else { f.clone().deserialize::<Dyn>() });
        says.extend(other.as_ref().err().map(why));
        let mut agree = other.ok().map(|d| d.0) == seeded;
        if let Some(real) = crate::real::derived(described, f.clone()) {
            says.extend(real.as_ref().err().map(why));
            agree &= real.ok() == seeded;
        }
        says.dedup();
        v["why"] = Value::Array(says);
        v["agree"] = json!(agree);
        v
    }));
    r.unwrap_or_else(|_| {
        let mut v = blank.clone();
        v["panic"] = json!(true);
        v
    })
}

pub fn conforms(exp: &Value, res: &Value) -> bool {
    if res["panic"] != json!(false) {
        return false;
    }
    match exp[0].as_str().unwrap() {
        "any" => true,
        "ok" => res["agree"] == json!(true) && res["ok"] == json!(true) && res["v"] == exp[1],
        _ => res["agree"] == json!(true) && res["ok"] == json!(false) && match exp[1].as_array() {
            Some(reasons) => res["why"].as_array().unwrap().iter().all(|w| reasons.contains(w)),
            None => true,
        },
    }
}

/// Behaviours of the specification: [events, type, outcome].
pub fn session(path: &str, w: &Watch) -> Tally {
    let mut it = printed(path);
    let head = it.next().expect("TLC printed nothing");
    let types = head["types"].as_array().unwrap();
    let mut t = Tally::new();
    for v in it {
        let ty = v[1].as_u64().map_or(&v[1], |i| &types[i as usize - 1]);
        let input = json!({"k": "deser", "ev": v[0], "ty": ty, "alt": t.cases % 16});
        w.begin(t.cases);
        let res = run(&input);
        t.cases += 1;
        t.ok += (v[2][0] == "ok") as usize;
        if !conforms(&v[2], &res) {
            let mut case = input.clone();
            case["text"] = json!(show(v[0].as_array().unwrap()));
            case["expected"] = v[2].clone();
            case["observed"] = res;
            t.fail(case);
        }
        t.sample(|| json!({"fragment": show(v[0].as_array().unwrap()), "type": v[1], "specified": v[2][0]}));
    }
    t
}

// ---- generation ------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Kid {
    Text(String),
    Elem(Node),
    Bad(Value),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub n: String,
    pub at: Vec<(String, Option<String>)>,
    pub kids: Vec<Kid>,
}

impl Node {
    fn new(n: &str) -> Node {
        Node { n: n.into(), at: vec![], kids: vec![] }
    }
    pub fn events(&self, out: &mut Vec<Value>) {
        out.push(json!(["open", enc(&self.n)]));
        for (k, v) in &self.at {
            out.push(match v {
                Some(v) => json!(["attr", enc(k), enc(v)]),
                None => json!(["attr0", enc(k)]),
            });
        }
        out.push(json!(["close"]));
        for k in &self.kids {
            match k {
                Kid::Text(t) => out.push(json!(["text", enc(t)])),
                Kid::Elem(e) => e.events(out),
                Kid::Bad(v) => out.push(v.clone()),
            }
        }
        out.push(json!(["end", enc(&self.n)]));
    }
    fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| if let Kid::Elem(e) = k { e.count() } else { 0 }).sum::<usize>()
    }
    fn nth(&mut self, n: &mut usize) -> Option<&mut Node> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        for k in &mut self.kids {
            if let Kid::Elem(e) = k {
                if let Some(x) = e.nth(n) {
                    return Some(x);
                }
            }
        }
        None
    }
}

/// Relative weights of the kinds of types: scalars, bool, opt, new, seq, tuple, struct, map, enum, any/ignored.
type Weights = [usize; 10];

pub struct Focus {
    w: Weights,
    dollar: usize, // percent of structs with a "$value" field
    event_mutation: usize,
    tree_mutation: usize,
    text: usize, // percent of scalars with unusual text
    refs: usize, // percent of strings that are to be borrowed
    lazy: usize, // percent of types that take less than they are given
}

fn focus(prof: &str) -> Focus {
    let d = Focus { w: [30, 6, 10, 4, 14, 6, 20, 4, 14, 3], dollar: 20, event_mutation: 4, tree_mutation: 35, text: 4, lazy: 0, refs: 0 };
    match prof {
        "C20" => Focus { w: [60, 3, 20, 6, 6, 2, 8, 2, 3, 1], text: 50, tree_mutation: 15, ..d },
        "C21" => Focus { w: [6, 70, 8, 4, 6, 3, 8, 2, 2, 1], text: 40, tree_mutation: 10, ..d },
        "C22" => Focus { w: [25, 4, 15, 3, 10, 3, 45, 10, 4, 3], dollar: 5, tree_mutation: 50, ..d },
        "C23" => Focus { w: [20, 2, 8, 3, 40, 16, 15, 2, 10, 1], dollar: 15, tree_mutation: 45, ..d },
        "C24" => Focus { w: [15, 2, 8, 4, 12, 5, 12, 2, 45, 1], dollar: 15, ..d },
        "C25" => Focus { w: [20, 4, 10, 4, 16, 5, 30, 3, 14, 4], dollar: 75, ..d },
        "C31" => Focus { event_mutation: 30, tree_mutation: 50, text: 25, ..d },
        "C33" | "C33S" => Focus { w: [45, 2, 10, 4, 12, 5, 20, 4, 10, 1], refs: 80, tree_mutation: 25, text: if prof == "C33" { 15 } else { 40 }, dollar: 35, ..d },
        "C27" => Focus { w: [30, 6, 10, 4, 14, 6, 20, 4, 8, 5], dollar: 20, tree_mutation: 12, text: 25, ..d },
        "C34" => Focus { w: [20, 4, 10, 4, 14, 5, 22, 4, 16, 4], dollar: 35, tree_mutation: 8, ..d },
        "C26" => Focus { event_mutation: 80, tree_mutation: 30, lazy: 3, ..d },
        _ => d,
    }
}

const KEYS: &[&str] = &["a", "b", "c", "d", "k"];
const VARIANTS: &[&str] = &["a", "v", "w", "b", "X"];
const LAZY: &[&str] = &["none", "seq0", "seq1", "tuple0", "tuple1", "map0", "map1", "struct0", "struct1", "enum0", "enum1", "opt0", "opt1", "new0", "new1", "any0", "any1"];
const INTS: &[&str] = &["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"];

fn fields(g: &mut Gen, f: &Focus, depth: usize) -> Value {
    let mut names: Vec<&str> = KEYS.to_vec();
    if g.r.pct(12) {
        // names that differ in case only
        names = vec!["a", "A", "b", "B"];
    }
    let n = g.r.range(1, 3);
    let mut out = vec![];
    for _ in 0..n {
        let i = g.r.below(names.len());
        let name = names.remove(i);
        out.push(json!([enc(name), gen_type(g, f, depth), if g.r.pct(20) { "def" } else { "req" }]));
    }
    if g.r.pct(f.dollar) {
        let i = g.r.below(out.len() + 1);
        let t = gen_type(g, f, depth);
        out.insert(i, json!([enc("$value"), t, if g.r.pct(10) { "def" } else { "req" }]));
    }
    Value::Array(out)
}

fn gen_type(g: &mut Gen, f: &Focus, depth: usize) -> Value {
    if f.lazy > 0 && g.r.pct(f.lazy) {
        return json!(["lazy", *g.r.pick(LAZY)]);
    }
    let mut w = f.w;
    if depth == 0 {
        w[4..].fill(0);
        w[0] += 10;
    }
    match g.r.weighted(&w) {
        0 if f.refs > 0 && g.r.pct(60) => json!(["ref"]),
        0 => match g.r.below(10) {
            0..=3 => json!(["int", *g.r.pick(&[&INTS[0], &INTS[1], &INTS[2], &INTS[3], &INTS[4], &INTS[5], &INTS[6], &INTS[7]])]),
            4..=6 if f.refs > 0 => json!([if g.r.pct(f.refs) { "ref" } else { "str" }]),
            4..=6 => json!(["str"]),
            7 => json!(["float", if g.r.pct(50) { "f32" } else { "f64" }]),
            8 => json!(["char"]),
            _ => json!(["unit"]),
        },
        1 => json!(["bool"]),
        2 => json!(["opt", gen_type(g, f, depth)]),
        3 => json!(["new", gen_type(g, f, depth)]),
        4 => json!(["seq", gen_type(g, f, depth - 1)]),
        5 => {
            let n = g.r.range(1, 3);
            json!(["tuple", (0..n).map(|_| gen_type(g, f, depth - 1)).collect::<Vec<_>>()])
        }
        6 => json!(["struct", fields(g, f, depth - 1)]),
        7 => json!(["map", gen_type(g, f, depth - 1)]),
        8 => {
            let mut names: Vec<&str> = VARIANTS.to_vec();
            if g.r.pct(12) {
                names = vec!["v", "V", "x", "X", "a"];
            }
            let n = g.r.range(1, 4);
            let vs: Vec<Value> = (0..n).map(|_| {
                let i = g.r.below(names.len());
                let name = enc(names.remove(i));
                match g.r.below(5) {
                    0..=1 => json!([name, "unit"]),
                    2 => json!([name, "newtype", gen_type(g, f, depth - 1)]),
                    3 => {
                        let n = g.r.range(2, 3);
                        json!([name, "tuple", (0..n).map(|_| gen_type(g, f, depth - 1)).collect::<Vec<_>>()])
                    }
                    _ => json!([name, "struct", fields(g, f, depth - 1)]),
                }
            }).collect();
            json!(["enum", vs])
        }
        _ => json!([if g.r.pct(50) { "any" } else { "ignored" }]),
    }
}

fn digits(g: &mut Gen, n: usize) -> String {
    (0..n).map(|_| g.r.pick_char("0123456789")).collect()
}

fn scalar_text(g: &mut Gen, f: &Focus, t: &Value, key: &str) -> String {
    if g.r.pct(f.text) {
        let n = g.r.range(0, 3);
        return match g.r.below(8) {
            0 => (*g.r.pick(&["", " ", "\n", "\u{a0}", "x", "\u{e9}", "0x1f", "1_000", "1,0", "NaN", "-", "+", "--1", "+-1", "1e3", "1.0", ".5", "5.", ".", "-.5e2", ".e1", "e1", "-", "+.", "1e+2", "Infinity", "in", "infi", "nan0", "-NaN", "0e", "1.e2", "1,5", "1.5.2", "inf", "1 ", " 1", "\u{663}", "1\u{0}"])).to_string(),
            1 => (*g.r.pick(&["127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648",
                "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
                "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999"])).to_string(),
            2 => format!("{}{}{}", g.r.pick(&["", "-", "+"]), "0".repeat(n), digits(g, 2)),
            3 => (*g.r.pick(&["true", "TRUE", "True", "tRuE", "false", "FALSE", "False", "yes", "no", "on", "t", "f", "01", "00", "truee", "true ", "10", "0", "1"])).to_string(),
            4 => match g.r.below(4) {
                0 => key.to_string(),
                1 => key.to_uppercase(),
                _ => format!("{}{}", key, g.r.pick(&["", " ", "x"])),
            },
            5 => digits(g, 3),
            6 => (*g.r.pick(&["a", "v", "w", "b", "X", "A", "V", "x", "B"])).to_string(),
            _ => g.text(),
        };
    }
    match t[0].as_str().unwrap() {
        "int" => {
            let n = g.r.range(1, 2);
            let sign = if t[1].as_str().unwrap().starts_with('i') { *g.r.pick(&[&"", &"", &"-", &"+"]) } else { "" };
            format!("{}{}", sign, digits(g, n))
        }
        "float" => {
            let n = g.r.range(1, 3);
            let mut s = format!("{}{}", g.r.pick(&["", "", "", "-", "+", "00", "-0"]), g.r.below(1000));
            if g.r.pct(50) {
                s += &format!(".{}{}", digits(g, n - 1), g.r.range(1, 9));
            }
            if g.r.pct(25) {
                s += g.r.pick(&["0", ".", "000", "e", "E", "e1", "e-1", "E+5", "e0", "e-08", "e30", "E-30", "e+", "E1.5", "e5e5", "f", "d", "e400", "_", "00000000000000000000"]);
            }
            s
        }
        "bool" => (*g.r.pick(&["true", "false", "1", "0", "TRUE", "False"])).to_string(),
        "char" => (*g.r.pick(&["x", "\u{e9}", " ", "1", "<", "\u{1f600}"])).to_string(),
        "unit" | "ignored" => (*g.r.pick(&["", "x", "unit"])).to_string(),
        _ => match g.r.below(4) {
            0 => String::new(),
            1 => (*g.r.pick(&["one two", " padded ", "<&>", "\u{984c}", "1", "true"])).to_string(),
            _ => (*g.r.pick(&["hello", "x", "y", "value"])).to_string(),
        },
    }
}

fn inner(t: &Value) -> &Value {
    match t[0].as_str().unwrap() {
        "opt" | "new" => inner(&t[1]),
        _ => t,
    }
}

/// Text for a value of type t, if it can be read from text.
fn as_text(g: &mut Gen, f: &Focus, t: &Value, key: &str) -> Option<String> {
    let t = inner(t);
    match t[0].as_str().unwrap() {
        "seq" | "tuple" | "struct" | "map" => None,
        "enum" => {
            let vs = t[1].as_array().unwrap();
            let v = &vs[g.r.below(vs.len())];
            Some(if g.r.pct(10) { "nope".into() } else { dec(&v[0]) })
        }
        _ => Some(scalar_text(g, f, t, key)),
    }
}

fn split_text(g: &mut Gen, node: &mut Node, text: &str) {
    // an element's text may be interrupted by other elements, comments (which leave nothing), and so on
    let cs: Vec<char> = text.chars().collect();
    if g.r.pct(75) {
        if !text.is_empty() || g.r.pct(30) {
            node.kids.push(Kid::Text(text.into()));
        }
        return;
    }
    let n = g.r.range(1, 3);
    let mut at: Vec<usize> = (0..n).map(|_| g.r.below(cs.len() + 1)).collect();
    at.sort();
    at.push(cs.len());
    let mut from = 0;
    for to in at {
        let part: String = cs[from..to].iter().collect();
        from = to;
        if g.r.pct(50) {
            let mut e = Node::new(g.r.pick(KEYS));
            if g.r.pct(30) {
                e.at.push(("k".into(), Some("9".into())));
            }
            if g.r.pct(60) {
                e.kids.push(Kid::Text(part));
                node.kids.push(Kid::Elem(e));
            } else {
                node.kids.push(Kid::Elem(e));
                node.kids.push(Kid::Text(part));
            }
        } else {
            node.kids.push(Kid::Text(part));
        }
    }
}

fn junk(g: &mut Gen, depth: usize) -> Node {
    let mut e = Node::new(g.r.pick(&["z", "a", "b", "Z", "v", "y", "A", "B"]));
    for _ in 0..g.r.below(3) {
        let v = if g.r.pct(70) { Some("1".to_string()) } else { None };
        e.at.push(((*g.r.pick(KEYS)).to_string(), v));
    }
    for _ in 0..g.r.below(3) {
        if depth > 0 && g.r.pct(60) {
            e.kids.push(Kid::Elem(junk(g, depth - 1)));
        } else {
            e.kids.push(Kid::Text("t".into()));
        }
    }
    e
}

/// The elements of a value of type t under the given name (None: any name will do).
fn elems(g: &mut Gen, f: &Focus, t: &Value, key: Option<&str>) -> Vec<Node> {
    let t = inner(t);
    let name = key.map(String::from).unwrap_or_else(|| (*g.r.pick(&["a", "b", "i", "item"])).to_string());
    match t[0].as_str().unwrap() {
        "seq" => {
            let n = g.r.size(9).max(g.r.below(2));
            (0..n).flat_map(|_| elems(g, f, &t[1], key)).collect()
        }
        "tuple" => t[1].as_array().unwrap().iter().flat_map(|t| elems(g, f, t, key)).collect(),
        "struct" => {
            let mut nd = Node::new(&name);
            fill(g, f, &t[1], &mut nd);
            vec![nd]
        }
        "map" => {
            let mut nd = Node::new(&name);
            for _ in 0..g.r.below(3) {
                let k = *g.r.pick(&[&"a", &"b", &"z"]);
                if let (true, Some(v)) = (g.r.pct(40), as_text(g, f, &t[1], k)) {
                    nd.at.push((k.into(), Some(v)));
                } else {
                    for e in elems(g, f, &t[1], Some(k)) {
                        nd.kids.push(Kid::Elem(e));
                    }
                }
            }
            vec![nd]
        }
        "enum" => {
            let vs = t[1].as_array().unwrap();
            let v = &vs[g.r.below(vs.len())];
            match key {
                None => variant(g, f, v),
                Some(k) => {
                    let mut nd = Node::new(k);
                    if v[1] == "unit" && g.r.pct(50) {
                        split_text(g, &mut nd, &dec(&v[0]));
                    } else {
                        for e in variant(g, f, v) {
                            nd.kids.push(Kid::Elem(e));
                        }
                    }
                    if g.r.pct(15) {
                        nd.at.push(("b".into(), Some("v".into())));
                    }
                    vec![nd]
                }
            }
        }
        "lazy" if g.r.pct(30) => (0..g.r.range(1, 3)).flat_map(|_| elems(g, f, &json!(["any"]), key)).collect(),
        "any" | "ignored" | "lazy" if g.r.pct(50) => {
            let mut e = junk(g, 2);
            if let Some(k) = key {
                e.n = k.into();
            }
            vec![e]
        }
        _ => {
            let mut nd = Node::new(&name);
            if g.r.pct(10) {
                nd.at.push(((*g.r.pick(KEYS)).to_string(), Some("5".into())));
            }
            let text = scalar_text(g, f, t, &name);
            split_text(g, &mut nd, &text);
            vec![nd]
        }
    }
}

fn variant(g: &mut Gen, f: &Focus, v: &Value) -> Vec<Node> {
    let name = dec(&v[0]);
    let mut nd = Node::new(&name);
    match v[1].as_str().unwrap() {
        "unit" => {
            if g.r.pct(20) {
                nd = junk(g, 1);
                nd.n = name;
            }
        }
        "newtype" => {
            let t = inner(&v[2]);
            match t[0].as_str().unwrap() {
                "seq" | "tuple" => {
                    for e in elems(g, f, t, None) {
                        nd.kids.push(Kid::Elem(e));
                    }
                }
                _ => {
                    // the payload is what a field with the variant's name would be
                    let e = elems(g, f, t, Some(&name));
                    return e;
                }
            }
        }
        "tuple" => return v[2].as_array().unwrap().iter().flat_map(|t| elems(g, f, t, Some(&name))).collect(),
        _ => fill(g, f, &v[2], &mut nd),
    }
    vec![nd]
}

fn blank(g: &mut Gen) -> Option<Kid> {
    if g.r.pct(6) { Some(Kid::Text((*g.r.pick(&[" ", "\n  ", "", "\t"])).to_string())) } else { None }
}

/// The attributes and contents of a struct.
fn fill(g: &mut Gen, f: &Focus, fs: &Value, nd: &mut Node) {
    let fs = fs.as_array().unwrap();
    let dollar = fs.iter().any(|x| dec(&x[0]) == "$value");
    let mut blocks: Vec<Vec<Kid>> = vec![];
    for fd in fs {
        let key = dec(&fd[0]);
        let t = &fd[1];
        if key == "$value" {
            let mut block = vec![];
            match as_text(g, f, t, &key) {
                Some(text) if g.r.pct(70) || inner(t)[0] != "enum" => block.push(Kid::Text(text)),
                _ => {
                    for e in elems(g, f, t, None) {
                        block.extend(blank(g));
                        block.push(Kid::Elem(e));
                    }
                }
            }
            blocks.push(block);
            continue;
        }
        let optional = fd[2] == "def" || t[0] == "opt";
        if g.r.pct(if optional { 30 } else { 2 }) {
            continue;
        }
        let text = as_text(g, f, t, &key);
        if let (true, Some(text)) = (g.r.pct(if dollar { 95 } else { 40 }), text) {
            let v = if text.is_empty() && g.r.pct(50) { None } else { Some(text) };
            let i = g.r.below(nd.at.len() + 1);
            nd.at.insert(i, (key, v));
        } else {
            let mut block = vec![];
            for e in elems(g, f, t, Some(&key)) {
                block.extend(blank(g));
                block.push(Kid::Elem(e));
            }
            blocks.push(block);
        }
    }
    while !blocks.is_empty() {
        let i = g.r.below(blocks.len());
        nd.kids.extend(blocks.remove(i));
        if !dollar && g.r.pct(12) {
            let e = junk(g, 3);
            nd.kids.push(Kid::Elem(e));
        }
        if !dollar {
            nd.kids.extend(blank(g));
        }
    }
    if g.r.pct(15) {
        let i = g.r.below(nd.at.len() + 1);
        nd.at.insert(i, ((*g.r.pick(&["z", "y", "A", "K"])).to_string(), Some("3".into())));
    }
}

fn other_case(n: &str) -> String {
    if n.chars().any(|c| c.is_lowercase()) { n.to_uppercase() } else { n.to_lowercase() }
}

fn mutate_tree(g: &mut Gen, root: &mut Node) {
    let mut n = g.r.below(root.count());
    let nd = root.nth(&mut n).unwrap();
    let len = nd.kids.len();
    match g.r.below(14) {
        0 if len > 0 => {
            let i = g.r.below(len);
            nd.kids.remove(i);
        }
        1..=2 if len > 0 => {
            let i = g.r.below(len);
            let k = nd.kids[i].clone();
            let j = g.r.below(len + 1);
            nd.kids.insert(j, match k {
                Kid::Elem(mut e) if g.r.pct(15) => {
                    e.n = other_case(&e.n);
                    Kid::Elem(e)
                }
                k => k,
            });
        }
        3..=4 if len > 1 => {
            let (i, j) = (g.r.below(len), g.r.below(len));
            nd.kids.swap(i, j);
        }
        5 if g.r.pct(35) => nd.n = other_case(&nd.n),
        5 => nd.n = (*g.r.pick(&["a", "b", "v", "z", "X", "c"])).to_string(),
        6 => {
            let i = g.r.below(len + 1);
            nd.kids.insert(i, Kid::Text((*g.r.pick(&["x", " ", "1", "", "\u{a0}"])).to_string()));
        }
        7 => {
            let i = g.r.below(len + 1);
            let e = junk(g, 2);
            nd.kids.insert(i, Kid::Elem(e));
        }
        8 if !nd.at.is_empty() => {
            let i = g.r.below(nd.at.len());
            nd.at.remove(i);
        }
        9 if !nd.at.is_empty() => {
            let i = g.r.below(nd.at.len());
            let mut a = nd.at[i].clone();
            if g.r.pct(30) {
                a.0 = other_case(&a.0);
            }
            nd.at.push(a);
        }
        10 => nd.at.push(((*g.r.pick(KEYS)).to_string(), if g.r.pct(60) { Some("1".into()) } else { None })),
        11 => {
            let i = g.r.below(len + 1);
            let b = *g.r.pick(&[&"pi", &"decl", &"sect", &"empty"]);
            nd.kids.insert(i, match b {
                "pi" => Kid::Bad(json!(["pi", enc("<?x>")])),
                "decl" => Kid::Bad(json!(["decl", enc("D"), enc("d")])),
                "sect" => Kid::Bad(json!(["sect", enc("CDATA"), enc("1")])),
                _ => Kid::Elem(Node::new("")),
            });
        }
        12 if len > 1 => {
            // an attribute instead of an element
            let i = g.r.below(len);
            if let Kid::Elem(e) = nd.kids.remove(i) {
                let t: String = e.kids.iter().filter_map(|k| if let Kid::Text(t) = k { Some(t.as_str()) } else { None }).collect();
                nd.at.push((e.n, Some(t)));
            }
        }
        _ if len > 0 => {
            let i = g.r.below(len);
            if let Kid::Text(t) = &mut nd.kids[i] {
                *t = (*g.r.pick(&["", "x", "1", "300", "-1", "true", "v", "b", " 1"])).to_string();
            }
        }
        _ => {}
    }
}

fn mutate_events(g: &mut Gen, ev: &mut Vec<Value>) {
    let n = ev.len();
    if n == 0 {
        return;
    }
    let i = g.r.below(n);
    let j = g.r.below(n);
    match g.r.below(8) {
        0..=1 => {
            ev.remove(i);
        }
        2 => {
            let e = ev[i].clone();
            ev.insert(j, e);
        }
        3 => ev.swap(i, j),
        4 => ev.truncate(i),
        5 if matches!(ev[i][0].as_str().unwrap(), "open" | "end") => {
            ev[i][1] = enc(g.r.pick(&["a", "b", "", "A", "z"]));
        }
        5 if ev[i][0] == "close" => ev[i] = json!(["xclose"]),
        _ => {
            let e = match g.r.below(10) {
                0 => json!(["pi", enc("<?x>")]),
                1 => json!(["decl", enc("D"), enc("d")]),
                2 => json!(["sect", enc("CDATA"), enc("1")]),
                3 => json!(["xclose"]),
                4 => json!(["close"]),
                5 => json!(["end", enc(g.r.pick(&["a", "b", ""]))]),
                6 => json!(["open", enc(g.r.pick(&["a", "b", ""]))]),
                7 => json!(["attr", enc("a"), enc("1")]),
                8 => json!(["attr0", enc("b")]),
                _ => json!(["text", enc(g.r.pick(&["1", "", " ", "x"]))]),
            };
            ev.insert(i, e);
        }
    }
}

/// Other names to use throughout instead of the usual ones: names that are parts of one another, that are equal but for
/// blanks, case or form, that mean something elsewhere, or that look like values.
const RENAMINGS: &[&[(&str, &str)]] = &[
    &[("a", "p:n"), ("b", "q:n"), ("c", "n"), ("d", "n:p"), ("k", "n.m"), ("v", "n-m"), ("w", "P:n"), ("X", "n_m"), ("z", "m")],
    &[("a", "\u{e9}"), ("b", "\u{c9}"), ("c", "e\u{301}"), ("d", "\u{df}"), ("k", "\u{130}"), ("v", "i\u{307}"), ("w", "ss"), ("X", "SS"), ("z", "\u{fb01}")],
    &[("a", "n"), ("b", "n "), ("c", " n"), ("d", "nn"), ("k", "N"), ("v", "n\u{a0}"), ("w", "n\n"), ("X", "\tn"), ("z", "n n")],
    &[("a", "@n"), ("b", "$text"), ("c", "#text"), ("d", "n[]"), ("k", "$Value"), ("v", "$valu"), ("w", "value"), ("X", "-n"), ("z", "$value$")],
    &[("a", "1"), ("b", "0"), ("c", "01"), ("d", "-1"), ("k", "true"), ("v", "2"), ("w", "FALSE"), ("X", "1.0"), ("z", "unit")],
    &[("a", "xmlns"), ("b", "xml:lang"), ("c", "id"), ("d", "class"), ("k", "type"), ("v", "br"), ("w", "img"), ("X", "script"), ("z", "xsi:nil"), ("r", "html")],
    &[("a", "p"), ("b", "li"), ("c", "br"), ("d", "value"), ("k", "name"), ("v", "option"), ("w", "input"), ("X", "P"), ("z", "item"), ("r", "body")],
    &[("a", "text"), ("b", "content"), ("c", "$attr"), ("d", "_"), ("k", "null"), ("v", "None"), ("w", "Some"), ("X", "nil"), ("z", "key"), ("r", "root")],
];

fn renamed(table: &[(&str, &str)], n: &str) -> String {
    table.iter().find(|(from, _)| *from == n).map_or(n, |(_, to)| to).to_string()
}

fn rename_type(table: &[(&str, &str)], t: &Value) -> Value {
    let name = |n: &Value| enc(&renamed(table, &dec(n)));
    let list = |ts: &Value, f: &dyn Fn(&Value) -> Value| Value::Array(ts.as_array().unwrap().iter().map(f).collect());
    let ty = |t: &Value| rename_type(table, t);
    let field = |f: &Value| json!([name(&f[0]), ty(&f[1]), f[2]]);
    match t[0].as_str().unwrap() {
        k @ ("opt" | "new" | "seq" | "map") => json!([k, ty(&t[1])]),
        "tuple" => json!(["tuple", list(&t[1], &ty)]),
        "struct" => json!(["struct", list(&t[1], &field)]),
        "enum" => json!(["enum", list(&t[1], &|v| match v[1].as_str().unwrap() {
            "unit" => json!([name(&v[0]), "unit"]),
            "newtype" => json!([name(&v[0]), "newtype", ty(&v[2])]),
            "tuple" => json!([name(&v[0]), "tuple", list(&v[2], &ty)]),
            _ => json!([name(&v[0]), "struct", list(&v[2], &field)]),
        })]),
        _ => t.clone(),
    }
}

fn rename_node(table: &[(&str, &str)], nd: &mut Node) {
    nd.n = renamed(table, &nd.n);
    for (k, v) in &mut nd.at {
        *k = renamed(table, k);
        *v = v.as_deref().map(|v| renamed(table, v));
    }
    for k in &mut nd.kids {
        match k {
            Kid::Elem(e) => rename_node(table, e),
            Kid::Text(t) => *t = renamed(table, t),
            Kid::Bad(_) => {}
        }
    }
}

/// A type, and the roots of values of it, with unusual names sometimes.
fn roots(g: &mut Gen, prof: &str) -> (Value, Vec<Node>) {
    let (ty, mut roots) = usual_roots(g, prof);
    if !g.r.pct(if matches!(prof, "C27" | "C33S") { 0 } else { 15 }) {
        return (ty, roots);
    }
    let table = RENAMINGS[g.r.below(RENAMINGS.len())];
    for r in &mut roots {
        rename_node(table, r);
    }
    (rename_type(table, &ty), roots)
}

/// A type, and the roots of values of it.
fn usual_roots(g: &mut Gen, prof: &str) -> (Value, Vec<Node>) {
    let f = focus(prof);
    let depth = g.r.range(1, 3);
    let ty = if g.r.pct(25) {
        if f.refs > 0 { crate::real::lent_description(g) } else { crate::real::description(g) }
    } else if g.r.pct(85) {
        json!(["struct", fields(g, &f, depth)])
    } else {
        gen_type(g, &f, depth)
    };
    let mut roots = elems(g, &f, &ty, None);
    if roots.is_empty() {
        roots.push(Node::new("r"));
    }
    if g.r.pct(f.tree_mutation) {
        for _ in 0..g.r.range(1, 3) {
            mutate_tree(g, &mut roots[0]);
        }
    }
    (ty, roots)
}

/// A type, and a document that may be a value of it.
pub fn tree(g: &mut Gen, prof: &str) -> (Node, Value) {
    let (ty, mut roots) = roots(g, prof);
    (roots.swap_remove(0), ty)
}

pub fn input(prof: &str, seed: u64) -> Value {
    let mut g = Gen::new(seed, Prof { refs: 0, ..Prof::default() });
    let f = focus(prof);
    let (ty, roots) = roots(&mut g, prof);
    let mut ev = vec![];
    for r in roots {
        r.events(&mut ev);
    }
    if g.r.pct(5) {
        ev.push(json!(["text", enc("after")]));
    }
    if g.r.pct(f.event_mutation) {
        for _ in 0..g.r.range(1, 3) {
            mutate_events(&mut g, &mut ev);
        }
    }
    let alt = g.r.below(16);
    json!({"k": "deser", "ev": ev, "ty": ty, "alt": alt})
}

// ---- values read one after another -----------------------------------------------------------------------------------

pub fn reads_input(seed: u64) -> Value {
    let mut g = Gen::new(seed, Prof { refs: 0, ..Prof::default() });
    let (mut ev, mut tys) = (vec![], vec![]);
    for _ in 0..g.r.range(2, 4) {
        let prof = if g.r.pct(80) { "C34" } else { g.r.pick(&["C20", "C21", "C22", "C23", "C24", "C25", "C31"]) };
        let (ty, roots) = roots(&mut g, prof);
        for r in roots.iter().take(1) {
            r.events(&mut ev);
        }
        tys.push(ty);
    }
    if g.r.pct(20) {
        tys.push(gen_type(&mut g, &focus("C25"), 1));
    }
    if g.r.pct(6) {
        mutate_events(&mut g, &mut ev);
    }
    let alt = g.r.below(16);
    json!({"k": "reads", "ev": ev, "tys": tys, "alt": alt})
}

pub fn reads_behaviour(head: &Value, v: &Value) -> Value {
    let tys: Vec<_> = v[1].as_array().unwrap().iter().map(|t| head["types"][t.as_u64().unwrap() as usize - 1].clone()).collect();
    json!({"k": "reads", "ev": v[0], "tys": tys, "alt": 0})
}

/// Input: ev, tys, alt. Result: panic, outs (for each type, up to the first that cannot be read: ok, v, why).
pub fn run_reads(input: &Value) -> Value {
    set_alt(input["alt"].as_u64().unwrap_or(0) as usize);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let tys: Vec<Ty> = input["tys"].as_array().unwrap().iter().map(Ty::from_json).collect();
        let refused = |e| json!({"ok": false, "v": [], "why": [why(&e)]});
        let mut d = match SgmlDeserializer::from_fragment(dec_fragment(&input["ev"])) {
            Ok(d) => d,
            Err(e) => return vec![refused(e)],
        };
        let mut outs = vec![];
        for ty in &tys {
            match ty.deserialize(&mut d) {
                Ok(v) => outs.push(json!({"ok": true, "v": v, "why": []})),
                Err(e) => {
                    outs.push(refused(e));
                    break;
                }
            }
        }
        outs
    }));
    match r {
        Ok(outs) => json!({"panic": false, "outs": outs}),
        Err(_) => json!({"panic": true, "outs": []}),
    }
}

/// Behaviours of the specification: [events, types, outcomes].
pub fn reads_session(path: &str, w: &Watch) -> Tally {
    let mut it = printed(path);
    let head = it.next().expect("TLC printed nothing");
    let mut t = Tally::new();
    for v in it {
        let mut input = reads_behaviour(&head, &v);
        input["alt"] = json!(t.cases % 16);
        w.begin(t.cases);
        let res = run_reads(&input);
        t.cases += 1;
        let exp = v[2].as_array().unwrap();
        let outs = res["outs"].as_array().unwrap();
        t.ok += exp.iter().all(|o| o[0] == "ok") as usize;
        let open = exp.iter().any(|o| o[0] == "any");
        let fits = res["panic"] == json!(false) && (open || exp.len() == outs.len()) && exp.iter().zip(outs).all(|(e, o)| match e[0].as_str().unwrap() {
            "ok" => o["ok"] == json!(true) && o["v"] == e[1],
            "err" => o["ok"] == json!(false) && e[1].as_array().is_none_or(|reasons| o["why"].as_array().unwrap().iter().all(|w| reasons.contains(w))),
            _ => true,
        });
        if !fits {
            let mut case = input.clone();
            case["text"] = json!(show(v[0].as_array().unwrap()));
            case["expected"] = v[2].clone();
            case["observed"] = res;
            t.fail(case);
        }
        t.sample(|| json!({"fragment": show(v[0].as_array().unwrap()), "types": v[1], "specified": v[2]}));
    }
    t
}
