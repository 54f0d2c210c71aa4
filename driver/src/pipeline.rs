//! The whole way from a source to a value (C27).
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde::de::DeserializeSeed;
use serde::Deserialize;
use serde_json::{json, Value};
use sgmlish::de::SgmlDeserializer;
use sgmlish::transforms::normalize_end_tags;
use sgmlish::SgmlFragment;

use crate::cfg::Cfg;
use crate::chars::{dec, enc};
use crate::deser::{self, Kid, Node};
use crate::events::dec_fragment;
use crate::gen::{Gen, Prof};
use crate::replay::{printed, Tally};
use crate::types::{set_alt, Ty};
use crate::watch::Watch;

// Types the specification does not describe: for these, only that both spellings give the same is checked.
#[derive(Debug, PartialEq, Deserialize)]
#[serde(untagged)]
#[allow(dead_code)]
enum Untagged {
    Point { a: i8, b: i8 },
    List { a: Vec<Untagged> },
    Flag(bool),
    Text(String),
    Other(Value),
}
#[derive(Debug, PartialEq, Deserialize)]
#[serde(tag = "k")]
#[allow(dead_code)]
enum Tagged {
    #[serde(rename = "1")]
    One { a: Option<String> },
    #[serde(other)]
    Other,
}
#[derive(Debug, PartialEq, Deserialize)]
#[allow(dead_code)]
struct Flat {
    #[serde(default)]
    a: Option<Value>,
    #[serde(flatten)]
    rest: BTreeMap<String, Value>,
}
#[derive(Debug, PartialEq, Deserialize)]
#[serde(tag = "a", content = "b")]
#[allow(dead_code)]
enum Adjacent {
    #[serde(rename = "x")]
    X(String),
    #[serde(rename = "v")]
    V { a: i8 },
    #[serde(rename = "1")]
    One,
}

fn normalized(f: SgmlFragment) -> Option<SgmlFragment> {
    normalize_end_tags(f).ok()
}

fn same<T: for<'de> Deserialize<'de> + Debug>(a: &SgmlFragment, b: &SgmlFragment) -> bool {
    let show = |f: &SgmlFragment| sgmlish::from_fragment::<T>(f.clone()).ok().map(|x| format!("{:?}", x));
    show(a) == show(b)
}

/// Input: src, cfg, can (the canonical fragment), ty, alt.
/// Result: panic, parsed (parsed and normalized), ok, v, agree (see deser), same (other types give the same for src and can).
pub fn run(input: &Value) -> Value {
    let blank = json!({"panic": false, "parsed": false, "ok": false, "v": [], "agree": true, "same": true, "msg": ""});
    let a = input["alt"].as_u64().unwrap_or(0) as usize;
    let src = dec(&input["src"]);
    let ty = Ty::from_json(&input["ty"]);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut v = blank.clone();
        let cfg = Cfg::from_json(&input["cfg"]);
        let f = match cfg.parser(a).parse(&src) {
            Ok(f) => f,
            Err(e) => {
                v["msg"] = json!(e.to_string());
                return v;
            }
        };
        let f = match normalized(f) {
            Some(f) => f,
            None => return v,
        };
        v["parsed"] = json!(true);
        set_alt(a);
        // borrowing from the source, and not
        let direct = SgmlDeserializer::from_fragment(f.clone()).and_then(|mut d| (&ty).deserialize(&mut d));
        let res = deser::read(f.clone().into_owned(), &input["ty"], a);
        v["agree"] = json!(res["agree"] == json!(true) && direct.is_ok() == (res["ok"] == json!(true)) && direct.map(|x| x == res["v"]).unwrap_or(true));
        for k in ["ok", "v", "msg"] {
            v[k] = res[k].clone();
        }
        let can = dec_fragment(&input["can"]);
        v["same"] = json!(
            same::<Value>(&f, &can) && same::<Untagged>(&f, &can) && same::<Tagged>(&f, &can) && same::<Flat>(&f, &can)
                && same::<Adjacent>(&f, &can) && same::<BTreeMap<String, Untagged>>(&f, &can)
        );
        v
    }));
    r.unwrap_or_else(|_| {
        let mut v = blank.clone();
        v["panic"] = json!(true);
        v
    })
}

/// Behaviours of the specification: [source, canonical fragment, type, outcome].
pub fn session(path: &str, w: &Watch) -> Tally {
    let mut it = printed(path);
    let head = it.next().expect("TLC printed nothing");
    let types = head["types"].as_array().unwrap();
    let mut t = Tally::new();
    for v in it {
        let input = json!({"k": "pipeline", "src": v[0], "can": v[1], "cfg": head["cfg"], "ty": v[2].as_u64().map_or(&v[2], |i| &types[i as usize - 1]),
            "alt": t.cases % 64});
        w.begin(t.cases);
        let res = run(&input);
        t.cases += 1;
        t.ok += (v[3][0] == "ok") as usize;
        if res["parsed"] != json!(true) || res["same"] != json!(true) || !deser::conforms(&v[3], &res) {
            let mut case = input.clone();
            case["text"] = json!(dec(&v[0]));
            case["expected"] = v[3].clone();
            case["observed"] = res;
            t.fail(case);
        }
        t.sample(|| json!({"source": dec(&v[0]).chars().take(1500).collect::<String>(), "type": v[2], "specified": v[3][0]}));
    }
    t
}

// ---- spelling --------------------------------------------------------------------------------------------------------

struct Speller<'g> {
    g: &'g mut Gen,
    cfg: Cfg,
    out: String,
    inc: usize,
    refs: usize, // percent of characters written as references
}

fn space(c: char) -> bool {
    c.is_whitespace()
}

/// Whether what comes next may be taken as part of the text, or as part of a reference.
impl Speller<'_> {
    fn ws(&mut self) -> String {
        let n = self.g.r.range(1, 2);
        (0..n).map(|_| self.g.r.pick(&[" ", "\n", "\t", "\r\n", "  "])).collect()
    }

    fn space(&mut self) {
        let w = self.ws();
        self.out += &w;
    }

    fn name(&mut self, n: &str) -> String {
        if self.cfg.names == "keep" {
            return n.into();
        }
        match self.g.r.below(4) {
            0 => n.to_uppercase(),
            1 => n.to_lowercase(),
            2 => n.into(),
            _ => n.chars().map(|c| if self.g.r.pct(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        }
    }

    /// c, not to be taken as anything else
    fn char(&mut self, c: char, forced: bool) -> String {
        if !forced && !self.g.r.pct(self.refs) {
            return c.to_string();
        }
        if let Some((n, _)) = self.cfg.ents.iter().find(|(_, t)| *t == c.to_string()) {
            if self.g.r.pct(50) {
                return format!("&{};", n);
            }
        }
        if self.g.r.pct(50) { format!("&#{};", c as u32) } else { format!("&#x{:x};", c as u32) }
    }

    fn escaped(&mut self, s: &str, quote: Option<char>) -> String {
        let cs: Vec<char> = s.chars().collect();
        let mut o = String::new();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            if self.g.r.pct(20) && s[..].contains("value") && cs[i..].starts_with(&['v', 'a', 'l', 'u', 'e']) && self.cfg.ents.iter().any(|(n, _)| n == "val") {
                o += "&val;";
                i += 5;
                continue;
            }
            let edge = quote.is_none() && space(c) && (i == 0 || i + 1 == cs.len() || o.ends_with(';') || cs[i + 1..].iter().all(|c| space(*c)) || cs[..i].iter().all(|c| space(*c)));
            let special = c == '&' || (quote.is_none() && (c == '<' || c == ']')) || Some(c) == quote;
            o += &self.char(c, edge || special);
            i += 1;
        }
        o
    }

    /// Blanks inside a section, around its text, that are taken away again.
    fn around(&mut self, s: &str) -> (String, String) {
        if !self.cfg.trim || s.is_empty() || !self.g.r.pct(25) {
            return (String::new(), String::new());
        }
        let (a, b) = (self.ws(), self.ws());
        match self.g.r.below(3) {
            0 => (a, String::new()),
            1 => (String::new(), b),
            _ => (a, b),
        }
    }

    /// One piece of text, in one of the ways it can be written.
    fn text(&mut self, s: &str) {
        let edges = s.starts_with(space) || s.ends_with(space);
        match self.g.r.below(5) {
            0 if !edges && !s.contains("]]>") && !s.ends_with(']') => {
                let kw = match self.g.r.below(4) {
                    0 => "cdata",
                    1 if self.cfg.sect == "all" => " temp CDATA ",
                    2 if self.cfg.sect == "all" && !self.cfg.pents.is_empty() => "%cd;",
                    _ => "CDATA",
                };
                let (before, after) = self.around(s);
                self.out += &format!("<![{}[{}{}{}]]>", kw, before, s, after);
            }
            1 => {
                let e = self.escaped(s, None);
                let kw = if self.g.r.pct(50) { "RCDATA" } else { " rcData " };
                let (before, after) = self.around(s);
                self.out += &format!("<![{}[{}{}{}]]>", kw, before, e, after);
            }
            _ => {
                let e = self.escaped(s, None);
                self.out += &e;
            }
        }
    }

    /// Text, in pieces.
    fn texts(&mut self, s: &str) {
        let cs: Vec<char> = s.chars().collect();
        let mut from = 0;
        while from < cs.len() {
            let to = if self.g.r.pct(70) { cs.len() } else { self.g.r.range(from + 1, cs.len()) };
            let part: String = cs[from..to].iter().collect();
            self.text(&part);
            from = to;
            if from < cs.len() {
                self.filler(false);
            }
        }
    }

    /// Something without meaning; blanks only where they are not next to text on both sides.
    fn filler(&mut self, blanks: bool) {
        while self.g.r.pct(12) {
            match self.g.r.below(6) {
                0 | 1 if blanks && self.cfg.trim => {
                    let w = self.ws();
                    self.out += &w;
                }
                2 if self.cfg.ign_p => self.out += *self.g.r.pick(&[&"<?p>", &"<?p q=\"<a>", &"<?>"]),
                3 if self.cfg.sect == "all" => self.out += *self.g.r.pick(&[&"<![IGNORE[<a> x ]]>", &"<![ INCLUDE ignore[<![CDATA[</r>]]>]]>", &"<![INCLUDE[]]>"]),
                _ => self.out += *self.g.r.pick(&[&"<!-- c -->", &"<!>", &"<!----  -- <a> -->", &"<!-- ' --\n-- x -->"]),
            }
        }
    }

    fn attributes(&mut self, nd: &Node) {
        for (k, v) in &nd.at {
            self.space();
            let k = self.name(k);
            self.out += &k;
            let v = match v {
                Some(v) => v,
                None => continue,
            };
            for c in ["", "=", ""] {
                if self.g.r.pct(10) {
                    self.space();
                }
                self.out += c;
            }
            let bare = !v.is_empty() && v.chars().all(|c| !space(c) && c != '"' && c != '\'' && c != '>') && self.g.r.pct(40);
            if bare {
                self.out += v;
            } else {
                let q = if self.g.r.pct(50) { '"' } else { '\'' };
                let e = self.escaped(v, Some(q));
                self.out += &format!("{}{}{}", q, e, q);
            }
        }
        if !nd.at.is_empty() || self.g.r.pct(8) {
            if self.g.r.pct(30) {
                self.space();
            }
        }
    }

    /// `followed`: a tag follows this element, not text.
    fn element(&mut self, nd: &Node, above: &mut Vec<String>, followed: bool) {
        self.out += "<";
        let n = self.name(&nd.n);
        self.out += &n;
        self.attributes(nd);
        if nd.kids.is_empty() && self.g.r.pct(40) {
            self.out += if nd.at.is_empty() { "/>" } else { " />" };
            return;
        }
        self.out += ">";
        let text_only = nd.kids.iter().all(|k| matches!(k, Kid::Text(_)));
        let last_blank = matches!(nd.kids.last(), Some(Kid::Text(t)) if t.ends_with(space) || t.is_empty());
        above.push(nd.n.clone());
        for (i, k) in nd.kids.iter().enumerate() {
            let after_text = i > 0 && matches!(nd.kids[i - 1], Kid::Text(_));
            let is_text = matches!(k, Kid::Text(_));
            self.filler(!(after_text && is_text));
            match k {
                Kid::Text(t) if t.is_empty() => self.out += if self.g.r.pct(50) { "" } else { "<![CDATA[]]>" },
                Kid::Text(t) => self.texts(t),
                Kid::Elem(e) => {
                    let followed = !matches!(nd.kids.get(i + 1), Some(Kid::Text(_)));
                    if self.cfg.sect == "all" && self.inc < 3 && self.g.r.pct(8) {
                        self.inc += 1;
                        self.out += *self.g.r.pick(&[&"<![INCLUDE[", &"<![ temp [", &"<![["]);
                        self.element(e, above, followed);
                        self.out += "]]>";
                        self.inc -= 1;
                    } else {
                        self.element(e, above, followed);
                    }
                }
                Kid::Bad(_) => unreachable!(),
            }
        }
        self.filler(true);
        above.pop();
        if text_only && !last_blank && followed && !above.contains(&nd.n) && self.g.r.pct(50) {
            return;
        }
        let n = self.name(&nd.n);
        self.out += &format!("</{}", n);
        if self.g.r.pct(10) {
            self.space();
        }
        self.out += ">";
    }

    fn document(&mut self, root: &Node) {
        while self.g.r.pct(25) {
            match self.g.r.below(5) {
                0 if self.cfg.ign_d => self.out += *self.g.r.pick(&[&"<!DOCTYPE r>", &"<!DOCTYPE r [ <!ENTITY x \"]>\"> -- ]> -- ]>", &"<!ELEMENT a - o (#PCDATA)>"]),
                1 if self.cfg.ign_p => self.out += "<?xml version=\"1.0\"?>",
                2 => self.out += "<!-- <r> -->",
                _ => {
                    let w = self.ws();
                    self.out += &w;
                }
            }
        }
        self.element(root, &mut vec![], true);
        self.filler(true);
    }
}

fn tidy(nd: &mut Node, names: &str) {
    let norm = |s: &str| match names {
        "lower" => s.to_lowercase(),
        "upper" => s.to_uppercase(),
        _ => s.to_string(),
    };
    nd.n = if nd.n.is_empty() { norm("e") } else { norm(&nd.n) };
    nd.at.retain(|(k, _)| !k.is_empty());
    for (k, _) in &mut nd.at {
        *k = norm(k);
    }
    nd.kids.retain(|k| !matches!(k, Kid::Bad(_)));
    for k in &mut nd.kids {
        if let Kid::Elem(e) = k {
            tidy(e, names);
        }
    }
}

/// Nothing that would have to be written as a reference.
fn plain(nd: &mut Node) {
    let p = |s: &str| s.trim().replace('&', "%").replace('<', "#").replace(']', ";");
    for (_, v) in &mut nd.at {
        if let Some(v) = v {
            *v = p(v).replace('"', "=");
        }
    }
    for k in &mut nd.kids {
        match k {
            Kid::Elem(e) => plain(e),
            Kid::Text(t) => *t = p(t),
            Kid::Bad(_) => (),
        }
    }
}

pub fn input(prof: &str, seed: u64) -> Value {
    let mut g = Gen::new(seed, Prof { refs: 0, ..Prof::default() });
    let names = g.r.pick(&["keep", "keep", "keep", "lower", "lower", "lower", "upper"]);
    let ents = [("lt", "<"), ("amp", "&"), ("gt", ">"), ("quot", "\""), ("val", "value"), ("sp", " "), ("rsqb", "]")];
    let cfg = Cfg {
        trim: g.r.pct(85),
        names: names.into(),
        sect: (*g.r.pick(&["chars", "all", "all"])).into(),
        ign_d: g.r.pct(60),
        ign_p: g.r.pct(60),
        ents: if g.r.pct(70) { ents.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() } else { vec![] },
        pents: if g.r.pct(50) { vec![("cd".into(), "CDATA".into())] } else { vec![] },
    };
    let (mut root, ty) = deser::tree(&mut g, prof);
    tidy(&mut root, names);
    if prof == "C33S" && g.r.pct(70) {
        plain(&mut root);
    }
    let mut s = Speller { g: &mut g, cfg: cfg.clone(), out: String::new(), inc: 0, refs: if prof == "C33S" { 1 } else { 6 } };
    s.document(&root);
    let src = s.out;
    let mut can = vec![];
    root.events(&mut can);
    let alt = g.r.below(64);
    json!({"k": "pipeline", "src": enc(&src), "text": src, "cfg": cfg.to_json(), "can": can, "ty": ty, "alt": alt})
}

// ---- values that borrow from the source ------------------------------------------------------------------------------

pub fn lent_input(seed: u64) -> Value {
    let mut v = input("C33S", seed);
    v["k"] = json!("lent");
    v
}

pub fn lent_behaviour(head: &Value, v: &Value) -> Value {
    json!({"k": "lent", "src": v[0], "text": dec(&v[0]), "cfg": head["cfg"], "ty": head["types"][v[1].as_u64().unwrap() as usize - 1], "alt": 0})
}

/// Input: src, cfg, ty, alt. Result: parsed (parsed and normalized), and as in deser.
pub fn run_lent(input: &Value) -> Value {
    let a = input["alt"].as_u64().unwrap_or(0) as usize;
    let src = dec(&input["src"]);
    let cfg = Cfg::from_json(&input["cfg"]);
    let f = catch_unwind(AssertUnwindSafe(|| cfg.parser(a).parse(&src).ok().and_then(normalized)));
    let mut v = match f {
        Ok(Some(f)) => {
            let mut v = deser::read_lent(f, &input["ty"], a);
            v["parsed"] = json!(true);
            v
        }
        f => json!({"panic": f.is_err(), "parsed": false, "ok": false, "v": [], "agree": true, "why": [], "msg": ""}),
    };
    v["parsed"] = json!(v["parsed"] == json!(true));
    v
}

/// Behaviours of the specification: [source, type, outcome].
pub fn lent_session(path: &str, w: &Watch) -> Tally {
    let mut it = printed(path);
    let head = it.next().expect("TLC printed nothing");
    let mut t = Tally::new();
    for v in it {
        let mut input = lent_behaviour(&head, &v);
        input["alt"] = json!(t.cases % 64);
        w.begin(t.cases);
        let res = run_lent(&input);
        t.cases += 1;
        t.ok += (v[2][0] == "ok") as usize;
        if res["parsed"] != json!(true) || !deser::conforms(&v[2], &res) {
            let mut case = input.clone();
            case["expected"] = v[2].clone();
            case["observed"] = res;
            t.fail(case);
        }
        t.sample(|| json!({"source": dec(&v[0]).chars().take(1500).collect::<String>(), "type": v[1], "specified": v[2][0]}));
    }
    t
}
