//! Events in the form used by the specification (see spec/SgmlParser.tla).
use serde_json::{json, Value};
use sgmlish::{SgmlEvent, SgmlFragment};

use crate::chars::{dec, enc};

pub fn enc_event(e: &SgmlEvent) -> Value {
    match e {
        SgmlEvent::MarkupDeclaration { keyword, body } => json!(["decl", enc(keyword), enc(body)]),
        SgmlEvent::ProcessingInstruction(s) => json!(["pi", enc(s)]),
        SgmlEvent::MarkedSection { status_keywords, section } => {
            json!(["sect", enc(status_keywords), enc(section)])
        }
        SgmlEvent::OpenStartTag { name } => json!(["open", enc(name)]),
        SgmlEvent::Attribute { name, value: Some(v) } => json!(["attr", enc(name), enc(v)]),
        SgmlEvent::Attribute { name, value: None } => json!(["attr0", enc(name)]),
        SgmlEvent::CloseStartTag => json!(["close"]),
        SgmlEvent::XmlCloseEmptyElement => json!(["xclose"]),
        SgmlEvent::EndTag { name } => json!(["end", enc(name)]),
        SgmlEvent::Character(s) => json!(["text", enc(s)]),
    }
}

pub fn enc_events(es: &[SgmlEvent]) -> Value {
    Value::Array(es.iter().map(enc_event).collect())
}

pub fn dec_event(v: &Value) -> SgmlEvent<'static> {
    let s = |i: usize| -> std::borrow::Cow<'static, str> { dec(&v[i]).into() };
    match v[0].as_str().unwrap() {
        "decl" => SgmlEvent::MarkupDeclaration { keyword: s(1), body: s(2) },
        "pi" => SgmlEvent::ProcessingInstruction(s(1)),
        "sect" => SgmlEvent::MarkedSection { status_keywords: s(1), section: s(2) },
        "open" => SgmlEvent::OpenStartTag { name: s(1) },
        "attr" => SgmlEvent::Attribute { name: s(1), value: Some(s(2)) },
        "attr0" => SgmlEvent::Attribute { name: s(1), value: None },
        "close" => SgmlEvent::CloseStartTag,
        "xclose" => SgmlEvent::XmlCloseEmptyElement,
        "end" => SgmlEvent::EndTag { name: s(1) },
        "text" => SgmlEvent::Character(s(1)),
        k => panic!("bad event kind {:?}", k),
    }
}

pub fn dec_events(v: &Value) -> Vec<SgmlEvent<'static>> {
    v.as_array().unwrap().iter().map(dec_event).collect()
}

pub fn dec_fragment(v: &Value) -> SgmlFragment<'static> {
    SgmlFragment::from(dec_events(v))
}

/// For people: the events as markup.
pub fn show(v: &[Value]) -> String {
    let s = SgmlFragment::from(v.iter().map(dec_event).collect::<Vec<_>>()).to_string();
    match s.char_indices().nth(1500) {
        Some((i, _)) => format!("{}…", &s[..i]),
        None => s,
    }
}
