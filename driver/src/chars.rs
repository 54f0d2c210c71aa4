//! The character encoding shared with the specification (see spec/SgmlChars.tla).
use serde_json::Value;

pub fn enc_char(c: char) -> String {
    match c {
        ' '..='~' | '\t' | '\n' | '\r' | '\u{c}' => c.to_string(),
        c => format!("u{:x}", c as u32),
    }
}

pub fn enc(s: &str) -> Value {
    Value::Array(s.chars().map(|c| Value::String(enc_char(c))).collect())
}

pub fn dec_char(t: &str) -> char {
    let mut it = t.chars();
    let first = it.next().expect("empty character token");
    if it.next().is_none() {
        return first;
    }
    char::from_u32(u32::from_str_radix(&t[1..], 16).expect("bad character token"))
        .expect("bad character token")
}

pub fn dec(v: &Value) -> String {
    v.as_array()
        .expect("expected a character array")
        .iter()
        .map(|t| dec_char(t.as_str().expect("expected a character")))
        .collect()
}

/// 1-based character position of a byte offset; 0 if it is not a character boundary.
pub fn char_pos(s: &str, byte: usize) -> usize {
    if byte <= s.len() && s.is_char_boundary(byte) {
        s[..byte].chars().count() + 1
    } else {
        0
    }
}
