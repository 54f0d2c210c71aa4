//! Parser configurations, as exchanged with the specification.
use serde_json::{json, Value};
use sgmlish::parser::{MarkedSectionHandling, NameNormalization};
use sgmlish::Parser;

use crate::chars::{dec, enc};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub trim: bool,
    pub names: String,
    pub sect: String,
    pub ign_d: bool,
    pub ign_p: bool,
    pub ents: Vec<(String, String)>,
    pub pents: Vec<(String, String)>,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            trim: true,
            names: "keep".into(),
            sect: "chars".into(),
            ign_d: false,
            ign_p: false,
            ents: vec![],
            pents: vec![],
        }
    }
}

pub fn lookup(tab: &[(String, String)], name: &str) -> Option<String> {
    tab.iter().find(|(n, _)| n == name).map(|(_, t)| t.clone())
}

impl Cfg {
    pub fn from_json(v: &Value) -> Cfg {
        let tab = |v: &Value| {
            v.as_array()
                .unwrap()
                .iter()
                .map(|p| (dec(&p[0]), dec(&p[1])))
                .collect()
        };
        Cfg {
            trim: v["trim"].as_bool().unwrap(),
            names: v["names"].as_str().unwrap().into(),
            sect: v["sect"].as_str().unwrap().into(),
            ign_d: v["ignD"].as_bool().unwrap(),
            ign_p: v["ignP"].as_bool().unwrap(),
            ents: tab(&v["ents"]),
            pents: tab(&v["pents"]),
        }
    }

    pub fn to_json(&self) -> Value {
        let tab = |t: &[(String, String)]| {
            Value::Array(t.iter().map(|(n, x)| json!([enc(n), enc(x)])).collect())
        };
        json!({
            "trim": self.trim, "names": self.names, "sect": self.sect,
            "ignD": self.ign_d, "ignP": self.ign_p,
            "ents": tab(&self.ents), "pents": tab(&self.pents),
        })
    }

    /// Builds the parser. `variant` selects among equivalent ways of using the builder
    /// (order of the calls, alternative setters, overridden earlier calls).
    pub fn parser(&self, variant: usize) -> Parser {
        if variant % 5 == 4 && self.is_default() {
            return if variant % 2 == 0 { Parser::new() } else { Parser::default() };
        }
        let mut b = Parser::builder();
        if variant % 7 == 3 {
            // Earlier, different settings must be overridden
            b = b
                .trim_whitespace(!self.trim)
                .uppercase_names()
                .expand_marked_sections()
                .ignore_markup_declarations(!self.ign_d)
                .ignore_processing_instructions(!self.ign_p);
        }
        for k in 0..7 {
            b = match (k + variant) % 7 {
                0 => b.trim_whitespace(self.trim),
                1 => match self.names.as_str() {
                    "lower" if variant % 2 == 0 => b.lowercase_names(),
                    "lower" => b.name_normalization(NameNormalization::ToLowercase),
                    "upper" if variant % 2 == 0 => b.uppercase_names(),
                    "upper" => b.name_normalization(NameNormalization::ToUppercase),
                    _ => b.name_normalization(NameNormalization::Unchanged),
                },
                2 => match self.sect.as_str() {
                    "keep" => b.marked_section_handling(MarkedSectionHandling::KeepUnmodified),
                    "all" if variant % 2 == 0 => b.expand_marked_sections(),
                    "all" => b.marked_section_handling(MarkedSectionHandling::ExpandAll),
                    _ => b.marked_section_handling(MarkedSectionHandling::AcceptOnlyCharacterData),
                },
                3 => b.ignore_markup_declarations(self.ign_d),
                4 => b.ignore_processing_instructions(self.ign_p),
                5 if !self.ents.is_empty() => {
                    let t = self.ents.clone();
                    b.expand_entities(move |n| lookup(&t, n))
                }
                6 if !self.pents.is_empty() => {
                    let t = self.pents.clone();
                    b.expand_parameter_entities(move |n| lookup(&t, n))
                }
                _ => b,
            };
        }
        b.build()
    }

    fn is_default(&self) -> bool {
        self.trim
            && self.names == "keep"
            && self.sect == "chars"
            && !self.ign_d
            && !self.ign_p
            && self.ents.is_empty()
            && self.pents.is_empty()
    }
}
