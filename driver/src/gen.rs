//! Grammar-directed generation of documents and configurations.
use crate::cfg::Cfg;
use crate::rng::Rng;

/// What a generated document should concentrate on (relative weights, percentages).
#[derive(Clone, Debug)]
pub struct Prof {
    pub text: usize,
    pub stag: usize,
    pub etag: usize,
    pub empty: usize, // "<>" and "</>"
    pub comment: usize,
    pub cdata: usize,
    pub rcdata: usize,
    pub ignore: usize,
    pub include: usize,
    pub weird_kw: usize, // unusual but valid keyword lists
    pub pi: usize,
    pub decl: usize,
    pub prolog: usize,   // percent of documents with a prolog
    pub refs: usize,     // percent of text pieces that are references
    pub undef: usize,    // percent of documents with undefined references
    pub unicode: usize,  // percent of names/text pieces using non-ASCII
    pub garble: usize,   // percent of documents that are mutated
    pub items: usize,    // typical maximum of items
    pub big: usize,      // percent of documents scaled up
    pub attrs: usize,    // typical number of attributes
    pub modes: [usize; 3], // weights of keep, chars, all
    pub norm: usize,     // percent of configurations normalizing names
    pub no_trim: usize,  // percent with trimming off
    pub ignores: usize,  // percent with each ignore flag on
    pub long_lines: usize,
    pub lookup: usize,   // percent of configurations with entity lookups
    pub bad_kw: usize,   // percent of keyword lists with an unknown keyword
    pub xml: usize,      // percent of tags that are XML-style empty
    pub soup: usize,     // percent of documents that are a random sequence of delimiters
}

impl Default for Prof {
    fn default() -> Self {
        Prof {
            text: 30, stag: 30, etag: 20, empty: 2, comment: 8, cdata: 3, rcdata: 3, ignore: 3,
            include: 5, weird_kw: 20, pi: 3, decl: 3, prolog: 25, refs: 10, undef: 4, unicode: 15,
            garble: 10, items: 8, big: 3, attrs: 2, modes: [2, 3, 5], norm: 30, no_trim: 30,
            ignores: 20, long_lines: 0, lookup: 70, bad_kw: 0, soup: 1, xml: 12,
        }
    }
}

pub const ENTS: &[(&str, &str)] = &[
    ("lt", "<"), ("gt", ">"), ("amp", "&"), ("quot", "\""), ("apos", "'"), ("sp", " "), ("nl", "\n"),
    ("empty", ""), ("a", "&b;"), ("b", "[b]"), ("tag", "<x y='1'>"), ("end", "]]>"), ("eacute", "\u{e9}"),
    ("\u{e9}t\u{e9}", "summer"), ("a.b-c_d:e1", "dotted"), ("A", "upper a"), ("#SPACE", " "), ("#RE", "\r"),
    ("#1114112", "[big]"), ("#55296", "[surrogate]"), ("#x110000", "[hexbig]"), ("#xg1", "[nohex]"),
    ("#x", "[x]"), ("#X41", "[X41]"), ("#99999999999999999999", "[huge]"), ("pad", "  padded\t"), ("num", "42"),
    ("self", "&self;"), ("com", "<!-- c -->"), ("#57343", ""),
];
pub const PENTS: &[(&str, &str)] = &[
    ("inc", "INCLUDE"), ("ign", "IGNORE"), ("cd", "CDATA"), ("rc", "RcData"), ("tmp", "temp"), ("none", ""),
    ("two", "INCLUDE  CDATA"), ("bad", "BOGUS"), ("rec", "%inc;"), ("a.b", "include"), ("#f", "ignore"),
    ("\u{e9}", "cdata"), ("ws", " \t"), ("nl", "\nINCLUDE\n"), ("Ign", "INCLUDE"), ("amp", "&lt;"),
];
const NAMES: &[&str] = &[
    "a", "b", "c", "A", "B", "x", "ab", "Ab", "aB", "AB", "foo", "Foo", "FOO", "bar", "h1", "x-y", "n.m", "p_q",
    "ns:el", "a1b2", "title", "OPTION", "Li", "i", "I", "aa", "z-", "k.", "q:",
];
const UNAMES: &[&str] = &[
    "\u{e9}", "\u{c9}t\u{e9}", "stra\u{df}e", "\u{984c}", "x\u{b2}", "a\u{663}", "\u{fb01}n", "\u{1c5}a", "\u{1c4}",
    "\u{131}x", "\u{130}st", "\u{3c3}\u{3c2}", "\u{3a3}", "A\u{3a3}", "\u{3a3}b\u{3a3}.", "x:\u{3a3}", "\u{ff21}\u{3a3}-\u{3a3}", "1\u{3a3}", "a\u{3a3}.B\u{3a3}2", "\u{416}", "\u{436}X", "\u{24b6}", "\u{24d0}b", "\u{2160}", "\u{2170}i",
    "\u{ff21}\u{ff41}", "\u{10400}", "\u{10428}z", "\u{3042}", "\u{5d0}1", "\u{1d400}", "A\u{e9}.B", "\u{df}", "b\u{1d7ce}\u{bd}",
];
/// Names that mean something elsewhere, and nothing here.
pub const SPECIAL: &[&str] = &[
    "html", "head", "body", "p", "P", "br", "BR", "hr", "img", "input", "li", "option", "script", "SCRIPT", "style", "STYLE", "textarea", "pre",
    "td", "tr", "table", "tbody", "dd", "dt", "meta", "link", "base", "col", "area", "plaintext", "xmp", "svg", "xml", "XML", "sgml", "xmlns",
    "xmlns:x", "xml:lang", "xml:space", "xsi:nil", "xsi:type", "id", "ID", "class", "name", "type", "value", "checked", "selected", "disabled",
    "href", "src", "style", "lang", "nil", "null", "none", "CDATA", "RCDATA", "IGNORE", "INCLUDE", "TEMP", "DOCTYPE", "ENTITY", "amp", "lt", "root", "R", "e1",
];
const WORDS: &[&str] = &[
    "hello", "x", "1", "42", "true", "DEBIT", "a b", "foo bar", ".", ",", "-", "--", "->", "-->", ">", ">>", "=", "/", "//",
    "\"", "'", "[", "]", "]]", "]]>", "]>", "!", "?", "%", "%a;", "&", "&;", "&#", "&#;", "& ", "&&", "&%", "%;", "#", ";", "\\",
    "[CDATA[", "yes", "no", "on", "off", "null", "true", "FALSE", "0", "javascript:x", "html", "br/", "http://x/?a=1", "it's", "\u{c}", "{", "}", "`", "~", "^", "$", "@", "*",
];
const LTS: &[&str] = &["<", "< ", "<1", "<=", "<-", "</", "</ ", "</1", "<!", "<! ", "<!1", "<<", "<]", "<\"", "</ a>", "<\u{b2}", "<\u{663}"];
const UWORDS: &[&str] = &[
    "\u{e9}", "\u{984c}\u{3042}", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "\u{2028}", "\u{1f600}", "na\u{e9}ve", "\u{301}",
    "\u{ad}", "\u{feff}", "\u{fffd}", "\u{0}", "\u{1}", "\u{b}", "\u{7f}", "\u{10ffff}", "\u{1f}", "\u{e000}",
];
const SPACES: &[&str] = &[" ", "  ", "\n", "\t", "\r\n", "\r", "\n  ", " \t "];

pub struct Gen {
    pub r: Rng,
    pub p: Prof,
    pub cfg: Cfg,
    undef: bool,
    budget: isize,
    open: Vec<String>,
}

impl Gen {
    pub fn new(seed: u64, p: Prof) -> Self {
        Gen { r: Rng::new(seed), p, cfg: Cfg::default(), undef: false, budget: 0, open: vec![] }
    }

    pub fn config(&mut self) -> Cfg {
        let mut c = Cfg::default();
        if self.r.pct(6) {
            self.cfg = c.clone();
            return c;
        }
        c.trim = !self.r.pct(self.p.no_trim);
        if self.r.pct(self.p.norm) {
            c.names = (*self.r.pick(&["lower", "upper"])).into();
        }
        let m = self.p.modes;
        c.sect = ["keep", "chars", "all"][self.r.weighted(&m)].into();
        c.ign_d = self.r.pct(self.p.ignores);
        c.ign_p = self.r.pct(self.p.ignores);
        let keep = self.r.range(20, 100);
        if self.r.pct(self.p.lookup) {
            for (n, t) in ENTS {
                if self.r.pct(keep) {
                    c.ents.push((n.to_string(), t.to_string()));
                }
            }
        }
        if self.r.pct(self.p.lookup) {
            for (n, t) in PENTS {
                if self.r.pct(keep) {
                    c.pents.push((n.to_string(), t.to_string()));
                }
            }
        }
        if self.r.pct(22) {
            // names defined for the other kind of reference, too, or only there
            let k = self.r.below(4);
            if k != 0 {
                for (n, t) in PENTS {
                    if self.r.pct(keep) && !c.ents.iter().any(|e| e.0 == *n) {
                        c.ents.push((n.to_string(), t.to_string()));
                    }
                }
            }
            if k != 1 {
                for (n, t) in ENTS {
                    if self.r.pct(keep) && !c.pents.iter().any(|e| e.0 == *n) {
                        c.pents.push((n.to_string(), t.to_string()));
                    }
                }
            }
            match self.r.below(5) {
                0..=1 => c.pents.clear(),
                2 => c.ents.clear(),
                _ => {}
            }
        }
        self.cfg = c.clone();
        c
    }

    pub fn sp0(&mut self) -> String {
        if self.r.pct(70) { String::new() } else { self.sp1() }
    }
    pub fn sp1(&mut self) -> String {
        let mut s = self.r.pick(SPACES).to_string();
        while self.r.pct(15) {
            s += self.r.pick(SPACES);
        }
        s
    }

    pub fn name(&mut self) -> String {
        if self.r.pct(self.p.unicode) {
            return self.r.pick(UNAMES).to_string();
        }
        if self.r.pct(6) {
            return self.r.pick(SPECIAL).to_string();
        }
        match self.r.below(20) {
            0 => {
                let n = self.r.range(5, 40);
                let mut s = String::from("n");
                for _ in 0..n {
                    s.push(self.r.pick_char("abcXYZ019.-_:"));
                }
                s
            }
            1 => format!("{}{}", self.r.pick(NAMES), self.r.pick(NAMES)),
            _ => self.r.pick(NAMES).to_string(),
        }
    }

    /// A general entity or character reference.
    pub fn reference(&mut self) -> String {
        let semi = if self.r.pct(80) { ";" } else { "" };
        if self.r.pct(50) {
            // numeric
            let n: u32 = match self.r.below(12) {
                0 => 0,
                1 => 9,
                2 => 10,
                3 => 32,
                4 => *self.r.pick(&[&60u32, &62, &38, &34, &39, &93, &59]),
                5 => *self.r.pick(&[&55295u32, &55296, &57343, &57344]),
                6 => *self.r.pick(&[&1114111u32, &1114112, &65535, &65536, &1114110]),
                7 => 0xe9,
                8 => *self.r.pick(&[&127u32, &128, &159, &160, &255, &256]),
                _ => self.r.range(33, 126) as u32,
            };
            let bad = char::from_u32(n).is_none();
            if bad && !self.undef && !self.cfg.ents.iter().any(|(k, _)| *k == format!("#{}", n)) {
                return "&#33;".into();
            }
            if bad {
                return format!("&#{}{}", n, semi);
            }
            let z = *self.r.pick(&[&"", &"", &"", &"0", &"000000"]);
            return match self.r.below(3) {
                0 => format!("&#x{}{:x}{}", z, n, if semi.is_empty() { " " } else { semi }),
                1 => format!("&#x{}{:X}{}", z, n, if semi.is_empty() { "!" } else { semi }),
                _ => format!("&#{}{}{}", z, n, semi),
            };
        }
        if self.undef && self.r.pct(20) && !self.cfg.pents.is_empty() {
            let k = self.r.below(self.cfg.pents.len());
            return format!("&{};", self.cfg.pents[k].0);
        }
        if self.undef && self.r.pct(20) {
            // defined in HTML and XML, but perhaps not here
            return format!("&{}{}", self.r.pick(&["amp", "lt", "gt", "quot", "apos", "nbsp", "copy", "eacute", "#10", "AMP", "LT", "hellip", "#SPACE", "#RS", "#TAB"]), semi);
        }
        if self.undef && self.r.pct(40) {
            return format!("&{}{}", self.r.pick(&["undef", "#NOPE", "#4294967296", "#x7fffffffff", "#xd800", "Lt", "l", "#1114113", "#x-1", "\u{984c}"]), semi);
        }
        if self.cfg.ents.is_empty() {
            return "&#38;".into();
        }
        let k = self.r.below(self.cfg.ents.len());
        let n = self.cfg.ents[k].0.clone();
        // without ";" the name must not run into what follows
        if semi.is_empty() { format!("&{} ", n) } else { format!("&{};", n) }
    }

    pub fn piece(&mut self) -> String {
        if self.r.pct(self.p.refs) {
            return self.reference();
        }
        if self.r.pct(self.p.unicode) {
            return self.r.pick(UWORDS).to_string();
        }
        match self.r.below(10) {
            0..=2 => self.sp1(),
            3 => self.r.pick(LTS).to_string(),
            4..=5 => self.r.pick(NAMES).to_string(),
            _ => self.r.pick(WORDS).to_string(),
        }
    }

    fn text_pieces(&mut self, mut n: usize) -> String {
        let mut s = String::new();
        while n > 0 {
            s += &self.piece();
            n -= 1;
        }
        s
    }

    pub fn text(&mut self) -> String {
        let n = 1 + self.r.size(12);
        let mut s = self.text_pieces(n);
        if self.r.pct(10) {
            s = self.sp1(); // blank
        }
        if self.p.long_lines > 0 && self.r.pct(self.p.long_lines) {
            let n = self.r.range(20, 140);
            for _ in 0..n {
                s.push(self.r.pick_char("abc defgh\u{e9}\u{984c}\u{1f600}"));
            }
        }
        s
    }

    fn attr_value(&mut self) -> String {
        let n = self.r.size(6);
        self.text_pieces(n)
    }

    pub fn attribute(&mut self) -> String {
        let n = self.name();
        match self.r.below(10) {
            0..=1 => n,
            2..=4 => {
                let mut v = String::new();
                for _ in 0..self.r.range(1, 5) {
                    let w = match self.r.below(5) {
                        0 => self.r.pick(WORDS).to_string(),
                        1 => self.r.pick(LTS).to_string(),
                        2 => "&undef;".into(),
                        3 => self.r.pick(UWORDS).to_string(),
                        _ => self.r.pick(NAMES).to_string(),
                    };
                    v += &w;
                }
                v.retain(|c| !matches!(c, '"' | '\'' | '>' | ' ' | '\t' | '\r' | '\n'));
                if v.is_empty() {
                    v.push('v');
                }
                format!("{}{}={}{}", n, self.sp0(), self.sp0(), v)
            }
            5..=7 => {
                let v = self.attr_value().replace('"', "");
                format!("{}{}={}\"{}\"", n, self.sp0(), self.sp0(), v)
            }
            _ => {
                let v = self.attr_value().replace('\'', "");
                format!("{}{}={}'{}'", n, self.sp0(), self.sp0(), v)
            }
        }
    }

    fn start_tag(&mut self) -> String {
        let n = self.name();
        let mut s = format!("<{}", n);
        let na = if self.r.pct(40) { 0 } else { self.r.size(self.p.attrs * 8).min(self.p.attrs * 8) };
        for _ in 0..na {
            s += &self.sp1();
            s += &self.attribute();
        }
        let xml = self.r.pct(self.p.xml);
        if xml {
            // an unquoted value would swallow the slash
            s += " ";
        } else {
            s += &self.sp0();
        }
        s += if xml { "/>" } else { ">" };
        if !xml {
            self.open.push(n);
        }
        s
    }

    fn end_tag(&mut self) -> String {
        let n = match self.open.pop() {
            Some(n) if self.r.pct(85) => n,
            _ => self.name(),
        };
        format!("</{}{}>", n, self.sp0())
    }

    fn comment_body(&mut self) -> String {
        let n = self.r.size(6);
        let mut s = String::new();
        for _ in 0..n {
            s += self.r.pick(&["x", " ", ">", "<b>", "</b>", "&undef;", "]]>", "<![CDATA[", "-", "<!", "\"", "'", "\n", "\u{e9}", "%x;", "<?", "[", "]"]);
        }
        while s.contains("--") {
            s = s.replace("--", "-");
        }
        s.trim_matches('-').to_string()
    }

    pub fn comment(&mut self) -> String {
        if self.r.pct(12) {
            return "<!>".into();
        }
        let mut s = format!("<!--{}--", self.comment_body());
        while self.r.pct(20) {
            s += &self.sp0();
            s += &format!("--{}--", self.comment_body());
        }
        s + ">"
    }

    fn pi(&mut self) -> String {
        let n = self.r.size(6);
        let mut s = String::from("<?");
        if self.r.pct(15) {
            s += self.r.pick(&["xml version=\"1.0\"", "xml-stylesheet href='x'", "php echo", "XML ", "IS10744 ", "=", "/x"]);
        }
        for _ in 0..n {
            s += self.r.pick(&["xml", " ", "a=\"b\"", "<", "?", "&undef;", "--", "]]", "\n", "\u{e9}", "'", "/", "!"]);
        }
        s + ">"
    }

    fn decl_body(&mut self, depth: usize) -> String {
        let n = self.r.size(6);
        let mut s = String::new();
        for _ in 0..n {
            s += &match self.r.below(12) {
                0 => "html".to_string(),
                1 => " ".into(),
                2 => "PUBLIC".into(),
                3 => format!("\"{}\"", self.r.pick(&["-//W3C//DTD>", "", "'", "]>", "--", "<!", "&undef;", "\u{e9}"])),
                4 => format!("'{}'", self.r.pick(&["http://x>", "", "\"", "]", "<b>"])),
                5 => format!("--{}--", self.comment_body()),
                6 => self.r.pick(&[" - ", " -", "- ", "-x ", " -X", "-\u{e9}"]).to_string(),
                7 => "(#PCDATA)*".into(),
                8 => "]".into(),
                9 | 10 if depth > 0 => format!("[{}]", self.subset(depth - 1)),
                _ => self.r.pick(&["\n", "x", "%", "&", "=", "/", "\u{e9}", "?", "!", ",", "\t"]).to_string(),
            };
        }
        s
    }

    fn subset(&mut self, depth: usize) -> String {
        let n = self.r.size(5);
        let mut s = String::new();
        for _ in 0..n {
            s += &match self.r.below(8) {
                0 => format!("<!{}{}{}>", self.r.pick(&["ENTITY", "ELEMENT", "x"]), self.sp1(), self.decl_body(depth)),
                1 => self.comment(),
                2 => format!("--{}--", self.comment_body()),
                3 => "\"]>\"".to_string(),
                4 if depth > 0 => format!("[{}]", self.subset(depth - 1)),
                _ => self.r.pick(&[" ", "\n", "abc", "%e;", "&", "(", "\u{984c}"]).to_string(),
            };
        }
        s
    }

    fn decl(&mut self) -> String {
        let k = match self.r.below(4) {
            0 => self.name(),
            1 => self.r.pick(&["doctype", "Doctype", "ENTITY", "ELEMENT", "ATTLIST", "NOTATION", "SHORTREF", "USEMAP", "SGML", "LINKTYPE", "element", "doctypes"]).to_string(),
            _ => "DOCTYPE".into(),
        };
        format!("<!{}{}{}{}>", k, self.sp1(), self.decl_body(2), self.sp0())
    }

    /// A valid keyword list for one of the statuses.
    pub fn keywords(&mut self, status: &str) -> String {
        let canon = status.to_uppercase();
        if self.r.pct(self.p.bad_kw) {
            let bad = *self.r.pick(&[&"bogus", &"INCLUDED", &"I", &"CDATA-", &"CDATA,", &"\u{130}GNORE", &"CDATA\u{a0}", &"R", &"%", &"%;",
                &"&#67;DATA", &"CDATA RCDATA", &"IGNORE", &"INCLUDE", &"temp", &"", &"RCDATACDATA", &"CDATA CDATA", &"\u{ff23}DATA"]);
            return match self.r.below(4) {
                0 => format!("{} {}", canon, bad),
                1 => format!("{}\t{}", bad, canon),
                2 => format!("{}{}", canon, bad),
                _ => bad.to_string(),
            };
        }
        if !self.r.pct(self.p.weird_kw) || self.cfg.sect == "chars" {
            let k: String = canon
                .chars()
                .map(|c| if self.cfg.sect == "chars" && self.r.pct(80) { c } else if self.r.pct(25) { c.to_ascii_lowercase() } else { c })
                .collect();
            return if self.r.pct(25) { format!("{}{}{}", self.sp0(), k, self.sp0()) } else { k };
        }
        let weaker: &[&str] = match status {
            "ignore" => &["CDATA", "rcdata", "Include", "TEMP", "temp", "IGNORE"],
            "cdata" => &["rcdata", "include", "TEMP", "CData"],
            "rcdata" => &["include", "TEMP", "rcData"],
            _ => &["temp", "INCLUDE", "Temp"],
        };
        let mut ws: Vec<String> = vec![];
        if !(status == "include" && self.r.pct(25)) {
            ws.push(canon);
        }
        for _ in 0..self.r.size(5) {
            let w = self.r.pick(weaker).to_string();
            let k = self.r.below(ws.len() + 1);
            ws.insert(k, w);
        }
        let mut s = self.sp0();
        for (i, w) in ws.iter().enumerate() {
            if i > 0 {
                s += &self.sp1();
                if self.r.pct(10) {
                    s.push('\u{c}');
                }
            }
            s += w;
        }
        let pick: Vec<(String, String)> = self.cfg.pents.clone();
        for (n, t) in pick {
            if s.contains(&t) && !t.is_empty() && t.chars().all(|c| c.is_ascii_uppercase()) && self.r.pct(40) {
                s = s.replacen(&t, &format!("%{};", n), 1);
            }
        }
        if self.r.pct(10) && self.cfg.pents.iter().any(|(n, _)| n == "none") {
            s += "%none;";
        }
        if self.undef && self.r.pct(20) {
            s += " %undef;";
        } else if self.r.pct(if self.cfg.pents.is_empty() { 12 } else { 3 }) {
            // defined for general references, perhaps
            let k = self.r.below(PENTS.len());
            s += &format!(" %{};", PENTS[k].0);
        }
        s + &self.sp0()
    }

    fn flat_body(&mut self) -> String {
        let n = self.r.size(8);
        let mut s = String::new();
        for _ in 0..n {
            s += &match self.r.below(10) {
                0 => "<b x='".to_string(),
                1 => "</b>".into(),
                2 => "<!-- c ".into(),
                3 => "]]".into(),
                4 => "<![".into(),
                5 => "&#33;".into(),
                _ => self.piece(),
            };
        }
        while s.contains("]]>") {
            s = s.replace("]]>", "]>");
        }
        s
    }

    fn section(&mut self, status: &str, depth: usize) -> String {
        let kw = self.keywords(status);
        let body = match status {
            "include" => {
                let saved = std::mem::take(&mut self.open);
                let n = self.r.size(5);
                let mut b = String::new();
                for _ in 0..n {
                    b += &self.item(depth + 1);
                }
                self.open = saved;
                // text may contain the closing delimiter; that only shortens the section
                b
            }
            "ignore" => {
                let mut b = self.flat_body().replace("<![", "");
                let pairs = if self.r.pct(20) { self.r.size(25) } else { self.r.below(3) };
                let mut depth = 0;
                for _ in 0..pairs {
                    if depth > 0 && self.r.pct(50) {
                        b += "]]>";
                        depth -= 1;
                    } else {
                        b += self.r.pick(&["<![", "<![CDATA[", "<![ x", "<<!["]);
                        depth += 1;
                    }
                    b += self.r.pick(&["", "y", " ", "]]", "<", "<!", "]"]);
                }
                for _ in 0..depth {
                    b += "]]>";
                }
                b
            }
            "rcdata" => {
                let mut b = self.flat_body();
                if !self.undef {
                    b = self.defuse(b);
                }
                b
            }
            _ => self.flat_body(),
        };
        format!("<![{}[{}]]>", kw, body)
    }

    /// Makes sure no undefined reference is formed by accident.
    fn defuse(&self, s: String) -> String {
        let f = |n: &str| crate::cfg::lookup(&self.cfg.ents, n);
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sgmlish::entities::expand_entities(&s, f).is_ok()));
        if ok.unwrap_or(true) { s } else { s.replace('&', "+") }
    }

    pub fn item(&mut self, depth: usize) -> String {
        self.budget -= 1;
        let p = self.p.clone();
        let inc = if depth > 6 || self.cfg.sect == "chars" { 0 } else { p.include };
        let ign = if self.cfg.sect == "chars" { 0 } else { p.ignore };
        match self.r.weighted(&[p.text, p.stag, p.etag, p.empty, p.comment, p.cdata, p.rcdata, ign, inc, p.pi]) {
            0 => {
                let t = self.text();
                if self.undef { t } else { self.defuse(t) }
            }
            1 => self.start_tag(),
            2 => self.end_tag(),
            3 => self.r.pick(&["<>", "</>"]).to_string(),
            4 => self.comment(),
            5 => self.section("cdata", depth),
            6 => self.section("rcdata", depth),
            7 => self.section("ignore", depth),
            8 => self.section("include", depth),
            _ => self.pi(),
        }
    }

    pub fn document(&mut self) -> String {
        self.undef = self.r.pct(self.p.undef);
        self.open.clear();
        if self.r.pct(self.p.soup) {
            return self.soup();
        }
        let mut s = self.sp0();
        if self.r.pct(self.p.prolog) {
            for _ in 0..self.r.range(1, 4) {
                let p = self.p.clone();
                s += &match self.r.weighted(&[p.decl + 2, p.comment, p.pi, p.cdata, p.include, p.ignore, 2]) {
                    0 => self.decl(),
                    1 => self.comment(),
                    2 => self.pi(),
                    3 => self.section("cdata", 0),
                    4 if self.cfg.sect != "chars" => self.section("include", 0),
                    5 if self.cfg.sect != "chars" => self.section("ignore", 0),
                    _ => self.sp1(),
                };
                s += &self.sp0();
            }
        }
        let mut n = 1 + self.r.below(self.p.items);
        if self.r.pct(self.p.big) {
            n *= 6;
        }
        for _ in 0..n {
            s += &self.item(0);
        }
        if self.r.pct(60) {
            while let Some(n) = self.open.pop() {
                s += &format!("</{}>", n);
            }
        }
        if self.r.pct(self.p.garble) {
            s = self.garble(s);
        }
        s
    }

    /// A random sequence of delimiters and words.
    fn soup(&mut self) -> String {
        let n = 1 + self.r.size(60);
        let mut s = String::new();
        for _ in 0..n {
            s += self.r.pick(&[
                "<", ">", "!", "[", "]", "-", "--", "/", "?", "&", "#", ";", "\"", "'", "=", "%", " ", "\n", "a", "B", "1", "\u{e9}", "\u{984c}",
                "<a>", "</a>", "<a", "/>", "<!", "<![", "]]>", "<!--", "-->", "<?", "CDATA", "<![CDATA[", "<![RCDATA[", "<![IGNORE[",
                "<![INCLUDE[", "<!DOCTYPE", "&lt;", "&#65;", "&#x", "%inc;", "x=1", "\r", "\t", "\u{1f600}", "\u{0}", "<>", "</>",
            ]);
        }
        s
    }

    /// A few random edits.
    pub fn garble(&mut self, s: String) -> String {
        let mut cs: Vec<char> = s.chars().collect();
        for _ in 0..self.r.range(1, 3) {
            if cs.is_empty() {
                break;
            }
            let k = self.r.below(cs.len());
            match self.r.below(6) {
                0 => {
                    cs.truncate(k);
                }
                1 => {
                    cs.remove(k);
                }
                2 => {
                    let c = self.r.pick_char("<>!/?[]&#;\"'=-% \na\u{e9}");
                    cs.insert(k, c);
                }
                3 => {
                    cs[k] = self.r.pick_char("<>!/?[]&#;\"'=-% \na\u{e9}");
                }
                4 => {
                    let ins = self.r.pick(&["<!", "]]>", "<![", "-->", "<!--", "</", "/>", "<?", "&x;", "<!DOCTYPE a>", "<![IGNORE[", "=", "<a b=", "<a b='"]);
                    for (i, c) in ins.chars().enumerate() {
                        cs.insert(k + i, c);
                    }
                }
                _ => {
                    let e = (k + self.r.range(1, 6)).min(cs.len());
                    let dup: Vec<char> = cs[k..e].to_vec();
                    for (i, c) in dup.into_iter().enumerate() {
                        cs.insert(e + i, c);
                    }
                }
            }
        }
        cs.into_iter().collect()
    }
}
