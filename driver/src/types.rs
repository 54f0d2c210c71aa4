//! Types to deserialize into, described as in spec/SgmlDeser.tla, and read the way serde's derived implementations do.
use std::cell::Cell;
use std::collections::HashSet;
use std::fmt;
use std::sync::Mutex;

use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde_json::{json, Value};

use crate::chars::{dec, enc};

#[derive(Debug, Clone)]
pub enum Ty {
    Int(String),
    F32,
    F64,
    Bool,
    Char,
    Str,
    /// &str: text that is lent, not copied
    Ref,
    Unit,
    Ignored,
    Any,
    /// A type that takes less than it is given, or nothing.
    Lazy(&'static str),
    Opt(Box<Ty>),
    New(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    Map(Box<Ty>),
    Struct(Fields),
    Enum(Vec<Variant>, &'static [&'static str]),
}

#[derive(Debug, Clone)]
pub struct Fields {
    list: Vec<(&'static str, Ty, bool)>,
    names: &'static [&'static str],
}

#[derive(Debug, Clone)]
pub struct Variant {
    name: &'static str,
    kind: VariantKind,
}

#[derive(Debug, Clone)]
enum VariantKind {
    Unit,
    Newtype(Ty),
    Tuple(Vec<Ty>),
    Struct(Fields),
}

fn intern(s: String) -> &'static str {
    static POOL: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut p = POOL.lock().unwrap();
    let p = p.get_or_insert_with(HashSet::new);
    if let Some(x) = p.get(s.as_str()) {
        return x;
    }
    let x: &'static str = Box::leak(s.into_boxed_str());
    p.insert(x);
    x
}

fn intern_list(v: Vec<&'static str>) -> &'static [&'static str] {
    static POOL: Mutex<Option<HashSet<&'static [&'static str]>>> = Mutex::new(None);
    let mut p = POOL.lock().unwrap();
    let p = p.get_or_insert_with(HashSet::new);
    if let Some(x) = p.get(v.as_slice()) {
        return x;
    }
    let x: &'static [&'static str] = Box::leak(v.into_boxed_slice());
    p.insert(x);
    x
}

impl Fields {
    fn from_json(v: &Value) -> Fields {
        let list: Vec<_> = v.as_array().unwrap().iter()
            .map(|f| (intern(dec(&f[0])), Ty::from_json(&f[1]), f[2] == "def")).collect();
        let names = intern_list(list.iter().map(|f| f.0).collect());
        Fields { list, names }
    }
}

impl Ty {
    pub fn from_json(v: &Value) -> Ty {
        let sub = || Box::new(Ty::from_json(&v[1]));
        let list = |v: &Value| -> Vec<Ty> { v.as_array().unwrap().iter().map(Ty::from_json).collect() };
        match v[0].as_str().unwrap() {
            "int" => Ty::Int(v[1].as_str().unwrap().into()),
            "float" if v[1] == "f32" => Ty::F32,
            "float" => Ty::F64,
            "bool" => Ty::Bool,
            "char" => Ty::Char,
            "str" => Ty::Str,
            "ref" => Ty::Ref,
            "unit" => Ty::Unit,
            "ignored" => Ty::Ignored,
            "any" => Ty::Any,
            "lazy" => Ty::Lazy(intern(v[1].as_str().unwrap().into())),
            "opt" => Ty::Opt(sub()),
            "new" => Ty::New(sub()),
            "seq" => Ty::Seq(sub()),
            "map" => Ty::Map(sub()),
            "tuple" => Ty::Tuple(list(&v[1])),
            "struct" => Ty::Struct(Fields::from_json(&v[1])),
            "enum" => {
                let vs: Vec<_> = v[1].as_array().unwrap().iter().map(|v| Variant {
                    name: intern(dec(&v[0])),
                    kind: match v[1].as_str().unwrap() {
                        "unit" => VariantKind::Unit,
                        "newtype" => VariantKind::Newtype(Ty::from_json(&v[2])),
                        "tuple" => VariantKind::Tuple(list(&v[2])),
                        "struct" => VariantKind::Struct(Fields::from_json(&v[2])),
                        k => panic!("bad variant {}", k),
                    },
                }).collect();
                let names = intern_list(vs.iter().map(|v| v.name).collect());
                Ty::Enum(vs, names)
            }
            k => panic!("bad type {}", k),
        }
    }
}

thread_local! {
    /// Selects among equivalent ways of asking for a value.
    static ALT: Cell<usize> = const { Cell::new(0) };
    static TYPE: std::cell::RefCell<Option<Ty>> = const { std::cell::RefCell::new(None) };
}

pub fn set_alt(n: usize) {
    ALT.with(|a| a.set(n));
}

fn alt(bit: usize) -> bool {
    ALT.with(|a| a.get() >> bit & 1 == 1)
}

/// A value of the type selected with `with_type`, for interfaces that want a type implementing Deserialize.
pub struct Dyn(pub Value);

pub fn with_type<T>(t: &Ty, f: impl FnOnce() -> T) -> T {
    TYPE.with(|x| *x.borrow_mut() = Some(t.clone()));
    f()
}

impl<'de> de::Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = TYPE.with(|x| x.borrow().clone()).unwrap();
        t.deserialize(d).map(Dyn)
    }
}

impl<'de> DeserializeSeed<'de> for &Ty {
    type Value = Value;

    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        match self {
            Ty::Int(k) => {
                macro_rules! int { ($($k:literal $t:ty),*) => { match k.as_str() {
                    $($k => <$t as de::Deserialize>::deserialize(d).map(|x| json!(["int", enc(&x.to_string())])),)*
                    k => panic!("bad integer type {}", k),
                }}}
                int!("i8" i8, "i16" i16, "i32" i32, "i64" i64, "u8" u8, "u16" u16, "u32" u32, "u64" u64)
            }
            Ty::F32 => <f32 as de::Deserialize>::deserialize(d).map(|x| json!(["float", enc(&x.to_string())])),
            Ty::F64 => <f64 as de::Deserialize>::deserialize(d).map(|x| json!(["float", enc(&x.to_string())])),
            Ty::Bool => <bool as de::Deserialize>::deserialize(d).map(|x| json!(["bool", x])),
            Ty::Char => <char as de::Deserialize>::deserialize(d).map(|x| json!(["char", enc(&x.to_string())])),
            Ty::Str if alt(0) && alt(1) => match (alt(2), alt(3)) {
                (false, false) => d.deserialize_bytes(StrVisitor),
                (false, true) => d.deserialize_byte_buf(StrVisitor),
                (true, false) => d.deserialize_identifier(StrVisitor),
                (true, true) => d.deserialize_string(StrVisitor),
            },
            Ty::Str if alt(0) => d.deserialize_str(StrVisitor),
            Ty::Str if alt(1) => <std::borrow::Cow<str> as de::Deserialize>::deserialize(d).map(|x| json!(["str", enc(&x)])),
            Ty::Str => <String as de::Deserialize>::deserialize(d).map(|x| json!(["str", enc(&x)])),
            Ty::Ref if alt(0) => d.deserialize_str(RefVisitor),
            Ty::Ref if alt(1) => {
                <&[u8] as de::Deserialize>::deserialize(d).map(|x| json!(["str", enc(std::str::from_utf8(x).unwrap())]))
            }
            Ty::Ref => <&str as de::Deserialize>::deserialize(d).map(|x| json!(["str", enc(x)])),
            Ty::Unit if alt(2) => d.deserialize_unit_struct("U", UnitVisitor),
            Ty::Unit => <() as de::Deserialize>::deserialize(d).map(|_| json!(["unit"])),
            Ty::Ignored => <IgnoredAny as de::Deserialize>::deserialize(d).map(|_| json!(["unit"])),
            Ty::Any => d.deserialize_any(AnyVisitor),
            Ty::Lazy(kind) => {
                let v = LazyVisitor(kind.len() > 3 && kind.ends_with('1'));
                match kind.trim_end_matches(['0', '1']) {
                    "seq" => d.deserialize_seq(v),
                    "tuple" => d.deserialize_tuple(2, v),
                    "map" => d.deserialize_map(v),
                    "struct" => d.deserialize_struct("S", &["a", "b", "$value"], v),
                    "enum" => d.deserialize_enum("E", &["a", "b", "v"], v),
                    "opt" => d.deserialize_option(v),
                    "new" => d.deserialize_newtype_struct("N", v),
                    "any" => d.deserialize_any(v),
                    "none" => Ok(json!(["lazy"])),
                    k => panic!("bad lazy type {}", k),
                }
            }
            Ty::Opt(t) => d.deserialize_option(OptVisitor(t)),
            Ty::New(t) => d.deserialize_newtype_struct("N", NewVisitor(t)),
            Ty::Seq(t) => d.deserialize_seq(SeqVisitor(t)),
            Ty::Map(t) => d.deserialize_map(MapVisitor(t)),
            Ty::Tuple(ts) if alt(3) => d.deserialize_tuple_struct("T", ts.len(), TupleVisitor(ts)),
            Ty::Tuple(ts) => d.deserialize_tuple(ts.len(), TupleVisitor(ts)),
            Ty::Struct(f) => d.deserialize_struct("S", f.names, StructVisitor(f)),
            Ty::Enum(vs, names) => d.deserialize_enum("E", names, EnumVisitor(vs)),
        }
    }
}

struct StrVisitor;
impl<'de> Visitor<'de> for StrVisitor {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a string")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Value, E> {
        Ok(json!(["str", enc(s)]))
    }
}

struct RefVisitor;
impl<'de> Visitor<'de> for RefVisitor {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a string to borrow")
    }
    fn visit_borrowed_str<E: de::Error>(self, s: &'de str) -> Result<Value, E> {
        Ok(json!(["str", enc(s)]))
    }
}

struct UnitVisitor;
impl<'de> Visitor<'de> for UnitVisitor {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit")
    }
    fn visit_unit<E: de::Error>(self) -> Result<Value, E> {
        Ok(json!(["unit"]))
    }
}

struct AnyVisitor;
impl<'de> Visitor<'de> for AnyVisitor {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Value, E> {
        Ok(json!(["str", enc(s)]))
    }
    fn visit_unit<E: de::Error>(self) -> Result<Value, E> {
        Ok(json!(["unit"]))
    }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<Value, E> {
        Ok(json!(["bool", b]))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        Ty::Any.deserialize(d)
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Value, A::Error> {
        MapVisitor(&Ty::Any).visit_map(a)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Value, A::Error> {
        SeqVisitor(&Ty::Any).visit_seq(a)
    }
}

/// Takes at most one part of what it is given (if true), or none.
struct LazyVisitor(bool);
impl<'de> Visitor<'de> for LazyVisitor {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("nothing much")
    }
    fn visit_str<E: de::Error>(self, _: &str) -> Result<Value, E> {
        Ok(json!(["lazy"]))
    }
    fn visit_unit<E: de::Error>(self) -> Result<Value, E> {
        Ok(json!(["lazy"]))
    }
    fn visit_bool<E: de::Error>(self, _: bool) -> Result<Value, E> {
        Ok(json!(["lazy"]))
    }
    fn visit_none<E: de::Error>(self) -> Result<Value, E> {
        Ok(json!(["lazy"]))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        if self.0 { Ty::Any.deserialize(d) } else { Ok(json!(["lazy"])) }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        if self.0 { Ty::Any.deserialize(d) } else { Ok(json!(["lazy"])) }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        if self.0 {
            a.next_element_seed(&Ty::Any)?;
        }
        Ok(json!(["lazy"]))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        if self.0 && a.next_key_seed(KeySeed)?.is_some() {
            a.next_value_seed(&Ty::Any)?;
        }
        Ok(json!(["lazy"]))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Value, A::Error> {
        let (_, v) = a.variant_seed(KeySeed)?;
        if self.0 {
            v.newtype_variant_seed(&Ty::Any)?;
        }
        Ok(json!(["lazy"]))
    }
}

struct OptVisitor<'a>(&'a Ty);
impl<'de> Visitor<'de> for OptVisitor<'_> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an option")
    }
    fn visit_none<E: de::Error>(self) -> Result<Value, E> {
        Ok(json!(["none"]))
    }
    fn visit_unit<E: de::Error>(self) -> Result<Value, E> {
        Ok(json!(["none"]))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        Ok(json!(["some", self.0.deserialize(d)?]))
    }
}

struct NewVisitor<'a>(&'a Ty);
impl<'de> Visitor<'de> for NewVisitor<'_> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a newtype struct")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        Ok(json!(["new", self.0.deserialize(d)?]))
    }
}

struct SeqVisitor<'a>(&'a Ty);
impl<'de> Visitor<'de> for SeqVisitor<'_> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(self.0)? {
            v.push(x);
        }
        Ok(json!(["seq", v]))
    }
}

struct TupleVisitor<'a>(&'a [Ty]);
impl<'de> Visitor<'de> for TupleVisitor<'_> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a tuple of size {}", self.0.len())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = vec![];
        for (i, t) in self.0.iter().enumerate() {
            match a.next_element_seed(t)? {
                Some(x) => v.push(x),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(json!(["tuple", v]))
    }
}

struct KeySeed;
impl<'de> DeserializeSeed<'de> for KeySeed {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        <String as de::Deserialize>::deserialize(d)
    }
}

struct MapVisitor<'a>(&'a Ty);
impl<'de> Visitor<'de> for MapVisitor<'_> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = vec![];
        while let Some(k) = a.next_key_seed(KeySeed)? {
            let x = a.next_value_seed(self.0)?;
            v.push(json!([enc(&k), x]));
        }
        Ok(json!(["map", v]))
    }
}

/// Which of the names is it? Names that are not in the list give None.
struct Identifier(&'static [&'static str]);
impl<'de> DeserializeSeed<'de> for &Identifier {
    type Value = (Option<usize>, String);
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for &Identifier {
    type Value = (Option<usize>, String);
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an identifier")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
        Ok((self.0.iter().position(|n| *n == s), s.to_owned()))
    }
}

struct StructVisitor<'a>(&'a Fields);
impl<'de> Visitor<'de> for StructVisitor<'_> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a struct")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut vals: Vec<Option<Value>> = vec![None; self.0.list.len()];
        while let Some((k, _)) = a.next_key_seed(&Identifier(self.0.names))? {
            match k {
                Some(k) => {
                    if vals[k].is_some() {
                        return Err(de::Error::duplicate_field(self.0.names[k]));
                    }
                    vals[k] = Some(a.next_value_seed(&self.0.list[k].1)?);
                }
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut out = vec![];
        for ((name, t, def), v) in self.0.list.iter().zip(vals) {
            out.push(match v {
                Some(v) => v,
                None if *def => json!(["default"]),
                None if matches!(t, Ty::Opt(_)) => json!(["none"]),
                None => return Err(de::Error::missing_field(name)),
            });
        }
        Ok(json!(["struct", out]))
    }
}

struct EnumVisitor<'a>(&'a [Variant]);
impl<'de> Visitor<'de> for EnumVisitor<'_> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an enum")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Value, A::Error> {
        let names = intern_list(self.0.iter().map(|v| v.name).collect());
        let ((k, text), v) = a.variant_seed(&Identifier(names))?;
        let k = k.ok_or_else(|| de::Error::unknown_variant(&text, names))?;
        let payload = match &self.0[k].kind {
            VariantKind::Unit => {
                v.unit_variant()?;
                json!(["unit"])
            }
            VariantKind::Newtype(t) => v.newtype_variant_seed(t)?,
            VariantKind::Tuple(ts) => v.tuple_variant(ts.len(), TupleVisitor(ts))?,
            VariantKind::Struct(f) => v.struct_variant(f.names, StructVisitor(f))?,
        };
        Ok(json!(["var", enc(self.0[k].name), payload]))
    }
}
