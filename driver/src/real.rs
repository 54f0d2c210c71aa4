//! Types with derived implementations, with their descriptions.
use serde::Deserialize;
use serde_json::{json, Value};
use sgmlish::de::DeserializationError;
use sgmlish::SgmlFragment;

use crate::chars::enc;
use crate::gen::Gen;

trait Shown {
    fn ty() -> Value;
    fn show(&self) -> Value;
}

macro_rules! ints { ($($t:ident)*) => { $(impl Shown for $t {
    fn ty() -> Value { json!(["int", stringify!($t)]) }
    fn show(&self) -> Value { json!(["int", enc(&self.to_string())]) }
})* } }
ints!(i8 i16 i32 i64 u8 u16 u32 u64);

impl Shown for bool {
    fn ty() -> Value { json!(["bool"]) }
    fn show(&self) -> Value { json!(["bool", self]) }
}
impl Shown for String {
    fn ty() -> Value { json!(["str"]) }
    fn show(&self) -> Value { json!(["str", enc(self)]) }
}
impl Shown for char {
    fn ty() -> Value { json!(["char"]) }
    fn show(&self) -> Value { json!(["char", enc(&self.to_string())]) }
}
impl Shown for () {
    fn ty() -> Value { json!(["unit"]) }
    fn show(&self) -> Value { json!(["unit"]) }
}
impl<T: Shown> Shown for Option<T> {
    fn ty() -> Value { json!(["opt", T::ty()]) }
    fn show(&self) -> Value {
        match self {
            Some(x) => json!(["some", x.show()]),
            None => json!(["none"]),
        }
    }
}
impl<T: Shown> Shown for Vec<T> {
    fn ty() -> Value { json!(["seq", T::ty()]) }
    fn show(&self) -> Value { json!(["seq", self.iter().map(Shown::show).collect::<Vec<_>>()]) }
}
impl<T: Shown> Shown for Box<T> {
    fn ty() -> Value { T::ty() }
    fn show(&self) -> Value { (**self).show() }
}
impl<A: Shown, B: Shown> Shown for (A, B) {
    fn ty() -> Value { json!(["tuple", [A::ty(), B::ty()]]) }
    fn show(&self) -> Value { json!(["tuple", [self.0.show(), self.1.show()]]) }
}
impl<A: Shown> Shown for [A; 2] {
    fn ty() -> Value { json!(["tuple", [A::ty(), A::ty()]]) }
    fn show(&self) -> Value { json!(["tuple", [self[0].show(), self[1].show()]]) }
}
/// An absent field with a default is told apart from one that is present.
#[derive(Default)]
struct Or<T>(Option<T>);
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Or<T> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        T::deserialize(d).map(|x| Or(Some(x)))
    }
}
impl<T: Shown> Shown for Or<T> {
    fn ty() -> Value { T::ty() }
    fn show(&self) -> Value {
        match &self.0 {
            Some(x) => x.show(),
            None => json!(["default"]),
        }
    }
}

macro_rules! model {
    ($n:ident { $($f:ident $key:literal : $t:ty $(= $d:ident)?),* $(,)? }) => {
        #[derive(Deserialize)]
        struct $n { $(#[serde(rename = $key $(, $d)?)] $f: $t),* }
        impl Shown for $n {
            fn ty() -> Value {
                json!(["struct", [$([enc($key), <$t as Shown>::ty(), model!(@ $($d)?)]),*]])
            }
            fn show(&self) -> Value { json!(["struct", [$(self.$f.show()),*]]) }
        }
    };
    (@ default) => { "def" };
    (@) => { "req" };
}

#[derive(Deserialize)]
struct Id(u16);
impl Shown for Id {
    fn ty() -> Value { json!(["new", u16::ty()]) }
    fn show(&self) -> Value { json!(["new", self.0.show()]) }
}

model!(Opt { label "$value": String, value "a": Option<String>, selected "b": Or<bool> = default });
model!(Select { name "a": Option<String>, options "b": Vec<Opt>, id "c": Id });
model!(Point { x "a": i32, y "b": i32 });
model!(Path { points "a": Vec<Point>, ends "b": [Point; 2], closed "c": Or<bool> = default });
model!(Deep { a "a": Option<Inner1>, b "b": Vec<Inner1>, k "k": i8 });
model!(Inner1 { a "a": Vec<Inner2>, k "k": Option<u8> });
model!(Inner2 { a "a": Option<String>, b "$value": Vec<Op> });
model!(Account { op "a": Op, ops "b": Vec<Op>, flag "c": bool, note "d": Option<String> });
model!(Mixed { v "$value": Vec<Shape>, a "a": Option<Op>, b "b": Or<char> = default });
model!(Drawing { first "a": Shape, shapes "b": Vec<Shape>, pair "c": Option<(Shape, Op)>, unit "d": () });
model!(Grid { rows "a": Vec<Vec<i16>>, pairs "b": Vec<(u8, String)>, last "c": Or<Vec<String>> = default });

#[derive(Deserialize)]
enum Op {
    #[serde(rename = "a")]
    A,
    #[serde(rename = "v")]
    V,
    X,
}
impl Shown for Op {
    fn ty() -> Value { json!(["enum", [[enc("a"), "unit"], [enc("v"), "unit"], [enc("X"), "unit"]]]) }
    fn show(&self) -> Value {
        json!(["var", enc(match self { Op::A => "a", Op::V => "v", Op::X => "X" }), ["unit"]])
    }
}

#[derive(Deserialize)]
enum Shape {
    #[serde(rename = "a")]
    Empty,
    #[serde(rename = "v")]
    Dot(Point),
    #[serde(rename = "w")]
    Line(Point, Point),
    #[serde(rename = "b")]
    Label {
        #[serde(rename = "$value")]
        text: String,
        #[serde(rename = "a")]
        size: Option<u8>,
    },
    X(Vec<Op>),
}
impl Shown for Shape {
    fn ty() -> Value {
        json!(["enum", [[enc("a"), "unit"], [enc("v"), "newtype", Point::ty()], [enc("w"), "tuple", [Point::ty(), Point::ty()]],
            [enc("b"), "struct", [[enc("$value"), String::ty(), "req"], [enc("a"), Option::<u8>::ty(), "req"]]],
            [enc("X"), "newtype", Vec::<Op>::ty()]]])
    }
    fn show(&self) -> Value {
        match self {
            Shape::Empty => json!(["var", enc("a"), ["unit"]]),
            Shape::Dot(p) => json!(["var", enc("v"), p.show()]),
            Shape::Line(p, q) => json!(["var", enc("w"), ["tuple", [p.show(), q.show()]]]),
            Shape::Label { text, size } => json!(["var", enc("b"), ["struct", [text.show(), size.show()]]]),
            Shape::X(v) => json!(["var", enc("X"), v.show()]),
        }
    }
}

type Read = fn(SgmlFragment<'static>) -> Result<Value, DeserializationError>;

fn read<T: for<'de> Deserialize<'de> + Shown>(f: SgmlFragment<'static>) -> Result<Value, DeserializationError> {
    sgmlish::from_fragment::<T>(f).map(|x| x.show())
}

fn table() -> &'static Vec<(Value, Read)> {
    static T: std::sync::OnceLock<Vec<(Value, Read)>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        macro_rules! t { ($($t:ty),*) => { vec![$((<$t>::ty(), read::<$t> as Read)),*] } }
        t!(Select, Opt, Path, Deep, Account, Mixed, Drawing, Grid, Shape, Op, Point, Inner2)
    })
}

/// Reads a value of the described type with its derived implementation, if there is one.
pub fn derived(ty: &Value, f: SgmlFragment<'static>) -> Option<Result<Value, DeserializationError>> {
    table().iter().find(|(t, _)| t == ty).map(|(_, r)| r(f))
}

pub fn description(g: &mut Gen) -> Value {
    let n = table().len();
    table()[g.r.below(n)].0.clone()
}

// ---- types that borrow from the source -------------------------------------------------------------------------------

impl Shown for &str {
    fn ty() -> Value { json!(["ref"]) }
    fn show(&self) -> Value { json!(["str", enc(self)]) }
}

macro_rules! lent {
    ($n:ident<$a:lifetime> { $($f:ident $key:literal : $t:ty),* }) => {
        #[derive(Deserialize)]
        struct $n<$a> { $(#[serde(rename = $key, borrow)] $f: $t),* }
        impl<$a> Shown for $n<$a> {
            fn ty() -> Value {
                json!(["struct", [$([enc($key), <$t as Shown>::ty(), "req"]),*]])
            }
            fn show(&self) -> Value { json!(["struct", [$(self.$f.show()),*]]) }
        }
    };
}
lent!(Link<'a> { url "a": &'a str, label "$value": &'a str });
lent!(Names<'a> { first "a": &'a str, more "b": Vec<&'a str>, last "c": Option<&'a str> });
lent!(Table<'a> { rows "a": Vec<Vec<&'a str>>, pair "b": (&'a str, &'a str) });
lent!(Links<'a> { links "a": Vec<Link<'a>>, alone "b": Option<Link<'a>> });
lent!(Words<'a> { words "$value": Vec<Word<'a>>, a "a": Option<&'a str> });

#[derive(Deserialize)]
enum Word<'a> {
    #[serde(rename = "a")]
    Plain(&'a str),
    #[serde(rename = "b", borrow)]
    Link(Link<'a>),
    #[serde(rename = "v")]
    Two(&'a str, &'a str),
    X,
}
impl Shown for Word<'_> {
    fn ty() -> Value {
        let s = <&str>::ty();
        json!(["enum", [[enc("a"), "newtype", s], [enc("b"), "newtype", Link::ty()], [enc("v"), "tuple", [s, s]], [enc("X"), "unit"]]])
    }
    fn show(&self) -> Value {
        match self {
            Word::Plain(s) => json!(["var", enc("a"), s.show()]),
            Word::Link(l) => json!(["var", enc("b"), l.show()]),
            Word::Two(a, b) => json!(["var", enc("v"), ["tuple", [a.show(), b.show()]]]),
            Word::X => json!(["var", enc("X"), ["unit"]]),
        }
    }
}

macro_rules! lenders { ($($t:ident),*) => {
    /// Reads a value of the described type with its derived implementation, if there is one.
    pub fn lent<'a>(ty: &Value, f: SgmlFragment<'a>) -> Option<Result<Value, DeserializationError>> {
        $(if *ty == $t::ty() {
            return Some(sgmlish::from_fragment::<$t<'a>>(f).map(|x| x.show()));
        })*
        None
    }
    pub fn lent_description(g: &mut Gen) -> Value {
        let all = [$($t::ty()),*];
        all[g.r.below(all.len())].clone()
    }
} }
lenders!(Link, Names, Table, Links, Words, Word);
