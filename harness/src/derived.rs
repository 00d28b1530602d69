//! Types with derived serde implementations, as users write them, and random values of them.

use crate::engine::Src;
use crate::gen;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::num::{NonZeroI16, NonZeroU32, Wrapping};
use std::ops::{Bound, Range};
use std::time::Duration;

pub trait Gen: Sized {
    fn gen(s: &mut Src, depth: u32) -> Self;
}
macro_rules! gen_int {
    ($($t:ty),*) => { $( impl Gen for $t {
        fn gen(s: &mut Src, _: u32) -> $t {
            gen::int(s).clamp(<$t>::MIN as i128, <$t>::MAX as i128) as $t
        }
    } )* };
}
gen_int!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
impl Gen for bool {
    fn gen(s: &mut Src, _: u32) -> bool {
        s.bool()
    }
}
impl Gen for () {
    fn gen(_: &mut Src, _: u32) {}
}
impl Gen for f32 {
    fn gen(s: &mut Src, _: u32) -> f32 {
        let f = f32::from_bits(gen::f32bits(s));
        if f.is_nan() {
            0.5
        } else {
            f
        }
    }
}
impl Gen for f64 {
    fn gen(s: &mut Src, _: u32) -> f64 {
        let f = f64::from_bits(gen::f64bits(s));
        if f.is_nan() {
            0.1
        } else {
            f
        }
    }
}
impl Gen for char {
    fn gen(s: &mut Src, _: u32) -> char {
        *s.pick(&['a', '0', '_', '\0', 'é', '中', '😀', '\u{10ffff}', '"'])
    }
}
impl Gen for String {
    fn gen(s: &mut Src, d: u32) -> String {
        gen::string(s, if d > 2 { 200 } else { 40 })
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(s: &mut Src, d: u32) -> Option<T> {
        if d > 0 && s.bool() {
            Some(T::gen(s, d - 1))
        } else {
            None
        }
    }
}
impl<T: Gen> Gen for Box<T> {
    fn gen(s: &mut Src, d: u32) -> Box<T> {
        Box::new(T::gen(s, d))
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(s: &mut Src, d: u32) -> Vec<T> {
        let mut v = Vec::new();
        while d > 0 && s.more(v.len(), 3, 30) {
            v.push(T::gen(s, d - 1));
        }
        v
    }
}
impl<T: Gen> Gen for VecDeque<T> {
    fn gen(s: &mut Src, d: u32) -> VecDeque<T> {
        Vec::gen(s, d).into()
    }
}
impl<T: Gen + Ord> Gen for BTreeSet<T> {
    fn gen(s: &mut Src, d: u32) -> BTreeSet<T> {
        Vec::gen(s, d).into_iter().collect()
    }
}
struct Key(String);
impl Gen for Key {
    fn gen(s: &mut Src, _: u32) -> Key {
        Key(gen::key(s, 60))
    }
}
impl<T: Gen> Gen for HashMap<String, T> {
    fn gen(s: &mut Src, d: u32) -> HashMap<String, T> {
        Vec::<(Key, T)>::gen(s, d).into_iter().map(|(k, t)| (k.0, t)).collect()
    }
}
impl<T: Gen> Gen for BTreeMap<String, T> {
    fn gen(s: &mut Src, d: u32) -> BTreeMap<String, T> {
        Vec::<(Key, T)>::gen(s, d).into_iter().map(|(k, t)| (k.0, t)).collect()
    }
}
impl<T: Gen> Gen for BTreeMap<char, T> {
    fn gen(s: &mut Src, d: u32) -> BTreeMap<char, T> {
        Vec::gen(s, d).into_iter().collect()
    }
}
impl<T: Gen> Gen for BTreeMap<Name, T> {
    fn gen(s: &mut Src, d: u32) -> BTreeMap<Name, T> {
        Vec::<(Key, T)>::gen(s, d).into_iter().map(|(k, t)| (Name(k.0), t)).collect()
    }
}
impl<A: Gen, B: Gen> Gen for (A, B) {
    fn gen(s: &mut Src, d: u32) -> (A, B) {
        (A::gen(s, d), B::gen(s, d))
    }
}
impl<A: Gen, B: Gen, C: Gen> Gen for (A, B, C) {
    fn gen(s: &mut Src, d: u32) -> (A, B, C) {
        (A::gen(s, d), B::gen(s, d), C::gen(s, d))
    }
}
impl<A: Gen> Gen for (A,) {
    fn gen(s: &mut Src, d: u32) -> (A,) {
        (A::gen(s, d),)
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen(s: &mut Src, d: u32) -> [T; N] {
        std::array::from_fn(|_| T::gen(s, d))
    }
}
impl<A: Gen, B: Gen> Gen for Result<A, B> {
    fn gen(s: &mut Src, d: u32) -> Result<A, B> {
        if s.bool() {
            Ok(A::gen(s, d))
        } else {
            Err(B::gen(s, d))
        }
    }
}
impl Gen for Duration {
    fn gen(s: &mut Src, d: u32) -> Duration {
        Duration::new(u64::gen(s, d) / 2, s.below(1_000_000_000) as u32)
    }
}
impl Gen for IpAddr {
    fn gen(s: &mut Src, d: u32) -> IpAddr {
        if s.bool() {
            IpAddr::V4(Ipv4Addr::from(u32::gen(s, d)))
        } else {
            IpAddr::V6(Ipv6Addr::from(u128::from(u64::gen(s, d)) << 60))
        }
    }
}
impl Gen for NonZeroU32 {
    fn gen(s: &mut Src, d: u32) -> NonZeroU32 {
        NonZeroU32::new(u32::gen(s, d)).unwrap_or(NonZeroU32::MAX)
    }
}
impl Gen for NonZeroI16 {
    fn gen(s: &mut Src, d: u32) -> NonZeroI16 {
        NonZeroI16::new(i16::gen(s, d)).unwrap_or(NonZeroI16::MIN)
    }
}
impl<T: Gen> Gen for Wrapping<T> {
    fn gen(s: &mut Src, d: u32) -> Wrapping<T> {
        Wrapping(T::gen(s, d))
    }
}
impl<T: Gen> Gen for Range<T> {
    fn gen(s: &mut Src, d: u32) -> Range<T> {
        T::gen(s, d)..T::gen(s, d)
    }
}
impl<T: Gen> Gen for Bound<T> {
    fn gen(s: &mut Src, d: u32) -> Bound<T> {
        match s.below(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(T::gen(s, d)),
            _ => Bound::Excluded(T::gen(s, d)),
        }
    }
}

macro_rules! structs {
    ($( $(#[$m:meta])* struct $n:ident { $( $(#[$fm:meta])* $f:ident : $t:ty ),* $(,)? } )*) => { $(
        #[derive(Serialize, Deserialize, PartialEq, Debug)]
        $(#[$m])*
        pub struct $n { $( $(#[$fm])* pub $f: $t ),* }
        impl Gen for $n {
            fn gen(s: &mut Src, d: u32) -> $n {
                let _ = (&s, d);
                $n { $( $f: Gen::gen(s, d.saturating_sub(1)) ),* }
            }
        }
    )* };
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Eq, PartialOrd, Ord)]
pub struct Name(pub String);
#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub struct Meters(pub f64);
#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub struct Pair(pub i32, pub Option<String>);
#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub struct Marker;
#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub struct NoFields();
#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub struct Wrapper<T>(pub T);
impl Gen for Name {
    fn gen(s: &mut Src, d: u32) -> Name {
        Name(Gen::gen(s, d))
    }
}
impl Gen for Meters {
    fn gen(s: &mut Src, d: u32) -> Meters {
        Meters(Gen::gen(s, d))
    }
}
impl Gen for Pair {
    fn gen(s: &mut Src, d: u32) -> Pair {
        Pair(Gen::gen(s, d), Gen::gen(s, d))
    }
}
impl Gen for Marker {
    fn gen(_: &mut Src, _: u32) -> Marker {
        Marker
    }
}
impl Gen for NoFields {
    fn gen(_: &mut Src, _: u32) -> NoFields {
        NoFields()
    }
}
impl<T: Gen> Gen for Wrapper<T> {
    fn gen(s: &mut Src, d: u32) -> Wrapper<T> {
        Wrapper(Gen::gen(s, d))
    }
}

structs! {
    struct Numbers { a: i8, b: i16, c: i32, d: i64, e: u8, f: u16, g: u32, h: u64, i: f32, j: f64, k: bool, l: isize, m: usize }
    struct Texts { c: char, s: String, o: Option<String>, v: Vec<String>, n: Name, b: Box<String>, t: (String, char) }
    #[serde(rename_all = "camelCase")]
    struct Person { first_name: String, last_name: Option<String>, age: u8, scores: Vec<i64>, home_address: Address, tags: HashMap<String, i32>, marker: Marker, best_friend: Option<Box<Person>> }
    struct Address { street: String, #[serde(rename = "zip code")] zip: u32, geo: (f64, f64), lines: [String; 2] }
    struct Empty {}
    struct Maps { m: HashMap<String, String>, b: BTreeMap<String, Vec<u16>>, c: BTreeMap<char, i8>, n: BTreeMap<Name, Option<u64>>, mm: BTreeMap<String, BTreeMap<String, bool>> }
    struct Seqs { v: Vec<Vec<i32>>, q: VecDeque<u8>, s: BTreeSet<String>, t: (i32, (u8, String), [i16; 3]), o: (Option<i8>,), e: Vec<Empty>, u: Vec<()>, m: Vec<Marker> }
    struct Shapes { a: Shape, b: Vec<Shape>, c: Option<Shape>, d: HashMap<String, Shape>, e: Box<Tree> }
    struct Std { d: Duration, i: IpAddr, r: Range<i32>, o: Bound<u16>, z: NonZeroU32, y: NonZeroI16, w: Wrapping<u8>, e: Result<u32, String> }
    struct Flat { id: u32, #[serde(flatten)] rest: Inner, last: String }
    struct Inner { x: i64, y: String, z: Vec<u32> }
    struct FlatMap { known: i32, #[serde(flatten)] rest: BTreeMap<String, i64> }
    struct Defaults { #[serde(default)] a: i32, #[serde(skip_serializing_if = "Option::is_none", default)] b: Option<String>, #[serde(skip_serializing_if = "Vec::is_empty", default)] c: Vec<u8>, #[serde(alias = "dd")] d: u16 }
    struct More { u: Vec<Loose>, n: Vec<WithNames>, s: Skips, d: DenyUnknown, w: Wrapper<Tagged>, m: BTreeMap<String, Adjacent>, o: Option<Vec<Tagged>> }
    struct Skips { a: i32, #[serde(skip)] b: (), #[serde(rename(serialize = "out", deserialize = "out"))] c: String, #[serde(with = "as_text")] d: i64 }
    #[serde(deny_unknown_fields)]
    struct DenyUnknown { x: Option<u8>, y: Vec<Name> }
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    struct TwoFlat { id: u32, #[serde(flatten)] a: Inner, #[serde(flatten)] b: Option<Other>, #[serde(flatten)] t: Tagged }
    struct Other { first_one: i16, other: Option<String> }
    struct Holder { u: Vec<Untagged>, t: Vec<Tagged>, a: Vec<Adjacent>, w: Wrapper<Wrapper<Option<i32>>>, p: Pair, nf: NoFields, mt: Meters, ws: Wrapper<Vec<String>> }
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub enum Shape {
    Point,
    Circle(f64),
    Line((i32, i32), (i32, i32)),
    Rect { w: u32, h: u32, name: Option<String> },
    #[serde(rename = "poly gon")]
    Polygon(Vec<(i16, i16)>),
    Named(Name),
    Nothing {},
    Nil(),
    Opt(Option<u8>),
    Unit(()),
    Nested(Box<Shape>),
    Map(BTreeMap<String, i32>),
    Marked(Marker),
    Sparse {
        #[serde(skip_serializing_if = "Option::is_none")]
        a: Option<u8>,
        #[serde(alias = "old")]
        b: String,
        #[serde(skip_serializing_if = "Vec::is_empty", default)]
        c: Vec<i8>,
        #[serde(skip)]
        d: (),
    },
}
impl Gen for Shape {
    fn gen(s: &mut Src, d: u32) -> Shape {
        let d = d.saturating_sub(1);
        match s.below(14) {
            0 => Shape::Point,
            1 => Shape::Circle(Gen::gen(s, d)),
            2 => Shape::Line(Gen::gen(s, d), Gen::gen(s, d)),
            3 => Shape::Rect { w: Gen::gen(s, d), h: Gen::gen(s, d), name: Gen::gen(s, d) },
            4 => Shape::Polygon(Gen::gen(s, d)),
            5 => Shape::Named(Gen::gen(s, d)),
            6 => Shape::Nothing {},
            7 => Shape::Nil(),
            8 => Shape::Opt(Gen::gen(s, d)),
            9 => Shape::Unit(()),
            10 if d > 0 => Shape::Nested(Gen::gen(s, d)),
            11 => Shape::Map(Gen::gen(s, d)),
            12 => Shape::Sparse { a: Gen::gen(s, d), b: Gen::gen(s, d), c: Gen::gen(s, d), d: () },
            _ => Shape::Marked(Marker),
        }
    }
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub enum Tree {
    Leaf(i32),
    Node { left: Box<Tree>, right: Box<Tree>, label: String },
}
impl Gen for Tree {
    fn gen(s: &mut Src, d: u32) -> Tree {
        if d == 0 || s.bool() {
            Tree::Leaf(Gen::gen(s, d))
        } else {
            Tree::Node { left: Gen::gen(s, d - 1), right: Gen::gen(s, d - 1), label: Gen::gen(s, d) }
        }
    }
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(untagged)]
pub enum Untagged {
    Number(i64),
    Text(String),
    Obj { x: i32, y: Vec<bool> },
    List(Vec<Vec<u8>>),
    Flag(bool),
    Real(f64),
    Pair(i32, String),
}
impl Gen for Untagged {
    fn gen(s: &mut Src, d: u32) -> Untagged {
        match s.below(7) {
            3 => Untagged::List(Gen::gen(s, d)),
            4 => Untagged::Flag(Gen::gen(s, d)),
            // (A whole number may be stored as an integer, then it's the first variant.)
            5 => Untagged::Real(s.below(1000) as f64 + 0.5),
            6 => Untagged::Pair(Gen::gen(s, d), Gen::gen(s, d)),
            0 => Untagged::Number(Gen::gen(s, d)),
            1 => Untagged::Text(Gen::gen(s, d)),
            _ => Untagged::Obj { x: Gen::gen(s, d), y: Gen::gen(s, d) },
        }
    }
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(tag = "kind")]
pub enum Tagged {
    One { a: u64, b: String },
    Two { c: Vec<i16> },
    Three(Address),
    #[serde(rename = "number four")]
    Four,
    Five {},
    Six(BTreeMap<String, i32>),
}
impl Gen for Tagged {
    fn gen(s: &mut Src, d: u32) -> Tagged {
        match s.below(6) {
            3 => Tagged::Four,
            4 => Tagged::Five {},
            5 => {
                // (No clash with the fields of what this is flattened into.)
                let m: BTreeMap<String, i32> = Gen::gen(s, d);
                Tagged::Six(m.into_iter().map(|(k, v)| (format!("6{k}"), v)).collect())
            }
            0 => Tagged::One { a: Gen::gen(s, d), b: Gen::gen(s, d) },
            1 => Tagged::Two { c: Gen::gen(s, d) },
            _ => Tagged::Three(Gen::gen(s, d)),
        }
    }
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(tag = "t", content = "z")]
pub enum Adjacent {
    Num(i32),
    List(Vec<String>),
    Obj { p: u8 },
    Nothing,
    Tup(i8, String, bool),
    Inner(Box<Adjacent>),
}
impl Gen for Adjacent {
    fn gen(s: &mut Src, d: u32) -> Adjacent {
        match s.below(6) {
            3 => Adjacent::Nothing,
            4 => Adjacent::Tup(Gen::gen(s, d), Gen::gen(s, d), Gen::gen(s, d)),
            5 if d > 0 => Adjacent::Inner(Gen::gen(s, d - 1)),
            0 => Adjacent::Num(Gen::gen(s, d)),
            1 => Adjacent::List(Gen::gen(s, d)),
            _ => Adjacent::Obj { p: Gen::gen(s, d) },
        }
    }
}

/// Untagged, with everything a self-describing reader tells apart.
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(untagged)]
pub enum Loose {
    Flag(bool),
    Small(i8),
    Unsigned(u64),
    Signed(i64),
    Real(f64),
    Text(String),
    Three([Text3; 3]),
    List(Vec<Loose>),
    Known { kind_of: String, size: u32 },
    Map(BTreeMap<String, Loose>),
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub struct Text3(pub char);
impl Gen for Loose {
    fn gen(s: &mut Src, d: u32) -> Loose {
        match s.below(9) {
            0 => Loose::Flag(s.bool()),
            1 => Loose::Small(Gen::gen(s, d)),
            2 => Loose::Unsigned(u64::gen(s, d).max(128)),
            3 => Loose::Signed(i64::gen(s, d).min(-129)),
            4 => Loose::Real(s.below(1 << 40) as f64 - 0.25),
            5 => Loose::Text(Gen::gen(s, d)),
            6 if d > 0 => Loose::Known { kind_of: Gen::gen(s, d), size: Gen::gen(s, d) },
            7 if d > 0 => {
                let mut v: Vec<Loose> = Gen::gen(s, d - 1);
                v.push(Loose::Flag(true));
                Loose::List(v)
            }
            8 if d > 0 => {
                let mut v: BTreeMap<String, Loose> = Gen::gen(s, d - 1);
                v.remove("size");
                Loose::Map(v)
            }
            _ => Loose::Three([Text3(Gen::gen(s, d)), Text3(Gen::gen(s, d)), Text3(Gen::gen(s, d))]),
        }
    }
}

/// Unit variants under other names.
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(rename_all = "snake_case")]
pub enum WithNames {
    FirstOne,
    #[serde(rename = "2", alias = "two")]
    Second,
    ThirdOne(u8),
    FourthOne {
        some_field: bool,
    },
}
impl Gen for WithNames {
    fn gen(s: &mut Src, d: u32) -> WithNames {
        match s.below(4) {
            0 => WithNames::FirstOne,
            1 => WithNames::Second,
            2 => WithNames::ThirdOne(Gen::gen(s, d)),
            _ => WithNames::FourthOne { some_field: Gen::gen(s, d) },
        }
    }
}

mod as_text {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &i64, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&format_args!("<{v}>"))
    }
    pub fn deserialize<'a, D: Deserializer<'a>>(d: D) -> Result<i64, D::Error> {
        let t = String::deserialize(d)?;
        t.trim_matches(['<', '>']).parse().map_err(serde::de::Error::custom)
    }
}

/// A list as users write it by hand: as deep as it is long.
#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub struct Link {
    pub v: i32,
    pub next: Option<Box<Link>>,
}
impl Gen for Link {
    fn gen(s: &mut Src, _: u32) -> Link {
        let n = if s.chance(1, 40) { gen::depth(s) } else { s.usize(20) };
        let mut l = Link { v: 0, next: None };
        for i in 0..n {
            l = Link { v: i as i32 * 37, next: Some(Box::new(l)) };
        }
        l
    }
}

/// Written without telling the length first.
#[derive(PartialEq, Debug)]
pub struct Unsized(pub Vec<i32>, pub BTreeMap<String, String>);
impl Serialize for Unsized {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        struct Seq<'a>(&'a [i32]);
        impl Serialize for Seq<'_> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let mut q = s.serialize_seq(None)?;
                for x in self.0 {
                    q.serialize_element(x)?;
                }
                q.end()
            }
        }
        struct Map<'a>(&'a BTreeMap<String, String>);
        impl Serialize for Map<'_> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let mut q = s.serialize_map(None)?;
                for (i, (k, v)) in self.0.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(k, v)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(v)?;
                    }
                }
                q.end()
            }
        }
        // A wrong hint is only a hint.
        let mut q = s.serialize_seq(Some(self.0.len() * 3))?;
        q.serialize_element(&Seq(&self.0))?;
        q.serialize_element(&Map(&self.1))?;
        q.end()
    }
}
impl<'de> Deserialize<'de> for Unsized {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Unsized, D::Error> {
        <(Vec<i32>, BTreeMap<String, String>)>::deserialize(d).map(|(a, b)| Unsized(a, b))
    }
}
impl Gen for Unsized {
    fn gen(s: &mut Src, d: u32) -> Unsized {
        let n = *s.pick(&[0usize, 1, 5, 30, 2047, 5000]);
        let k = s.below(1000) as i32;
        Unsized((0..n as i32).map(|i| i * k).collect(), Gen::gen(s, d))
    }
}
