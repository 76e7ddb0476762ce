//! C18: data of Rust's own types and of every representation that serde's derive offers, converted
//! to a value and back. (What each part of the serde data model converts to is checked in `serde.rs`.)
use crate::run::{Obs, R};
use crate::src::Src;
use crate::ty::{gen_char, gen_string};
use crate::val::show;
use crate::{check, fail};
use scale_value::serde::{from_value, to_value};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::fmt::Debug;
use std::net::*;
use std::num::*;
use std::ops::Bound;
use std::time::{Duration, SystemTime};

pub trait G: Sized {
    fn g(s: &mut Src) -> Self;
}
macro_rules! g {
    () => {};
    (for $($p:ident)*: $t:ty = $s:ident => $e:expr; $($rest:tt)*) => {
        impl<$($p: G),*> G for $t { fn g($s: &mut Src) -> Self { $e } }
        g! { $($rest)* }
    };
    ($t:ty = $s:ident => $e:expr; $($rest:tt)*) => {
        impl G for $t { fn g($s: &mut Src) -> Self { $e } }
        g! { $($rest)* }
    };
}
fn many<T: G>(s: &mut Src) -> Vec<T> {
    (0..s.len(5)).map(|_| T::g(s)).collect()
}
fn key(s: &mut Src) -> String {
    match s.below(3) {
        0 => s.pick(&["a", "b", "t", "c", "name", "Some", "0", "__bitvec__values_", "日本"]).to_string(),
        _ => gen_string(s),
    }
}
fn keyed<T: G>(s: &mut Src) -> Vec<(String, T)> {
    (0..s.len(5)).map(|_| (key(s), T::g(s))).filter(|x| x.0 != "__bitvec__values__").collect()
}
g! {
    () = _s => ();
    bool = s => s.coin();
    char = s => gen_char(s);
    String = s => gen_string(s);
    u8 = s => s.uint(8) as u8; u16 = s => s.uint(16) as u16; u32 = s => s.uint(32) as u32; u64 = s => s.uint(64) as u64; u128 = s => s.uint(128); usize = s => s.uint(64) as usize;
    i8 = s => s.sint(8) as i8; i16 = s => s.sint(16) as i16; i32 = s => s.sint(32) as i32; i64 = s => s.sint(64) as i64; i128 = s => s.sint(128); isize = s => s.sint(64) as isize;
    for T: Option<T> = s => if s.coin() { Some(T::g(s)) } else { None };
    for T E: Result<T, E> = s => if s.coin() { Ok(T::g(s)) } else { Err(E::g(s)) };
    for T: Vec<T> = s => many(s);
    for T: VecDeque<T> = s => many(s).into();
    for T: LinkedList<T> = s => many(s).into_iter().collect();
    for T: Box<T> = s => Box::new(T::g(s));
    Box<str> = s => gen_string(s).into();
    Box<[u16]> = s => many(s).into();
    BTreeSet<i16> = s => many(s).into_iter().collect();
    BTreeSet<String> = s => many(s).into_iter().collect();
    HashSet<char> = s => many(s).into_iter().collect();
    for T: BTreeMap<String, T> = s => keyed(s).into_iter().collect();
    for T: HashMap<String, T> = s => keyed(s).into_iter().collect();
    for T: BTreeMap<char, T> = s => many::<(char, T)>(s).into_iter().collect();
    for T: BTreeMap<Key, T> = s => keyed(s).into_iter().map(|(k, v)| (Key(k), v)).collect();
    for T: BTreeMap<KeyKey, T> = s => keyed(s).into_iter().map(|(k, v)| (KeyKey(Key(k)), v)).collect();
    for T: BTreeMap<CharKey, T> = s => many::<(char, T)>(s).into_iter().map(|(k, v)| (CharKey(k), v)).collect();
    for T: BTreeMap<IpAddr, T> = s => many::<(IpAddr, T)>(s).into_iter().collect();
    for A: (A,) = s => (A::g(s),);
    for A B: (A, B) = s => (A::g(s), B::g(s));
    for A B C: (A, B, C) = s => (A::g(s), B::g(s), C::g(s));
    for A B C D: (A, B, C, D) = s => (A::g(s), B::g(s), C::g(s), D::g(s));
    for T: (T, T, T, T, T, T, T, T, T, T, T, T) = s => (T::g(s), T::g(s), T::g(s), T::g(s), T::g(s), T::g(s), T::g(s), T::g(s), T::g(s), T::g(s), T::g(s), T::g(s));
    for T: [T; 0] = _s => [];
    for T: [T; 1] = s => [T::g(s)];
    for T: [T; 5] = s => [(); 5].map(|_| T::g(s));
    for T: [T; 32] = s => [(); 32].map(|_| T::g(s));
    for T: Bound<T> = s => match s.below(3) { 0 => Bound::Unbounded, 1 => Bound::Included(T::g(s)), _ => Bound::Excluded(T::g(s)) };
    for T: std::ops::Range<T> = s => T::g(s)..T::g(s);
    for T: std::ops::RangeInclusive<T> = s => T::g(s)..=T::g(s);
    for T: std::ops::RangeFrom<T> = s => T::g(s)..;
    for T: std::ops::RangeTo<T> = s => ..T::g(s);
    for T: Wrapping<T> = s => Wrapping(T::g(s));
    for T: Saturating<T> = s => Saturating(T::g(s));
    for T: Reverse<T> = s => Reverse(T::g(s));
    for T: std::cell::RefCell<T> = s => std::cell::RefCell::new(T::g(s));
    std::cell::Cell<u8> = s => std::cell::Cell::new(u8::g(s));
    NonZeroU8 = s => NonZeroU8::new(u8::g(s)).unwrap_or(NonZeroU8::MIN);
    NonZeroU128 = s => NonZeroU128::new(u128::g(s)).unwrap_or(NonZeroU128::MAX);
    NonZeroI64 = s => NonZeroI64::new(i64::g(s)).unwrap_or(NonZeroI64::MIN);
    NonZeroI128 = s => NonZeroI128::new(i128::g(s)).unwrap_or(NonZeroI128::MAX);
    Ipv4Addr = s => Ipv4Addr::from(u32::g(s));
    Ipv6Addr = s => Ipv6Addr::from(u128::g(s));
    IpAddr = s => if s.coin() { IpAddr::V4(G::g(s)) } else { IpAddr::V6(G::g(s)) };
    SocketAddr = s => SocketAddr::new(G::g(s), G::g(s));
    Duration = s => Duration::new(u64::g(s), s.below(1_000_000_000) as u32);
    SystemTime = s => SystemTime::UNIX_EPOCH + Duration::new(s.uint(40) as u64, s.below(1_000_000_000) as u32);
    std::path::PathBuf = s => gen_string(s).into();
    std::ffi::CString = s => std::ffi::CString::new(gen_string(s).replace('\0', "")).unwrap();
    std::ffi::OsString = s => gen_string(s).into();
    std::marker::PhantomData<u8> = _s => std::marker::PhantomData;
}
macro_rules! derived {
    ($($(#[$m:meta])* struct $n:ident $(<$p:ident>)? { $($(#[$fm:meta])* $f:ident: $t:ty),* $(,)? })*) => {
        $(#[derive(Serialize, Deserialize, PartialEq, Debug)] $(#[$m])* pub struct $n $(<$p>)? { $($(#[$fm])* $f: $t),* }
        impl$(<$p: G>)? G for $n$(<$p>)? { fn g(s: &mut Src) -> Self { $n { $($f: G::g(s)),* } } })*
    };
}
/// `enum Name { (generator) Variant definition, ... }`
macro_rules! choices {
    ($($(#[$m:meta])* enum $n:ident { $({$s:ident => $e:expr} $(#[$vm:meta])* $v:ident $(($($tt:tt)*))? $({$($st:tt)*})?),* $(,)? })*) => {
        $(#[derive(Serialize, Deserialize, PartialEq, Debug)] $(#[$m])* pub enum $n { $($(#[$vm])* $v $(($($tt)*))? $({$($st)*})?),* }
        impl G for $n { fn g(s: &mut Src) -> Self {
            let all: &[fn(&mut Src) -> Self] = &[$(|$s| $e),*];
            all[s.below(all.len())](s)
        } })*
    };
}
#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Key(String);
#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct KeyKey(Key);
#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct CharKey(char);

derived! {
    struct Inner { x: u8, y: String, z: (bool, char), #[serde(rename = "Z z")] w: Vec<i64> }
    struct Inner2 { k: [u16; 5], #[serde(default)] l: bool }
    struct Gen<T> { a: T, b: Option<T>, c: Vec<T> }
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    struct Renamed { some_name: Option<u8>, other: (), #[serde(alias = "q")] third_name_here: u128 }
    #[serde(transparent)]
    struct Transparent { only: Option<Box<Tree>> }
    struct OuterFlat { a: u8, #[serde(flatten)] b: Inner, c: Option<u128>, #[serde(flatten)] d: Inner2 }
    struct FlatMap { the_first_field: i8, #[serde(flatten)] rest: BTreeMap<String, u64> }
    struct FlatTagged { first: i8, #[serde(flatten)] t: Internal }
    struct FlatFlat { #[serde(flatten)] inner: OuterFlat1, last: char }
    struct OuterFlat1 { a1: i32, #[serde(flatten)] b1: Inner2 }
    #[serde(deny_unknown_fields)]
    struct Strict { a: u8, b: Option<()>, c: Untagged }
    struct Converted { #[serde(with = "as_text")] a: u32, b: Via }
    struct Skipping {
        a: u8,
        #[serde(skip_serializing_if = "Option::is_none", default)] b: Option<u8>,
        #[serde(skip_serializing_if = "Vec::is_empty", default)] c: Vec<Vec<u8>>,
    }
    #[serde(tag = "kind")]
    struct TaggedStruct { a: u8, b: Option<u8> }
    #[serde(into = "String", try_from = "String")]
    struct Via { n: u32 }
}
impl Clone for Via {
    fn clone(&self) -> Via {
        Via { n: self.n }
    }
}
impl From<Via> for String {
    fn from(v: Via) -> String {
        v.n.to_string()
    }
}
impl TryFrom<String> for Via {
    type Error = String;
    fn try_from(s: String) -> Result<Via, String> {
        Ok(Via { n: s.parse().map_err(|_| format!("not a number: {s}"))? })
    }
}
mod as_text {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(n: &u32, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(n)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u32, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
choices! {
    #[serde(tag = "t")]
    enum Internal {
        { s => Internal::A { x: G::g(s), y: G::g(s), z: G::g(s) } } A { x: u8, y: String, z: Vec<i64> },
        { _s => Internal::B {} } #[serde(rename = "bee")] B {},
        { _s => Internal::C } C,
        { s => Internal::D(G::g(s)) } D(Inner2),
    }
    #[serde(tag = "t", content = "c")]
    enum Adjacent {
        { s => Adjacent::A { x: G::g(s), y: G::g(s) } } A { x: u128, y: Option<Tree> },
        { s => Adjacent::B(G::g(s), G::g(s)) } B(u8, Option<()>),
        { _s => Adjacent::C } C,
        { s => Adjacent::D(G::g(s)) } D(Option<u8>),
        { _s => Adjacent::E(()) } E(()),
        { s => Adjacent::F(G::g(s)) } F(Vec<u8>),
    }
    #[serde(untagged)]
    enum Untagged {
        { s => Untagged::A { xx: G::g(s), v: G::g(s) } } A { xx: u64, v: i32 },
        { s => Untagged::B(G::g(s), G::g(s), G::g(s)) } B(u8, String, [bool; 1]),
        { s => Untagged::D(G::g(s)) } D(bool),
        { s => Untagged::N(G::g(s)) } N(i64),
        { s => Untagged::M(s.uint(63) as u64 | 1 << 63) } M(u64),
        { s => Untagged::E(G::g(s)) } E(String),
        { s => Untagged::S(s.byte(), s.byte()) } S(u8, u8),
        { s => Untagged::I(G::g(s)) } I(Inner),
    }
    enum Tree {
        { s => Tree::Leaf(G::g(s)) } Leaf(i16),
        { _s => Tree::Nil } Nil,
        { s => Tree::Unit(G::g(s)) } Unit(()),
        { s => if s.ratio(1, 3) { Tree::Pair(G::g(s), G::g(s)) } else { Tree::Nil } } Pair(Box<Tree>, Box<Tree>),
        { s => if s.ratio(1, 3) { Tree::Named { l: G::g(s), r: vec![] } } else { Tree::Nil } } Named { l: Option<Box<Tree>>, r: Vec<Tree> },
        { s => Tree::Text(G::g(s)) } #[serde(rename = "日 本")] Text(String),
        { s => if s.ratio(1, 4) { Tree::One(Box::new(Tree::g(s))) } else { Tree::Nil } } One(Box<Tree>),
    }
}

type Row = (fn(&mut Src, &mut Obs) -> R, fn(&mut Src, &mut Obs) -> R);
fn row<T: G + Serialize + DeserializeOwned + PartialEq + Debug>(s: &mut Src, o: &mut Obs) -> R {
    let x = T::g(s);
    o.desc(|| format!("{} {x:?}", std::any::type_name::<T>()));
    o.nontrivial(format!("{}{x:?}", std::any::type_name::<T>()).as_bytes());
    let v = match to_value(&x) {
        Ok(v) => v,
        Err(e) => fail!("{x:?} does not convert: {e}"),
    };
    let back: Result<T, _> = from_value(v.clone());
    check!(back.as_ref() == Ok(&x), "comes back from {} as {back:?}", show(&v));
    let v = v.map_context(|_| "a context".to_string());
    let back: Result<T, _> = from_value(v.clone());
    check!(back.as_ref() == Ok(&x), "comes back from {}, with contexts, as {back:?}", show(&v));
    Ok(())
}
/// An altered value of the type: refused, or converted to a datum that, like all of its type, survives.
fn odd_row<T: G + Serialize + DeserializeOwned + PartialEq + Debug>(s: &mut Src, o: &mut Obs) -> R {
    let own = match to_value(T::g(s)) {
        Ok(v) => v,
        Err(e) => fail!("does not convert: {e}"),
    };
    let mut n = 0;
    let v = super::serde::perturb(s, own, &mut n);
    o.desc(|| format!("{} from {}", std::any::type_name::<T>(), show(&v)));
    if n > 0 {
        o.nontrivial(format!("{}{}", std::any::type_name::<T>(), show(&v)).as_bytes());
    }
    let r: Result<T, _> = from_value(v.clone());
    o.class(if r.is_ok() { "Rust's types from altered values: converted" } else { "Rust's types from altered values: refused" });
    if let Ok(x) = r {
        let v = match to_value(&x) {
            Ok(v) => v,
            Err(e) => fail!("converted to {x:?}, which does not convert: {e}"),
        };
        let back: Result<T, _> = from_value(v.clone());
        check!(back.as_ref() == Ok(&x), "converted to {x:?}, which comes back from {} as {back:?}", show(&v));
    }
    Ok(())
}
macro_rules! rows {
    ($($t:ty),* $(,)?) => { &[$((row::<$t> as fn(&mut Src, &mut Obs) -> R, odd_row::<$t> as fn(&mut Src, &mut Obs) -> R)),*] };
}
static ROWS: &[Row] = rows![
    usize, isize, Option<Option<Option<()>>>, Result<Vec<Option<u8>>, ()>, Option<Result<(), String>>, Result<Result<u8, i8>, Option<char>>,
    VecDeque<(u8, String)>, LinkedList<Option<bool>>, Box<Option<Box<()>>>, Box<str>, Box<[u16]>, BTreeSet<i16>, BTreeSet<String>, HashSet<char>,
    BTreeMap<String, Vec<Option<u8>>>, HashMap<String, Tree>, BTreeMap<char, [u8; 1]>, BTreeMap<Key, (u8,)>, BTreeMap<KeyKey, ()>, BTreeMap<CharKey, u8>, BTreeMap<IpAddr, bool>,
    (((u8,),),), (u8, (), [u8; 0], Vec<()>), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (Tree, Tree, Tree), [Option<()>; 5], [[u8; 32]; 1], [[(); 1]; 5], [i128; 32],
    Bound<u8>, Bound<Bound<String>>, std::ops::Range<i8>, std::ops::RangeInclusive<char>, std::ops::RangeFrom<u128>, std::ops::RangeTo<String>,
    Wrapping<i64>, Saturating<u8>, Reverse<Option<u8>>, std::cell::RefCell<Vec<u8>>, std::cell::Cell<u8>,
    NonZeroU8, NonZeroU128, NonZeroI64, Option<NonZeroI128>, Ipv4Addr, Ipv6Addr, SocketAddr, Vec<IpAddr>, Duration, SystemTime,
    std::path::PathBuf, std::ffi::CString, std::ffi::OsString, std::marker::PhantomData<u8>,
    Inner, Gen<Tree>, Gen<()>, Gen<Gen<u8>>, Gen<Adjacent>, Renamed, Transparent, OuterFlat, FlatMap, FlatTagged, FlatFlat, Strict, Converted, Skipping, TaggedStruct, Via,
    Internal, Vec<Internal>, Adjacent, (Adjacent, Option<Adjacent>), Untagged, BTreeMap<String, Untagged>, Tree, Option<Tree>,
    HashMap<String, Gen<Option<BTreeMap<char, Untagged>>>>,
];

pub fn run(s: &mut Src, o: &mut Obs) -> R {
    o.class("Rust's types and serde's representations");
    s.pick(ROWS).0(s, o)
}
pub fn odd(s: &mut Src, o: &mut Obs) -> R {
    s.pick(ROWS).1(s, o)
}
