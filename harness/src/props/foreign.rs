//! C25: values read from and written to serde formats other than the crate's own and JSON.
//!
//! `F` is what a self-describing format may carry, event by event; its `Deserializer` calls the
//! visitor method of the event whatever was asked for, and `Rec` is a `Serializer` that records the
//! events. Both can fail at any event.
use crate::props::serde::{bits_as_maps, clean, from_json};
use crate::run::{catch, Obs, Prop, R};
use crate::src::Src;
use crate::ty::{gen_bits, gen_char, gen_string};
use crate::val::*;
use crate::{check, fail};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeTuple};
use serde::Deserialize;
use std::cell::Cell;
use std::fmt;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "random data of a self-describing format read as every value type, and random values written to a recording format and read back; non-trivial when the data has at least 3 parts",
        quick: 3_000_000,
        thorough: 45_000_000,
        run: c25,
        probes: &[("claimed sizes", hints)],
    }]
}

#[derive(Clone, Debug, PartialEq)]
pub enum F {
    Bool(bool),
    U(u32, u128),
    I(u32, i128),
    F32(f32),
    F64(f64),
    Char(char),
    /// how it is handed over: passing, borrowed, owned
    Str(u8, String),
    Bytes(u8, Vec<u8>),
    None,
    Some(Box<F>),
    Unit,
    Newtype(Box<F>),
    Seq(Hint, Vec<F>),
    Map(Hint, Vec<(F, F)>),
    Enum(String, Box<VF>),
    Fail,
}
#[derive(Clone, Debug, PartialEq)]
pub enum VF {
    Tuple(Vec<F>),
    Struct(Vec<(F, F)>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    None,
    Exact,
    Claim(usize),
}
impl Hint {
    fn of(self, left: usize) -> Option<usize> {
        match self {
            Hint::None => None,
            Hint::Exact => Some(left),
            Hint::Claim(n) => Some(n),
        }
    }
}

#[derive(Debug, PartialEq)]
pub struct E(String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}
const BOOM: &str = "the format failed";

struct De<'a>(&'a F);
impl<'de, 'a: 'de> Deserializer<'de> for De<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            F::Bool(b) => v.visit_bool(*b),
            F::U(8, n) => v.visit_u8(*n as u8),
            F::U(16, n) => v.visit_u16(*n as u16),
            F::U(32, n) => v.visit_u32(*n as u32),
            F::U(64, n) => v.visit_u64(*n as u64),
            F::U(_, n) => v.visit_u128(*n),
            F::I(8, n) => v.visit_i8(*n as i8),
            F::I(16, n) => v.visit_i16(*n as i16),
            F::I(32, n) => v.visit_i32(*n as i32),
            F::I(64, n) => v.visit_i64(*n as i64),
            F::I(_, n) => v.visit_i128(*n),
            F::F32(x) => v.visit_f32(*x),
            F::F64(x) => v.visit_f64(*x),
            F::Char(c) => v.visit_char(*c),
            F::Str(0, s) => v.visit_str(&s.clone()),
            F::Str(1, s) => v.visit_borrowed_str(s),
            F::Str(_, s) => v.visit_string(s.clone()),
            F::Bytes(0, b) => v.visit_bytes(&b.clone()),
            F::Bytes(1, b) => v.visit_borrowed_bytes(b),
            F::Bytes(_, b) => v.visit_byte_buf(b.clone()),
            F::None => v.visit_none(),
            F::Some(x) => v.visit_some(De(x)),
            F::Unit => v.visit_unit(),
            F::Newtype(x) => v.visit_newtype_struct(De(x)),
            F::Seq(h, xs) => v.visit_seq(Items(*h, xs.iter())),
            F::Map(h, xs) => v.visit_map(Entries(*h, xs.iter(), None)),
            F::Enum(n, x) => v.visit_enum(En(n, x)),
            F::Fail => Err(E(BOOM.into())),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct Items<'a>(Hint, std::slice::Iter<'a, F>);
impl<'de, 'a: 'de> SeqAccess<'de> for Items<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, E> {
        self.1.next().map(|x| t.deserialize(De(x))).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        self.0.of(self.1.len())
    }
}
struct Entries<'a>(Hint, std::slice::Iter<'a, (F, F)>, Option<&'a F>);
impl<'de, 'a: 'de> MapAccess<'de> for Entries<'a> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, E> {
        let Some((k, v)) = self.1.next() else { return Ok(None) };
        self.2 = Some(v);
        t.deserialize(De(k)).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<T::Value, E> {
        t.deserialize(De(self.2.take().expect("a value is asked for without its key")))
    }
    fn size_hint(&self) -> Option<usize> {
        self.0.of(self.1.len())
    }
}
struct En<'a>(&'a str, &'a VF);
impl<'de, 'a: 'de> EnumAccess<'de> for En<'a> {
    type Error = E;
    type Variant = Vr<'a>;
    fn variant_seed<T: DeserializeSeed<'de>>(self, t: T) -> Result<(T::Value, Vr<'a>), E> {
        let name = F::Str(0, self.0.to_string());
        // the name does not live as long as the data
        Ok((t.deserialize(Owned(name))?, Vr(self.1)))
    }
}
struct Owned(F);
impl<'de> Deserializer<'de> for Owned {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            F::Str(_, s) => v.visit_str(&s),
            _ => Err(E("not a name".into())),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct Vr<'a>(&'a VF);
impl<'de, 'a: 'de> VariantAccess<'de> for Vr<'a> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Err(E("not a unit variant".into()))
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, E> {
        Err(E("not a newtype variant".into()))
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> {
        self.struct_variant(&[], v)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        match self.0 {
            VF::Tuple(xs) => v.visit_seq(Items(Hint::Exact, xs.iter())),
            VF::Struct(xs) => v.visit_map(Entries(Hint::None, xs.iter(), None)),
        }
    }
}

// ---------------------------------------------------------------- what the data stands for

type M<T> = Result<T, ()>;
fn val(d: ValueDef<()>) -> Value<()> {
    Value { value: d, context: () }
}
fn prim(p: Primitive) -> ValueDef<()> {
    ValueDef::Primitive(p)
}
fn key(f: &F) -> M<String> {
    match f {
        F::Str(_, s) => Ok(s.clone()),
        F::Char(c) => Ok(c.to_string()),
        F::Bytes(_, b) => String::from_utf8(b.clone()).map_err(|_| ()),
        _ => Err(()),
    }
}
fn entries(xs: &[(F, F)]) -> M<Composite<()>> {
    let mut out = vec![];
    for (k, v) in xs {
        out.push((key(k)?, want_def(v).map(val)?));
    }
    Ok(Composite::Named(out))
}
fn items(xs: &[F]) -> M<Composite<()>> {
    Ok(Composite::Unnamed(xs.iter().map(|x| want_def(x).map(val)).collect::<M<_>>()?))
}
fn want_def(f: &F) -> M<ValueDef<()>> {
    Ok(match f {
        F::Bool(_) | F::U(..) | F::I(..) | F::Char(_) | F::Str(..) => prim(want_prim(f)?),
        F::None | F::Some(_) | F::Enum(..) => ValueDef::Variant(want_variant(f)?),
        F::Bytes(..) | F::Unit | F::Seq(..) => ValueDef::Composite(want_composite(f)?),
        F::Newtype(x) => want_def(x)?,
        F::Map(_, xs) => {
            if let Some((k, v)) = xs.first() {
                if key(k)? == "__bitvec__values__" {
                    return Ok(ValueDef::BitSequence(bools(v)?.into_iter().collect()));
                }
            }
            ValueDef::Composite(entries(xs)?)
        }
        F::F32(_) | F::F64(_) | F::Fail => return Err(()),
    })
}
fn bools(f: &F) -> M<Vec<bool>> {
    match f {
        F::Seq(_, xs) => xs
            .iter()
            .map(|x| match x {
                F::Bool(b) => Ok(*b),
                _ => Err(()),
            })
            .collect(),
        _ => Err(()),
    }
}
fn want_prim(f: &F) -> M<Primitive> {
    Ok(match f {
        F::Bool(b) => Primitive::Bool(*b),
        F::U(_, n) => Primitive::U128(*n),
        F::I(_, n) => Primitive::I128(*n),
        F::Char(c) => Primitive::Char(*c),
        F::Str(_, s) => Primitive::String(s.clone()),
        F::Bytes(_, b) => Primitive::U256(b.as_slice().try_into().map_err(|_| ())?),
        F::Seq(_, xs) => {
            let mut out = vec![];
            for x in xs {
                out.push(match x {
                    F::U(_, n) if *n < 256 => *n as u8,
                    F::I(_, n) if (0..256).contains(n) => *n as u8,
                    _ => return Err(()),
                });
            }
            Primitive::U256(out.try_into().map_err(|_| ())?)
        }
        _ => return Err(()),
    })
}
fn want_composite(f: &F) -> M<Composite<()>> {
    Ok(match f {
        F::Bytes(_, b) => Composite::Unnamed(b.iter().map(|b| val(prim(Primitive::U128(*b as u128)))).collect()),
        F::Unit => Composite::Unnamed(vec![]),
        F::Newtype(x) => want_composite(x)?,
        F::Seq(_, xs) => items(xs)?,
        F::Map(_, xs) => entries(xs)?,
        _ => return Err(()),
    })
}
fn want_variant(f: &F) -> M<Variant<()>> {
    Ok(match f {
        F::None => Variant { name: "None".into(), values: Composite::Unnamed(vec![]) },
        F::Some(x) => Variant { name: "Some".into(), values: Composite::Unnamed(vec![val(want_def(x)?)]) },
        F::Enum(n, x) => Variant {
            name: n.clone(),
            values: match &**x {
                VF::Tuple(xs) => items(xs)?,
                VF::Struct(xs) => entries(xs)?,
            },
        },
        F::Map(_, xs) => {
            let (mut name, mut values) = (None, None);
            for (k, v) in xs {
                match key(k)?.as_str() {
                    "name" => name = Some(key(v)?),
                    "values" => values = Some(want_composite(v)?),
                    _ => return Err(()),
                }
            }
            Variant { name: name.ok_or(())?, values: values.ok_or(())? }
        }
        _ => return Err(()),
    })
}
/// Things whose treatment is not said: repeated name or values of a variant as a map, entries after
/// a bit sequence.
fn open_variant(f: &F) -> bool {
    match f {
        F::Map(_, xs) => {
            let n = |w: &str| xs.iter().filter(|(k, _)| key(k).is_ok_and(|k| k == w)).count();
            n("name") > 1 || n("values") > 1
        }
        F::Newtype(_) => true,
        _ => false,
    }
}

// ---------------------------------------------------------------- generation

struct G<'a> {
    s: &'a mut Src,
    fuel: i32,
    bad: bool,
}
impl G<'_> {
    fn hint(&mut self) -> Hint {
        match self.s.weighted(&[4, 4, 1]) {
            0 => Hint::None,
            1 => Hint::Exact,
            _ => Hint::Claim(*self.s.pick(&[0, 1, 1000, 1 << 40, usize::MAX / 2, usize::MAX])),
        }
    }
    fn key(&mut self) -> F {
        if self.bad && self.s.ratio(1, 12) {
            return match self.s.below(5) {
                0 => F::Bytes(self.s.below(3) as u8, self.s.pick(&[&b"ab"[..], &[0xff, 0x80][..]]).to_vec()),
                1 => F::U(8, 1),
                2 => F::Bool(true),
                3 => F::Fail,
                _ => F::Unit,
            };
        }
        if self.s.ratio(1, 10) {
            return F::Char(gen_char(self.s));
        }
        let mut n = gen_any_name(self.s);
        if n == "__bitvec__values__" {
            n.push('x');
        }
        F::Str(self.s.below(3) as u8, n)
    }
    fn pairs(&mut self, d: u32) -> Vec<(F, F)> {
        let n = if self.fuel <= 0 { 0 } else { self.s.len(5) };
        (0..n).map(|_| (self.key(), self.f(d + 1))).collect()
    }
    fn list(&mut self, d: u32) -> Vec<F> {
        if self.s.ratio(1, 16) {
            let n = *self.s.pick(&[32, 31, 33, 1, 0]);
            return (0..n)
                .map(|_| {
                    let b = self.s.byte();
                    if self.s.ratio(1, 60) { F::U(16, 256) } else { F::U(*self.s.pick(&[8, 16, 64]), b as u128) }
                })
                .collect();
        }
        if self.fuel > 4 && self.s.ratio(1, 300) {
            let n = *self.s.pick(&[100, 1023, 1024, 1025, 4096, 4097, 5000]);
            let n = crate::src::cap(n);
            self.fuel = 0;
            let x = self.f(d + 1);
            let y = self.f(d + 1);
            let mut out = vec![x; n];
            out[n - 1] = y;
            return out;
        }
        let n = if self.fuel <= 0 { 0 } else { self.s.len(5) };
        (0..n).map(|_| self.f(d + 1)).collect()
    }
    fn f(&mut self, d: u32) -> F {
        self.fuel -= 1;
        let leaf = self.fuel <= 0 || d > 8;
        let w = if leaf { 0 } else { 1 };
        let b = if self.bad { 1 } else { 0 };
        match self.s.weighted(&[2, 4, 3, 1, 3, 2, 2, 2 * w, 2, 2 * w, 4 * w, 4 * w, 4 * w, b, b, w]) {
            0 => F::Bool(self.s.coin()),
            1 => {
                let b = *self.s.pick(&[8, 16, 32, 64, 128]);
                F::U(b, self.s.uint(b))
            }
            2 => {
                let b = *self.s.pick(&[8, 16, 32, 64, 128]);
                F::I(b, self.s.sint(b))
            }
            3 => F::Char(gen_char(self.s)),
            4 => F::Str(self.s.below(3) as u8, gen_string(self.s)),
            5 => {
                let n = if self.s.ratio(1, 3) { 32 } else { self.s.len(40) };
                F::Bytes(self.s.below(3) as u8, self.s.bytes(n))
            }
            6 => F::None,
            7 => F::Some(Box::new(self.f(d + 1))),
            8 => F::Unit,
            9 => F::Newtype(Box::new(self.f(d + 1))),
            10 => F::Seq(self.hint(), self.list(d)),
            11 => {
                let h = self.hint();
                let xs = self.pairs(d);
                F::Map(h, xs)
            }
            12 => {
                let n = gen_any_name(self.s);
                let v = if self.s.coin() { VF::Tuple(self.list(d)) } else { VF::Struct(self.pairs(d)) };
                F::Enum(n, Box::new(v))
            }
            13 => {
                if self.s.coin() {
                    F::F32(1.0)
                } else {
                    F::F64(self.s.u64() as f64)
                }
            }
            14 => F::Fail,
            _ => {
                // the marked forms
                if self.s.coin() {
                    let mut bits: Vec<F> = gen_bits(self.s, 0).into_iter().map(F::Bool).collect();
                    if self.bad && self.s.ratio(1, 4) && !bits.is_empty() {
                        let k = self.s.below(bits.len());
                        bits[k] = self.f(d + 1);
                    }
                    let v = if self.bad && self.s.ratio(1, 8) { self.f(d + 1) } else { F::Seq(self.hint(), bits) };
                    F::Map(self.hint(), vec![(F::Str(self.s.below(3) as u8, "__bitvec__values__".into()), v)])
                } else {
                    let v = match self.s.below(6) {
                        0 if self.bad => self.f(d + 1),
                        0..=2 => F::Map(self.hint(), self.pairs(d)),
                        _ => F::Seq(self.hint(), self.list(d)),
                    };
                    let n = if self.bad && self.s.ratio(1, 8) { self.f(d + 1) } else { F::Str(self.s.below(3) as u8, gen_any_name(self.s)) };
                    let mut xs = vec![(F::Str(0, "name".into()), n), (F::Str(1, "values".into()), v)];
                    if self.s.coin() {
                        xs.swap(0, 1);
                    }
                    if self.bad && self.s.ratio(1, 4) {
                        match self.s.below(3) {
                            0 => {
                                let k = self.key();
                                let at = self.s.below(xs.len() + 1);
                                let v = self.f(d + 1);
                                xs.insert(at, (k, v))
                            }
                            _ => {
                                let at = self.s.below(xs.len());
                                xs.remove(at);
                            }
                        }
                    }
                    F::Map(self.hint(), xs)
                }
            }
        }
    }
}
fn parts(f: &F) -> usize {
    1 + match f {
        F::Some(x) | F::Newtype(x) => parts(x),
        F::Seq(_, xs) => xs.iter().map(parts).sum(),
        F::Map(_, xs) => xs.iter().map(|(_, x)| parts(x)).sum(),
        F::Enum(_, v) => match &**v {
            VF::Tuple(xs) => xs.iter().map(parts).sum(),
            VF::Struct(xs) => xs.iter().map(|(_, x)| parts(x)).sum(),
        },
        _ => 0,
    }
}

fn agree<T: PartialEq + fmt::Debug>(what: &str, got: Result<T, E>, want: M<T>) -> R {
    match (&got, &want) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Err(_), Err(())) => Ok(()),
        _ => fail!("read as a {what}: {got:?}\n expected {want:?}"),
    }
}

fn c25(s: &mut Src, o: &mut Obs) -> R {
    let fuel = *s.pick(&[3, 10, 30]);
    if s.ratio(1, 3) {
        return written(s, o, fuel);
    }
    let bad = s.ratio(1, 3);
    let f = G { s, fuel, bad }.f(0);
    o.desc(|| format!("{f:?}"));
    if parts(&f) >= 3 {
        o.nontrivial(format!("{f:?}").as_bytes());
    }
    let want = want_def(&f);
    o.class_if(want.is_ok(), "data that makes a value");
    o.class_if(want.is_err(), "data refused as a value");
    agree("ValueDef", ValueDef::<()>::deserialize(De(&f)), want.clone())?;
    agree("Value", Value::<()>::deserialize(De(&f)), want.map(val))?;
    let w = want_composite(&f);
    o.class_if(w.is_ok(), "data that makes a composite");
    agree("Composite", Composite::<()>::deserialize(De(&f)), w)?;
    let w = want_prim(&f);
    o.class_if(w.is_ok(), "data that makes a primitive");
    agree("Primitive", Primitive::deserialize(De(&f)), w)?;
    if !open_variant(&f) {
        let w = want_variant(&f);
        o.class_if(w.is_ok(), "data that makes a variant");
        agree("Variant", Variant::<()>::deserialize(De(&f)), w)?;
    }
    Ok(())
}

/// Sizes which the data claims but does not have.
fn hints(_: &mut Obs) -> R {
    for n in [0, 1, 7, 1 << 20, 1 << 33, 1 << 40, usize::MAX / 64, usize::MAX] {
        for k in 0..3 {
            let h = Hint::Claim(n);
            let one = F::U(8, 1);
            let (f, want) = match k {
                0 => (F::Seq(h, vec![one]), Value::unnamed_composite([Value::u128(1)])),
                1 => (F::Map(h, vec![(F::Str(0, "a".into()), one)]), Value::named_composite([("a", Value::u128(1))])),
                _ => (
                    F::Map(h, vec![(F::Str(0, "__bitvec__values__".into()), F::Seq(h, vec![F::Bool(true)]))]),
                    Value::bit_sequence([true].into_iter().collect()),
                ),
            };
            let (got, most) = crate::alloc::measure(|| catch(|| Value::<()>::deserialize(De(&f))));
            check!(got.as_ref().ok().and_then(|r| r.as_ref().ok()) == Some(&want), "claiming {n}: {got:?}");
            check!(most < 8 << 20, "one item claiming to be {n} made reading it ask for {most} bytes at once");
            if k < 2 {
                let got = catch(|| Composite::<()>::deserialize(De(&f)));
                check!(matches!(&got, Ok(Ok(_))), "claiming {n}: {got:?}");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- writing

/// Records what is written, failing at the given event.
struct Rec<'a>(&'a Cell<i64>);
impl Rec<'_> {
    fn ok(&self, f: F) -> Result<F, E> {
        self.0.set(self.0.get() - 1);
        if self.0.get() == 0 {
            return Err(E(BOOM.into()));
        }
        Ok(f)
    }
}
struct RecSeq<'a>(&'a Cell<i64>, Option<usize>, Vec<F>);
impl SerializeSeq for RecSeq<'_> {
    type Ok = F;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), E> {
        self.2.push(x.serialize(Rec(self.0))?);
        Ok(())
    }
    fn end(self) -> Result<F, E> {
        if self.1.is_some_and(|n| n != self.2.len()) {
            return Err(E(format!("a list said to have {:?} items has {}", self.1, self.2.len())));
        }
        Rec(self.0).ok(F::Seq(Hint::Exact, self.2))
    }
}
impl SerializeTuple for RecSeq<'_> {
    type Ok = F;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), E> {
        SerializeSeq::serialize_element(self, x)
    }
    fn end(self) -> Result<F, E> {
        SerializeSeq::end(self)
    }
}
struct RecMap<'a>(&'a Cell<i64>, Option<usize>, Vec<(F, F)>, Option<F>);
impl SerializeMap for RecMap<'_> {
    type Ok = F;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), E> {
        if self.3.is_some() {
            return Err(E("two keys in a row".into()));
        }
        self.3 = Some(x.serialize(Rec(self.0))?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), E> {
        let k = self.3.take().ok_or(E("a value without a key".into()))?;
        self.2.push((k, x.serialize(Rec(self.0))?));
        Ok(())
    }
    fn end(self) -> Result<F, E> {
        if self.3.is_some() || self.1.is_some_and(|n| n != self.2.len()) {
            return Err(E(format!("a map said to have {:?} entries has {}", self.1, self.2.len())));
        }
        Rec(self.0).ok(F::Map(Hint::Exact, self.2))
    }
}
type No = ser::Impossible<F, E>;
fn odd<T>(what: &str) -> Result<T, E> {
    Err(E(format!("{what} was written")))
}
impl<'a> ser::Serializer for Rec<'a> {
    type Ok = F;
    type Error = E;
    type SerializeSeq = RecSeq<'a>;
    type SerializeTuple = RecSeq<'a>;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = RecMap<'a>;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn serialize_bool(self, v: bool) -> Result<F, E> {
        self.ok(F::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<F, E> {
        self.ok(F::I(8, v as i128))
    }
    fn serialize_i16(self, v: i16) -> Result<F, E> {
        self.ok(F::I(16, v as i128))
    }
    fn serialize_i32(self, v: i32) -> Result<F, E> {
        self.ok(F::I(32, v as i128))
    }
    fn serialize_i64(self, v: i64) -> Result<F, E> {
        self.ok(F::I(64, v as i128))
    }
    fn serialize_i128(self, v: i128) -> Result<F, E> {
        self.ok(F::I(128, v))
    }
    fn serialize_u8(self, v: u8) -> Result<F, E> {
        self.ok(F::U(8, v as u128))
    }
    fn serialize_u16(self, v: u16) -> Result<F, E> {
        self.ok(F::U(16, v as u128))
    }
    fn serialize_u32(self, v: u32) -> Result<F, E> {
        self.ok(F::U(32, v as u128))
    }
    fn serialize_u64(self, v: u64) -> Result<F, E> {
        self.ok(F::U(64, v as u128))
    }
    fn serialize_u128(self, v: u128) -> Result<F, E> {
        self.ok(F::U(128, v))
    }
    fn serialize_f32(self, _: f32) -> Result<F, E> {
        odd("f32")
    }
    fn serialize_f64(self, _: f64) -> Result<F, E> {
        odd("f64")
    }
    fn serialize_char(self, v: char) -> Result<F, E> {
        self.ok(F::Char(v))
    }
    fn serialize_str(self, v: &str) -> Result<F, E> {
        self.ok(F::Str(0, v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<F, E> {
        self.ok(F::Bytes(0, v.to_vec()))
    }
    fn serialize_none(self) -> Result<F, E> {
        odd("none")
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<F, E> {
        odd("some")
    }
    fn serialize_unit(self) -> Result<F, E> {
        odd("unit")
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<F, E> {
        odd("unit struct")
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<F, E> {
        odd("unit variant")
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<F, E> {
        odd("newtype struct")
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<F, E> {
        odd("newtype variant")
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<RecSeq<'a>, E> {
        n.ok_or(E("a list was written without its size".into()))?;
        Ok(RecSeq(self.0, n, vec![]))
    }
    fn serialize_tuple(self, n: usize) -> Result<RecSeq<'a>, E> {
        Ok(RecSeq(self.0, Some(n), vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, E> {
        odd("tuple struct")
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, E> {
        odd("tuple variant")
    }
    fn serialize_map(self, n: Option<usize>) -> Result<RecMap<'a>, E> {
        n.ok_or(E("a map was written without its size".into()))?;
        Ok(RecMap(self.0, n, vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, E> {
        odd("struct")
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, E> {
        odd("struct variant")
    }
}

fn narrow_u(n: u128) -> u32 {
    *[8, 16, 32, 64].iter().find(|b| n >> **b == 0).unwrap_or(&128)
}
fn narrow_i(n: i128) -> u32 {
    *[8u32, 16, 32, 64].iter().find(|b| n >> (**b - 1) == 0 || n >> (**b - 1) == -1).unwrap_or(&128)
}
fn s(x: &str) -> F {
    F::Str(0, x.into())
}
fn list<T>(xs: impl IntoIterator<Item = T>, f: impl Fn(T) -> F) -> F {
    F::Seq(Hint::Exact, xs.into_iter().map(f).collect())
}
fn out_c(c: &Composite<()>) -> F {
    match c {
        Composite::Named(vs) => F::Map(Hint::Exact, vs.iter().map(|(n, v)| (s(n), out(v))).collect()),
        Composite::Unnamed(vs) => list(vs, out),
    }
}
fn out(v: &Value<()>) -> F {
    match &v.value {
        ValueDef::Composite(c) => out_c(c),
        ValueDef::Variant(x) => F::Map(Hint::Exact, vec![(s("name"), s(&x.name)), (s("values"), out_c(&x.values))]),
        ValueDef::BitSequence(b) => F::Map(Hint::Exact, vec![(s("__bitvec__values__"), list(b.iter(), F::Bool))]),
        ValueDef::Primitive(p) => match p {
            Primitive::Bool(b) => F::Bool(*b),
            Primitive::Char(c) => F::Char(*c),
            Primitive::String(x) => s(x),
            Primitive::U128(n) => F::U(narrow_u(*n), *n),
            Primitive::I128(n) => F::I(narrow_i(*n), *n),
            Primitive::U256(b) | Primitive::I256(b) => list(b, |b| F::U(8, *b as u128)),
        },
    }
}

fn written(s: &mut Src, o: &mut Obs, fuel: i32) -> R {
    let base = if s.ratio(1, 400) {
        // many entries
        o.class("written values of many entries");
        let n = *s.pick(&[127, 128, 255, 256, 257, 300, 1000, 4097]);
        let vs = (0..n as u128).map(Value::u128);
        let c = if s.coin() { Composite::Unnamed(vs.collect()) } else { Composite::Named(vs.enumerate().map(|(i, v)| (format!("n{i}"), v)).collect()) };
        val(if s.coin() { ValueDef::Composite(c) } else { ValueDef::Variant(Variant { name: "V".into(), values: c }) })
    } else {
        clean(&gen_value(s, ValOpts::new(fuel)))
    };
    o.desc(|| show(&base));
    if count_nodes(&base) >= 3 {
        o.nontrivial(show(&base).as_bytes());
    }
    o.class("written values");
    let v = with_ctx(&base, &mut |_| 7u8);
    let left = Cell::new(0i64);
    let got = v.serialize(Rec(&left));
    let want = out(&base);
    check!(got.as_ref() == Ok(&want), "written as {got:?}\n expected {want:?}");
    let events = -left.get();
    let part = match &v.value {
        ValueDef::Composite(c) => c.serialize(Rec(&left)),
        ValueDef::Variant(c) => c.serialize(Rec(&left)),
        ValueDef::Primitive(c) => c.serialize(Rec(&left)),
        ValueDef::BitSequence(_) => v.value.serialize(Rec(&left)),
    };
    check!(part.as_ref() == Ok(&want), "the part is written as {part:?}\n expected {want:?}");
    // a format that fails at some point
    left.set(1 + s.below(events as usize) as i64);
    let at = left.get();
    let got = v.serialize(Rec(&left));
    check!(matches!(&got, Err(e) if e.0 == BOOM), "the format failed at event {at} of {events}, but: {got:?}");
    // and back
    let back = Value::<()>::deserialize(De(&want));
    let wb = from_json(&base, false);
    check!(back.as_ref() == Ok(&wb), "reads back as {back:?}");
    match &base.value {
        ValueDef::Variant(x) => {
            let got = Variant::<()>::deserialize(De(&want));
            let ValueDef::Composite(c) = from_json(&val(ValueDef::Composite(x.values.clone())), false).value else { unreachable!() };
            let w = Variant { name: x.name.clone(), values: c };
            check!(got.as_ref() == Ok(&w), "reads back as the variant {got:?}");
        }
        ValueDef::Composite(_) => {
            let got = Composite::<()>::deserialize(De(&want));
            check!(matches!((&got, &wb.value), (Ok(a), ValueDef::Composite(b)) if a == b), "reads back as the composite {got:?}");
        }
        ValueDef::Primitive(p) => {
            let got = Primitive::deserialize(De(&want));
            let w = match p {
                Primitive::I256(b) => Primitive::U256(*b),
                p => p.clone(),
            };
            check!(got.as_ref() == Ok(&w), "reads back as the primitive {got:?}");
        }
        ValueDef::BitSequence(b) => {
            let got = Composite::<()>::deserialize(De(&want));
            let w = bits_as_maps(&val(ValueDef::BitSequence(b.clone())));
            check!(matches!((&got, &w.value), (Ok(a), ValueDef::Composite(b)) if a == b), "reads back as the composite {got:?}");
        }
    }
    Ok(())
}
