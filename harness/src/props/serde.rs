//! C17 C18 C19 C20: serde conversions.
//!
//! `Ty` describes a Rust type by the serde data model; `D` is a datum of such a type. `D` serializes
//! with the calls that derived code makes, and `Ty` is a seed which deserializes with the hints and
//! visitors that derived code uses, so that types can be generated at random. `zoo` has real derived
//! types, each with its `Ty`.
use crate::run::{Obs, Prop, R};
use crate::src::Src;
use crate::ty::{gen_char, gen_string};
use crate::val::*;
use crate::{check, fail};
use scale_value::serde::{from_value, to_value};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Serialize, Serializer};
use std::fmt;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "random value with contexts deserialized at every entry point and inside derived types; non-trivial when it has at least 3 nodes",
            quick: 1_200_000,
            thorough: 18_000_000,
            run: c17,
            probes: &[],
        },
        Prop {
            id: "C18",
            rule: "random serde type and datum converted to a value and back, and derived types; non-trivial when the type has at least 3 parts",
            quick: 6_000_000,
            thorough: 90_000_000,
            run: c18,
            probes: &[("zoo", c18_zoo)],
        },
        Prop {
            id: "C19",
            rule: "value of a random serde type, perturbed, or a random value, converted to the type; non-trivial when the conversion is judged and the value is not the type's own form",
            quick: 6_000_000,
            thorough: 90_000_000,
            run: c19,
            probes: &[("integer limits", c19_limits)],
        },
        Prop {
            id: "C20",
            rule: "random value to JSON text and back; non-trivial when it has at least 3 nodes",
            quick: 1_000_000,
            thorough: 15_000_000,
            run: c20,
            probes: &[],
        },
    ]
}

// ---------------------------------------------------------------- types and data

static NAMES: [&str; 28] = [
    "a", "b", "name", "values", "Foo", "Bar", "x1", "type", "Some", "None", "c", "d", "e", "f", "日本", "with space", "k", "l", "m", "n", "o",
    "p", "q", "r", "s", "", "u", "v",
];

#[derive(Clone, Debug)]
enum Ty {
    Bool,
    Char,
    Str,
    U(u32),
    I(u32),
    Unit,
    UnitStruct,
    Opt(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Newtype(Box<Ty>),
    /// Names from NAMES at this offset
    Struct(usize, Vec<Ty>),
    /// keys are chars or strings
    Map(bool, Box<Ty>),
    Enum(usize, Vec<VTy>),
    Bytes,
    F64,
    Val,
}
#[derive(Clone, Debug)]
enum VTy {
    Unit,
    Newtype(Ty),
    Tuple(Vec<Ty>),
    Struct(usize, Vec<Ty>),
}

#[derive(Clone, Debug, PartialEq)]
enum D {
    Bool(bool),
    Char(char),
    Str(String),
    U(u32, u128),
    I(u32, i128),
    Unit,
    UnitStruct,
    None,
    Some(Box<D>),
    Seq(Vec<D>),
    Tuple(Vec<D>),
    TupleStruct(Vec<D>),
    Newtype(Box<D>),
    Struct(usize, Vec<D>),
    Map(bool, Vec<(String, D)>),
    Variant(usize, usize, VD),
    Bytes(Vec<u8>),
    Val(Value<()>),
    // not convertible
    F32(f32),
    F64(f64),
    BadMap(Box<D>, Box<D>),
}
#[derive(Clone, Debug, PartialEq)]
enum VD {
    Unit,
    Newtype(Box<D>),
    Tuple(Vec<D>),
    Struct(usize, Vec<D>),
}

#[derive(Clone, Copy)]
struct TOpts {
    val: bool,
    bytes: bool,
    f64: bool,
}

fn gen_tys(s: &mut Src, fuel: &mut i32, d: u32, o: TOpts, no_one: bool) -> Vec<Ty> {
    let mut n = s.len(5);
    if no_one && n == 1 {
        n = 2;
    }
    (0..n).map(|_| gen_ty(s, fuel, d + 1, o)).collect()
}
fn gen_off(s: &mut Src, n: usize) -> usize {
    s.below(NAMES.len() - n.min(NAMES.len()) + 1)
}
fn gen_ty(s: &mut Src, fuel: &mut i32, d: u32, o: TOpts) -> Ty {
    *fuel -= 1;
    let leaf = *fuel <= 0 || d > 5;
    let k = if leaf { s.below(8) } else { s.below(20) };
    match k {
        0 => Ty::U(*s.pick(&[8, 16, 32, 64, 128])),
        1 => Ty::I(*s.pick(&[8, 16, 32, 64, 128])),
        2 => Ty::Bool,
        3 => Ty::Str,
        4 => Ty::Char,
        5 => Ty::Unit,
        6 => Ty::UnitStruct,
        7 => {
            if o.val && s.ratio(2, 3) {
                Ty::Val
            } else if o.bytes && s.coin() {
                Ty::Bytes
            } else if o.f64 && s.ratio(1, 4) {
                Ty::F64
            } else {
                Ty::U(8)
            }
        }
        8 | 9 => Ty::Opt(Box::new(gen_ty(s, fuel, d + 1, o))),
        10 => Ty::Seq(Box::new(gen_ty(s, fuel, d + 1, o))),
        11 => Ty::Tuple(gen_tys(s, fuel, d, o, false)),
        12 => Ty::TupleStruct(gen_tys(s, fuel, d, o, true)),
        13 | 14 => Ty::Newtype(Box::new(gen_ty(s, fuel, d + 1, o))),
        15 | 16 => {
            let v = gen_tys(s, fuel, d, o, false);
            Ty::Struct(gen_off(s, v.len()), v)
        }
        17 => Ty::Map(s.ratio(1, 4), Box::new(gen_ty(s, fuel, d + 1, o))),
        _ => {
            let n = 1 + s.len(4);
            let vs: Vec<VTy> = (0..n)
                .map(|_| match s.below(4) {
                    0 => VTy::Unit,
                    1 => VTy::Newtype(gen_ty(s, fuel, d + 1, o)),
                    2 => VTy::Tuple(gen_tys(s, fuel, d, o, true)),
                    _ => {
                        let v = gen_tys(s, fuel, d, o, false);
                        VTy::Struct(gen_off(s, v.len()), v)
                    }
                })
                .collect();
            Ty::Enum(gen_off(s, n), vs)
        }
    }
}
fn ty_size(t: &Ty) -> usize {
    let sum = |v: &Vec<Ty>| v.iter().map(ty_size).sum::<usize>();
    1 + match t {
        Ty::Opt(t) | Ty::Seq(t) | Ty::Newtype(t) | Ty::Map(_, t) => ty_size(t),
        Ty::Tuple(v) | Ty::TupleStruct(v) | Ty::Struct(_, v) => sum(v),
        Ty::Enum(_, vs) => vs
            .iter()
            .map(|v| match v {
                VTy::Unit => 1,
                VTy::Newtype(t) => ty_size(t),
                VTy::Tuple(v) | VTy::Struct(_, v) => sum(v),
            })
            .sum(),
        _ => 0,
    }
}

fn gen_d(s: &mut Src, t: &Ty, fuel: &mut i32) -> D {
    *fuel -= 1;
    let many = |s: &mut Src, v: &Vec<Ty>, fuel: &mut i32| v.iter().map(|t| gen_d(s, t, fuel)).collect::<Vec<_>>();
    match t {
        Ty::Bool => D::Bool(s.coin()),
        Ty::Char => D::Char(gen_char(s)),
        Ty::Str => D::Str(gen_string(s)),
        Ty::U(b) => D::U(*b, s.uint(*b)),
        Ty::I(b) => D::I(*b, s.sint(*b)),
        Ty::Unit => D::Unit,
        Ty::UnitStruct => D::UnitStruct,
        Ty::Opt(t) => {
            if s.ratio(3, 4) {
                D::Some(Box::new(gen_d(s, t, fuel)))
            } else {
                D::None
            }
        }
        Ty::Seq(t) => {
            let n = if *fuel <= 0 { 0 } else { s.len(6) };
            D::Seq((0..n).map(|_| gen_d(s, t, fuel)).collect())
        }
        Ty::Tuple(v) => D::Tuple(many(s, v, fuel)),
        Ty::TupleStruct(v) => D::TupleStruct(many(s, v, fuel)),
        Ty::Newtype(t) => D::Newtype(Box::new(gen_d(s, t, fuel))),
        Ty::Struct(o, v) => D::Struct(*o, many(s, v, fuel)),
        Ty::Map(ch, t) => {
            let n = if *fuel <= 0 { 0 } else { s.len(5) };
            D::Map(
                *ch,
                (0..n)
                    .map(|_| {
                        let k = if *ch { gen_char(s).to_string() } else { gen_any_name(s) };
                        (k, gen_d(s, t, fuel))
                    })
                    .collect(),
            )
        }
        Ty::Enum(o, vs) => {
            let i = s.below(vs.len());
            let vd = match &vs[i] {
                VTy::Unit => VD::Unit,
                VTy::Newtype(t) => VD::Newtype(Box::new(gen_d(s, t, fuel))),
                VTy::Tuple(v) => VD::Tuple(many(s, v, fuel)),
                VTy::Struct(o, v) => VD::Struct(*o, many(s, v, fuel)),
            };
            D::Variant(*o, i, vd)
        }
        Ty::Bytes => {
            let n = s.len(40);
            D::Bytes(s.bytes(n))
        }
        Ty::F64 => D::F64(1.0),
        Ty::Val => {
            let v = gen_value(s, ValOpts { max_depth: 3, ..ValOpts::new(6) });
            D::Val(clean(&v))
        }
    }
}

/// The value a datum should be converted to.
fn shape(d: &D) -> Value<()> {
    let many = |v: &Vec<D>| v.iter().map(shape).collect::<Vec<_>>();
    let un = |v: Vec<Value<()>>| ValueDef::Composite(Composite::Unnamed(v));
    let var = |n: &str, values| ValueDef::Variant(Variant { name: n.to_string(), values });
    let fields = |o: &usize, v: &Vec<D>| {
        Composite::Named(v.iter().enumerate().map(|(i, d)| (NAMES[o + i].to_string(), shape(d))).collect())
    };
    let value = match d {
        D::Bool(b) => ValueDef::Primitive(Primitive::Bool(*b)),
        D::Char(b) => ValueDef::Primitive(Primitive::Char(*b)),
        D::Str(b) => ValueDef::Primitive(Primitive::String(b.clone())),
        D::U(_, n) => ValueDef::Primitive(Primitive::U128(*n)),
        D::I(_, n) => ValueDef::Primitive(Primitive::I128(*n)),
        D::Unit | D::UnitStruct => un(vec![]),
        D::None => var("None", Composite::Unnamed(vec![])),
        D::Some(x) => var("Some", Composite::Unnamed(vec![shape(x)])),
        D::Seq(v) | D::Tuple(v) | D::TupleStruct(v) => un(many(v)),
        D::Newtype(x) => return shape(x),
        D::Struct(o, v) => ValueDef::Composite(fields(o, v)),
        D::Map(_, v) => ValueDef::Composite(Composite::Named(v.iter().map(|(k, d)| (k.clone(), shape(d))).collect())),
        D::Variant(o, i, vd) => var(
            NAMES[o + i],
            match vd {
                VD::Unit => Composite::Unnamed(vec![]),
                VD::Newtype(x) => Composite::Unnamed(vec![shape(x)]),
                VD::Tuple(v) => Composite::Unnamed(many(v)),
                VD::Struct(o, v) => fields(o, v),
            },
        ),
        D::Bytes(b) => return byte_list(b),
        D::Val(v) => return v.clone(),
        D::F32(_) | D::F64(_) | D::BadMap(..) => unreachable!(),
    };
    Value { value, context: () }
}
fn byte_list(b: &[u8]) -> Value<()> {
    let v = b.iter().map(|b| Value { value: ValueDef::Primitive(Primitive::U128(*b as u128)), context: () }).collect();
    Value { value: ValueDef::Composite(Composite::Unnamed(v)), context: () }
}

impl Serialize for D {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            D::Bool(x) => s.serialize_bool(*x),
            D::Char(x) => s.serialize_char(*x),
            D::Str(x) => s.serialize_str(x),
            D::U(8, n) => s.serialize_u8(*n as u8),
            D::U(16, n) => s.serialize_u16(*n as u16),
            D::U(32, n) => s.serialize_u32(*n as u32),
            D::U(64, n) => s.serialize_u64(*n as u64),
            D::U(_, n) => s.serialize_u128(*n),
            D::I(8, n) => s.serialize_i8(*n as i8),
            D::I(16, n) => s.serialize_i16(*n as i16),
            D::I(32, n) => s.serialize_i32(*n as i32),
            D::I(64, n) => s.serialize_i64(*n as i64),
            D::I(_, n) => s.serialize_i128(*n),
            D::Unit => s.serialize_unit(),
            D::UnitStruct => s.serialize_unit_struct("Us"),
            D::None => s.serialize_none(),
            D::Some(x) => s.serialize_some(&**x),
            D::Seq(v) => {
                let mut q = s.serialize_seq(if v.len() % 2 == 0 { Some(v.len()) } else { None })?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            D::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            D::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("Ts", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            D::Newtype(x) => s.serialize_newtype_struct("Nt", &**x),
            D::Struct(o, v) => {
                let mut q = s.serialize_struct("St", v.len())?;
                for (i, x) in v.iter().enumerate() {
                    q.serialize_field(NAMES[o + i], x)?;
                }
                q.end()
            }
            D::Map(ch, v) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (i, (k, x)) in v.iter().enumerate() {
                    let c;
                    let key: D = if *ch {
                        c = k.chars().next().unwrap();
                        D::Char(c)
                    } else {
                        D::Str(k.clone())
                    };
                    if i % 2 == 0 {
                        q.serialize_entry(&key, x)?;
                    } else {
                        q.serialize_key(&key)?;
                        q.serialize_value(x)?;
                    }
                }
                q.end()
            }
            D::BadMap(k, x) => {
                let mut q = s.serialize_map(None)?;
                q.serialize_entry(&**k, &**x)?;
                q.end()
            }
            D::Variant(o, i, vd) => {
                let name = NAMES[o + i];
                let ix = *i as u32;
                match vd {
                    VD::Unit => s.serialize_unit_variant("En", ix, name),
                    VD::Newtype(x) => s.serialize_newtype_variant("En", ix, name, &**x),
                    VD::Tuple(v) => {
                        let mut q = s.serialize_tuple_variant("En", ix, name, v.len())?;
                        for x in v {
                            q.serialize_field(x)?;
                        }
                        q.end()
                    }
                    VD::Struct(o, v) => {
                        let mut q = s.serialize_struct_variant("En", ix, name, v.len())?;
                        for (i, x) in v.iter().enumerate() {
                            q.serialize_field(NAMES[o + i], x)?;
                        }
                        q.end()
                    }
                }
            }
            D::Bytes(b) => s.serialize_bytes(b),
            D::Val(v) => v.serialize(s),
            D::F32(f) => s.serialize_f32(*f),
            D::F64(f) => s.serialize_f64(*f),
        }
    }
}

// ---- deserializing by type, as derived code does

impl<'de> DeserializeSeed<'de> for &Ty {
    type Value = D;
    fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<D, X::Error> {
        Ok(match self {
            Ty::Bool => D::Bool(bool::deserialize(d)?),
            Ty::Char => D::Char(char::deserialize(d)?),
            Ty::Str => D::Str(String::deserialize(d)?),
            Ty::U(8) => D::U(8, u8::deserialize(d)? as u128),
            Ty::U(16) => D::U(16, u16::deserialize(d)? as u128),
            Ty::U(32) => D::U(32, u32::deserialize(d)? as u128),
            Ty::U(64) => D::U(64, u64::deserialize(d)? as u128),
            Ty::U(b) => D::U(*b, u128::deserialize(d)?),
            Ty::I(8) => D::I(8, i8::deserialize(d)? as i128),
            Ty::I(16) => D::I(16, i16::deserialize(d)? as i128),
            Ty::I(32) => D::I(32, i32::deserialize(d)? as i128),
            Ty::I(64) => D::I(64, i64::deserialize(d)? as i128),
            Ty::I(b) => D::I(*b, i128::deserialize(d)?),
            Ty::Unit => {
                <()>::deserialize(d)?;
                D::Unit
            }
            Ty::UnitStruct => d.deserialize_unit_struct("Us", UnitV)?,
            Ty::Opt(t) => d.deserialize_option(OptV(t))?,
            Ty::Seq(t) => d.deserialize_seq(SeqV(t))?,
            Ty::Tuple(v) => D::Tuple(d.deserialize_tuple(v.len(), TupV(v))?),
            Ty::TupleStruct(v) => D::TupleStruct(d.deserialize_tuple_struct("Ts", v.len(), TupV(v))?),
            Ty::Newtype(t) => d.deserialize_newtype_struct("Nt", NewV(t))?,
            Ty::Struct(o, v) => D::Struct(*o, d.deserialize_struct("St", &NAMES[*o..o + v.len()], StV(*o, v))?),
            Ty::Map(ch, t) => d.deserialize_map(MapV(*ch, t))?,
            Ty::Enum(o, vs) => d.deserialize_enum("En", &NAMES[*o..o + vs.len()], EnV(*o, vs))?,
            Ty::Bytes => d.deserialize_byte_buf(BytesV)?,
            Ty::F64 => D::F64(f64::deserialize(d)?),
            Ty::Val => D::Val(Value::deserialize(d)?),
        })
    }
}
struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit struct")
    }
    fn visit_unit<E: de::Error>(self) -> Result<D, E> {
        Ok(D::UnitStruct)
    }
}
struct OptV<'a>(&'a Ty);
impl<'de> Visitor<'de> for OptV<'_> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_unit<E: de::Error>(self) -> Result<D, E> {
        Ok(D::None)
    }
    fn visit_none<E: de::Error>(self) -> Result<D, E> {
        Ok(D::None)
    }
    fn visit_some<X: Deserializer<'de>>(self, d: X) -> Result<D, X::Error> {
        Ok(D::Some(Box::new(self.0.deserialize(d)?)))
    }
}
struct SeqV<'a>(&'a Ty);
impl<'de> Visitor<'de> for SeqV<'_> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(self.0)? {
            v.push(x)
        }
        Ok(D::Seq(v))
    }
}
struct TupV<'a>(&'a Vec<Ty>);
impl<'de> Visitor<'de> for TupV<'_> {
    type Value = Vec<D>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a tuple")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<D>, A::Error> {
        let mut v = vec![];
        for (i, t) in self.0.iter().enumerate() {
            v.push(a.next_element_seed(t)?.ok_or_else(|| de::Error::invalid_length(i, &"more"))?)
        }
        Ok(v)
    }
}
struct NewV<'a>(&'a Ty);
impl<'de> Visitor<'de> for NewV<'_> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a newtype")
    }
    fn visit_newtype_struct<X: Deserializer<'de>>(self, d: X) -> Result<D, X::Error> {
        Ok(D::Newtype(Box::new(self.0.deserialize(d)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        let x = a.next_element_seed(self.0)?.ok_or_else(|| de::Error::invalid_length(0, &"1"))?;
        Ok(D::Newtype(Box::new(x)))
    }
}
struct StV<'a>(usize, &'a Vec<Ty>);
impl<'de> Visitor<'de> for StV<'_> {
    type Value = Vec<D>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a struct")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<D>, A::Error> {
        TupV(self.1).visit_seq(a)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Vec<D>, A::Error> {
        let mut out: Vec<Option<D>> = self.1.iter().map(|_| None).collect();
        while let Some(k) = a.next_key_seed(Ident)? {
            match NAMES[self.0..self.0 + self.1.len()].iter().position(|n| *n == k) {
                Some(i) => {
                    if out[i].is_some() {
                        return Err(de::Error::duplicate_field(NAMES[self.0 + i]));
                    }
                    out[i] = Some(a.next_value_seed(&self.1[i])?);
                }
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        out.into_iter()
            .enumerate()
            .map(|(i, x)| match (x, &self.1[i]) {
                (Some(x), _) => Ok(x),
                // as serde does it
                (None, Ty::Opt(_)) => Ok(D::None),
                (None, _) => Err(de::Error::missing_field(NAMES[self.0 + i])),
            })
            .collect()
    }
}
/// A field or variant name.
struct Ident;
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = String;
    fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<String, X::Error> {
        d.deserialize_identifier(Ident)
    }
}
impl Visitor<'_> for Ident {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an identifier")
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<String, E> {
        Ok(v.to_string())
    }
}
struct MapV<'a>(bool, &'a Ty);
impl<'de> Visitor<'de> for MapV<'_> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        let mut v = vec![];
        loop {
            let k = if self.0 { a.next_key::<char>()?.map(|c| c.to_string()) } else { a.next_key::<String>()? };
            let Some(k) = k else { break };
            v.push((k, a.next_value_seed(self.1)?));
        }
        Ok(D::Map(self.0, v))
    }
}
struct EnV<'a>(usize, &'a Vec<VTy>);
impl<'de> Visitor<'de> for EnV<'_> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an enum")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<D, A::Error> {
        let (name, a) = a.variant_seed(Ident)?;
        let n = self.1.len();
        let Some(i) = NAMES[self.0..self.0 + n].iter().position(|x| *x == name) else {
            return Err(de::Error::unknown_variant(&name, &[]));
        };
        let vd = match &self.1[i] {
            VTy::Unit => {
                a.unit_variant()?;
                VD::Unit
            }
            VTy::Newtype(t) => VD::Newtype(Box::new(a.newtype_variant_seed(t)?)),
            VTy::Tuple(v) => VD::Tuple(a.tuple_variant(v.len(), TupV(v))?),
            VTy::Struct(o, v) => VD::Struct(*o, a.struct_variant(&NAMES[*o..o + v.len()], StV(*o, v))?),
        };
        Ok(D::Variant(self.0, i, vd))
    }
}
struct BytesV;
impl Visitor<'_> for BytesV {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<D, E> {
        Ok(D::Bytes(v.to_vec()))
    }
}

// ---------------------------------------------------------------- conversion model

enum C {
    Ok(D),
    Err,
    /// not judged
    Any,
}

fn vals(c: &Composite<()>) -> Vec<&Value<()>> {
    kids(c)
}
fn def(value: ValueDef<()>) -> Value<()> {
    Value { value, context: () }
}

fn conv_all(ts: &[Ty], vs: &[&Value<()>]) -> Result<Vec<D>, C> {
    if ts.len() != vs.len() {
        return Err(C::Err);
    }
    let mut out = vec![];
    let mut any = false;
    for (t, v) in ts.iter().zip(vs) {
        match conv(v, t) {
            C::Ok(d) => out.push(d),
            C::Err => return Err(C::Err),
            C::Any => any = true,
        }
    }
    if any {
        Err(C::Any)
    } else {
        Ok(out)
    }
}
fn conv_struct(o: usize, ts: &[Ty], c: &Composite<()>) -> Result<Vec<D>, C> {
    match c {
        Composite::Unnamed(vs) => {
            if vs.len() > ts.len() {
                // serde's structs ignore what follows their last field
                return Err(C::Any);
            }
            conv_all(ts, &vals(c))
        }
        Composite::Named(vs) => {
            // a missing option is none
            let mut out = vec![];
            let mut bad = None;
            for (i, t) in ts.iter().enumerate() {
                let m: Vec<_> = vs.iter().filter(|(n, _)| n == NAMES[o + i]).collect();
                let x = match m.as_slice() {
                    [] if matches!(t, Ty::Opt(_)) => C::Ok(D::None),
                    [x] => conv(&x.1, t),
                    _ => C::Err,
                };
                match x {
                    C::Ok(d) => out.push(d),
                    C::Err => bad = Some(C::Err),
                    C::Any => bad = bad.or(Some(C::Any)),
                }
            }
            bad.map_or(Ok(out), Err)
        }
    }
}
fn conv(v: &Value<()>, t: &Ty) -> C {
    fn w(r: Result<Vec<D>, C>, f: impl FnOnce(Vec<D>) -> D) -> C {
        match r {
            Ok(x) => C::Ok(f(x)),
            Err(c) => c,
        }
    }
    fn m(r: C, f: impl FnOnce(D) -> D) -> C {
        match r {
            C::Ok(x) => C::Ok(f(x)),
            c => c,
        }
    }
    // parts of composites and variants
    let fields = match &v.value {
        ValueDef::Composite(c) => Some(c),
        ValueDef::Variant(x) => Some(&x.values),
        _ => None,
    };
    let prim = match &v.value {
        ValueDef::Primitive(p) => Some(p),
        _ => None,
    };
    match t {
        Ty::Bool => match prim {
            Some(Primitive::Bool(b)) => C::Ok(D::Bool(*b)),
            _ => C::Err,
        },
        Ty::Char => match prim {
            Some(Primitive::Char(b)) => C::Ok(D::Char(*b)),
            Some(Primitive::String(x)) if x.chars().count() == 1 => C::Ok(D::Char(x.chars().next().unwrap())),
            _ => C::Err,
        },
        Ty::Str => match prim {
            Some(Primitive::String(x)) => C::Ok(D::Str(x.clone())),
            Some(Primitive::Char(x)) => C::Ok(D::Str(x.to_string())),
            // bytes which are UTF-8 may become strings
            Some(Primitive::U256(_) | Primitive::I256(_)) => C::Any,
            _ => C::Err,
        },
        Ty::U(b) => {
            let n = match prim {
                Some(Primitive::U128(n)) => Some(*n),
                Some(Primitive::I128(n)) => u128::try_from(*n).ok(),
                _ => None,
            };
            match n {
                Some(n) if *b == 128 || n >> *b == 0 => C::Ok(D::U(*b, n)),
                _ => C::Err,
            }
        }
        Ty::I(b) => {
            let n = match prim {
                Some(Primitive::U128(n)) => i128::try_from(*n).ok(),
                Some(Primitive::I128(n)) => Some(*n),
                _ => None,
            };
            match n {
                Some(n) if n >> (*b - 1) == 0 || n >> (*b - 1) == -1 => C::Ok(D::I(*b, n)),
                _ => C::Err,
            }
        }
        Ty::Unit | Ty::UnitStruct => match fields {
            Some(c) if vals(c).is_empty() => C::Ok(if matches!(t, Ty::Unit) { D::Unit } else { D::UnitStruct }),
            _ => C::Err,
        },
        Ty::Opt(t) => match &v.value {
            ValueDef::Variant(Variant { name, values: Composite::Unnamed(vs) }) => match (name.as_str(), vs.as_slice()) {
                ("Some", [x]) => m(conv(x, t), |d| D::Some(Box::new(d))),
                ("None", []) => C::Ok(D::None),
                _ => C::Err,
            },
            _ => C::Err,
        },
        Ty::Seq(t) => match fields {
            Some(c) => {
                let vs = vals(c);
                let ts = vec![(**t).clone(); vs.len()];
                w(conv_all(&ts, &vs), D::Seq)
            }
            None => C::Err,
        },
        Ty::Tuple(ts) => match fields {
            Some(c) => w(conv_all(ts, &vals(c)), D::Tuple),
            None => C::Err,
        },
        Ty::TupleStruct(ts) => match fields {
            Some(c) => w(conv_all(ts, &vals(c)), D::TupleStruct),
            None => C::Err,
        },
        Ty::Newtype(t) => m(conv(v, t), |d| D::Newtype(Box::new(d))),
        Ty::Struct(o, ts) => match &v.value {
            ValueDef::Composite(c) => w(conv_struct(*o, ts, c), |x| D::Struct(*o, x)),
            ValueDef::Variant(_) => C::Any,
            ValueDef::BitSequence(_) if ts.iter().all(|t| matches!(t, Ty::Opt(_))) => C::Any,
            _ => C::Err,
        },
        Ty::Map(ch, t) => match fields {
            Some(Composite::Named(vs)) => {
                if *ch && vs.iter().any(|(n, _)| n.chars().count() != 1) {
                    return C::Err;
                }
                let ts = vec![(**t).clone(); vs.len()];
                let ks: Vec<String> = vs.iter().map(|(n, _)| n.clone()).collect();
                w(conv_all(&ts, &vs.iter().map(|(_, v)| v).collect::<Vec<_>>()), |x| D::Map(*ch, ks.into_iter().zip(x).collect()))
            }
            _ => C::Err,
        },
        Ty::Enum(o, vs) => {
            let ValueDef::Variant(x) = &v.value else { return C::Err };
            let Some(i) = (0..vs.len()).position(|i| NAMES[o + i] == x.name) else { return C::Err };
            let mk = |vd| D::Variant(*o, i, vd);
            match &vs[i] {
                VTy::Unit => {
                    if vals(&x.values).is_empty() {
                        C::Ok(mk(VD::Unit))
                    } else {
                        C::Err
                    }
                }
                VTy::Newtype(t) => {
                    let inner = match &x.values {
                        Composite::Unnamed(v) if v.len() == 1 => v[0].clone(),
                        c => def(ValueDef::Composite(c.clone())),
                    };
                    m(conv(&inner, t), |d| mk(VD::Newtype(Box::new(d))))
                }
                VTy::Tuple(ts) => w(conv_all(ts, &vals(&x.values)), |v| mk(VD::Tuple(v))),
                VTy::Struct(so, ts) => w(conv_struct(*so, ts, &x.values), |v| mk(VD::Struct(*so, v))),
            }
        }
        Ty::Bytes => match &v.value {
            ValueDef::Composite(c) => {
                let b: Option<Vec<u8>> = vals(c)
                    .into_iter()
                    .map(|v| match &v.value {
                        ValueDef::Primitive(Primitive::U128(n)) if *n < 256 => Some(*n as u8),
                        _ => None,
                    })
                    .collect();
                b.map(|b| C::Ok(D::Bytes(b))).unwrap_or(C::Err)
            }
            ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)) => C::Ok(D::Bytes(b.to_vec())),
            _ => C::Err,
        },
        Ty::F64 => C::Err,
        Ty::Val => {
            if marked(v) {
                C::Any
            } else {
                C::Ok(D::Val(to_self(v)))
            }
        }
    }
}

/// Has a named composite which looks like the serialized form of a bit sequence?
fn marked(v: &Value<()>) -> bool {
    any(v, &mut |v| {
        let c = match &v.value {
            ValueDef::Composite(c) => c,
            _ => return false,
        };
        matches!(c, Composite::Named(vs) if vs.first().is_some_and(|(n, _)| n == "__bitvec__values__"))
    })
}
/// Renames fields that look like the serialized form of a bit sequence.
pub fn clean(v: &Value<()>) -> Value<()> {
    fn c(x: &Composite<()>) -> Composite<()> {
        match x {
            Composite::Named(vs) => Composite::Named(
                vs.iter()
                    .map(|(n, v)| (if n == "__bitvec__values__" { "__bitvec__values".to_string() } else { n.clone() }, clean(v)))
                    .collect(),
            ),
            Composite::Unnamed(vs) => Composite::Unnamed(vs.iter().map(clean).collect()),
        }
    }
    def(match &v.value {
        ValueDef::Composite(x) => ValueDef::Composite(c(x)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: c(&x.values) }),
        x => x.clone(),
    })
}
/// 256-bit numbers become byte lists.
fn to_self(v: &Value<()>) -> Value<()> {
    rebuild(v, &mut |_| (), &|p| match p {
        Primitive::U256(b) | Primitive::I256(b) => byte_list(b).value,
        p => ValueDef::Primitive(p.clone()),
    })
}

// ---------------------------------------------------------------- C17

#[derive(Deserialize, Debug, PartialEq)]
struct CapNew(Value<()>);
#[derive(Deserialize, Debug, PartialEq)]
struct CapNew2(CapNew);
#[derive(Deserialize, Debug, PartialEq)]
struct CapPair(u8, Value<()>, ValueDef<()>);
#[derive(Deserialize, Debug, PartialEq)]
struct CapStruct {
    a: u8,
    v: Value<()>,
    d: ValueDef<()>,
}
#[derive(Deserialize, Debug, PartialEq)]
enum CapEnum {
    New(Value<()>),
    Tup(Value<()>, u8),
    St { v: Value<()>, w: Vec<Value<()>> },
}

fn c17(s: &mut Src, o: &mut Obs) -> R {
    let fuel = *s.pick(&[3, 10, 30]);
    let base = clean(&gen_value(s, ValOpts::new(fuel)));
    o.desc(|| show(&base));
    if count_nodes(&base) >= 3 {
        o.nontrivial(show(&base).as_bytes());
    }
    o.class_if(any(&base, &mut |v| matches!(v.value, ValueDef::BitSequence(_))), "with bit sequences");
    o.class_if(any(&base, &mut |v| matches!(v.value, ValueDef::Primitive(Primitive::U256(_) | Primitive::I256(_)))), "with 256-bit numbers");
    let want = to_self(&base);
    let mut i = 0u32;
    let v = with_ctx(&base, &mut |_| {
        i += 1;
        i
    });
    let eq = |what: &str, got: Result<Value<()>, String>| -> R {
        match got {
            Ok(g) => check!(g == want, "{what} gives {}", show(&g)),
            Err(e) => fail!("{what} fails: {e}"),
        }
        Ok(())
    };
    let es = |e: scale_value::serde::DeserializerError| e.to_string();
    eq("a value deserialized from a value", Value::<()>::deserialize(v.clone()).map_err(es))?;
    eq("from_value", from_value::<u32, Value<()>>(v.clone()).map_err(es))?;
    eq("a definition from a value", ValueDef::deserialize(v.clone()).map_err(es).map(def))?;
    eq("a definition from a definition", ValueDef::deserialize(v.value.clone()).map_err(es).map(def))?;
    eq("a value from a definition", Value::<()>::deserialize(v.value.clone()).map_err(es))?;
    // parts
    let comp = Composite::<()>::deserialize(v.clone());
    let var = Variant::<()>::deserialize(v.clone());
    let prim = Primitive::deserialize(v.clone());
    match &v.value {
        ValueDef::Composite(c) => {
            o.class("composites");
            eq("a composite from a value", comp.map_err(es).map(|c| def(ValueDef::Composite(c))))?;
            eq("a composite from a composite", Composite::<()>::deserialize(c.clone()).map_err(es).map(|c| def(ValueDef::Composite(c))))?;
            eq("a value from a composite", Value::<()>::deserialize(c.clone()).map_err(es))?;
            let looks = matches!(c, Composite::Named(vs) if vs.iter().all(|(n, _)| n == "name" || n == "values"));
            check!(looks || var.is_err(), "a composite was read as a variant: {var:?}");
            match (word(c), &prim) {
                (Some(w), Ok(Primitive::U256(b))) => check!(w == *b, "32 bytes were read as {prim:?}"),
                (Some(_), p) => fail!("a list of 32 bytes read as a primitive gives {p:?}"),
                (None, p) => check!(p.is_err(), "a composite was read as the primitive {p:?}"),
            }
        }
        ValueDef::Variant(x) => {
            o.class("variants");
            eq("a variant from a value", var.map_err(es).map(|c| def(ValueDef::Variant(c))))?;
            eq("a variant from a variant", Variant::<()>::deserialize(x.clone()).map_err(es).map(|c| def(ValueDef::Variant(c))))?;
            eq("a value from a variant", Value::<()>::deserialize(x.clone()).map_err(es))?;
            check!(comp.is_err(), "a variant was read as the composite {comp:?}");
            check!(prim.is_err(), "a variant was read as the primitive {prim:?}");
        }
        ValueDef::BitSequence(_) => {
            o.class("bit sequences");
            check!(var.is_err(), "a bit sequence was read as the variant {var:?}");
            check!(prim.is_err(), "a bit sequence was read as the primitive {prim:?}");
        }
        ValueDef::Primitive(p) => {
            o.class("primitives");
            check!(var.is_err(), "a primitive was read as the variant {var:?}");
            match p {
                Primitive::U256(b) | Primitive::I256(b) => {
                    check!(prim == Ok(Primitive::U256(*b)), "a 256-bit number read as a primitive gives {prim:?}");
                    check!(Primitive::deserialize(p.clone()) == Ok(Primitive::U256(*b)), "256-bit primitive from primitive");
                }
                p => {
                    check!(prim.as_ref() == Ok(p), "{p:?} read as a primitive gives {prim:?}");
                    let again = Primitive::deserialize(p.clone());
                    check!(again.as_ref() == Ok(p), "{p:?} read as a primitive from itself gives {again:?}");
                    check!(comp.is_err(), "a primitive was read as the composite {comp:?}");
                }
            }
            eq("a value from a primitive", Value::<()>::deserialize(p.clone()).map_err(es))?;
        }
    }
    // inside derived types
    let wd = want.value.clone();
    let cap = |what: &str, ok: bool, got: String| -> R {
        check!(ok, "captured in {what}: {got}");
        Ok(())
    };
    let ctx = |v: Value<()>| with_ctx(&v, &mut |_| 7u32);
    macro_rules! want {
        ($what:expr, $from:expr, $ty:ty, $want:expr) => {{
            let g = from_value::<_, $ty>($from);
            cap($what, g.as_ref().ok() == Some(&$want), format!("{g:?}"))?
        }};
    }
    let u = |vs: Vec<Value<()>>| ctx(def(ValueDef::Composite(Composite::Unnamed(vs))));
    let n = |vs: Vec<(&str, Value<()>)>| Composite::Named(vs.into_iter().map(|(n, v)| (n.to_string(), v)).collect());
    let var = |name: &str, values| ctx(def(ValueDef::Variant(Variant { name: name.into(), values })));
    match s.below(10) {
        0 => want!("a newtype", v.clone(), CapNew, CapNew(want)),
        1 => want!("a newtype of a newtype", v.clone(), CapNew2, CapNew2(CapNew(want))),
        2 => want!("a tuple struct", u(vec![Value::u128(9), base.clone(), base]), CapPair, CapPair(9, want, wd)),
        3 => {
            let c = n(vec![("d", base.clone()), ("other", base.clone()), ("v", base), ("a", Value::i128(3))]);
            want!("a struct", ctx(def(ValueDef::Composite(c))), CapStruct, CapStruct { a: 3, v: want, d: wd })
        }
        4 => want!("a list", u(vec![base.clone(), base]), Vec<Value<()>>, vec![want.clone(), want]),
        5 => {
            let c = n(vec![("d", base.clone()), ("", base)]);
            want!(
                "a map",
                ctx(def(ValueDef::Composite(c))),
                std::collections::BTreeMap<String, Value<()>>,
                [("".to_string(), want.clone()), ("d".to_string(), want)].into_iter().collect()
            )
        }
        6 => want!("an option", var("Some", Composite::Unnamed(vec![base])), Option<Value<()>>, Some(want)),
        7 => want!("a newtype variant", var("New", Composite::Unnamed(vec![base])), CapEnum, CapEnum::New(want)),
        8 => want!("a tuple variant", var("Tup", Composite::Unnamed(vec![base, Value::u128(1)])), CapEnum, CapEnum::Tup(want, 1)),
        _ => want!(
            "a struct variant",
            var("St", n(vec![("w", def(ValueDef::Composite(Composite::Unnamed(vec![base.clone()])))), ("v", base)])),
            CapEnum,
            CapEnum::St { v: want.clone(), w: vec![want] }
        ),
    }
    Ok(())
}
// Exactly 32 numbers below 256, however held: what a 256-bit number looks like in other formats.
fn word<T>(c: &Composite<T>) -> Option<[u8; 32]> {
    let Composite::Unnamed(vs) = c else { return None };
    let bytes: Option<Vec<u8>> = vs
        .iter()
        .map(|v| match &v.value {
            ValueDef::Primitive(Primitive::U128(n)) => u8::try_from(*n).ok(),
            ValueDef::Primitive(Primitive::I128(n)) => u8::try_from(*n).ok(),
            _ => None,
        })
        .collect();
    bytes?.try_into().ok()
}

// ---------------------------------------------------------------- C18

fn back(t: &Ty, v: Value<()>) -> Result<D, String> {
    t.deserialize(with_ctx(&v, &mut |_| 3u8)).map_err(|e| e.to_string())
}

fn spoil(s: &mut Src, d: D) -> D {
    // put something that cannot be converted somewhere
    let bad = match s.below(7) {
        0 => D::F32(0.0),
        1 => D::F64(s.below(9) as f64),
        2 => D::BadMap(Box::new(D::U(8, 1)), Box::new(D::Unit)),
        3 => D::BadMap(Box::new(D::Tuple(vec![])), Box::new(D::Unit)),
        4 => D::BadMap(Box::new(D::Some(Box::new(D::Str("a".into())))), Box::new(D::Unit)),
        5 => D::BadMap(Box::new(D::Bool(true)), Box::new(D::Unit)),
        _ => D::BadMap(Box::new(D::F64(1.5)), Box::new(D::Unit)),
    };
    match s.below(9) {
        0 => bad,
        1 => D::Seq(vec![d, bad]),
        2 => D::Tuple(vec![bad, d]),
        3 => D::Some(Box::new(bad)),
        4 => D::Struct(0, vec![d, bad]),
        5 => D::Variant(0, 0, VD::Newtype(Box::new(bad))),
        6 => D::Variant(0, 0, VD::Tuple(vec![d, bad])),
        7 => D::Map(false, vec![("k".into(), bad), ("l".into(), d)]),
        _ => D::Newtype(Box::new(D::Variant(0, 0, VD::Struct(0, vec![bad, d])))),
    }
}

fn c18(s: &mut Src, o: &mut Obs) -> R {
    if s.ratio(1, 5) {
        return super::rusttypes::run(s, o);
    }
    if s.ratio(1, 5) {
        // a derived type
        let zoo = zoo();
        let z = &zoo[s.below(zoo.len())];
        let d = gen_d(s, &z.ty, &mut 30);
        o.desc(|| format!("{} {d:?}", z.name));
        o.class("derived types");
        o.nontrivial(format!("{}{d:?}", z.name).as_bytes());
        let want = shape(&d);
        match (z.run)(with_ctx(&want, &mut |_| 5u32)) {
            Ok(got) => check!(got == want, "{}: from a value and back gives {}, expected {}", z.name, show(&got), show(&want)),
            Err(e) => fail!("{}: from {} : {e}", z.name, show(&want)),
        }
        return Ok(());
    }
    let t = gen_ty(s, &mut s_fuel(12), 0, TOpts { val: false, bytes: true, f64: false });
    let d = gen_d(s, &t, &mut 30);
    o.desc(|| format!("{t:?} {d:?}"));
    if ty_size(&t) >= 3 {
        o.nontrivial(format!("{t:?}{d:?}").as_bytes());
    }
    if s.ratio(1, 12) {
        let bad = spoil(s, d);
        o.class("unconvertible data");
        let r = to_value(&bad);
        check!(r.is_err(), "{bad:?} was converted to {r:?}");
        return Ok(());
    }
    let want = shape(&d);
    let v = match to_value(&d) {
        Ok(v) => v,
        Err(e) => fail!("not converted: {e}"),
    };
    check!(v == want, "converted to {}, expected {}", show(&v), show(&want));
    match back(&t, v) {
        Ok(e) => check!(e == d, "came back as {e:?}"),
        Err(e) => fail!("did not come back from {}: {e}", show(&want)),
    }
    Ok(())
}
fn s_fuel(n: i32) -> i32 {
    n
}

struct Zoo {
    name: &'static str,
    ty: Ty,
    /// value into the type and back into a value; the type's own round trip is checked on the way
    run: fn(Value<u32>) -> Result<Value<()>, String>,
}
fn run_zoo<T: Serialize + de::DeserializeOwned + PartialEq + fmt::Debug>(v: Value<u32>) -> Result<Value<()>, String> {
    let x: T = from_value(v).map_err(|e| e.to_string())?;
    let v = to_value(&x).map_err(|e| format!("{x:?} does not convert: {e}"))?;
    let y: T = from_value(v.clone()).map_err(|e| format!("{x:?} does not come back from {}: {e}", show(&v)))?;
    if x != y {
        return Err(format!("{x:?} comes back as {y:?}"));
    }
    Ok(v)
}

mod zoo_types {
    use serde::{Deserialize, Serialize};
    use std::collections::BTreeMap;
    macro_rules! derived { ($($i:item)*) => { $(#[derive(Serialize, Deserialize, PartialEq, Debug)] $i)* } }
    derived! {
        pub struct Unit;
        pub struct Nt(pub u8);
        pub struct NtStr(pub String);
        pub struct NtVec(pub Vec<u16>);
        pub struct NtOpt(pub Option<u8>);
        pub struct NtEnum(pub Mixed);
        pub struct NtUnit(pub ());
        pub struct NtNt(pub NtOpt);
        pub struct NtMap(pub BTreeMap<String, NtOpt>);
        pub struct Ts(pub u8, pub bool);
        pub struct Ts0();
        pub struct St { pub a: u8, pub b: String }
        pub struct St0 {}
        pub struct Deep { pub a: Option<Vec<Mixed>>, pub b: (Nt, NtNt, St) }
        pub enum Mixed {
            #[serde(rename = "a")] A,
            #[serde(rename = "b")] B(u32),
            #[serde(rename = "name")] C(i8, char),
            #[serde(rename = "values")] D { a: bool, b: Option<()> },
            Foo(),
            Bar {},
        }
        pub enum Nts {
            #[serde(rename = "a")] A(Vec<u8>),
            #[serde(rename = "b")] B(St),
            #[serde(rename = "name")] C(Option<NtOpt>),
            #[serde(rename = "values")] D((u8, u8)),
            Foo(Mixed),
            Bar(()),
            #[serde(rename = "x1")] E(Unit),
            #[serde(rename = "type")] F(Nt),
            Some([u8; 1]),
            None(Pairs),
        }
        pub struct Gen<T> { pub a: T, pub b: Box<T> }
    }
    /// A map which keeps order and repeated keys.
    #[derive(PartialEq, Debug)]
    pub struct Pairs(pub Vec<(String, u8)>);
    impl Serialize for Pairs {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.collect_map(self.0.iter().map(|(k, v)| (k, v)))
        }
    }
    impl<'de> Deserialize<'de> for Pairs {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct V;
            impl<'de> serde::de::Visitor<'de> for V {
                type Value = Pairs;
                fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str("a map")
                }
                fn visit_map<A: serde::de::MapAccess<'de>>(self, mut m: A) -> Result<Pairs, A::Error> {
                    let mut v = vec![];
                    while let Some(kv) = m.next_entry()? {
                        v.push(kv);
                    }
                    Ok(Pairs(v))
                }
            }
            d.deserialize_map(V)
        }
    }
}
fn zoo() -> &'static [Zoo] {
    thread_local!(static Z: &'static [Zoo] = Box::leak(make_zoo().into_boxed_slice()));
    Z.with(|z| *z)
}
fn make_zoo() -> Vec<Zoo> {
    use zoo_types::*;
    let u8t = || Ty::U(8);
    let ntopt = || Ty::Newtype(Box::new(Ty::Opt(Box::new(Ty::U(8)))));
    let st = || Ty::Struct(0, vec![Ty::U(8), Ty::Str]);
    let mixed = || {
        Ty::Enum(
            0,
            vec![
                VTy::Unit,
                VTy::Newtype(Ty::U(32)),
                VTy::Tuple(vec![Ty::I(8), Ty::Char]),
                VTy::Struct(0, vec![Ty::Bool, Ty::Opt(Box::new(Ty::Unit))]),
                VTy::Tuple(vec![]),
                VTy::Struct(0, vec![]),
            ],
        )
    };
    let nts = || {
        Ty::Enum(
            0,
            vec![
                VTy::Newtype(Ty::Seq(Box::new(Ty::U(8)))),
                VTy::Newtype(st()),
                VTy::Newtype(Ty::Opt(Box::new(ntopt()))),
                VTy::Newtype(Ty::Tuple(vec![Ty::U(8), Ty::U(8)])),
                VTy::Newtype(mixed()),
                VTy::Newtype(Ty::Unit),
                VTy::Newtype(Ty::UnitStruct),
                VTy::Newtype(Ty::Newtype(Box::new(Ty::U(8)))),
                VTy::Newtype(Ty::Tuple(vec![Ty::U(8)])),
                VTy::Newtype(Ty::Map(false, Box::new(Ty::U(8)))),
            ],
        )
    };
    let nt = |t: Ty| Ty::Newtype(Box::new(t));
    macro_rules! z {
        ($($t:ty => $ty:expr;)*) => { vec![$(Zoo { name: stringify!($t), ty: $ty, run: run_zoo::<$t> }),*] };
    }
    z! {
        u8 => u8t(); u16 => Ty::U(16); u32 => Ty::U(32); u64 => Ty::U(64); u128 => Ty::U(128);
        i8 => Ty::I(8); i16 => Ty::I(16); i32 => Ty::I(32); i64 => Ty::I(64); i128 => Ty::I(128);
        bool => Ty::Bool; char => Ty::Char; String => Ty::Str; Box<str> => Ty::Str;
        () => Ty::Unit; Unit => Ty::UnitStruct; std::marker::PhantomData<u8> => Ty::UnitStruct;
        Option<u8> => Ty::Opt(Box::new(u8t()));
        Option<Option<()>> => Ty::Opt(Box::new(Ty::Opt(Box::new(Ty::Unit))));
        Vec<String> => Ty::Seq(Box::new(Ty::Str));
        Vec<Vec<u8>> => Ty::Seq(Box::new(Ty::Seq(Box::new(u8t()))));
        std::collections::VecDeque<i64> => Ty::Seq(Box::new(Ty::I(64)));
        (u8,) => Ty::Tuple(vec![u8t()]);
        (u8, (bool, char), String) => Ty::Tuple(vec![u8t(), Ty::Tuple(vec![Ty::Bool, Ty::Char]), Ty::Str]);
        [u8; 0] => Ty::Tuple(vec![]);
        [i16; 3] => Ty::Tuple(vec![Ty::I(16); 3]);
        Nt => nt(u8t()); NtStr => nt(Ty::Str); NtVec => nt(Ty::Seq(Box::new(Ty::U(16)))); NtOpt => ntopt();
        NtEnum => nt(mixed()); NtUnit => nt(Ty::Unit); NtNt => nt(ntopt());
        Ts => Ty::TupleStruct(vec![u8t(), Ty::Bool]); Ts0 => Ty::TupleStruct(vec![]);
        St => st(); St0 => Ty::Struct(0, vec![]);
        Deep => Ty::Struct(0, vec![Ty::Opt(Box::new(Ty::Seq(Box::new(mixed())))), Ty::Tuple(vec![nt(u8t()), nt(ntopt()), st()])]);
        Mixed => mixed(); Nts => nts();
        Gen<Nts> => Ty::Struct(0, vec![nts(), nts()]);
        Gen<[Mixed; 2]> => Ty::Struct(0, vec![Ty::Tuple(vec![mixed(), mixed()]), Ty::Tuple(vec![mixed(), mixed()])]);
    }
}

fn c18_zoo(o: &mut Obs) -> R {
    use std::collections::{BTreeMap, BTreeSet, HashMap};
    use std::time::Duration;
    use zoo_types::*;
    fn rt<T: Serialize + de::DeserializeOwned + PartialEq + fmt::Debug>(o: &mut Obs, x: T, want: Option<Value<()>>) -> R {
        o.class("fixed data");
        let v = to_value(&x).map_err(|e| format!("{x:?} does not convert: {e}"))?;
        if let Some(w) = want {
            check!(v == w, "{x:?} converts to {}, expected {}", show(&v), show(&w));
        }
        let y: T = from_value(v.clone()).map_err(|e| format!("{x:?} does not come back from {}: {e}", show(&v)))?;
        check!(x == y, "{x:?} comes back as {y:?}");
        Ok(())
    }
    let un = Value::unnamed_composite;
    rt(o, Ok::<u8, String>(3), Some(Value::unnamed_variant("Ok", [Value::u128(3)])))?;
    rt(o, Err::<u8, String>("e".into()), Some(Value::unnamed_variant("Err", [Value::string("e")])))?;
    rt(o, 3u8..9, Some(Value::named_composite([("start", Value::u128(3)), ("end", Value::u128(9))])))?;
    rt(o, Duration::new(1, 2), Some(Value::named_composite([("secs", Value::u128(1)), ("nanos", Value::u128(2))])))?;
    rt(o, std::num::NonZeroU16::new(5).unwrap(), Some(Value::u128(5)))?;
    rt(o, std::net::Ipv4Addr::new(1, 2, 3, 4), Some(Value::string("1.2.3.4")))?;
    rt(o, BTreeSet::from([1u8, 2]), Some(un([Value::u128(1), Value::u128(2)].to_vec())))?;
    rt(o, BTreeMap::from([('a', 1u8), ('é', 2)]), Some(Value::named_composite([("a", Value::u128(1)), ("é", Value::u128(2))])))?;
    rt(o, BTreeMap::from([(NtStr("k".into()).0, NtOpt(None))]), None)?;
    rt(o, HashMap::from([("a".to_string(), Nts::None(Pairs(vec![])))]), None)?;
    rt(o, NtMap(BTreeMap::from([("a".to_string(), NtOpt(Some(1)))])), None)?;
    rt(o, NtMap(BTreeMap::new()), Some(Value::named_composite(Vec::<(String, Value<()>)>::new())))?;
    rt(o, NtOpt(Some(3)), Some(Value::unnamed_variant("Some", [Value::u128(3)])))?;
    rt(o, NtOpt(None), Some(Value::unnamed_variant("None", [])))?;
    rt(o, NtNt(NtOpt(Some(3))), Some(Value::unnamed_variant("Some", [Value::u128(3)])))?;
    rt(o, NtEnum(Mixed::A), Some(Value::unnamed_variant("a", [])))?;
    rt(o, NtUnit(()), Some(un(vec![])))?;
    rt(o, Ts0(), Some(un(vec![])))?;
    rt(o, St0 {}, Some(Value::named_composite(Vec::<(String, Value<()>)>::new())))?;
    check!(to_value(BTreeMap::from([(1u8, 1u8)])).is_err(), "numeric keys");
    check!(to_value(BTreeMap::from([((1u8, 2u8), 1u8)])).is_err(), "tuple keys");
    check!(to_value(1f32).is_err() && to_value(vec![1f64]).is_err(), "floats");
    check!(to_value(Vec::<f64>::new()) == Ok(un(vec![])), "empty list of floats");
    Ok(())
}

// ---------------------------------------------------------------- C19

pub fn perturb(s: &mut Src, v: Value<()>, n: &mut u32) -> Value<()> {
    let value = match v.value {
        ValueDef::Composite(c) => ValueDef::Composite(perturb_c(s, c, n)),
        ValueDef::Variant(x) => {
            let values = perturb_c(s, x.values, n);
            let name = if s.ratio(1, 20) {
                *n += 1;
                s.pick(&["Some", "None", "a", "b", "Foo", "zz", "A"]).to_string()
            } else {
                x.name
            };
            ValueDef::Variant(Variant { name, values })
        }
        ValueDef::Primitive(p) => ValueDef::Primitive(if s.ratio(1, 5) {
            *n += 1;
            match p {
                Primitive::U128(k) => match s.below(5) {
                    0 => Primitive::I128(k as i128),
                    1 => Primitive::U128(k.wrapping_add(1)),
                    2 => Primitive::U128(s.uint(128)),
                    3 => Primitive::I128(s.sint(128)),
                    _ => Primitive::U128(*s.pick(&[127u128, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 31, 1 << 32, 1 << 63, 1 << 64, 1 << 127])),
                },
                Primitive::I128(k) => match s.below(4) {
                    0 => Primitive::U128(k as u128),
                    1 => Primitive::I128(k.wrapping_sub(1)),
                    2 => Primitive::I128(s.sint(128)),
                    _ => Primitive::I128(-(*s.pick(&[1i128, 128, 129, 32768, 32769, 1 << 31, (1 << 31) + 1, 1 << 63, (1 << 63) + 1]))),
                },
                Primitive::Char(c) => Primitive::String(c.to_string()),
                Primitive::String(t) => t.chars().next().map(Primitive::Char).unwrap_or(Primitive::Bool(false)),
                Primitive::Bool(b) => Primitive::U128(b as u128),
                p => p,
            }
        } else {
            p
        }),
        x => x,
    };
    let v = def(value);
    if !s.ratio(1, 16) {
        return v;
    }
    *n += 1;
    match (s.below(9), v.value) {
        (0, _) => gen_value(s, ValOpts { max_depth: 2, ..ValOpts::new(4) }),
        (1, x) => Value::unnamed_composite([def(x)]),
        (2, x) => Value::unnamed_variant("Some", [def(x)]),
        (3, ValueDef::Composite(c)) => def(ValueDef::Variant(Variant { name: s.pick(&["Foo", "Some", "a"]).to_string(), values: c })),
        (4, ValueDef::Variant(x)) => def(ValueDef::Composite(x.values)),
        (5, _) => Value::unnamed_composite([]),
        (6, _) => def(ValueDef::BitSequence([true, false].into_iter().collect())),
        (7, _) => def(ValueDef::Primitive(Primitive::U256([7; 32]))),
        (8, ValueDef::Composite(Composite::Unnamed(v))) if v.len() == 1 => v[0].clone(),
        (_, x) => def(x),
    }
}
fn perturb_c(s: &mut Src, c: Composite<()>, n: &mut u32) -> Composite<()> {
    let c = match c {
        Composite::Named(vs) => {
            let mut vs: Vec<_> = vs.into_iter().map(|(k, v)| (k, perturb(s, v, n))).collect();
            if s.ratio(1, 3) {
                *n += 1;
                s.shuffle(&mut vs);
            }
            match s.weighted(&[12, 1, 1, 1, 2]) {
                0 => {}
                1 => {
                    *n += 1;
                    vs.pop();
                }
                2 if !vs.is_empty() => {
                    *n += 1;
                    let i = s.below(vs.len());
                    vs.push(vs[i].clone())
                }
                3 if !vs.is_empty() => {
                    *n += 1;
                    let i = s.below(vs.len());
                    vs[i].0.push('_')
                }
                _ => {
                    *n += 1;
                    let i = s.below(vs.len() + 1);
                    vs.insert(i, ("extra".into(), gen_value(s, ValOpts { max_depth: 2, ..ValOpts::new(3) })))
                }
            }
            Composite::Named(vs)
        }
        Composite::Unnamed(vs) => {
            let mut vs: Vec<_> = vs.into_iter().map(|v| perturb(s, v, n)).collect();
            match s.weighted(&[14, 1, 1]) {
                0 => {}
                1 => {
                    *n += 1;
                    vs.pop();
                }
                _ => {
                    *n += 1;
                    vs.push(Value::u128(s.uint(8)))
                }
            }
            Composite::Unnamed(vs)
        }
    };
    if !s.ratio(1, 6) {
        return c;
    }
    *n += 1;
    match c {
        Composite::Named(vs) => Composite::Unnamed(vs.into_iter().map(|(_, v)| v).collect()),
        Composite::Unnamed(vs) => Composite::Named(vs.into_iter().enumerate().map(|(i, v)| (NAMES[i % NAMES.len()].to_string(), v)).collect()),
    }
}

fn c19(s: &mut Src, o: &mut Obs) -> R {
    if s.ratio(1, 8) {
        return super::rusttypes::odd(s, o);
    }
    let z = s.ratio(1, 4);
    let (t, run) = if z {
        let zoo = zoo();
        let z = &zoo[s.below(zoo.len())];
        (z.ty.clone(), Some(z))
    } else {
        (gen_ty(s, &mut s_fuel(10), 0, TOpts { val: true, bytes: true, f64: true }), None)
    };
    let mut n = 0;
    let v = if s.ratio(1, 6) || matches!(t, Ty::F64) {
        n = 1;
        gen_value(s, ValOpts { max_depth: 3, ..ValOpts::new(6) })
    } else {
        let d = gen_d(s, &unfloat(&t), &mut 25);
        let v = shape(&d);
        perturb(s, v, &mut n)
    };
    o.desc(|| format!("{} as {}", show(&v), run.map(|z| z.name.to_string()).unwrap_or(format!("{t:?}"))));
    let want = conv(&v, &t);
    if n > 0 && !matches!(want, C::Any) {
        o.nontrivial(format!("{}{t:?}", show(&v)).as_bytes());
    }
    o.class(match (&want, n > 0) {
        (C::Ok(_), true) => "altered, converted",
        (C::Ok(_), false) => "own form, converted",
        (C::Err, _) => "refused",
        (C::Any, _) => "not judged",
    });
    if let Some(z) = run {
        match ((z.run)(with_ctx(&v, &mut |_| 5u32)), want) {
            (_, C::Any) => {}
            (Err(_), C::Err) => {}
            (Ok(w), C::Ok(d)) => check!(w == shape(&d), "converted to {}, expected {}", show(&w), show(&shape(&d))),
            (Ok(w), C::Err) => fail!("converted to {}, but it does not fit", show(&w)),
            (Err(e), C::Ok(d)) => fail!("refused ({e}), expected {d:?}"),
        }
        return Ok(());
    }
    // as a value, a definition, or its part
    let c = with_ctx(&v, &mut |_| 9u16);
    let how = s.below(3);
    let got = match (how, c.value.clone()) {
        (0, _) => t.deserialize(c),
        (1, d) => t.deserialize(d),
        (_, ValueDef::Composite(x)) => t.deserialize(x),
        (_, ValueDef::Variant(x)) => t.deserialize(x),
        (_, ValueDef::Primitive(x)) => t.deserialize(x),
        (_, _) => t.deserialize(c),
    }
    .map_err(|e| e.to_string());
    match (got, want) {
        (_, C::Any) => {}
        (Err(_), C::Err) => {}
        (Ok(g), C::Ok(d)) => check!(g == d, "converted to {g:?}, expected {d:?}"),
        (Ok(g), C::Err) => fail!("converted to {g:?}, but it does not fit"),
        (Err(e), C::Ok(d)) => fail!("refused ({e}), expected {d:?}"),
    }
    Ok(())
}
fn unfloat(t: &Ty) -> Ty {
    let l = |v: &Vec<Ty>| v.iter().map(unfloat).collect::<Vec<_>>();
    match t {
        Ty::F64 => Ty::U(8),
        Ty::Opt(t) => Ty::Opt(Box::new(unfloat(t))),
        Ty::Seq(t) => Ty::Seq(Box::new(unfloat(t))),
        Ty::Newtype(t) => Ty::Newtype(Box::new(unfloat(t))),
        Ty::Map(c, t) => Ty::Map(*c, Box::new(unfloat(t))),
        Ty::Tuple(v) => Ty::Tuple(l(v)),
        Ty::TupleStruct(v) => Ty::TupleStruct(l(v)),
        Ty::Struct(o, v) => Ty::Struct(*o, l(v)),
        Ty::Enum(o, vs) => Ty::Enum(
            *o,
            vs.iter()
                .map(|v| match v {
                    VTy::Unit => VTy::Unit,
                    VTy::Newtype(t) => VTy::Newtype(unfloat(t)),
                    VTy::Tuple(v) => VTy::Tuple(l(v)),
                    VTy::Struct(o, v) => VTy::Struct(*o, l(v)),
                })
                .collect(),
        ),
        t => t.clone(),
    }
}
fn c19_limits(o: &mut Obs) -> R {
    for bits in [8u32, 16, 32, 64, 128] {
        for signed in [false, true] {
            let t = if signed { Ty::I(bits) } else { Ty::U(bits) };
            for k in 0..=128u32 {
                for d in -2i32..=2 {
                    let p = if k == 128 { u128::MAX } else { 1 << k };
                    let u = p.wrapping_add_signed(d as i128);
                    for v in [Primitive::U128(u), Primitive::I128(u as i128), Primitive::I128((u as i128).wrapping_neg())] {
                        let v = def(ValueDef::Primitive(v));
                        o.class("numbers near powers of two");
                        match ((&t).deserialize(v.clone()), conv(&v, &t)) {
                            (Err(_), C::Err) => {}
                            (Ok(a), C::Ok(b)) if a == b => {}
                            (a, b) => fail!("{} as {t:?}: {a:?}, expected {}", show(&v), if let C::Ok(d) = b { format!("{d:?}") } else { "an error".into() }),
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

fn json(v: &Value<()>, out: &mut String) {
    match &v.value {
        ValueDef::Composite(c) => json_c(c, out),
        ValueDef::Variant(x) => {
            out.push_str("{\"name\":");
            json_str(&x.name, out);
            out.push_str(",\"values\":");
            json_c(&x.values, out);
            out.push('}');
        }
        ValueDef::BitSequence(b) => {
            out.push_str("{\"__bitvec__values__\":[");
            let t: Vec<&str> = b.iter().map(|b| if b { "true" } else { "false" }).collect();
            out.push_str(&t.join(","));
            out.push_str("]}");
        }
        ValueDef::Primitive(p) => match p {
            Primitive::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            Primitive::Char(c) => json_str(&c.to_string(), out),
            Primitive::String(c) => json_str(c, out),
            Primitive::U128(n) => out.push_str(&n.to_string()),
            Primitive::I128(n) => out.push_str(&n.to_string()),
            Primitive::U256(b) | Primitive::I256(b) => {
                let t: Vec<String> = b.iter().map(|b| b.to_string()).collect();
                out.push_str(&format!("[{}]", t.join(",")));
            }
        },
    }
}
fn json_str(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            '\u{8}' => out.push_str("\\b"),
            '\u{c}' => out.push_str("\\f"),
            c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}
fn json_c(c: &Composite<()>, out: &mut String) {
    match c {
        Composite::Named(vs) => {
            out.push('{');
            for (i, (n, v)) in vs.iter().enumerate() {
                if i > 0 {
                    out.push(',')
                }
                json_str(n, out);
                out.push(':');
                json(v, out);
            }
            out.push('}');
        }
        Composite::Unnamed(vs) => {
            out.push('[');
            for (i, v) in vs.iter().enumerate() {
                if i > 0 {
                    out.push(',')
                }
                json(v, out);
            }
            out.push(']');
        }
    }
}
/// What reading the JSON back as a value gives. `chars`: whether characters become strings.
pub fn from_json(v: &Value<()>, chars: bool) -> Value<()> {
    def(match &v.value {
        ValueDef::Composite(c) => ValueDef::Composite(from_json_c(c, chars)),
        ValueDef::Variant(x) => ValueDef::Composite(Composite::Named(vec![
            ("name".into(), def(ValueDef::Primitive(Primitive::String(x.name.clone())))),
            ("values".into(), def(ValueDef::Composite(from_json_c(&x.values, chars)))),
        ])),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
        ValueDef::Primitive(p) => match p {
            Primitive::Char(c) if chars => ValueDef::Primitive(Primitive::String(c.to_string())),
            Primitive::I128(n) if *n >= 0 && chars => ValueDef::Primitive(Primitive::U128(*n as u128)),
            Primitive::U256(b) | Primitive::I256(b) => byte_list(b).value,
            p => ValueDef::Primitive(p.clone()),
        },
    })
}
fn from_json_c(c: &Composite<()>, chars: bool) -> Composite<()> {
    match c {
        Composite::Named(vs) => Composite::Named(vs.iter().map(|(n, v)| (n.clone(), from_json(v, chars))).collect()),
        Composite::Unnamed(vs) => Composite::Unnamed(vs.iter().map(|v| from_json(v, chars)).collect()),
    }
}

fn c20(s: &mut Src, o: &mut Obs) -> R {
    let fuel = *s.pick(&[3, 10, 30]);
    let big = s.ratio(1, 8);
    let base = clean(&gen_value(s, ValOpts { ints_64: !big, ..ValOpts::new(fuel) }));
    o.desc(|| show(&base));
    if count_nodes(&base) >= 3 {
        o.nontrivial(show(&base).as_bytes());
    }
    let v = with_ctx(&base, &mut |_| 1u32);
    let mut want = String::new();
    json(&base, &mut want);
    let text = match serde_json::to_string(&v) {
        Ok(t) => t,
        Err(e) => fail!("no JSON: {e}"),
    };
    check!(text == want, "JSON is {text}\n expected {want}");
    let part = match &v.value {
        ValueDef::Composite(c) => serde_json::to_string(c),
        ValueDef::Variant(c) => serde_json::to_string(c),
        ValueDef::Primitive(c) => serde_json::to_string(c),
        ValueDef::BitSequence(_) => serde_json::to_string(&v.value),
    };
    check!(part.as_ref().ok() == Some(&want), "JSON of the part is {part:?}, expected {want}");
    // as a value through the crate's own serializer
    let tv = to_value(&v);
    let own = bits_as_maps(&from_json(&base, false));
    check!(tv.as_ref() == Ok(&own), "to_value gives {tv:?}");
    let bigs = any(&base, &mut |v| match &v.value {
        ValueDef::Primitive(Primitive::U128(n)) => *n > u64::MAX as u128,
        ValueDef::Primitive(Primitive::I128(n)) => *n > u64::MAX as i128 || *n < i64::MIN as i128,
        _ => false,
    });
    if bigs {
        o.class("numbers too big for JSON readers");
        return Ok(());
    }
    let wantv = from_json(&base, true);
    let got = serde_json::from_str::<Value<()>>(&text);
    check!(got.as_ref().ok() == Some(&wantv), "{text} reads back as {got:?}");
    let got = serde_json::from_str::<ValueDef<()>>(&text);
    check!(got.as_ref().ok() == Some(&wantv.value), "{text} reads back as {got:?}");
    if let Ok(j) = serde_json::from_str::<serde_json::Value>(&text) {
        if !dup_keys(&base) {
            let direct = serde_json::to_value(&v);
            check!(direct.as_ref().ok() == Some(&j), "to_value gives {direct:?}, the text {j:?}");
        }
    }
    match &base.value {
        ValueDef::Variant(x) => {
            o.class("read back as variants");
            let got = serde_json::from_str::<Variant<()>>(&text);
            let w = Variant { name: x.name.clone(), values: from_json_c(&x.values, true) };
            check!(got.as_ref().ok() == Some(&w), "{text} reads back as the variant {got:?}");
            // the other order of keys
            let mut t = String::from("{\"values\":");
            json_c(&x.values, &mut t);
            t.push_str(",\"name\":");
            json_str(&x.name, &mut t);
            t.push('}');
            let got = serde_json::from_str::<Variant<()>>(&t);
            check!(got.as_ref().ok() == Some(&w), "{t} reads as the variant {got:?}");
            // more or fewer keys
            let bad = format!("{},\"other\":1}}", &text[..text.len() - 1]);
            let got = serde_json::from_str::<Variant<()>>(&bad);
            check!(got.is_err(), "{bad} reads as the variant {got:?}");
            let mut bad = String::from("{\"name\":");
            json_str(&x.name, &mut bad);
            bad.push('}');
            let got = serde_json::from_str::<Variant<()>>(&bad);
            check!(got.is_err(), "{bad} reads as the variant {got:?}");
            let mut bad = String::from("{\"values\":");
            json_c(&x.values, &mut bad);
            bad.push('}');
            let got = serde_json::from_str::<Variant<()>>(&bad);
            check!(got.is_err(), "{bad} reads as the variant {got:?}");
        }
        ValueDef::Composite(c) => {
            let got = serde_json::from_str::<Composite<()>>(&text);
            let w = from_json_c(c, true);
            check!(got.as_ref().ok() == Some(&w), "{text} reads back as the composite {got:?}");
        }
        ValueDef::Primitive(_) => {
            let got = serde_json::from_str::<Primitive>(&text);
            match &base.value {
                ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)) => {
                    check!(got.as_ref().ok() == Some(&Primitive::U256(*b)), "{text} reads back as the primitive {got:?}")
                }
                _ => {
                    let ok = match (&got, &wantv.value) {
                        (Ok(p), ValueDef::Primitive(q)) => p == q,
                        _ => false,
                    };
                    check!(ok, "{text} reads back as the primitive {got:?}")
                }
            }
        }
        _ => {}
    }
    Ok(())
}
pub fn bits_as_maps(v: &Value<()>) -> Value<()> {
    fn c(x: &Composite<()>) -> Composite<()> {
        match x {
            Composite::Named(vs) => Composite::Named(vs.iter().map(|(n, v)| (n.clone(), bits_as_maps(v))).collect()),
            Composite::Unnamed(vs) => Composite::Unnamed(vs.iter().map(bits_as_maps).collect()),
        }
    }
    def(match &v.value {
        ValueDef::Composite(x) => ValueDef::Composite(c(x)),
        ValueDef::BitSequence(b) => {
            let bools = b.iter().map(|b| def(ValueDef::Primitive(Primitive::Bool(b)))).collect();
            ValueDef::Composite(Composite::Named(vec![("__bitvec__values__".into(), def(ValueDef::Composite(Composite::Unnamed(bools))))]))
        }
        x => x.clone(),
    })
}
fn dup_keys(v: &Value<()>) -> bool {
    any(v, &mut |v| {
        let c = match &v.value {
            ValueDef::Composite(c) => c,
            ValueDef::Variant(x) => &x.values,
            _ => return false,
        };
        match c {
            Composite::Named(vs) => vs.iter().map(|x| &x.0).collect::<std::collections::HashSet<_>>().len() < vs.len(),
            _ => false,
        }
    })
}
