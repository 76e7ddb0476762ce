//! A type resolver of our own over the model types: its type ids are names, it counts how often it
//! is asked, and it can have types that are missing or fail to resolve.
use crate::ty::*;
use scale_type_resolver::{
    BitsOrderFormat, BitsStoreFormat, Field, Primitive, ResolvedTypeVisitor, TypeResolver, Variant,
};
use std::cell::Cell;

#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct Name(pub String);

pub fn name(t: Tid) -> Name {
    Name(format!("type <{t}>"))
}
fn tid(n: &Name) -> Option<Tid> {
    n.0.strip_prefix("type <")?.strip_suffix('>')?.parse().ok()
}

#[derive(Debug)]
pub enum Broken {
    Fails(#[allow(dead_code)] Name),
    /// More questions than allowed.
    TooMany,
}
impl std::fmt::Display for Broken {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}

pub struct Named<'t> {
    pub types: &'t Types,
    pub asked: Cell<u64>,
    pub limit: u64,
    pub missing: Vec<Tid>,
    pub failing: Vec<Tid>,
}
impl<'t> Named<'t> {
    pub fn new(types: &'t Types) -> Named<'t> {
        Named { types, asked: 0.into(), limit: u64::MAX, missing: vec![], failing: vec![] }
    }
    pub fn root(&self) -> Name {
        name(self.types.root)
    }
    pub fn over(&self) -> bool {
        self.asked.get() > self.limit
    }
}

pub fn fields<'a>(fs: &'a [Fld]) -> impl ExactSizeIterator<Item = Field<'a, Name>> + 'a {
    fs.iter().map(|f| Field { name: f.name.as_deref(), id: name(f.ty) })
}

impl<'t> TypeResolver for Named<'t> {
    type TypeId = Name;
    type Error = Broken;

    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = Name>>(
        &'this self,
        id: Name,
        v: V,
    ) -> Result<V::Value, Broken> {
        self.asked.set(self.asked.get() + 1);
        if self.over() {
            return Err(Broken::TooMany);
        }
        let Some(t) = tid(&id) else { return Ok(v.visit_not_found()) };
        if self.missing.contains(&t) {
            return Ok(v.visit_not_found());
        }
        if self.failing.contains(&t) {
            return Err(Broken::Fails(id));
        }
        let Some(ty) = self.types.tys.get(t) else { return Ok(v.visit_not_found()) };
        let path = ["some", "Path"].into_iter();
        Ok(match ty {
            Ty::Hole => v.visit_composite(path, fields(&[])),
            Ty::Prim(p) => v.visit_primitive(match p {
                P::Bool => Primitive::Bool,
                P::Char => Primitive::Char,
                P::Str => Primitive::Str,
                P::U(8) => Primitive::U8,
                P::U(16) => Primitive::U16,
                P::U(32) => Primitive::U32,
                P::U(64) => Primitive::U64,
                P::U(128) => Primitive::U128,
                P::U(_) => Primitive::U256,
                P::I(8) => Primitive::I8,
                P::I(16) => Primitive::I16,
                P::I(32) => Primitive::I32,
                P::I(64) => Primitive::I64,
                P::I(128) => Primitive::I128,
                P::I(_) => Primitive::I256,
            }),
            Ty::Seq(e) => v.visit_sequence(path, name(*e)),
            Ty::Arr(n, e) => v.visit_array(name(*e), *n as usize),
            Ty::Tup(es) => v.visit_tuple(es.iter().map(|e| name(*e))),
            Ty::Struct(f) => v.visit_composite(path, fields(f)),
            Ty::Enum(vs) => {
                v.visit_variant(path, vs.iter().map(|x| Variant { index: x.index, name: &x.name, fields: fields(&x.fields) }))
            }
            Ty::Compact(e) => v.visit_compact(name(*e)),
            Ty::Bits(st, msb) => v.visit_bit_sequence(
                match st {
                    8 => BitsStoreFormat::U8,
                    16 => BitsStoreFormat::U16,
                    32 => BitsStoreFormat::U32,
                    _ => BitsStoreFormat::U64,
                },
                if *msb { BitsOrderFormat::Msb0 } else { BitsOrderFormat::Lsb0 },
            ),
        })
    }
}
