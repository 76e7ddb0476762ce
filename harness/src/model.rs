//! What encoding a value against a type may mean: the set of byte strings which represent the
//! value's data under the type, allowing single-element wrappers to be present or absent on either
//! side, named fields to be matched by name or position, and unneeded named fields to be dropped.
use crate::ty::*;
use crate::val::kids;
use scale_value::{Composite, Primitive, Value, ValueDef};
use std::collections::{BTreeSet, HashMap};

/// The field list a composite type or variant presents.
fn flds(t: &Ty) -> Option<Vec<Fld>> {
    match t {
        Ty::Tup(es) => Some(es.iter().map(|e| Fld { name: None, ty: *e }).collect()),
        Ty::Struct(f) => Some(f.clone()),
        _ => None,
    }
}
pub fn wrapper(t: &Ty) -> Option<Tid> {
    match t {
        Ty::Tup(es) if es.len() == 1 => Some(es[0]),
        Ty::Struct(f) if f.len() == 1 => Some(f[0].ty),
        Ty::Arr(1, e) => Some(*e),
        _ => None,
    }
}

pub fn prim_bytes(p: &Primitive, t: P, compact: bool) -> Option<Vec<u8>> {
    if compact {
        let n = match p {
            Primitive::U128(n) => *n,
            Primitive::I128(n) if *n >= 0 => *n as u128,
            Primitive::Char(c) => *c as u128,
            _ => return None,
        };
        return match t {
            P::U(b) if b == 128 || (b < 128 && n >> b == 0) => {
                let mut o = vec![];
                compact_enc(n, &mut o);
                Some(o)
            }
            _ => None,
        };
    }
    let int = |neg: bool, n: u128| -> Option<Vec<u8>> {
        // n is the magnitude when not negative, the two's complement bits otherwise
        match t {
            P::U(b) if b <= 128 && !neg && (b == 128 || n >> b == 0) => Some(n.to_le_bytes()[..b as usize / 8].to_vec()),
            P::I(b) if b <= 128 => {
                let ok = if neg {
                    (n as i128) >= (i128::MIN >> (128 - b))
                } else {
                    n <= (i128::MAX >> (128 - b)) as u128
                };
                ok.then(|| n.to_le_bytes()[..b as usize / 8].to_vec())
            }
            _ => None,
        }
    };
    match (p, t) {
        (Primitive::Bool(b), P::Bool) => Some(vec![*b as u8]),
        (Primitive::String(x), P::Str) => {
            let mut o = vec![];
            compact_enc(x.len() as u128, &mut o);
            o.extend(x.as_bytes());
            Some(o)
        }
        (Primitive::Char(c), P::Char) => Some((*c as u32).to_le_bytes().to_vec()),
        (Primitive::Char(c), _) => int(false, *c as u128),
        (Primitive::U128(n), _) => int(false, *n),
        (Primitive::I128(n), _) => int(*n < 0, *n as u128),
        (Primitive::U256(b), P::U(256)) | (Primitive::I256(b), P::I(256)) => Some(b.to_vec()),
        _ => None,
    }
}

pub fn bit_of<A>(v: &Value<A>) -> Option<bool> {
    match &v.value {
        ValueDef::Primitive(Primitive::Bool(b)) => Some(*b),
        ValueDef::Primitive(Primitive::U128(n)) if *n < 2 => Some(*n == 1),
        ValueDef::Primitive(Primitive::I128(n)) if *n == 0 || *n == 1 => Some(*n == 1),
        _ => None,
    }
}

/// For each way of matching a composite's values to fields: the candidates for each field in order.
fn matched<'v, A>(c: &'v Composite<A>, f: &[Fld]) -> Option<Vec<Vec<&'v Value<A>>>> {
    if let Composite::Named(vs) = c {
        if f.iter().any(|f| f.name.is_some()) && !vs.is_empty() || f.is_empty() {
            return f
                .iter()
                .map(|f| {
                    let nm = f.name.as_deref().unwrap_or("");
                    let c: Vec<&Value<A>> = vs.iter().filter(|(n, _)| n == nm).map(|(_, v)| v).collect();
                    (!c.is_empty()).then_some(c)
                })
                .collect();
        }
    }
    let k = kids(c);
    (k.len() == f.len()).then(|| k.into_iter().map(|v| vec![v]).collect())
}

const MAX: usize = 3;
type Key = (usize, Tid, bool);

pub struct Readings<'t> {
    t: &'t Types,
    memo: HashMap<Key, Vec<Vec<u8>>>,
}
/// Up to three of the distinct byte strings which represent `v` under type `id`.
pub fn readings<A>(t: &Types, id: Tid, v: &Value<A>) -> Vec<Vec<u8>> {
    Readings { t, memo: HashMap::new() }.go(v, id, false)
}
fn add(out: &mut Vec<Vec<u8>>, x: Vec<u8>) {
    if out.len() < MAX && !out.contains(&x) {
        out.push(x)
    }
}
fn product(parts: Vec<Vec<Vec<u8>>>, head: Vec<u8>) -> Vec<Vec<u8>> {
    let mut acc = vec![head];
    for p in parts {
        let mut next = vec![];
        for a in &acc {
            for b in &p {
                let mut x = a.clone();
                x.extend(b);
                add(&mut next, x);
            }
        }
        acc = next;
        if acc.is_empty() {
            break;
        }
    }
    acc
}
impl<'t> Readings<'t> {
    fn fields<A>(&mut self, c: &Composite<A>, f: &[Fld], compact: bool, head: Vec<u8>) -> Vec<Vec<u8>> {
        let Some(m) = matched(c, f) else { return vec![] };
        let mut parts = vec![];
        for (cands, f) in m.into_iter().zip(f) {
            let mut p = vec![];
            for v in cands {
                self.go(v, f.ty, compact).into_iter().for_each(|x| add(&mut p, x));
            }
            if p.is_empty() {
                return vec![];
            }
            parts.push(p);
        }
        product(parts, head)
    }
    fn list<A>(&mut self, vs: &[&Value<A>], e: Tid, head: Vec<u8>) -> Vec<Vec<u8>> {
        let mut parts = vec![];
        for v in vs {
            let p = self.go(v, e, false);
            if p.is_empty() {
                return vec![];
            }
            parts.push(p);
        }
        product(parts, head)
    }
    fn go<A>(&mut self, v: &Value<A>, id: Tid, compact: bool) -> Vec<Vec<u8>> {
        let key = (v as *const Value<A> as usize, id, compact);
        if let Some(x) = self.memo.get(&key) {
            return x.clone();
        }
        let mut out = vec![];
        let ty = self.t.tys[id].clone();
        let len_head = |n: usize| {
            let mut h = vec![];
            compact_enc(n as u128, &mut h);
            h
        };
        if let ValueDef::Composite(c) = &v.value {
            if compact {
                // nothing but wrapping is possible inside a compact type
            } else if let Some(f) = flds(&ty) {
                self.fields(c, &f, compact, vec![]).into_iter().for_each(|x| add(&mut out, x));
            }
            match &ty {
                Ty::Seq(e) => self.list(&kids(c), *e, len_head(c.len())).into_iter().for_each(|x| add(&mut out, x)),
                Ty::Arr(n, e) if *n as usize == c.len() => self.list(&kids(c), *e, vec![]).into_iter().for_each(|x| add(&mut out, x)),
                Ty::Bits(st, msb) => {
                    if let Some(bits) = kids(c).into_iter().map(bit_of).collect::<Option<Vec<bool>>>() {
                        let mut o = vec![];
                        bits_enc(&bits, *st, *msb, &mut o);
                        add(&mut out, o)
                    }
                }
                _ => {}
            }
            let k = kids(c);
            if k.len() == 1 {
                self.go(k[0], id, compact).into_iter().for_each(|x| add(&mut out, x));
            }
        }
        if let Some(e) = wrapper(&ty) {
            self.go(v, e, compact).into_iter().for_each(|x| add(&mut out, x));
        }
        match (&v.value, &ty) {
            (_, Ty::Compact(e)) => self.go(v, *e, true).into_iter().for_each(|x| add(&mut out, x)),
            (ValueDef::Primitive(p), Ty::Prim(t)) => prim_bytes(p, *t, compact).into_iter().for_each(|x| add(&mut out, x)),
            (ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)), Ty::Seq(e)) => {
                let vs: Vec<Value<()>> = b.iter().map(|b| Value::u128(*b as u128)).collect();
                let mut r = Readings { t: self.t, memo: HashMap::new() };
                r.list(&vs.iter().collect::<Vec<_>>(), *e, len_head(32)).into_iter().for_each(|x| add(&mut out, x));
            }
            (ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)), Ty::Arr(32, e)) => {
                let vs: Vec<Value<()>> = b.iter().map(|b| Value::u128(*b as u128)).collect();
                let mut r = Readings { t: self.t, memo: HashMap::new() };
                r.list(&vs.iter().collect::<Vec<_>>(), *e, vec![]).into_iter().for_each(|x| add(&mut out, x));
            }
            (ValueDef::BitSequence(b), Ty::Bits(st, msb)) => {
                let mut o = vec![];
                bits_enc(&b.iter().collect::<Vec<_>>(), *st, *msb, &mut o);
                add(&mut out, o)
            }
            (ValueDef::Variant(x), Ty::Enum(vs)) => {
                for var in vs.iter().filter(|v| v.name == x.name) {
                    self.fields(&x.values, &var.fields, false, vec![var.index]).into_iter().for_each(|x| add(&mut out, x));
                }
            }
            _ => {}
        }
        self.memo.insert(key, out.clone());
        out
    }
}

/// Do the bytes represent the value under the type? (No limit on the number of readings.)
pub fn represents<A>(t: &Types, id: Tid, v: &Value<A>, bytes: &[u8]) -> bool {
    Rec { t, b: bytes, memo: HashMap::new() }.go(v, id, false, 0).contains(&bytes.len())
}
struct Rec<'t> {
    t: &'t Types,
    b: &'t [u8],
    memo: HashMap<(usize, Tid, bool, usize), BTreeSet<usize>>,
}
impl<'t> Rec<'t> {
    fn lit(&self, x: &[u8], at: usize) -> BTreeSet<usize> {
        if self.b[at..].starts_with(x) { BTreeSet::from([at + x.len()]) } else { BTreeSet::new() }
    }
    fn seq<A>(&mut self, parts: &[(Vec<&Value<A>>, Tid)], starts: BTreeSet<usize>) -> BTreeSet<usize> {
        let mut cur = starts;
        for (cands, ty) in parts {
            let mut next = BTreeSet::new();
            for at in &cur {
                for v in cands {
                    next.extend(self.go(v, *ty, false, *at));
                }
            }
            cur = next;
        }
        cur
    }
    fn fields<A>(&mut self, c: &Composite<A>, f: &[Fld], starts: BTreeSet<usize>) -> BTreeSet<usize> {
        match matched(c, f) {
            Some(m) => {
                let parts: Vec<(Vec<&Value<A>>, Tid)> = m.into_iter().zip(f).map(|(c, f)| (c, f.ty)).collect();
                self.seq(&parts, starts)
            }
            None => BTreeSet::new(),
        }
    }
    fn go<A>(&mut self, v: &Value<A>, id: Tid, compact: bool, at: usize) -> BTreeSet<usize> {
        let key = (v as *const Value<A> as usize, id, compact, at);
        if let Some(x) = self.memo.get(&key) {
            return x.clone();
        }
        let ty = self.t.tys[id].clone();
        let mut out = BTreeSet::new();
        if let ValueDef::Composite(c) = &v.value {
            if let (false, Some(f)) = (compact, flds(&ty)) {
                out.extend(self.fields(c, &f, BTreeSet::from([at])));
            }
            match &ty {
                Ty::Seq(e) => {
                    let mut h = vec![];
                    compact_enc(c.len() as u128, &mut h);
                    let st = self.lit(&h, at);
                    let parts: Vec<_> = kids(c).into_iter().map(|v| (vec![v], *e)).collect();
                    out.extend(self.seq(&parts, st));
                }
                Ty::Arr(n, e) if *n as usize == c.len() => {
                    let parts: Vec<_> = kids(c).into_iter().map(|v| (vec![v], *e)).collect();
                    out.extend(self.seq(&parts, BTreeSet::from([at])));
                }
                _ => {}
            }
            let k = kids(c);
            if k.len() == 1 {
                out.extend(self.go(k[0], id, compact, at));
            }
        }
        if let Some(e) = wrapper(&ty) {
            out.extend(self.go(v, e, compact, at));
        }
        match (&v.value, &ty) {
            (_, Ty::Compact(e)) => out.extend(self.go(v, *e, true, at)),
            (ValueDef::Variant(x), Ty::Enum(vs)) => {
                for var in vs.iter().filter(|v| v.name == x.name) {
                    let st = self.lit(&[var.index], at);
                    out.extend(self.fields(&x.values, &var.fields, st));
                }
            }
            (ValueDef::Primitive(_), _) | (ValueDef::BitSequence(_), _) | (_, Ty::Bits(..)) => {
                // leaves have few readings
                for r in (Readings { t: self.t, memo: HashMap::new() }).go(v, id, compact) {
                    out.extend(self.lit(&r, at));
                }
            }
            _ => {}
        }
        self.memo.insert(key, out.clone());
        out
    }
}
