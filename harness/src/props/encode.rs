//! C03 C04 C05 C06 C24: encoding values which are not, or not quite, of the type's exact shape.
use super::decode::classes;
use crate::model::*;
use crate::run::{catch, Obs, Prop, R};
use crate::src::Src;
use crate::ty::*;
use crate::val::*;
use crate::{check, fail};
use scale_encode::error::Location;
use scale_value::{scale, Composite, Primitive, Value, ValueDef, Variant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            rule: "value of a random type, with 0-4 random mutations, against that type, a mutated copy of it or an unrelated type; non-trivial when the value is not the exact value of the type and encoding succeeds",
            quick: 4_000_000,
            thorough: 60_000_000,
            run: c03,
            probes: &[],
        },
        Prop {
            id: "C04",
            rule: "random type with single-element wrappers inserted around random nodes, and values with any of the wrappers present, absent or differently named; non-trivial when the value differs from the exact value of the wrapped type",
            quick: 1_200_000,
            thorough: 18_000_000,
            run: c04,
            probes: &[],
        },
        Prop {
            id: "C05",
            rule: "exact value with fields permuted, added, removed, named or unnamed, or variants renamed, at random nodes; non-trivial when at least one node changed",
            quick: 3_000_000,
            thorough: 45_000_000,
            run: c05,
            probes: &[],
        },
        Prop {
            id: "C06",
            rule: "integers around every boundary against every integer and compact type behind 0-3 wrappers, and lists against bit sequence types; non-trivial when the type is wrapped or compact, the number is within 2 of a boundary, or a list of >= 2 bits",
            quick: 8_000_000,
            thorough: 120_000_000,
            run: c06,
            probes: &[],
        },
        Prop {
            id: "C24",
            rule: "exact value with one part replaced by something that does not fit; non-trivial when the part is not the root",
            quick: 3_000_000,
            thorough: 45_000_000,
            run: c24,
            probes: &[],
        },
    ]
}

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Apply `f` to the k-th node (preorder).
pub fn at_node(v: &mut Value<()>, k: &mut usize, f: &mut dyn FnMut(&mut Value<()>)) -> bool {
    if *k == 0 {
        f(v);
        return true;
    }
    *k -= 1;
    let c = match &mut v.value {
        ValueDef::Composite(c) => c,
        ValueDef::Variant(x) => &mut x.values,
        _ => return false,
    };
    match c {
        Composite::Named(vs) => vs.iter_mut().any(|(_, v)| at_node(v, k, f)),
        Composite::Unnamed(vs) => vs.iter_mut().any(|v| at_node(v, k, f)),
    }
}
fn comp_mut(v: &mut Value<()>) -> Option<&mut Composite<()>> {
    match &mut v.value {
        ValueDef::Composite(c) => Some(c),
        ValueDef::Variant(x) => Some(&mut x.values),
        _ => None,
    }
}
fn take(c: &mut Composite<()>) -> Vec<(Option<String>, Value<()>)> {
    match std::mem::replace(c, Composite::Unnamed(vec![])) {
        Composite::Named(vs) => vs.into_iter().map(|(n, v)| (Some(n), v)).collect(),
        Composite::Unnamed(vs) => vs.into_iter().map(|v| (None, v)).collect(),
    }
}
fn set(c: &mut Composite<()>, vs: Vec<(Option<String>, Value<()>)>, named: bool) {
    *c = if named {
        Composite::Named(vs.into_iter().map(|(n, v)| (n.unwrap_or_default(), v)).collect())
    } else {
        Composite::Unnamed(vs.into_iter().map(|(_, v)| v).collect())
    };
}
fn small(s: &mut Src) -> Value<()> {
    let mut o = ValOpts::new(4);
    o.max_depth = 2;
    o.field_names = 2;
    gen_value(s, o)
}

pub fn mutate_value(s: &mut Src, v: &mut Value<()>) {
    let n = count_nodes(v);
    let mut k = s.below(n.min(60));
    at_node(v, &mut k, &mut |v| {
        let named_before = matches!(comp_mut(v), Some(Composite::Named(_)));
        match s.below(16) {
            0 => {
                let inner = std::mem::replace(v, Value::bool(true));
                *v = if s.coin() { Value::unnamed_composite([inner]) } else { Value::named_composite([(field_name(s, true), inner)]) };
            }
            1 => {
                if let ValueDef::Composite(c) = &mut v.value {
                    if c.len() == 1 {
                        let x = take(c).pop().unwrap().1;
                        *v = x;
                    }
                }
            }
            2 => {
                if let Some(Composite::Named(vs)) = comp_mut(v) {
                    if !vs.is_empty() {
                        let i = s.below(vs.len());
                        vs[i].0 = field_name(s, true);
                    }
                }
            }
            3 => {
                if let Some(c) = comp_mut(v) {
                    let mut vs = take(c);
                    s.shuffle(&mut vs);
                    set(c, vs, named_before)
                }
            }
            4 => {
                if let Some(c) = comp_mut(v) {
                    let mut vs = take(c);
                    if !vs.is_empty() {
                        let i = s.below(vs.len());
                        vs.remove(i);
                    }
                    set(c, vs, named_before)
                }
            }
            5 => {
                if let Some(c) = comp_mut(v) {
                    let mut vs = take(c);
                    let i = s.below(vs.len() + 1);
                    let x = if !vs.is_empty() && s.coin() { vs[s.below(vs.len())].clone() } else { (Some(field_name(s, true)), small(s)) };
                    vs.insert(i, x);
                    set(c, vs, named_before)
                }
            }
            6 => {
                if let Some(c) = comp_mut(v) {
                    let mut vs = take(c);
                    let names = distinct_names(s, vs.len(), true);
                    vs.iter_mut().zip(names).for_each(|(x, n)| {
                        if x.0.is_none() {
                            x.0 = Some(n)
                        }
                    });
                    set(c, vs, !named_before)
                }
            }
            7 | 8 => {
                if let ValueDef::Primitive(p) = &mut v.value {
                    *p = match p.clone() {
                        Primitive::U128(n) if n <= i128::MAX as u128 => Primitive::I128(n as i128),
                        Primitive::I128(n) if n >= 0 => Primitive::U128(n as u128),
                        Primitive::I128(n) => Primitive::U128(n as u128),
                        Primitive::U128(n) => Primitive::I128(n as i128),
                        Primitive::Char(c) => Primitive::U128(c as u128),
                        Primitive::Bool(b) => Primitive::U128(b as u128),
                        Primitive::String(x) if x.chars().count() == 1 => Primitive::Char(x.chars().next().unwrap()),
                        Primitive::String(x) => Primitive::String(format!("{x}!")),
                        Primitive::U256(b) => Primitive::I256(b),
                        Primitive::I256(b) => Primitive::U256(b),
                    }
                }
            }
            9 => {
                if let ValueDef::Primitive(p) = &mut v.value {
                    *p = match p {
                        Primitive::U128(n) => Primitive::U128(n.wrapping_add(1 << (8 * s.below(16)))),
                        Primitive::I128(n) => Primitive::I128(n.wrapping_sub(1 << (8 * s.below(16)))),
                        _ => Primitive::U128(s.uint(128)),
                    }
                }
            }
            10 => *v = small(s),
            11 => {
                // bits <-> list
                match &mut v.value {
                    ValueDef::BitSequence(b) => {
                        let as_num = s.coin();
                        *v = Value::unnamed_composite(b.iter().map(|b| if as_num { Value::u128(b as u128) } else { Value::bool(b) }))
                    }
                    ValueDef::Composite(c) => {
                        if let Some(bits) = kids(c).into_iter().map(bit_of).collect::<Option<Vec<bool>>>() {
                            *v = Value::bit_sequence(bits.into_iter().collect())
                        }
                    }
                    _ => {}
                }
            }
            12 => {
                if let ValueDef::Variant(x) = &mut v.value {
                    if s.coin() {
                        v.value = ValueDef::Composite(std::mem::replace(&mut x.values, Composite::Unnamed(vec![])));
                    } else {
                        x.name = (*s.pick(&["A", "B", "C", "Some", "None", "Foo", "a", "AB"])).to_string();
                    }
                }
            }
            13 => {
                if let ValueDef::Composite(c) = &mut v.value {
                    let c = std::mem::replace(c, Composite::Unnamed(vec![]));
                    v.value = ValueDef::Variant(Variant { name: s.pick(&["A", "B", "C", "Some"]).to_string(), values: c });
                }
            }
            14 => {
                // nest half of the fields
                if let Some(c) = comp_mut(v) {
                    let mut vs = take(c);
                    let k = s.below(vs.len() + 1);
                    let tail = vs.split_off(k);
                    let mut inner = Composite::Unnamed(vec![]);
                    set(&mut inner, tail, named_before);
                    vs.push((Some(field_name(s, true)), Value { value: ValueDef::Composite(inner), context: () }));
                    set(c, vs, named_before)
                }
            }
            _ => {
                // flatten one nested composite
                if let Some(c) = comp_mut(v) {
                    let vs = take(c);
                    let mut out = vec![];
                    let mut done = false;
                    for (n, x) in vs {
                        match x.value {
                            ValueDef::Composite(mut inner) if !done => {
                                done = true;
                                out.extend(take(&mut inner));
                            }
                            d => out.push((n, Value { value: d, context: () })),
                        }
                    }
                    set(c, out, named_before)
                }
            }
        }
    });
}

pub fn reach(t: &Types, id: Tid, out: &mut Vec<Tid>) {
    if out.contains(&id) {
        return;
    }
    out.push(id);
    match &t.tys[id] {
        Ty::Seq(e) | Ty::Arr(_, e) | Ty::Compact(e) => reach(t, *e, out),
        Ty::Tup(es) => es.iter().for_each(|e| reach(t, *e, out)),
        Ty::Struct(f) => f.iter().for_each(|f| reach(t, f.ty, out)),
        Ty::Enum(vs) => vs.iter().for_each(|v| v.fields.iter().for_each(|f| reach(t, f.ty, out))),
        _ => {}
    }
}
/// Everything at or below a compact type.
pub fn compact_inner(t: &Types) -> Vec<Tid> {
    let mut out = vec![];
    for x in &t.tys {
        if let Ty::Compact(e) = x {
            reach(t, *e, &mut out);
        }
    }
    out
}
pub fn copy(t: &Types) -> Types {
    let mut n = Types::from_tys(t.tys.clone(), t.root);
    n.has256 = t.has256;
    n
}

fn mutate_types(s: &mut Src, t: &mut Types) {
    let frozen = compact_inner(t);
    let mut r = vec![];
    reach(t, t.root, &mut r);
    r.retain(|i| !frozen.contains(i));
    if r.is_empty() {
        return;
    }
    let id = *s.pick(&r);
    let wrap = s.ratio(1, 4);
    if wrap {
        let moved = t.push(t.tys[id].clone());
        t.tys[id] = gen_wrapper(s, moved);
        return;
    }
    let ty = t.tys[id].clone();
    let edit = |s: &mut Src, mut f: Vec<Fld>| -> Vec<Fld> {
        match s.below(5) {
            0 => {
                let names = distinct_names(s, f.len(), true);
                let unnamed = f.iter().any(|f| f.name.is_none());
                f.iter_mut().zip(names).for_each(|(f, n)| f.name = if unnamed { Some(n) } else { None });
            }
            1 => s.shuffle(&mut f),
            2 if !f.is_empty() => {
                let i = s.below(f.len());
                f.remove(i);
            }
            3 if !f.is_empty() => {
                let i = s.below(f.len());
                let named = f[0].name.is_some();
                let ty = f[i].ty;
                let mut n = "extra".to_string();
                if s.coin() {
                    n = field_name(s, true);
                }
                while f.iter().any(|f| f.name.as_ref() == Some(&n)) {
                    n.push('_');
                }
                f.insert(i, Fld { name: named.then_some(n), ty });
            }
            _ if !f.is_empty() => {
                let i = s.below(f.len());
                if f[i].name.is_some() {
                    let n = distinct_names(s, 1, true).pop().unwrap();
                    if !f.iter().any(|f| f.name.as_ref() == Some(&n)) {
                        f[i].name = Some(n);
                    }
                }
            }
            _ => {}
        }
        f
    };
    t.tys[id] = match ty {
        Ty::Prim(P::U(256) | P::I(256)) => return,
        Ty::Prim(_) => Ty::Prim(match s.below(6) {
            0 => P::Bool,
            1 => P::Str,
            2 => P::Char,
            3 => P::I(*s.pick(&[8, 32, 128])),
            _ => P::U(*s.pick(&[8, 16, 32, 64, 128])),
        }),
        Ty::Seq(e) => match s.below(2) {
            0 => Ty::Arr(s.below(4) as u32, e),
            _ => Ty::Tup(vec![e; s.below(4)]),
        },
        Ty::Arr(n, e) => match s.below(3) {
            0 => Ty::Seq(e),
            1 => Ty::Arr(n.saturating_sub(1), e),
            _ => Ty::Tup(vec![e; (n as usize).min(5)]),
        },
        Ty::Tup(es) => Ty::Struct(edit(s, es.into_iter().map(|e| Fld { name: None, ty: e }).collect())),
        Ty::Struct(f) => Ty::Struct(edit(s, f)),
        Ty::Enum(mut vs) => {
            let i = s.below(vs.len());
            if s.coin() {
                vs[i].fields = edit(s, std::mem::take(&mut vs[i].fields));
            } else {
                vs[i].index = (0..=255u8).find(|k| !vs.iter().any(|v| v.index == *k)).unwrap_or(vs[i].index);
            }
            Ty::Enum(vs)
        }
        Ty::Bits(_, m) => {
            if s.coin() { Ty::Bits(*s.pick(&[8, 16, 32, 64]), !m) } else { Ty::Tup(vec![]) }
        }
        x => x,
    };
}

fn gen_wrapper(s: &mut Src, inner: Tid) -> Ty {
    match s.below(4) {
        0 => Ty::Tup(vec![inner]),
        1 => Ty::Struct(vec![Fld { name: None, ty: inner }]),
        2 => Ty::Struct(vec![Fld { name: Some(field_name(s, true)), ty: inner }]),
        _ => Ty::Arr(1, inner),
    }
}

/// A wrapper other than an array.
fn field_wrapper(s: &mut Src, inner: Tid) -> Ty {
    match gen_wrapper(s, inner) {
        Ty::Arr(_, e) => Ty::Tup(vec![e]),
        w => w,
    }
}

pub fn small_types(s: &mut Src) -> Types {
    let mut o = TyOpts::new(3 + s.below(14) as i32);
    o.mixed = false;
    o.plain_names = s.ratio(3, 4);
    o.zst_elems = true;
    gen_types(s, o)
}

fn encode(v: &Value<()>, t: &Types) -> Result<Vec<u8>, scale_encode::Error> {
    let mut out = vec![];
    scale::encode_as_type(v, t.root_id(), t.reg(), &mut out).map(|_| out)
}
/// Trying every way to place wrappers takes time exponential in the nesting.
fn effort(v: &Value<()>) -> u64 {
    match &v.value {
        ValueDef::Composite(c) if c.len() == 1 => 4 * effort(kids(c)[0]),
        ValueDef::Composite(c) => 1 + 2 * kids(c).into_iter().map(effort).sum::<u64>(),
        ValueDef::Variant(x) => 1 + kids(&x.values).into_iter().map(effort).sum::<u64>(),
        _ => 1,
    }
}
pub fn too_deep(v: &Value<()>) -> bool {
    depth(v) > 12 || effort(v) > 20_000
}

// ------------------------------------------------------------------------------------------ C03

fn c03(s: &mut Src, obs: &mut Obs) -> R {
    let t0 = small_types(s);
    let mut fuel = 25;
    let v = t0.gen_val(s, t0.root, &mut fuel);
    let exact = strip(&t0.expected(t0.root, &v));
    let (t, mut val) = match s.below(8) {
        0 => (small_types(s), exact.clone()),
        1 => {
            let mut o = ValOpts::new(12);
            o.max_depth = 5;
            o.field_names = 2;
            (t0, gen_value(s, o))
        }
        2..=4 => {
            let mut t = copy(&t0);
            for _ in 0..s.range(1, 3) {
                mutate_types(s, &mut t);
            }
            (t, exact.clone())
        }
        _ => (t0, exact.clone()),
    };
    for _ in 0..s.below(4) {
        mutate_value(s, &mut val);
    }
    if too_deep(&val) {
        obs.class("too deep");
        return Ok(());
    }
    classes(&t, obs);
    obs.desc(|| format!("value {} type {}", show(&val), t.show(t.root)));
    let mut r = vec![];
    reach(&t, t.root, &mut r);
    let has256 = r.iter().any(|i| matches!(t.tys[*i], Ty::Prim(P::U(256) | P::I(256))));
    match encode(&val, &t) {
        Err(_) => obs.class("refused"),
        Ok(out) => {
            check!(represents(&t, t.root, &val, &out), "encodes to {} which does not represent the value", hexs(&out));
            if !has256 {
                let cur = &mut &out[..];
                match t.dec(t.root, cur) {
                    Ok(w) => {
                        check!(cur.is_empty(), "encodes to {}, of which {} bytes are not part of an encoding of the type", hexs(&out), cur.len());
                        let cur = &mut &out[..];
                        match scale::decode_as_type(cur, t.root_id(), t.reg()) {
                            Ok(g) => check!(g == w && cur.is_empty(), "encodes to {}, decoded as {}", hexs(&out), show(&g)),
                            Err(e) => fail!("encodes to {} which does not decode: {e}", hexs(&out)),
                        }
                        if strip(&w) != val {
                            obs.class("encoded, decodes to another shape");
                            let mut k = t.show(t.root).into_bytes();
                            k.extend(show(&val).bytes());
                            obs.nontrivial(&k);
                        } else {
                            obs.class("encoded exactly");
                        }
                    }
                    Err(e) => fail!("encodes to {} which is not an encoding of the type (at {:?})", hexs(&out), e.path),
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C04

/// Build the value the type describes, passing every finished node through `f`.
pub fn build(t: &Types, id: Tid, v: &V, compact: bool, f: &mut dyn FnMut(Tid, Value<()>) -> Value<()>) -> Value<()> {
    let mut fields = |fl: &[Fld], vs: &[V]| {
        let vals: Vec<Value<()>> = fl.iter().zip(vs).map(|(fl, v)| build(t, fl.ty, v, compact, f)).collect();
        if Types::named(fl) {
            Composite::Named(fl.iter().map(|f| f.name.clone().unwrap()).zip(vals).collect())
        } else {
            Composite::Unnamed(vals)
        }
    };
    let unnamed = |fl: Vec<Tid>| -> Vec<Fld> { fl.into_iter().map(|ty| Fld { name: None, ty }).collect() };
    let val = match (&t.tys[id], v) {
        (Ty::Compact(e), v) => build(t, *e, v, true, f),
        (Ty::Seq(e), V::List(vs)) | (Ty::Arr(_, e), V::List(vs)) => {
            Value { value: ValueDef::Composite(fields(&unnamed(vec![*e; vs.len()]), vs)), context: () }
        }
        (Ty::Tup(es), V::List(vs)) => Value { value: ValueDef::Composite(fields(&unnamed(es.clone()), vs)), context: () },
        (Ty::Struct(fl), V::List(vs)) => Value { value: ValueDef::Composite(fields(fl, vs)), context: () },
        (Ty::Enum(xs), V::Var(i, vs)) => {
            let c = fields(&xs[*i].fields, vs);
            Value { value: ValueDef::Variant(Variant { name: xs[*i].name.clone(), values: c }), context: () }
        }
        _ => strip(&t.expected(id, v)),
    };
    f(id, val)
}

fn c04(s: &mut Src, obs: &mut Obs) -> R {
    let t = small_types(s);
    let mut fuel = 20;
    let v = t.gen_val(s, t.root, &mut fuel);
    // wrap some nodes of the type
    let frozen = compact_inner(&t);
    let mut r = vec![];
    reach(&t, t.root, &mut r);
    r.retain(|i| !frozen.contains(i) && !matches!(t.tys[*i], Ty::Hole));
    let mut w = copy(&t);
    let mut layers: std::collections::BTreeMap<Tid, Vec<Option<String>>> = Default::default();
    if r.is_empty() {
        return Ok(());
    }
    // now and then many around the same
    let deep = s.ratio(1, 10);
    let only = *s.pick(&r);
    for _ in 0..if deep { 4 + s.below(28) } else { s.below(4) } {
        let id = if deep { only } else { *s.pick(&r) };
        let l = layers.entry(id).or_default();
        if l.len() >= 3 && !deep {
            continue;
        }
        let moved = w.push(w.tys[id].clone());
        let mut wr = gen_wrapper(s, moved);
        // (one-element arrays are only seen through by composite values)
        if let (Ty::Arr(_, e), Ty::Prim(_) | Ty::Enum(_) | Ty::Bits(..) | Ty::Compact(_)) = (&wr, &t.tys[id]) {
            wr = Ty::Tup(vec![*e]);
        }
        // outermost last
        l.push(match &wr {
            Ty::Struct(f) => f[0].name.clone(),
            _ => None,
        });
        w.tys[id] = wr;
    }
    let wrap = |v: Value<()>, n: &Option<String>| match n {
        Some(n) => Value::named_composite([(n.clone(), v)]),
        None => Value::unnamed_composite([v]),
    };
    let exact = build(&t, t.root, &v, false, &mut |_, v| v);
    let full = build(&t, t.root, &v, false, &mut |id, mut v| {
        if let Some(l) = layers.get(&id) {
            for n in l {
                v = wrap(v, n)
            }
        }
        v
    });
    // any of the wrappers left out or named differently, and some added which the type does not have
    let extra = s.coin();
    let partial = build(&t, t.root, &v, false, &mut |id, mut v| {
        if let Some(l) = layers.get(&id) {
            for n in l {
                match s.below(5) {
                    0 | 1 => v = wrap(v, n),
                    2 => v = Value::unnamed_composite([v]),
                    3 => v = Value::named_composite([(field_name(s, true), v)]),
                    _ => {}
                }
            }
        }
        if extra && s.ratio(1, 6) {
            v = if s.coin() { Value::unnamed_composite([v]) } else { Value::named_composite([(field_name(s, true), v)]) };
        }
        v
    });
    let want = t.encode(t.root, &v);
    if deep && !too_deep(&exact) {
        obs.class("four or more layers around one node");
        obs.desc(|| format!("type {} wrapped {} values {} {}", t.show(t.root), w.show(w.root), show(&exact), show(&full)));
        match encode(&full, &w) {
            Ok(out) => check!(out == want, "exact value of the wrapped type encodes to {} not {}", hexs(&out), hexs(&want)),
            Err(e) => fail!("exact value of the wrapped type does not encode: {e}"),
        }
        let rd = readings(&w, w.root, &exact);
        if rd.len() == 1 {
            obs.nontrivial(format!("{}{}", w.show(w.root), show(&exact)).as_bytes());
            match encode(&exact, &w) {
                Ok(out) => check!(out == want, "unwrapped value to the wrapped type encodes to {} not {}", hexs(&out), hexs(&want)),
                Err(e) => fail!("unwrapped value to the wrapped type does not encode: {e}"),
            }
        } else {
            obs.class("ambiguous");
        }
        return Ok(());
    }
    if too_deep(&full) || too_deep(&partial) {
        obs.class("too deep");
        return Ok(());
    }
    classes(&w, obs);
    obs.desc(|| format!("type {} wrapped {} values {} {} {}", t.show(t.root), w.show(w.root), show(&exact), show(&full), show(&partial)));
    obs.class_if(layers.len() >= 2, "two or more nodes wrapped");
    obs.class_if(layers.values().any(|l| l.len() >= 2), "nested wrappers");
    match encode(&full, &w) {
        Ok(out) => check!(out == want, "exact value of the wrapped type encodes to {} not {}", hexs(&out), hexs(&want)),
        Err(e) => fail!("exact value of the wrapped type does not encode: {e}"),
    }
    for (what, val, ty) in [
        ("unwrapped value to wrapped type", &exact, &w),
        ("wrapped value to unwrapped type", &full, &t),
        ("partly wrapped value to wrapped type", &partial, &w),
        ("partly wrapped value to unwrapped type", &partial, &t),
    ] {
        let rd = readings(ty, ty.root, val);
        check!(rd.contains(&want) || rd.len() >= 3, "harness: {what} has readings {rd:?}, not {}", hexs(&want));
        let got = encode(val, ty);
        if rd.len() > 1 {
            obs.class("ambiguous");
            continue;
        }
        obs.class(what);
        match got {
            Ok(out) => check!(out == want, "{what}: {} encodes to {} not {}", show(val), hexs(&out), hexs(&want)),
            Err(e) => fail!("{what}: {} against {} does not encode: {e}", show(val), ty.show(ty.root)),
        }
        if *val != full || !std::ptr::eq(ty, &w) {
            let mut k = ty.show(ty.root).into_bytes();
            k.extend(show(val).bytes());
            obs.nontrivial(&k);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C05

fn c05(s: &mut Src, obs: &mut Obs) -> R {
    let t = small_types(s);
    let mut fuel = 25;
    let v = t.gen_val(s, t.root, &mut fuel);
    let want = t.encode(t.root, &v);
    let exact = build(&t, t.root, &v, false, &mut |_, v| v);
    let mut breaking = false;
    let mut changed: Vec<&'static str> = vec![];
    let intensity = s.range(1, 3);
    let frozen = compact_inner(&t);
    let allow_break = s.coin();
    let val = build(&t, t.root, &v, false, &mut |id, mut v| {
        if frozen.contains(&id) || !s.ratio(intensity, 4) {
            return v;
        }
        let flds: Vec<Fld> = match (&t.tys[id], &v.value) {
            (Ty::Struct(f), _) => f.clone(),
            (Ty::Tup(es), _) => es.iter().map(|e| Fld { name: None, ty: *e }).collect(),
            (Ty::Enum(vs), ValueDef::Variant(x)) => vs.iter().find(|y| y.name == x.name).unwrap().fields.clone(),
            (Ty::Seq(_) | Ty::Arr(..), _) => vec![],
            _ => return v,
        };
        let tnamed = !flds.is_empty() && Types::named(&flds);
        let is_enum = matches!(t.tys[id], Ty::Enum(_));
        let Some(c) = comp_mut(&mut v) else { return v };
        let mut vs = take(c);
        let act = s.below(if allow_break && !breaking { 9 } else { 5 });
        if tnamed {
            match act {
                0 | 1 => {
                    s.shuffle(&mut vs);
                    set(c, vs, true);
                    changed.push("permuted");
                }
                2 | 3 => {
                    for _ in 0..s.range(1, 2) {
                        let mut n = field_name(s, true);
                        while vs.iter().any(|x| x.0.as_ref() == Some(&n)) {
                            n.push('_');
                        }
                        let i = s.below(vs.len() + 1);
                        let x = if s.coin() { vs[s.below(vs.len())].1.clone() } else { small(s) };
                        vs.insert(i, (Some(n), x));
                    }
                    set(c, vs, true);
                    changed.push("added fields");
                }
                4 => {
                    set(c, vs, false);
                    changed.push("names removed");
                }
                5 => {
                    let i = s.below(vs.len());
                    let x = vs.remove(i);
                    // keep something else in its place
                    if s.coin() {
                        let mut n = format!("{}_", x.0.clone().unwrap());
                        while vs.iter().any(|x| x.0.as_ref() == Some(&n)) {
                            n.push('_');
                        }
                        vs.insert(i, (Some(n), x.1));
                    }
                    set(c, vs, true);
                    breaking = true;
                    changed.push("missing field");
                }
                6 | 7 => {
                    if s.coin() {
                        let i = s.below(vs.len());
                        vs.remove(i);
                    } else {
                        let i = s.below(vs.len() + 1);
                        let x = if s.coin() && !vs.is_empty() { vs[s.below(vs.len())].1.clone() } else { small(s) };
                        vs.insert(i, (None, x));
                    }
                    set(c, vs, false);
                    breaking = true;
                    changed.push("unnamed, wrong length");
                }
                _ => set(c, vs, true),
            }
        } else {
            match act {
                // (one named value may also be there to match a name further inside)
                0..=4 if vs.len() != 1 => {
                    let names = distinct_names(s, vs.len(), true);
                    vs.iter_mut().zip(names).for_each(|(x, n)| x.0 = Some(n));
                    set(c, vs, true);
                    changed.push("names given");
                }
                5..=7 if !matches!(t.tys[id], Ty::Seq(_)) => {
                    let named = s.coin();
                    if s.coin() && !vs.is_empty() {
                        let i = s.below(vs.len());
                        vs.remove(i);
                    } else {
                        let i = s.below(vs.len() + 1);
                        let x = if s.coin() && !vs.is_empty() { vs[s.below(vs.len())].1.clone() } else { small(s) };
                        vs.insert(i, (None, x));
                    }
                    let names = distinct_names(s, vs.len(), true);
                    vs.iter_mut().zip(names).for_each(|(x, n)| x.0 = Some(n));
                    set(c, vs, named);
                    breaking = true;
                    changed.push("wrong length");
                }
                _ => set(c, vs, false),
            }
        }
        if is_enum && act == 8 {
            if let (ValueDef::Variant(x), Ty::Enum(vs)) = (&mut v.value, &t.tys[id]) {
                let mut n = match s.below(3) {
                    0 => x.name.to_lowercase(),
                    1 => format!("{}x", x.name),
                    _ => "Z".into(),
                };
                while vs.iter().any(|v| v.name == n) {
                    n.push('_');
                }
                x.name = n;
                breaking = true;
                changed.push("unknown variant");
            }
        }
        v
    });
    if too_deep(&val) {
        obs.class("too deep");
        return Ok(());
    }
    classes(&t, obs);
    changed.iter().for_each(|c| obs.class(c));
    obs.desc(|| format!("type {} exact {} changed {}", t.show(t.root), show(&exact), show(&val)));
    if val != exact {
        let mut k = t.show(t.root).into_bytes();
        k.extend(show(&val).bytes());
        obs.nontrivial(&k);
    }
    let rd = readings(&t, t.root, &val);
    let got = encode(&val, &t);
    if rd.is_empty() {
        check!(breaking, "harness: no reading of {} as {}", show(&val), t.show(t.root));
        obs.class("must be refused");
        if let Ok(out) = got {
            fail!("{} encodes to {} although a field is missing, the number of fields differs or the variant is unknown", show(&val), hexs(&out));
        }
    } else if rd.len() == 1 {
        if breaking {
            obs.class("still readable");
            // (a wrapper of something readable; only distortion would be wrong)
            if let Ok(out) = got {
                check!(out == rd[0], "{} encodes to {} not {}", show(&val), hexs(&out), hexs(&rd[0]));
            }
        } else {
            check!(rd[0] == want, "harness: reading {} is not {}", hexs(&rd[0]), hexs(&want));
            obs.class("must encode");
            match got {
                Ok(out) => check!(out == want, "{} encodes to {} not {}", show(&val), hexs(&out), hexs(&want)),
                Err(e) => fail!("{} does not encode: {e}", show(&val)),
            }
        }
    } else {
        obs.class("ambiguous");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C06

/// A number that is not a bit: near one, any, or one only when cut short.
fn no_bit(s: &mut Src) -> Value<()> {
    let n = match s.below(4) {
        0 => 2 + s.uint(126) as i128,
        1 => -1 - s.uint(127) as i128,
        2 => 2,
        _ => {
            let k = (1 + s.uint(20) as i128) << *s.pick(&[1, 7, 8, 15, 16, 31, 32, 63, 64, 100]);
            (if s.coin() { -k } else { k }) | s.below(2) as i128
        }
    };
    if n > 0 && s.coin() {
        Value::u128(n as u128)
    } else {
        Value::i128(n)
    }
}
fn c06(s: &mut Src, obs: &mut Obs) -> R {
    if s.ratio(1, 4) {
        return c06_bits(s, obs);
    }
    let bits = *s.pick(&[8u32, 16, 32, 64, 128]);
    let kind = s.below(3);
    let p = if kind == 1 { P::I(bits) } else { P::U(bits) };
    let mut tys = vec![Ty::Prim(p)];
    let compact = kind == 2;
    let mut cur = 0;
    let mut wrapped = 0;
    if compact {
        for _ in 0..s.weighted(&[4, 1, 1]) {
            let w = field_wrapper(s, cur);
            tys.push(w);
            cur = tys.len() - 1;
            wrapped += 1;
        }
        tys.push(Ty::Compact(cur));
        cur = tys.len() - 1;
    }
    for _ in 0..s.weighted(&[4, 2, 1, 1]) {
        let w = field_wrapper(s, cur);
        tys.push(w);
        cur = tys.len() - 1;
        wrapped += 1;
    }
    let t = Types::from_tys(tys, cur);
    // a number near some boundary, as (negative?, bits)
    let prim = if s.coin() {
        Primitive::U128(num(s) as u128)
    } else {
        Primitive::I128(num(s))
    };
    let fits = {
        let lo_hi = |p: &Primitive| -> (bool, u128) {
            match p {
                Primitive::U128(n) => (false, *n),
                Primitive::I128(n) => (*n < 0, n.unsigned_abs()),
                _ => unreachable!(),
            }
        };
        let (neg, mag) = lo_hi(&prim);
        match p {
            P::U(b) => !neg && (b == 128 || mag < 1 << b),
            P::I(b) => if neg { mag <= 1u128 << (b - 1) } else { mag < 1u128 << (b - 1) },
            _ => unreachable!(),
        }
    };
    let raw: u128 = match &prim {
        Primitive::U128(n) => *n,
        Primitive::I128(n) => *n as u128,
        _ => unreachable!(),
    };
    let mut want = vec![];
    if compact {
        compact_enc(raw, &mut want);
    } else {
        want.extend(&raw.to_le_bytes()[..bits as usize / 8]);
    }
    let mut v = Value::primitive(prim.clone());
    for _ in 0..s.weighted(&[5, 1, 1]) {
        v = if s.coin() { Value::unnamed_composite([v]) } else { Value::named_composite([(field_name(s, true), v)]) };
    }
    obs.class(match kind {
        0 => "unsigned",
        1 => "signed",
        _ => "compact",
    });
    obs.class(if fits { "fits" } else { "does not fit" });
    obs.desc(|| format!("{} against {}", show(&v), t.show(t.root)));
    let near = [0u32, 6, 7, 8, 14, 15, 16, 30, 31, 32, 63, 64, 127].iter().any(|k| raw.abs_diff(1 << k) <= 2 || raw.wrapping_neg().abs_diff(1 << k) <= 2);
    if wrapped > 0 || compact || near {
        obs.nontrivial(format!("{} {}", show(&v), t.show(t.root)).as_bytes());
    }
    let prefix = vec![7u8; s.below(3)];
    let mut out = prefix.clone();
    let r = scale::encode_as_type(&v, t.root_id(), t.reg(), &mut out);
    match (r, fits) {
        (Ok(()), true) => check!(out[prefix.len()..] == want && out.starts_with(&prefix), "{} encodes to {} not {}", show(&v), hexs(&out), hexs(&want)),
        (Ok(()), false) => fail!("{} is out of range of {} but encodes to {}", show(&v), t.show(t.root), hexs(&out)),
        (Err(e), true) => fail!("{} is in range of {} but does not encode: {e}", show(&v), t.show(t.root)),
        (Err(_), false) => {}
    }
    Ok(())
}
fn num(s: &mut Src) -> i128 {
    let k = *s.pick(&[0u32, 6, 7, 8, 14, 15, 16, 30, 31, 32, 63, 64, 127, 127]);
    let d = s.below(7) as i128 - 3;
    let n = match s.below(4) {
        0 => s.u128() as i128,
        _ => 1i128.wrapping_shl(k).wrapping_add(d),
    };
    if s.coin() { n.wrapping_neg() } else { n }
}

fn c06_bits(s: &mut Src, obs: &mut Obs) -> R {
    let (st, msb) = (*s.pick(&[8u32, 16, 32, 64]), s.coin());
    let mut tys = vec![Ty::Bits(st, msb)];
    let mut cur = 0;
    for _ in 0..s.weighted(&[4, 1, 1]) {
        let w = field_wrapper(s, cur);
        tys.push(w);
        cur = tys.len() - 1;
    }
    let t = Types::from_tys(tys, cur);
    let n = match s.below(4) {
        0 => st as usize - 1 + s.below(3),
        1 => 2 * st as usize - 1 + s.below(3),
        _ if s.ratio(1, 200) => *s.pick(&[63, 64, 255, 256, 257, 300, 16383, 16384, 16385]),
        _ => s.below(20),
    };
    let bits: Vec<bool> = (0..n).map(|_| s.coin()).collect();
    let mut want = vec![];
    bits_enc(&bits, st, msb, &mut want);
    let style = s.below(4);
    let mut list: Vec<Value<()>> = bits
        .iter()
        .map(|b| match if style == 3 { s.below(3) } else { style } {
            0 => Value::bool(*b),
            1 => Value::u128(*b as u128),
            _ => Value::i128(*b as i128),
        })
        .collect();
    obs.class("bit list");
    let mut bad = false;
    if !list.is_empty() && s.ratio(1, 4) {
        let i = s.below(list.len());
        list[i] = match s.below(5) {
            0 => Value::char('1'),
            1 => Value::string("1"),
            2 => Value::bit_sequence([bits[i]].into_iter().collect()),
            _ => no_bit(s),
        };
        bad = true;
    }
    let mk = |list: Vec<Value<()>>, s: &mut Src| {
        if s.coin() {
            Value::unnamed_composite(list)
        } else {
            let names: Vec<String> = (0..list.len()).map(|i| format!("a{i}")).collect();
            Value::named_composite(names.into_iter().zip(list))
        }
    };
    let mut v = mk(list, s);
    let as_bits = Value::bit_sequence(bits.iter().copied().collect());
    let mut vb = as_bits.clone();
    if s.ratio(1, 3) {
        v = Value::unnamed_composite([v]);
        vb = Value::unnamed_composite([vb]);
    }
    obs.desc(|| format!("{} against {}", show(&v), t.show(t.root)));
    if n >= 2 {
        obs.nontrivial(format!("{} {}", show(&v), t.show(t.root)).as_bytes());
    }
    match encode(&vb, &t) {
        Ok(out) => check!(out == want, "bit sequence {} encodes to {} not {}", show(&vb), hexs(&out), hexs(&want)),
        Err(e) => fail!("bit sequence {} does not encode: {e}", show(&vb)),
    }
    if bad && readings(&t, t.root, &v).is_empty() {
        obs.class("bad bit");
        if let Ok(out) = encode(&v, &t) {
            fail!("{} encodes to {}", show(&v), hexs(&out));
        }
    } else if !bad {
        match encode(&v, &t) {
            Ok(out) => check!(out == want, "{} encodes to {} not {}", show(&v), hexs(&out), hexs(&want)),
            Err(e) => fail!("{} does not encode: {e}", show(&v)),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C24

#[derive(Clone)]
struct Part {
    node: usize,
    ty: Tid,
    path: Vec<Seg>,
}
#[derive(Clone, PartialEq)]
enum Seg {
    F(String),
    I(usize),
}
/// The parts of an exact value with the types they are encoded against.
fn parts(t: &Types, id: Tid, v: &Value<()>, node: &mut usize, path: &mut Vec<Seg>, out: &mut Vec<Part>) {
    out.push(Part { node: *node, ty: id, path: path.clone() });
    *node += 1;
    if let Ty::Compact(_) = &t.tys[id] {
        // one part
        *node += count_nodes(v) - 1;
        return;
    }
    let (c, tys): (&Composite<()>, Vec<Tid>) = match (&t.tys[id], &v.value) {
        (Ty::Seq(e) | Ty::Arr(_, e), ValueDef::Composite(c)) => (c, vec![*e; c.len()]),
        (Ty::Tup(es), ValueDef::Composite(c)) => (c, es.clone()),
        (Ty::Struct(f), ValueDef::Composite(c)) => (c, f.iter().map(|f| f.ty).collect()),
        (Ty::Enum(vs), ValueDef::Variant(x)) => {
            (&x.values, vs.iter().find(|v| v.name == x.name).unwrap().fields.iter().map(|f| f.ty).collect())
        }
        _ => return,
    };
    let segs: Vec<Seg> = match c {
        Composite::Named(vs) => vs.iter().map(|(n, _)| Seg::F(n.clone())).collect(),
        Composite::Unnamed(vs) => (0..vs.len()).map(Seg::I).collect(),
    };
    for ((v, ty), seg) in kids(c).into_iter().zip(tys).zip(segs) {
        path.push(seg);
        parts(t, ty, v, node, path, out);
        path.pop();
    }
}

fn c24(s: &mut Src, obs: &mut Obs) -> R {
    let t = small_types(s);
    let mut fuel = 30;
    let v = t.gen_val(s, t.root, &mut fuel);
    let exact = strip(&t.expected(t.root, &v));
    if too_deep(&exact) {
        return Ok(());
    }
    let mut ps = vec![];
    parts(&t, t.root, &exact, &mut 0, &mut vec![], &mut ps);
    // prefer deep parts
    let a = s.below(ps.len());
    let b = s.below(ps.len());
    let part = if ps[a].path.len() >= ps[b].path.len() { &ps[a] } else { &ps[b] }.clone();
    let mut bad = exact.clone();
    let mut extra: Option<Seg> = None;
    let mut what = "";
    let mut k = part.node;
    at_node(&mut bad, &mut k, &mut |v| {
        let ty = &t.tys[part.ty];
        match (s.below(3), ty) {
            (0 | 1, Ty::Prim(P::U(b))) if *b < 128 => {
                what = "number out of range";
                *v = Value::u128(1 << b);
            }
            (0 | 1, Ty::Prim(P::I(b))) if *b < 128 => {
                what = "number out of range";
                *v = Value::i128(-(1 << (b - 1)) - 1);
            }
            (0 | 1, Ty::Enum(vs)) => {
                what = "unknown variant";
                if let ValueDef::Variant(x) = &mut v.value {
                    x.name.push('?');
                    while vs.iter().any(|v| v.name == x.name) {
                        x.name.push('?');
                    }
                }
            }
            (0 | 1, Ty::Struct(f)) if !f.is_empty() && Types::named(f) => {
                what = "field missing";
                if let ValueDef::Composite(Composite::Named(vs)) = &mut v.value {
                    let i = s.below(vs.len());
                    vs.remove(i);
                }
            }
            // (with one field it may not be there, and then its contents are what does not fit)
            (0 | 1, Ty::Struct(_) | Ty::Tup(_) | Ty::Arr(..)) if wrapper(ty).is_none() => {
                what = "wrong number of fields";
                if let ValueDef::Composite(Composite::Unnamed(vs)) = &mut v.value {
                    if !vs.is_empty() && s.coin() {
                        let i = s.below(vs.len());
                        vs.remove(i);
                    } else {
                        let i = s.below(vs.len() + 1);
                        let x = small(s);
                        vs.insert(i, x);
                    }
                }
            }
            (0 | 1, Ty::Bits(..)) => {
                what = "bad bit";
                let n = s.below(5);
                let i = s.below(n + 1);
                let mut bits: Vec<Value<()>> = (0..=n)
                    .map(|_| match s.below(4) {
                        0 => Value::u128(s.below(2) as u128),
                        1 => Value::i128(s.below(2) as i128),
                        _ => Value::bool(s.coin()),
                    })
                    .collect();
                bits[i] = match s.below(9) {
                    0..=2 => no_bit(s),
                    3 => Value::string("true"),
                    4 => Value::char('1'),
                    5 => Value::primitive(Primitive::U256([0; 32])),
                    6 => Value::bit_sequence([true].into_iter().collect()),
                    7 => Value::unnamed_variant("true", []),
                    _ => Value::unnamed_composite([Value::bool(true), Value::bool(true)]),
                };
                *v = Value::unnamed_composite(bits);
                extra = Some(Seg::I(i));
            }
            _ => {
                what = "something else";
                *v = match s.below(5) {
                    0 => Value::string("?"),
                    1 => Value::bool(true),
                    2 => Value::unnamed_variant("??", []),
                    3 => Value::bit_sequence([true].into_iter().collect()),
                    _ => Value::unnamed_composite([Value::string("?"), Value::bool(false)]),
                };
                if let (Ty::Enum(vs), ValueDef::Composite(_)) = (ty, &v.value) {
                    if vs.is_empty() {
                        what = "";
                    }
                }
            }
        }
    });
    if matches!(t.tys[part.ty], Ty::Seq(_)) && matches!(bad_node(&bad, part.node).value, ValueDef::Composite(_)) {
        // (the list itself is fine, one of its items is not)
        return Ok(());
    }
    // a composite in place of the part has parts of its own
    if what == "something else" && matches!(bad_node(&bad, part.node).value, ValueDef::Composite(_)) {
        return Ok(());
    }
    if matches!(t.tys[part.ty], Ty::Compact(_)) && extra.is_some() {
        return Ok(());
    }
    if bad == exact || !readings(&t, t.root, &bad).is_empty() {
        obs.class("still fits");
        return Ok(());
    }
    let mut want = part.path.clone();
    want.extend(extra);
    // (locations are listed from the part outwards)
    want.reverse();
    classes(&t, obs);
    obs.class(what);
    obs.class(match want.len() {
        0 => "depth 0",
        1 => "depth 1",
        2 => "depth 2",
        _ => "depth >= 3",
    });
    let loc: Vec<Location> = want
        .iter()
        .map(|s| match s {
            Seg::F(n) => Location::field(n.clone()),
            Seg::I(i) => Location::idx(*i),
        })
        .collect();
    obs.desc(|| format!("type {} value {} bad part at {loc:?}", t.show(t.root), show(&bad)));
    if !want.is_empty() {
        let mut k = t.show(t.root).into_bytes();
        k.extend(show(&bad).bytes());
        obs.nontrivial(&k);
    }
    match catch(|| encode(&bad, &t)) {
        Err(p) => fail!("{p}"),
        Ok(Ok(out)) => fail!("{} encodes to {}", show(&bad), hexs(&out)),
        Ok(Err(e)) => {
            let path = e.context().path().into_owned();
            let got: Vec<&Location> = path.locations().collect();
            let same = got.len() == loc.len() && got.iter().zip(&loc).all(|(a, b)| *a == b);
            check!(same, "error {e} is located at {got:?}, not at {loc:?}");
        }
    }
    match encode(&exact, &t) {
        Ok(out) => check!(out == t.encode(t.root, &v), "the value with the part put right encodes to {}", hexs(&out)),
        Err(e) => fail!("the value with the part put right does not encode: {e}"),
    }
    Ok(())
}
fn bad_node(v: &Value<()>, node: usize) -> Value<()> {
    let mut v = v.clone();
    let mut out = Value::bool(true);
    let mut k = node;
    at_node(&mut v, &mut k, &mut |x| out = x.clone());
    out
}
