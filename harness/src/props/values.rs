//! C21 C22: lookups, accessors, context mapping and constructors.
use crate::run::{Obs, Prop, R};
use crate::src::Src;
use crate::ty::{gen_char, gen_string};
use crate::val::*;
use crate::{check, fail};
use scale_bits::Bits;
use scale_value::{At, Composite, Primitive, Value, ValueDef, Variant};
use std::cell::RefCell;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            rule: "random value and paths of names and indices looked up in every form; non-trivial when a path of two or more steps ends in a part",
            quick: 2_500_000,
            thorough: 37_500_000,
            run: c21,
            probes: &[],
        },
        Prop {
            id: "C22",
            rule: "random value with distinct contexts mapped, and rebuilt by the public constructors; non-trivial when it has at least 3 nodes",
            quick: 1_200_000,
            thorough: 18_000_000,
            run: c22,
            probes: &[("conversions", c22_conversions)],
        },
    ]
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, PartialEq)]
enum Loc {
    Name(String),
    Index(usize),
}

fn look_c<'a>(c: &'a Composite<u32>, l: &Loc) -> Option<&'a Value<u32>> {
    match (c, l) {
        (Composite::Named(vs), Loc::Name(n)) => {
            for (m, v) in vs {
                if m.as_bytes() == n.as_bytes() {
                    return Some(v);
                }
            }
            None
        }
        (Composite::Unnamed(_), Loc::Name(_)) => None,
        (Composite::Named(vs), Loc::Index(i)) => {
            if *i < vs.len() {
                Some(&vs[*i].1)
            } else {
                None
            }
        }
        (Composite::Unnamed(vs), Loc::Index(i)) => {
            if *i < vs.len() {
                Some(&vs[*i])
            } else {
                None
            }
        }
    }
}
fn fields(v: &Value<u32>) -> Option<&Composite<u32>> {
    match &v.value {
        ValueDef::Composite(c) => Some(c),
        ValueDef::Variant(x) => Some(&x.values),
        _ => None,
    }
}
fn look<'a>(v: &'a Value<u32>, l: &Loc) -> Option<&'a Value<u32>> {
    fields(v).and_then(|c| look_c(c, l))
}
fn same(a: Option<&Value<u32>>, b: Option<&Value<u32>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => std::ptr::eq(a, b),
        _ => false,
    }
}
fn gen_loc(s: &mut Src, c: Option<&Composite<u32>>) -> Loc {
    let n = c.map_or(0, |c| kids(c).len());
    match s.weighted(&[16, 16, 1, 1, 2, 1]) {
        0 if n > 0 => Loc::Index(s.below(n)),
        1 => match c {
            Some(Composite::Named(vs)) if n > 0 => Loc::Name(vs[s.below(n)].0.clone()),
            _ if n > 0 => Loc::Index(s.below(n)),
            _ => Loc::Index(0),
        },
        2 => Loc::Index(n + s.below(2)),
        3 => Loc::Index(*s.pick(&[usize::MAX, 1 << 32, 255, usize::MAX / 2 + 1, 1 << 16])),
        4 => {
            // a name close to one that is there
            let base = match c {
                Some(Composite::Named(vs)) if n > 0 => vs[s.below(n)].0.clone(),
                _ => gen_any_name(s),
            };
            Loc::Name(match s.below(7) {
                0 => format!("{base} "),
                1 => base.chars().skip(1).collect(),
                2 => base.to_uppercase(),
                3 => format!("{}", s.below(n + 1)),
                4 => format!("\"{base}\""),
                5 => {
                    let mut b = base;
                    b.pop();
                    b
                }
                _ => String::new(),
            })
        }
        _ => Loc::Name(gen_any_name(s)),
    }
}
/// Look up with the form of location chosen by `how`.
fn at<'a, A: At<u32>>(a: &'a A, l: &Loc, how: usize) -> Option<&'a Value<u32>> {
    match l {
        Loc::Index(i) => match how % 3 {
            0 => a.at(*i),
            1 => a.at(i),
            _ => a.at(&&i),
        },
        Loc::Name(n) => match how % 4 {
            0 => a.at(n.as_str()),
            1 => a.at(n),
            2 => a.at(n.clone()),
            _ => a.at(&&n.as_str()),
        },
    }
}

fn accessors(v: &Value<u32>) -> R {
    let p = match &v.value {
        ValueDef::Primitive(p) => Some(p),
        _ => None,
    };
    let b = if let Some(Primitive::Bool(x)) = p { Some(*x) } else { None };
    let c = if let Some(Primitive::Char(x)) = p { Some(*x) } else { None };
    let t = if let Some(Primitive::String(x)) = p { Some(x.as_str()) } else { None };
    let u = if let Some(Primitive::U128(x)) = p { Some(*x) } else { None };
    let i = if let Some(Primitive::I128(x)) = p { Some(*x) } else { None };
    check!(v.as_bool() == b, "as_bool of {} is {:?}", show(v), v.as_bool());
    check!(v.as_char() == c, "as_char of {} is {:?}", show(v), v.as_char());
    check!(v.as_str() == t, "as_str of {} is {:?}", show(v), v.as_str());
    check!(v.as_u128() == u, "as_u128 of {} is {:?}", show(v), v.as_u128());
    check!(v.as_i128() == i, "as_i128 of {} is {:?}", show(v), v.as_i128());
    if let Some(p) = p {
        let got = (p.as_bool(), p.as_char(), p.as_str(), p.as_u128(), p.as_i128());
        check!(got == (b, c, t, u, i), "accessors of {p:?} are {got:?}");
    }
    Ok(())
}
fn stored(c: &Composite<u32>) -> R {
    let want = kids(c);
    check!(c.len() == want.len(), "length of {} is {}", show_c(c), c.len());
    check!(c.is_empty() == want.is_empty(), "is_empty of {} is {}", show_c(c), c.is_empty());
    let mut it = c.values();
    for (i, w) in want.iter().enumerate() {
        check!(it.len() == want.len() - i && it.size_hint() == (want.len() - i, Some(want.len() - i)), "length of values at {i} of {}", show_c(c));
        check!(same(it.next(), Some(w)), "value {i} of {} is not the stored one", show_c(c));
    }
    check!(it.next().is_none() && it.len() == 0, "values of {} go on", show_c(c));
    let got: Vec<Value<u32>> = {
        let it = c.clone().into_values();
        check!(it.len() == want.len(), "length of into_values of {}", show_c(c));
        it.collect()
    };
    check!(got.iter().collect::<Vec<_>>() == want, "into_values of {} gives {got:?}", show_c(c));
    Ok(())
}
fn every(v: &Value<u32>, f: &mut dyn FnMut(&Value<u32>) -> R) -> R {
    f(v)?;
    if let Some(c) = fields(v) {
        for k in kids(c) {
            every(k, f)?;
        }
    }
    Ok(())
}

fn c21(s: &mut Src, o: &mut Obs) -> R {
    let fuel = *s.pick(&[10, 30, 80]);
    let base = gen_value(s, ValOpts::new(fuel));
    o.desc(|| show(&base));
    let mut i = 0;
    let v = with_ctx(&base, &mut |_| {
        i += 1;
        i
    });
    every(&v, &mut |n| {
        accessors(n)?;
        fields(n).map_or(Ok(()), stored)
    })?;
    for _ in 0..1 + s.below(6) {
        // follow the parts so that most paths lead somewhere
        let mut cur = Some(&v);
        let mut path = vec![];
        for _ in 0..1 + s.below(7) {
            let l = gen_loc(s, cur.and_then(fields));
            cur = cur.and_then(|c| look(c, &l));
            path.push(l);
        }
        o.desc(|| format!("{path:?}"));
        let found = cur.is_some();
        o.class(match (found, path.len()) {
            (true, 1) => "found in one step",
            (true, 2..=3) => "found in two or three steps",
            (true, _) => "found in more steps",
            (false, _) => "not found",
        });
        if found && path.len() > 1 {
            o.nontrivial(format!("{path:?}{}", show(&v)).as_bytes());
        }
        let how = s.below(12);
        let first = at(&v, &path[0], how);
        let some_v = Some(&v);
        let some_c = if let ValueDef::Composite(c) = &v.value { Some(c) } else { None };
        let some_x = if let ValueDef::Variant(x) = &v.value { Some(x) } else { None };
        let mut parts: Vec<(&str, Option<&Value<u32>>)> = vec![("the value", first), ("some value", at(&some_v, &path[0], how))];
        match &v.value {
            ValueDef::Composite(c) => {
                parts.push(("the composite", at(c, &path[0], how)));
                parts.push(("some composite", at(&some_c, &path[0], how)));
            }
            ValueDef::Variant(x) => {
                parts.push(("the variant", at(x, &path[0], how)));
                parts.push(("some variant", at(&some_x, &path[0], how)));
                parts.push(("the variant's fields", at(&x.values, &path[0], how)));
            }
            _ => {}
        }
        let want = look(&v, &path[0]);
        for (what, got) in parts {
            check!(same(got, want), "{:?} in {what} {} is {:?}, expected {:?}", path[0], show(&v), got.map(show), want.map(show));
        }
        let mut got = first;
        let mut want = want;
        for (k, l) in path.iter().enumerate().skip(1) {
            // a lookup in an option of a reference to a part
            let (g, w) = (got.and_then(|g| at(g, l, how + k)), want.and_then(|w| look(w, l)));
            let chained = chain(got, l, how + k);
            check!(same(g, w) && same(chained, w), "{:?} in {} is {:?} or chained {:?}, expected {:?}", &path[..=k], show(&v), g.map(show), chained.map(show), w.map(show));
            got = chained;
            want = w;
        }
        let none: Option<&Value<u32>> = None;
        check!(chain(none, &path[0], how).is_none(), "something was found in nothing");
    }
    Ok(())
}
fn chain<'a>(v: Option<&'a Value<u32>>, l: &Loc, how: usize) -> Option<&'a Value<u32>> {
    // `Option<&Value>` borrows from itself: find the part again through a reference of the right lifetime
    let found = at(&v, l, how).map(|x| x as *const Value<u32>);
    let f = found?;
    v.and_then(fields).into_iter().flat_map(kids).find(|k| std::ptr::eq(*k, f)).or_else(|| panic!("a part of something else was found"))
}

// ---------------------------------------------------------------- C22

fn ids<A: Clone>(v: &Value<A>) -> Vec<A> {
    let mut out = vec![];
    with_ctx(v, &mut |c| out.push(c.clone()));
    out
}
fn def_of(v: ValueDef<()>) -> Value<()> {
    Value { value: v, context: () }
}

fn c22(s: &mut Src, o: &mut Obs) -> R {
    let fuel = *s.pick(&[3, 10, 30]);
    let base = gen_value(s, ValOpts::new(fuel));
    o.desc(|| show(&base));
    if count_nodes(&base) >= 3 {
        o.nontrivial(show(&base).as_bytes());
    }
    // distinct contexts, or repeated ones
    let start = s.below(1000) as u32;
    let step = s.below(3) as u32;
    let mut i = start;
    let v: Value<u32> = with_ctx(&base, &mut |_| {
        i += step;
        i
    });
    let f = |c: u32| format!("<{}>", c.wrapping_mul(7));
    let want = with_ctx(&v, &mut |c| f(*c));
    let got = v.clone().map_context(f);
    check!(got == want, "mapped to {}, expected {}", show(&got), show(&want));
    // each context once
    let seen = Rc::new(RefCell::new(vec![]));
    let s2 = seen.clone();
    let got = v.clone().map_context(move |c| {
        s2.borrow_mut().push(c);
        c
    });
    check!(got == v, "mapped to itself gives {}", show(&got));
    let mut calls = seen.borrow().clone();
    let mut all = ids(&v);
    calls.sort();
    all.sort();
    check!(calls == all, "the function was called with {calls:?}, the contexts are {all:?}");
    // composition, and contexts that own data and are moved
    let g = |c: String| c.len() as u64;
    let two = v.clone().map_context(f).map_context(g);
    let one = v.clone().map_context(move |c| g(f(c)));
    check!(two == one, "mapping twice gives {two:?}, once {one:?}");
    let unit = v.clone().remove_context();
    check!(unit == base && unit == v.clone().map_context(|_| ()), "without context: {}", show(&unit));
    // the parts
    let def = v.value.clone().map_context(f);
    check!(def == want.value, "the definition mapped gives {def:?}");
    match (&v.value, &want.value) {
        (ValueDef::Composite(c), ValueDef::Composite(w)) => {
            o.class("composites");
            let g = c.clone().map_context(f);
            check!(g == *w, "the composite mapped gives {}", show_c(&g));
        }
        (ValueDef::Variant(x), ValueDef::Variant(w)) => {
            o.class("variants");
            let g = x.clone().map_context(f);
            check!(g == *w, "the variant mapped gives {g:?}");
        }
        (ValueDef::BitSequence(_), _) => o.class("bit sequences"),
        _ => o.class("primitives"),
    }
    // constructors
    let built = build(s, &base);
    check!(built == base, "built {}, expected {}", show(&built), show(&base));
    let c = Value::with_context(base.value.clone(), ());
    check!(c == base && Value::without_context(base.value.clone()) == base, "from a definition: {}", show(&c));
    let w = Value::with_context(v.value.clone(), start);
    check!(w.value == v.value && w.context == start, "with context: {}", show(&w));
    Ok(())
}

/// Rebuild with a random choice among the public constructors and conversions.
fn build(s: &mut Src, v: &Value<()>) -> Value<()> {
    match &v.value {
        ValueDef::Composite(Composite::Named(vs)) => {
            let kv: Vec<(String, Value<()>)> = vs.iter().map(|(k, v)| (k.clone(), build(s, v))).collect();
            match s.below(8) {
                0 => Value::named_composite(kv),
                1 => Value::named_composite(kv.iter().map(|(k, v)| (k.as_str(), v.clone())).collect::<Vec<_>>()),
                2 => Value::from(kv),
                3 => Value::from(Composite::from(kv)),
                4 => Value::without_context(ValueDef::from(kv)),
                5 => Value::from(Composite::named(kv)),
                6 => Value::without_context(ValueDef::from(Composite::named(kv.into_iter().map(|(k, v)| (k.into_boxed_str(), v))))),
                _ => Value::named_composite(std::collections::VecDeque::from(kv)),
            }
        }
        ValueDef::Composite(Composite::Unnamed(vs)) => {
            let xs: Vec<Value<()>> = vs.iter().map(|v| build(s, v)).collect();
            let bytes: Option<Vec<u8>> = vs
                .iter()
                .map(|v| match &v.value {
                    ValueDef::Primitive(Primitive::U128(n)) => u8::try_from(*n).ok(),
                    _ => None,
                })
                .collect();
            match (s.below(9), bytes) {
                (0, _) => Value::unnamed_composite(xs),
                (1, _) => Value::from(xs),
                (2, _) => Value::from(Composite::from(xs)),
                (3, _) => Value::without_context(ValueDef::from(xs)),
                (4, _) => Value::from(Composite::unnamed(xs)),
                (5, Some(b)) => Value::from_bytes(b),
                (6, Some(b)) => Value::from_bytes(b.as_slice()),
                (7, Some(b)) => Value::from(b),
                _ => Value::unnamed_composite(std::collections::VecDeque::from(xs)),
            }
        }
        ValueDef::Variant(Variant { name, values }) => {
            let inner = build(s, &def_of(ValueDef::Composite(values.clone())));
            let ValueDef::Composite(values) = inner.value else { return inner };
            match (s.below(5), values) {
                (0, values) => Value::variant(name.as_str(), values),
                (1, values) => Value::from(Variant { name: name.clone(), values }),
                (2, values) => Value::without_context(ValueDef::from(Variant { name: name.clone(), values })),
                (3, Composite::Named(vs)) => Value::named_variant(name.clone(), vs),
                (3, Composite::Unnamed(vs)) => Value::unnamed_variant(name.clone(), vs),
                (_, Composite::Named(vs)) => Value::from(Variant::named_fields(name.as_str(), vs)),
                (_, Composite::Unnamed(vs)) => Value::from(Variant::unnamed_fields(name.as_str(), vs)),
            }
        }
        ValueDef::BitSequence(b) => match s.below(3) {
            0 => Value::bit_sequence(b.clone()),
            1 => Value::from(b.clone()),
            _ => Value::without_context(ValueDef::from(b.clone())),
        },
        ValueDef::Primitive(p) => match (s.below(5), p) {
            (0, p) => Value::primitive(p.clone()),
            (1, p) => Value::without_context(ValueDef::from(p.clone())),
            (2, Primitive::U128(n)) => Value::u128(*n),
            (2, Primitive::I128(n)) => Value::i128(*n),
            (2, Primitive::Bool(b)) => Value::bool(*b),
            (2, Primitive::Char(c)) => Value::char(*c),
            (2, Primitive::String(t)) => Value::string(t.as_str()),
            (3, Primitive::U128(n)) => Value::from(*n),
            (3, Primitive::I128(n)) => Value::from(*n),
            (3, Primitive::Bool(b)) => Value::from(*b),
            (3, Primitive::Char(c)) => Value::from(*c),
            (3, Primitive::String(t)) => Value::from(t.as_str()),
            (_, Primitive::U128(n)) => Value::primitive(Primitive::u128(*n)),
            (_, Primitive::I128(n)) => Value::primitive(Primitive::i128(*n)),
            (_, Primitive::String(t)) => Value::from(t.clone()),
            (_, p) => Value::primitive(p.clone()),
        },
    }
}

fn c22_conversions(o: &mut Obs) -> R {
    let mut s = Src::random(crate::run::seed());
    fn prim(p: Primitive) -> Value<()> {
        def_of(ValueDef::Primitive(p))
    }
    macro_rules! conv {
        ($x:expr, $want:expr) => {{
            let (x, w) = ($x, $want);
            let p = Primitive::from(x.clone());
            let d = ValueDef::<u8>::from(x.clone());
            let v = Value::from(x.clone());
            check!(p == w && d == ValueDef::Primitive(w.clone()) && v == prim(w.clone()), "{x:?} becomes {p:?}, {d:?} and {v:?}, expected {w:?}");
            let l = Value::from(vec![x.clone(), x.clone()]);
            check!(l == def_of(ValueDef::Composite(Composite::Unnamed(vec![prim(w.clone()), prim(w.clone())]))), "a list of {x:?} becomes {}", show(&l));
            let m = Value::from(vec![("b", x.clone()), ("a", x.clone())]);
            check!(
                m == def_of(ValueDef::Composite(Composite::Named(vec![("b".to_string(), prim(w.clone())), ("a".to_string(), prim(w))]))),
                "named {x:?} become {}",
                show(&m)
            );
            o.class("conversions");
        }};
    }
    macro_rules! nums {
        ($v:ident: $($t:ty)*) => {$(
            for x in [<$t>::MIN, <$t>::MAX, 0, 1, <$t>::MAX - 1, <$t>::MIN + 1, <$t>::MAX / 2, <$t>::MAX / 2 + 1, <$t>::MIN / 2] {
                let e: Option<_> = x.try_into().ok();
                match e {
                    Some(e) => conv!(x, Primitive::$v(e)),
                    None => fail!("no 128 bit form of {x}"),
                }
            }
            for _ in 0..200 {
                let x = s.u128() as $t;
                conv!(x, Primitive::$v(x.try_into().unwrap()));
            }
        )*};
    }
    nums!(U128: u8 u16 u32 u64 usize u128);
    nums!(I128: i8 i16 i32 i64 isize i128);
    conv!(true, Primitive::Bool(true));
    conv!(false, Primitive::Bool(false));
    for _ in 0..300 {
        let c = gen_char(&mut s);
        conv!(c, Primitive::Char(c));
        let t = gen_string(&mut s);
        conv!(t.clone(), Primitive::String(t.clone()));
        conv!(t.as_str(), Primitive::String(t.clone()));
        let bits: Vec<bool> = (0..s.below(90)).map(|_| s.coin()).collect();
        let b: Bits = bits.iter().copied().collect();
        let v = Value::bit_sequence(b.clone());
        let ValueDef::BitSequence(x) = &v.value else { fail!("{v:?} from bits") };
        check!(x.iter().collect::<Vec<_>>() == bits, "bits {bits:?} become {v:?}");
        check!(ValueDef::<u8>::from(b.clone()) == ValueDef::BitSequence(b.clone()) && Value::from(b.clone()) == v, "bits {bits:?}");
        let bytes: Vec<u8> = { let n = s.below(300); s.bytes(n) };
        let v = Value::from_bytes(&bytes);
        let want = bytes.iter().map(|b| prim(Primitive::U128(*b as u128))).collect::<Vec<_>>();
        check!(v == def_of(ValueDef::Composite(Composite::Unnamed(want))), "bytes {bytes:?} become {}", show(&v));
    }
    check!(Value::from_bytes([]) == def_of(ValueDef::Composite(Composite::Unnamed(vec![]))), "no bytes");
    Ok(())
}
