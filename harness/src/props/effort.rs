//! C26 C27: how often types are looked up, and looking them up elsewhere than in a registry.
use super::decode::{classes, mutated};
use super::encode::{compact_inner, copy, mutate_value, reach, small_types, too_deep};
use crate::resolver::*;
use crate::run::{Obs, Prop, R};
use crate::src::Src;
use crate::ty::*;
use crate::val::*;
use crate::{check, fail};
use scale_encode::EncodeAsFields;
use scale_value::{scale, Composite, Value, ValueDef};
use std::cell::Cell;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            rule: "values inside up to 50 brackets, some with a part that does not fit, against types nested up to 2 deep, corrupted bytes against random types, and bracket-laden text; non-trivial when there are >= 12 brackets or the type is nested",
            quick: 1_200_000,
            thorough: 18_000_000,
            run: c26,
            probes: &[],
        },
        Prop {
            id: "C27",
            rule: "random types, bytes and values through a type resolver with other ids, with up to 2 types missing or failing; non-trivial when the type is nested and something of it decodes or encodes",
            quick: 700_000,
            thorough: 10_500_000,
            run: c27,
            probes: &[],
        },
    ]
}

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// How deeply types are nested in types: each level may try each of the brackets.
fn levels(t: &Types, id: Tid) -> u32 {
    match &t.tys[id] {
        Ty::Seq(e) | Ty::Arr(_, e) => 1 + levels(t, *e),
        Ty::Compact(e) => levels(t, *e),
        Ty::Tup(es) => 1 + es.iter().map(|e| levels(t, *e)).max().unwrap_or(0),
        Ty::Struct(f) => 1 + f.iter().map(|f| levels(t, f.ty)).max().unwrap_or(0),
        Ty::Enum(vs) => 1 + vs.iter().flat_map(|v| v.fields.iter()).map(|f| levels(t, f.ty)).max().unwrap_or(0),
        _ => 0,
    }
}
/// How many nodes the type spelled out has.
fn spelled(t: &Types, id: Tid) -> u64 {
    1 + match &t.tys[id] {
        Ty::Seq(e) | Ty::Arr(_, e) | Ty::Compact(e) => spelled(t, *e),
        Ty::Tup(es) => es.iter().map(|e| spelled(t, *e)).sum(),
        Ty::Struct(f) => f.iter().map(|f| spelled(t, f.ty)).sum(),
        Ty::Enum(vs) => vs.iter().flat_map(|v| v.fields.iter()).map(|f| spelled(t, f.ty)).sum(),
        _ => 0,
    }
}

fn brackets(mut v: Value<()>, n: usize, named: bool) -> Value<()> {
    for _ in 0..n {
        v = if named { Value::named_composite([("a", v)]) } else { Value::unnamed_composite([v]) };
    }
    v
}

fn c26(s: &mut Src, obs: &mut Obs) -> R {
    match s.weighted(&[6, 2, 2, 1]) {
        0 => c26_encode(s, obs),
        1 => c26_decode(s, obs),
        3 => c26_exact(s, obs),
        _ => c26_parse(s, obs),
    }
}

fn c26_encode(s: &mut Src, obs: &mut Obs) -> R {
    let mut o = TyOpts::new(1 + s.below(8) as i32);
    o.recursion = false;
    o.mixed = false;
    o.plain_names = true;
    let t = gen_types(s, o);
    let levels = levels(&t, t.root);
    if levels > 2 || spelled(&t, t.root) > 100 {
        obs.class("type too deep");
        return Ok(());
    }
    let mut fuel = 8;
    let v = t.gen_val(s, t.root, &mut fuel);
    let exact = strip(&t.expected(t.root, &v));
    let nodes = count_nodes(&exact);
    if nodes > 60 {
        obs.class("value too big");
        return Ok(());
    }
    let h = s.range(10, 40);
    let mut val = exact;
    let bad = s.coin();
    if bad {
        // something that fits nowhere
        let k = s.below(nodes);
        let odd = match s.below(3) {
            0 => Value::string("?"),
            1 => Value::variant("Nope", Composite::Unnamed(vec![])),
            _ => Value::char('?'),
        };
        let mut k = k;
        super::encode::at_node(&mut val, &mut k, &mut |x| *x = odd.clone());
    }
    // brackets at the root, and sometimes inside
    if s.ratio(1, 3) {
        let mut k = s.below(count_nodes(&val));
        let n = s.below(12);
        let named = s.ratio(1, 4);
        super::encode::at_node(&mut val, &mut k, &mut |x| {
            let inner = std::mem::replace(x, Value::bool(true));
            *x = brackets(inner, n, named);
        });
    }
    let named = s.ratio(1, 4);
    let val = brackets(val, h, named);
    classes(&t, obs);
    obs.desc(|| format!("{} against {} ({h} brackets around it)", show(&val), t.show(t.root)));
    let mut r = Named::new(&t);
    let d = depth(&val) as u64 + 1;
    let size = count_nodes(&val) as u64 + spelled(&t, t.root);
    r.limit = 2 * size * d.pow(levels + 1);
    let mut out = vec![];
    let res = scale::encode_as_type(&val, r.root(), &r, &mut out);
    obs.class(if res.is_ok() { "encodes" } else { "is refused" });
    obs.class(match levels {
        0 => "flat type",
        1 => "nested type",
        _ => "twice nested type",
    });
    let per = 100 * r.asked.get() / r.limit;
    obs.class(match per {
        0 => "less than 1% of the limit",
        1..=5 => "1% to 5% of the limit",
        6..=20 => "6% to 20% of the limit",
        21..=50 => "21% to 50% of the limit",
        _ => "more than 50% of the limit",
    });
    if h >= 12 {
        obs.nontrivial(format!("{}{}", show(&val), t.show(t.root)).as_bytes());
    }
    check!(!r.over(), "more than {} type lookups to encode a value of {} parts to a type of {} parts", r.limit, count_nodes(&val), spelled(&t, t.root));
    Ok(())
}

/// What has exactly the type's shape needs no trying: the type is looked at once for each part, and
/// through the wrappers around it. Neither does what cannot be a wrapper.
fn c26_exact(s: &mut Src, obs: &mut Obs) -> R {
    let mut o = TyOpts::new(1 + s.below(6) as i32);
    o.recursion = false;
    o.mixed = false;
    o.plain_names = true;
    o.wrappers = s.coin();
    let mut t = gen_types(s, o);
    let more = s.below(24);
    // (arrays and tuples of the same twice double the value)
    let mut doubled = 0;
    for _ in 0..more {
        let e = t.root;
        let u = t.push(Ty::Prim(P::U(8)));
        let mut two = |s: &mut Src| -> usize {
            if s.coin() && doubled < 9 {
                doubled += 1;
                2
            } else {
                1
            }
        };
        let k = s.below(if o.wrappers { 7 } else { 4 });
        let name = |n: &str| Some(n.to_string());
        let ty = match k {
            0 => Ty::Tup(vec![u, e]),
            1 => Ty::Struct(vec![Fld { name: name("a"), ty: e }, Fld { name: name("b"), ty: u }]),
            2 => Ty::Struct(vec![Fld { name: None, ty: u }, Fld { name: None, ty: e }]),
            3 => {
                let n = two(s);
                if n == 1 && !o.wrappers { Ty::Tup(vec![u, e]) } else { Ty::Arr(n as u32, e) }
            }
            4 => Ty::Struct(vec![Fld { name: name("c"), ty: e }]),
            5 => Ty::Struct(vec![Fld { name: None, ty: e }]),
            _ => {
                if two(s) == 2 {
                    Ty::Tup(vec![e, e])
                } else {
                    Ty::Tup(vec![e])
                }
            }
        };
        t.root = t.push(ty);
    }
    let mut fuel = 400;
    let v = t.gen_val(s, t.root, &mut fuel);
    let mut val = strip(&t.expected(t.root, &v));
    let nodes = count_nodes(&val);
    if nodes > 20_000 {
        obs.class("value too big");
        return Ok(());
    }
    let single = any(&val, &mut |v| match &v.value {
        ValueDef::Composite(c) => c.len() == 1,
        ValueDef::Variant(x) => x.values.len() == 1,
        _ => false,
    });
    let bad = !single && !o.wrappers && s.coin();
    if bad {
        let mut k = s.below(nodes);
        super::encode::at_node(&mut val, &mut k, &mut |x| *x = Value::variant("Nope", Composite::Unnamed(vec![])));
    }
    obs.desc(|| format!("{} against {}", show(&val), t.show(t.root)));
    let mut r = Named::new(&t);
    let d = depth(&val) as u64 + 1;
    r.limit = 6 * (nodes as u64 + 4) * if single { d } else { 2 };
    let mut out = vec![];
    let res = scale::encode_as_type(&val, r.root(), &r, &mut out);
    check!(!r.over(), "more than {} type lookups to encode a value of {nodes} parts nested {d} deep to its type", r.limit);
    check!(bad || res.is_ok(), "the value does not encode: {:?}", res.err());
    obs.class("values of the exact shape");
    obs.class_if(bad, "values of the exact shape but for one part");
    obs.class_if(d > 12, "nested more than 12 deep");
    if d > 6 {
        obs.nontrivial(format!("{}{}", show(&val), t.show(t.root)).as_bytes());
    }
    Ok(())
}

fn c26_decode(s: &mut Src, obs: &mut Obs) -> R {
    let (t, bytes, _) = mutated(s, obs, (1, 2));
    // values of types without size come for free
    let cur = &mut &bytes[..];
    t.cap.set(1 << 20);
    let model = t.dec(t.root, cur);
    // (after a failure the dependency skips over what follows)
    let used = if model.is_ok() { bytes.len() - cur.len() } else { bytes.len() };
    let nodes = match &model {
        Ok(v) => count_nodes(v),
        Err(e) => e.partial.as_ref().map(count_nodes).unwrap_or(0),
    } as u64;
    if nodes > 200_000 {
        obs.class("value too big");
        return Ok(());
    }
    let arrays: u64 = t.tys.iter().map(|t| if let Ty::Arr(n, _) = t { *n as u64 } else { 0 }).sum();
    obs.class(if model.is_ok() { "decodes" } else { "does not decode" });
    let mut limit = 20 * (nodes + used as u64 + t.tys.len() as u64 + arrays + 5);
    if model.is_err() {
        // what is skipped over may hold any number of parts which take up no bytes
        if t.zst_lists() {
            obs.class("fails next to lists of items without bytes");
            return Ok(());
        }
        let free: u64 = (0..t.tys.len()).filter(|i| t.zst(*i)).map(|i| if let Ty::Arr(n, _) = t.tys[i] { n as u64 + 1 } else { 1 }).sum();
        limit *= 1 + free;
    }
    if super::decode::nested(&t) {
        obs.nontrivial(format!("{}{}", t.show(t.root), hexs(&bytes)).as_bytes());
    }
    for tracing in [false, true] {
        let mut r = Named::new(&t);
        r.limit = limit;
        let cur = &mut &bytes[..];
        let ok = if tracing {
            scale::tracing::decode_as_type(cur, r.root(), &r).is_ok()
        } else {
            scale::decode_as_type(cur, r.root(), &r).is_ok()
        };
        check!(!r.over(), "more than {limit} type lookups to decode {used} bytes as {nodes} values (tracing: {tracing})");
        check!(ok == model.is_ok() || t.has256, "the resolver makes a difference (tracing: {tracing})");
    }
    Ok(())
}

fn c26_parse(s: &mut Src, obs: &mut Obs) -> R {
    // text nested in every way there is, and cut or spoilt
    let n = s.range(4, 40);
    let mut text = String::new();
    let mut close = vec![];
    for _ in 0..n {
        let (a, b) = *s.pick(&[("(", ")"), ("((), ", ")"), ("{a: ", "}"), ("{ \"x\" : ", " }"), ("Foo(", ")"), ("v\"b\" {y:", "}"), ("(1,", ",2)")]);
        text.push_str(a);
        close.push(b);
    }
    text.push_str(*s.pick(&["1", "true", "()", "<00>", "'a'", "?", "", "Foo{}"]));
    let keep = if s.coin() { 0 } else { s.below(close.len()) };
    while close.len() > keep {
        text.push_str(close.pop().unwrap());
    }
    if s.ratio(1, 3) {
        let mut at = s.below(text.len() + 1);
        while !text.is_char_boundary(at) {
            at -= 1;
        }
        text.insert_str(at, *s.pick(&["?", ",", " ", ")", "(", ":", "1"]));
    }
    let asked = Rc::new(Cell::new(0usize));
    let n2 = asked.clone();
    let limit = 4 * text.len() + 16;
    let p = scale_value::stringify::from_str_custom().add_custom_parser(move |_s| {
        n2.set(n2.get() + 1);
        if n2.get() > limit {
            // so that it ends
            return Some(Err(scale_value::stringify::ParseError::new_at(
                scale_value::stringify::ParseErrorKind::custom("too often".to_string()),
                0,
            )));
        }
        None
    });
    obs.desc(|| text.clone());
    let (r, _) = p.parse(&text);
    obs.class(if r.is_ok() { "parses" } else { "does not parse" });
    if n >= 12 {
        obs.nontrivial(text.as_bytes());
    }
    check!(asked.get() <= limit, "a custom parser is asked more than {limit} times about {} characters", text.len());
    Ok(())
}

// ------------------------------------------------------------------------------------------ C27

fn c27(s: &mut Src, obs: &mut Obs) -> R {
    if s.coin() {
        c27_decode(s, obs)
    } else {
        c27_encode(s, obs)
    }
}

/// The type with some of its parts replaced by types that have no values.
fn without(s: &mut Src, t: &Types, obs: &mut Obs) -> (Types, Vec<Tid>) {
    let mut m = copy(t);
    let mut gone = vec![];
    if s.coin() {
        obs.class("all types resolve");
        return (m, gone);
    }
    let frozen = compact_inner(t);
    let mut r = vec![];
    reach(t, t.root, &mut r);
    r.retain(|i| !frozen.contains(i));
    for _ in 0..s.range(1, 2) {
        if r.is_empty() {
            break;
        }
        let i = *s.pick(&r);
        if !gone.contains(&i) {
            m.tys[i] = Ty::Enum(vec![]);
            gone.push(i);
        }
    }
    obs.class("some types do not resolve");
    (m, gone)
}

fn resolver<'t>(s: &mut Src, t: &'t Types, gone: &[Tid]) -> Named<'t> {
    let mut r = Named::new(t);
    for g in gone {
        if s.coin() {
            r.missing.push(*g);
        } else {
            r.failing.push(*g);
        }
    }
    r
}

fn c27_decode(s: &mut Src, obs: &mut Obs) -> R {
    let (t, bytes, _) = mutated(s, obs, (2, 3));
    let (m, gone) = without(s, &t, obs);
    let r = resolver(s, &t, &gone);
    obs.desc(|| format!("unresolved {gone:?}"));
    if super::decode::endless(&m, &bytes) {
        obs.class("too many items without bytes");
        return Ok(());
    }
    // what the model decodes (types that do not resolve have no values)
    let cur = &mut &bytes[..];
    let want = scale::decode_as_type(cur, m.root_id(), m.reg());
    let rest = cur.len();
    let cur = &mut &bytes[..];
    let got = scale::decode_as_type(cur, r.root(), &r);
    match (&got, &want) {
        (Ok(g), Ok(w)) => {
            let w = with_ctx(w, &mut |c| name(*c as Tid));
            check!(*g == w, "decoded differently: {g:?}\n  expected {w:?}");
            check!(cur.len() == rest, "left {} bytes, expected {rest}", cur.len());
            obs.class("decodes");
            obs.class_if(!gone.is_empty(), "decodes without types that do not resolve");
            if super::decode::nested(&t) {
                obs.nontrivial(format!("{}{}{gone:?}", t.show(t.root), hexs(&bytes)).as_bytes());
            }
        }
        (Err(_), Err(_)) => obs.class("does not decode"),
        (Ok(g), Err(e)) => fail!("decodes to {g:?}, expected an error like {e}"),
        (Err(e), Ok(_)) => fail!("does not decode: {e}"),
    }
    let cur = &mut &bytes[..];
    let traced = scale::tracing::decode_as_type(cur, r.root(), &r);
    match (&got, &traced) {
        (Ok(g), Ok(t)) => check!(g == t && cur.len() == rest, "the tracing decoder decodes {t:?}"),
        (Err(_), Err(e)) => drop(e.to_string()),
        _ => fail!("the tracing decoder {}", if traced.is_ok() { "decodes it" } else { "does not decode it" }),
    }
    // the fields of it
    if let Ty::Struct(f) = &t.tys[t.root] {
        if !gone.contains(&t.root) {
            let cur = &mut &bytes[..];
            let c = scale::decode_as_fields(cur, &mut fields(f), &r);
            match (&c, &got) {
                (Ok(c), Ok(g)) => {
                    check!(matches!(&g.value, ValueDef::Composite(x) if x == c) && cur.len() == rest, "the fields alone decode to {c:?}");
                    obs.class("fields decode");
                }
                (Err(_), Err(_)) => {}
                _ => fail!("the fields alone {}", if c.is_ok() { "decode" } else { "do not decode" }),
            }
        }
    }
    Ok(())
}

fn c27_encode(s: &mut Src, obs: &mut Obs) -> R {
    let t = small_types(s);
    let mut fuel = 25;
    let v = t.gen_val(s, t.root, &mut fuel);
    let mut val = strip(&t.expected(t.root, &v));
    for _ in 0..s.below(3) {
        mutate_value(s, &mut val);
    }
    if too_deep(&val) {
        obs.class("too deep");
        return Ok(());
    }
    let (m, gone) = without(s, &t, obs);
    let r = resolver(s, &t, &gone);
    // contexts are of no consequence
    let val = with_ctx(&val, &mut |_| s.byte());
    obs.desc(|| format!("value {} type {} unresolved {gone:?}", show(&strip(&val)), t.show(t.root)));
    let mut want = vec![];
    let w = scale::encode_as_type(&strip(&val), m.root_id(), m.reg(), &mut want);
    let mut got = vec![0xaa, 0xbb];
    let g = scale::encode_as_type(&val, r.root(), &r, &mut got);
    match (&g, &w) {
        (Ok(()), Ok(())) => {
            check!(got[2..] == want && got[..2] == [0xaa, 0xbb], "encodes to {}, expected {}", hexs(&got[2..]), hexs(&want));
            obs.class("encodes");
            obs.class_if(!gone.is_empty(), "encodes without types that do not resolve");
            if super::decode::nested(&t) {
                obs.nontrivial(format!("{}{}{gone:?}", t.show(t.root), show(&strip(&val))).as_bytes());
            }
        }
        (Err(e), Err(_)) => {
            obs.class("does not encode");
            drop(e.to_string());
        }
        (Ok(()), Err(e)) => fail!("encodes to {}, expected an error like {e}", hexs(&got[2..])),
        (Err(e), Ok(())) => fail!("does not encode: {e}, expected {}", hexs(&want)),
    }
    if let (Ty::Struct(f), ValueDef::Composite(c)) = (&t.tys[t.root], &val.value) {
        let Ty::Struct(mf) = &m.tys[m.root] else { return Ok(()) };
        let mut got = vec![];
        let g = c.encode_as_fields_to(&mut fields(f), &r, &mut got);
        let mut want = vec![];
        let w = c.encode_as_fields_to(
            &mut mf.iter().map(|f| scale_type_resolver::Field { name: f.name.as_deref(), id: f.ty as u32 }),
            m.reg(),
            &mut want,
        );
        check!(g.is_ok() == w.is_ok(), "as fields: {g:?}, expected {w:?}");
        check!(g.is_err() || got == want, "as fields encodes to {}, expected {}", hexs(&got), hexs(&want));
    }
    Ok(())
}
