//! C01 C02 C07 C08 C09 C10: decoding, and encoding what was decoded.
use crate::fmtref;
use crate::run::{Obs, Prop, R};
use crate::src::Src;
use crate::ty::*;
use crate::val::{show, show_c, strip, strip_c, with_ctx};
use crate::{alloc, check, fail};
use codec::Encode;
use scale_decode::{DecodeAsFields, DecodeAsType, IntoVisitor};
use scale_encode::{EncodeAsFields, EncodeAsType};
use scale_value::{scale, Composite, Primitive, Value, ValueDef};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "random type registry, value of the root type, reference encoding + trailing bytes; non-trivial when the encoding has >= 3 bytes and the type is nested",
            quick: 1_000_000,
            thorough: 27_000_000,
            run: c01,
            probes: &[("derived types agree with parity-scale-codec", c01_anchor), ("i256 is signed", c01_i256)],
        },
        Prop {
            id: "C02",
            rule: "random type and value, decoded or hand built with arbitrary contexts, encoded after a random prefix; non-trivial when the encoding has >= 3 bytes and the type is nested",
            quick: 500_000,
            thorough: 10_500_000,
            run: c02,
            probes: &[("char and 256 bit numbers", c02_prims)],
        },
        Prop {
            id: "C07",
            rule: "corrupted/truncated/spliced encodings and random bytes against random types; non-trivial when the bytes are not the encoding of the generated value and decoding reads at least 2 bytes or fails inside a nested type",
            quick: 1_500_000,
            thorough: 22_500_000,
            run: c07,
            probes: &[("lengths that are not there", c07_len), ("deep nesting", c07_deep)],
        },
        Prop {
            id: "C08",
            rule: "as C07, valid and corrupted encodings against plain and tracing decoder; non-trivial when the type is nested and the input has >= 3 bytes",
            quick: 1_200_000,
            thorough: 18_000_000,
            run: c08,
            probes: &[("lengths that are not there", c08_len), ("deep nesting", c08_deep)],
        },
        Prop {
            id: "C09",
            rule: "as C07, keeping inputs whose decoding fails; non-trivial when it fails inside a nested value",
            quick: 1_300_000,
            thorough: 19_500_000,
            run: c09,
            probes: &[("256 bit numbers before the failure", c09_256)],
        },
        Prop {
            id: "C10",
            rule: "random field lists with valid and corrupted encodings, and values as field lists; non-trivial with >= 2 fields",
            quick: 1_000_000,
            thorough: 15_000_000,
            run: c10,
            probes: &[],
        },
    ]
}

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn nested(t: &Types) -> bool {
    match &t.tys[t.root] {
        Ty::Seq(_) | Ty::Arr(..) | Ty::Tup(_) | Ty::Struct(_) | Ty::Enum(_) => true,
        _ => false,
    }
}
pub fn classes(t: &Types, obs: &mut Obs) {
    obs.class(match &t.tys[t.root] {
        Ty::Prim(P::Bool | P::Char | P::Str) => "root: bool/char/str",
        Ty::Prim(P::U(256) | P::I(256)) => "root: 256-bit",
        Ty::Prim(_) => "root: integer",
        Ty::Seq(_) => "root: sequence",
        Ty::Arr(..) => "root: array",
        Ty::Tup(_) => "root: tuple",
        Ty::Struct(_) => "root: struct",
        Ty::Enum(_) => "root: enum",
        Ty::Compact(_) => "root: compact",
        Ty::Bits(..) => "root: bits",
        Ty::Hole => "root: hole",
    });
    obs.class_if(t.has256, "has 256-bit number");
}

fn typed_value(s: &mut Src, obs: &mut Obs, zst: bool) -> (Types, V, Vec<u8>) {
    let mut o = TyOpts::new(6 + s.below(26) as i32);
    o.zst_elems = zst;
    let t = gen_types(s, o);
    let mut fuel = 60;
    let b = s.below(2048);
    t.big.set(if b >= 2044 { 2 } else if b >= 2000 { 1 } else { 0 });
    let v = t.gen_val(s, t.root, &mut fuel);
    t.big.set(0);
    let bytes = t.encode(t.root, &v);
    obs.class_if(bytes.len() > 200, "big: more than 200 bytes");
    obs.class_if(bytes.len() > 65536, "big: more than 65536 bytes");
    obs.desc(|| format!("type {} value {v:?} bytes {}", t.show(t.root), hexs(&bytes)));
    classes(&t, obs);
    if nested(&t) && bytes.len() >= 3 {
        let mut k = t.show(t.root).into_bytes();
        k.extend(&bytes);
        obs.nontrivial(&k);
    }
    (t, v, bytes)
}

// ------------------------------------------------------------------------------------------ C01

fn c01(s: &mut Src, obs: &mut Obs) -> R {
    let (t, v, bytes) = typed_value(s, obs, true);
    let trail = if t.has256 {
        vec![]
    } else {
        let n = s.len(6);
        s.bytes(n)
    };
    let mut input = bytes.clone();
    input.extend(&trail);
    let cur = &mut &input[..];
    let got = match scale::decode_as_type(cur, t.root_id(), t.reg()) {
        Ok(v) => v,
        Err(e) => fail!("valid encoding does not decode: {e}"),
    };
    let want = t.expected(t.root, &v);
    check!(got == want, "decoded {}\n  expected {}", show(&got), show(&want));
    check!(*cur == &trail[..], "left {} bytes in the input, expected {}", cur.len(), trail.len());
    Ok(())
}

#[derive(Encode, scale_info::TypeInfo)]
enum AnchorE {
    A,
    #[codec(index = 7)]
    B(u8, bool),
    C {
        x: Option<Box<AnchorE>>,
        y: String,
    },
}
#[derive(Encode, scale_info::TypeInfo)]
struct Anchor {
    a: u8,
    b: i64,
    c: char2::C,
    d: Vec<Option<u16>>,
    e: (bool, [u32; 3], ()),
    #[codec(compact)]
    f: u64,
    g: AnchorE,
    h: codec::Compact<u128>,
    i: Result<i128, i8>,
    j: std::collections::BTreeMap<u8, String>,
}
mod char2 {
    // (parity-scale-codec does not encode chars)
    #[derive(codec::Encode, scale_info::TypeInfo)]
    pub struct C(pub i32);
}
/// Ties the reference codec to parity-scale-codec's derived encoding of real types.
fn c01_anchor(obs: &mut Obs) -> R {
    let m = scale_info::MetaType::new::<Anchor>();
    let mut types = scale_info::Registry::new();
    let id = types.register_type(&m).id;
    let reg: scale_info::PortableRegistry = types.into();
    let mut s = Src::random(crate::run::seed());
    for _ in 0..300 {
        let e = |s: &mut Src| match s.below(3) {
            0 => AnchorE::A,
            1 => AnchorE::B(s.byte(), s.coin()),
            _ => AnchorE::C { x: if s.coin() { Some(Box::new(AnchorE::A)) } else { None }, y: gen_string(s) },
        };
        let a = Anchor {
            a: s.byte(),
            b: s.sint(64) as i64,
            c: char2::C(s.sint(32) as i32),
            d: (0..s.below(70)).map(|_| if s.coin() { Some(s.uint(16) as u16) } else { None }).collect(),
            e: (s.coin(), [s.uint(32) as u32, 0, u32::MAX], ()),
            f: s.uint(64) as u64,
            g: e(&mut s),
            h: codec::Compact(s.uint(128)),
            i: if s.coin() { Ok(s.sint(128)) } else { Err(s.sint(8) as i8) },
            j: (0..s.below(4)).map(|i| (i as u8, gen_string(&mut s))).collect(),
        };
        let bytes = a.encode();
        let v = scale::decode_as_type(&mut &bytes[..], id, &reg).map_err(|e| format!("{e}"))?;
        let u = |n: u128| Value::u128(n);
        let i = |n: i128| Value::i128(n);
        fn ee(e: &AnchorE) -> Value<()> {
            match e {
                AnchorE::A => Value::variant("A", Composite::Unnamed(vec![])),
                AnchorE::B(a, b) => Value::unnamed_variant("B", [Value::u128(*a as u128), Value::bool(*b)]),
                AnchorE::C { x, y } => Value::named_variant(
                    "C",
                    [
                        ("x", match x {
                            None => Value::variant("None", Composite::Unnamed(vec![])),
                            Some(x) => Value::unnamed_variant("Some", [ee(x)]),
                        }),
                        ("y", Value::string(y.clone())),
                    ],
                ),
            }
        }
        let want = Value::named_composite([
            ("a", u(a.a as u128)),
            ("b", i(a.b as i128)),
            ("c", Value::unnamed_composite([i(a.c.0 as i128)])),
            ("d", Value::unnamed_composite(a.d.iter().map(|o| match o {
                None => Value::variant("None", Composite::Unnamed(vec![])),
                Some(n) => Value::unnamed_variant("Some", [u(*n as u128)]),
            }))),
            ("e", Value::unnamed_composite([
                Value::bool(a.e.0),
                Value::unnamed_composite(a.e.1.iter().map(|n| u(*n as u128))),
                Value::unnamed_composite([]),
            ])),
            ("f", u(a.f as u128)),
            ("g", ee(&a.g)),
            ("h", u(a.h.0)),
            ("i", match a.i {
                Ok(n) => Value::unnamed_variant("Ok", [i(n)]),
                Err(n) => Value::unnamed_variant("Err", [i(n as i128)]),
            }),
            ("j", Value::unnamed_composite([Value::unnamed_composite(
                a.j.iter().map(|(k, v)| Value::unnamed_composite([u(*k as u128), Value::string(v.clone())])),
            )])),
        ]);
        let got = strip(&v);
        check!(got == want, "derived type: decoded {} expected {}", show(&got), show(&want));
        let mut out = vec![];
        scale::encode_as_type(&got, id, &reg, &mut out).map_err(|e| format!("{e}"))?;
        check!(out == bytes, "derived type: encodes to {} not {}", hexs(&out), hexs(&bytes));
        obs.class("derived type cases");
    }
    Ok(())
}

fn c01_i256(_: &mut Obs) -> R {
    let t = Types::from_tys(vec![Ty::Prim(P::I(256)), Ty::Prim(P::U(256))], 0);
    let b: [u8; 32] = std::array::from_fn(|i| i as u8 * 7);
    for (id, want) in [(0, Primitive::I256(b)), (1, Primitive::U256(b))] {
        let v = scale::decode_as_type(&mut &b[..], id, t.reg()).map_err(|e| format!("{e}"))?;
        check!(v == Value { value: ValueDef::Primitive(want), context: id }, "type {id} decodes to {}", show(&v));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C02

fn encode_to<C>(v: &Value<C>, t: &Types, prefix: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = prefix.to_vec();
    scale::encode_as_type(v, t.root_id(), t.reg(), &mut out).map_err(|e| e.to_string())?;
    Ok(out)
}

fn c02(s: &mut Src, obs: &mut Obs) -> R {
    let (t, v, bytes) = typed_value(s, obs, true);
    let n = s.len(8);
    let prefix = s.bytes(n);
    let mut want = prefix.clone();
    want.extend(&bytes);

    let decoded = scale::decode_as_type(&mut &bytes[..], t.root_id(), t.reg()).map_err(|e| format!("decode: {e}"))?;
    match encode_to(&decoded, &t, &prefix) {
        Err(e) => fail!("decoded value {} does not encode: {e}", show(&decoded)),
        Ok(out) => check!(out == want, "decoded value {} encodes to {} not {}", show(&decoded), hexs(&out), hexs(&want)),
    }
    // hand built, with contexts that have nothing to do with the types
    let exp = t.expected(t.root, &v);
    let mut k = 0u32;
    let odd = with_ctx(&exp, &mut |c| {
        k += 1;
        if s.coin() { format!("ctx{k}") } else { format!("{c}") }
    });
    match encode_to(&odd, &t, &prefix) {
        Err(e) => fail!("hand built value {} does not encode: {e}", show(&odd)),
        Ok(out) => check!(out == want, "hand built value {} encodes to {} not {}", show(&odd), hexs(&out), hexs(&want)),
    }
    // through the trait, and onto nothing
    let bare = strip(&exp);
    let out = bare.encode_as_type(t.root_id(), t.reg()).map_err(|e| format!("EncodeAsType: {e}"))?;
    check!(out == bytes, "EncodeAsType gives {} not {}", hexs(&out), hexs(&bytes));
    Ok(())
}

fn c02_prims(_: &mut Obs) -> R {
    let t = Types::from_tys(
        vec![Ty::Prim(P::Char), Ty::Prim(P::U(256)), Ty::Prim(P::I(256)), Ty::Tup(vec![0]), Ty::Tup(vec![1]), Ty::Arr(1, 2)],
        0,
    );
    let b: [u8; 32] = std::array::from_fn(|i| i as u8 * 7);
    let ch = Value::char('日');
    let u = Value::primitive(Primitive::U256(b));
    let i = Value::primitive(Primitive::I256(b));
    let cb = ('日' as u32).to_le_bytes().to_vec();
    for (id, v, want) in [
        (0u32, &ch, cb.clone()),
        (3, &ch, cb),
        (1, &u, b.to_vec()),
        (4, &u, b.to_vec()),
        (2, &i, b.to_vec()),
        (5, &i, b.to_vec()),
    ] {
        let mut out = vec![];
        match scale::encode_as_type(v, id, t.reg(), &mut out) {
            Ok(()) => check!(out == want, "{} as type {} gives {out:?}", show(v), t.show(id as usize)),
            Err(e) => fail!("{} does not encode to {}: {e}", show(v), t.show(id as usize)),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C07

/// Lists of very many items that take up no bytes take forever to decode (and so they do after decoding
/// has failed, as the dependency goes on to skip over the bytes that follow).
pub fn endless(t: &Types, b: &[u8]) -> bool {
    if !t.zst_lists() {
        return false;
    }
    let mut r = crate::resolver::Named::new(t);
    r.limit = if crate::src::is_capped() { 4_000 } else { 60_000 };
    let _ = scale::decode_as_type(&mut &b[..], r.root(), &r);
    let a = r.over();
    r.asked.set(0);
    let _ = scale::tracing::decode_as_type(&mut &b[..], r.root(), &r);
    a || r.over()
}

/// Type and a byte string related to it.
pub fn mutated(s: &mut Src, obs: &mut Obs, valid: (usize, usize)) -> (Types, Vec<u8>, bool) {
    let mut o = TyOpts::new(6 + s.below(22) as i32);
    o.zst_elems = s.ratio(1, 4);
    let mut t = gen_types(s, o);
    // an array far longer than its data, now and then
    if s.ratio(1, 25) {
        if let Some(i) = (0..t.tys.len()).find(|i| matches!(t.tys[*i], Ty::Arr(..))) {
            if let Ty::Arr(_, e) = t.tys[i] {
                if matches!(t.tys[e], Ty::Prim(_) | Ty::Enum(_) | Ty::Seq(_)) {
                    let n = *s.pick(&[1000u32, 1 << 20, u32::MAX, 1 << 31]);
                    let tys = t.tys.clone();
                    let root = t.root;
                    let has = t.has256;
                    t = Types::from_tys(tys, root);
                    t.has256 = has;
                    t.tys[i] = Ty::Arr(n, e);
                    let n = s.len(200);
                    let mut b = s.bytes(n);
                    if endless(&t, &b) {
                        b.clear();
                    }
                    obs.class("array longer than the data");
                    obs.desc(|| format!("type {} bytes {}", t.show(t.root), hexs(&b)));
                    return (t, b, false);
                }
            }
        }
    }
    let mut fuel = 40;
    let k = s.below(2048);
    t.big.set(if k >= 2046 { 2 } else if k >= 2020 { 1 } else { 0 });
    let v = t.gen_val(s, t.root, &mut fuel);
    t.big.set(0);
    let orig = t.encode(t.root, &v);
    obs.class_if(orig.len() > 200, "big: more than 200 bytes");
    obs.class_if(orig.len() > 65536, "big: more than 65536 bytes");
    let mut b = orig.clone();
    if !s.ratio(valid.0, valid.1) {
        if s.ratio(1, 12) {
            let n = s.len(60);
            b = s.bytes(n);
        }
        for _ in 0..1 + s.len(3) {
            let at = s.below(b.len() + 1);
            match s.below(7) {
                0 => b.truncate(at),
                1 if at < b.len() => b[at] = s.byte(),
                2 if at < b.len() => b[at] ^= 1 << s.below(8),
                3 => {
                    let x = s.byte();
                    b.insert(at, x)
                }
                4 if at < b.len() => {
                    b.remove(at);
                }
                5 => {
                    // overwrite with a compact number, possibly huge or non-canonical
                    let mut c = vec![];
                    match s.below(6) {
                        0 => compact_enc(s.uint(64), &mut c),
                        1 => compact_enc(s.uint(32), &mut c),
                        2 => compact_enc((1u128 << 32) - 1 - s.below(2) as u128, &mut c),
                        3 => compact_enc(u64::MAX as u128 + s.below(2) as u128, &mut c),
                        4 => c = vec![*s.pick(&[0x01, 0x02, 0x03, 0x07, 0x13, 0x33, 0x37, 0xff]), s.byte(), s.byte(), s.byte(), s.byte()],
                        _ => c = [&[0x13u8][..], &[0xff; 8][..]].concat(),
                    }
                    b.splice(at..(at + 1).min(b.len()), c);
                }
                _ => {
                    let n = s.len(8);
                    b.extend(s.bytes(n));
                }
            }
        }
    }
    if t.has256 && b.len() > orig.len() && s.ratio(9, 10) {
        b.truncate(orig.len());
    }
    if endless(&t, &b) {
        obs.class("too many items without bytes: left as it was");
        b = orig.clone();
    }
    obs.desc(|| format!("type {} bytes {} (from {})", t.show(t.root), hexs(&b), hexs(&orig)));
    let same = b == orig;
    (t, b, same)
}
/// Is the registry free of 256-bit numbers reachable where the dependency cannot decode them?
fn key(t: &Types, b: &[u8]) -> Vec<u8> {
    let mut k = t.show(t.root).into_bytes();
    k.extend(b);
    k
}

fn bound(bytes: usize) -> usize {
    // a decoded value is < 200 bytes per byte of input; vectors may double
    64 * 1024 + 400 * bytes
}

fn c07(s: &mut Src, obs: &mut Obs) -> R {
    let (t, b, same) = mutated(s, obs, (1, 12));
    let want_cur = &mut &b[..];
    let want = t.dec(t.root, want_cur);
    let cur = &mut &b[..];
    let _ = t.reg();
    let (got, max) = alloc::measure(|| scale::decode_as_type(cur, t.root_id(), t.reg()));
    check!(max <= bound(b.len()) || t.zst_lists(), "asked for {max} bytes of memory at once to decode {} bytes", b.len());
    obs.class_if(t.zst_lists(), "lists of items without bytes");
    match (&got, &want) {
        (Ok(g), Ok(w)) => {
            check!(g == w, "decoded {}\n  reference {}", show(g), show(w));
            check!(cur == want_cur, "left {} bytes, reference {}", cur.len(), want_cur.len());
            obs.class(if same { "accepted: valid" } else { "accepted: changed" });
        }
        (Err(_), Err(_)) => obs.class("rejected"),
        (Ok(g), Err(w)) => fail!("accepted as {} although not an encoding (at {:?})", show(g), w.path),
        (Err(e), Ok(w)) => fail!("rejected ({e}) although an encoding of {}", show(w)),
    }
    let deep = match &want {
        Ok(_) => b.len() - want_cur.len() >= 2,
        Err(e) => !e.path.is_empty(),
    };
    if !same && deep {
        obs.nontrivial(&key(&t, &b));
    }
    classes(&t, obs);
    Ok(())
}

fn len_cases() -> Vec<(Types, Vec<u8>)> {
    let mut out = vec![];
    let tys = || {
        vec![
            Ty::Prim(P::U(8)),
            Ty::Seq(0),
            Ty::Seq(1),
            Ty::Prim(P::Str),
            Ty::Bits(8, false),
            Ty::Bits(64, true),
            Ty::Arr(u32::MAX, 0),
            Ty::Arr(u32::MAX, 1),
            Ty::Struct(vec![Fld { name: Some("a".into()), ty: 1 }]),
        ]
    };
    let mut heads: Vec<Vec<u8>> = vec![];
    for k in [10u32, 16, 24, 27, 28, 30, 31, 32, 33, 40, 48, 60, 62, 63, 64] {
        for d in [-1i128, 0, 1] {
            let n = ((1i128 << k) + d).min(u64::MAX as i128);
            let mut c = vec![];
            compact_enc(n as u128, &mut c);
            heads.push(c);
        }
    }
    for root in [1usize, 2, 3, 4, 5, 6, 7, 8] {
        for h in &heads {
            for extra in [0usize, 1, 7, 100] {
                let mut b = h.clone();
                b.extend(std::iter::repeat_n(4u8, extra));
                out.push((Types::from_tys(tys(), root), b));
            }
        }
    }
    out
}

fn c07_len(obs: &mut Obs) -> R {
    for (t, b) in len_cases() {
        let want = t.dec(t.root, &mut &b[..]);
        let _ = t.reg();
        let r = crate::run::catch(|| alloc::measure(|| scale::decode_as_type(&mut &b[..], t.root_id(), t.reg())));
        let (got, max) = match r {
            Ok(x) => x,
            Err(e) => fail!("type {} bytes {}: {e}", t.show(t.root), hexs(&b)),
        };
        check!(max <= bound(b.len()), "type {} bytes {}: asked for {max} bytes of memory at once", t.show(t.root), hexs(&b));
        check!(got.is_ok() == want.is_ok(), "type {} bytes {}: {got:?}", t.show(t.root), hexs(&b));
        obs.class("length cases");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C08

fn c08_one(t: &Types, b: &[u8], obs: &mut Obs) -> R {
    let (c1, c2) = (&mut &b[..], &mut &b[..]);
    let plain = scale::decode_as_type(c1, t.root_id(), t.reg());
    let (trace, max) = alloc::measure(|| scale::tracing::decode_as_type(c2, t.root_id(), t.reg()));
    match (plain, trace) {
        (Ok(p), Ok(q)) => {
            check!(p == q, "plain {}\n  tracing {}", show(&p), show(&q));
            check!(c1 == c2, "plain leaves {} bytes, tracing {}", c1.len(), c2.len());
            obs.class("both decode");
        }
        (Err(_), Err(_)) => obs.class("both fail"),
        (Ok(p), Err(e)) => fail!("plain gives {}, tracing fails: {e}", show(&p)),
        (Err(e), Ok(q)) => fail!("plain fails ({e}), tracing gives {}", show(&q)),
    }
    obs.class_if(t.zst_lists(), "lists of items without bytes");
    check!(max <= bound(b.len()) || t.zst_lists(), "tracing asked for {max} bytes of memory at once to decode {} bytes", b.len());
    Ok(())
}

fn c08(s: &mut Src, obs: &mut Obs) -> R {
    let (t, b, _) = mutated(s, obs, (1, 3));
    classes(&t, obs);
    if nested(&t) && b.len() >= 3 {
        obs.nontrivial(&key(&t, &b));
    }
    let _ = t.reg();
    c08_one(&t, &b, obs)
}
fn c08_len(obs: &mut Obs) -> R {
    for (t, b) in len_cases() {
        let _ = t.reg();
        c08_one(&t, &b, obs).map_err(|mut e| {
            e.msg = format!("type {} bytes {}: {}", t.show(t.root), hexs(&b), e.msg);
            e
        })?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C09

fn c09(s: &mut Src, obs: &mut Obs) -> R {
    let (t, b, _) = mutated(s, obs, (0, 1));
    let want = match t.dec(t.root, &mut &b[..]) {
        Ok(_) => return Ok(()),
        Err(e) => e,
    };
    let err = match scale::tracing::decode_as_type(&mut &b[..], t.root_id(), t.reg()) {
        Ok(v) => fail!("tracing accepts {}", show(&v)),
        Err(e) => e,
    };
    let text = err.to_string();
    let r = c09_text(&text, &want, obs);
    if r.is_err() {
        // a list claiming absurdly many items may be refused as a whole
        t.cap.set(100_000_000);
        if let Err(w2) = t.dec(t.root, &mut &b[..]) {
            if w2.path.len() < want.path.len() && c09_text(&text, &w2, obs).is_ok() {
                obs.class("absurd length refused as a whole");
                return Ok(());
            }
        }
    }
    if want.partial.is_some() {
        obs.nontrivial(&key(&t, &b));
    }
    r
}

/// (the only place where the dependency decodes them is the end of the input)
fn c09_256(obs: &mut Obs) -> R {
    let b: Vec<u8> = (0..32u8).map(|i| i.wrapping_mul(9)).collect();
    let named = |n: &str, ty| Fld { name: Some(n.to_string()), ty };
    for p in [P::U(256), P::I(256)] {
        let tys = vec![
            Ty::Prim(p),
            Ty::Prim(P::Bool),
            Ty::Tup(vec![0, 1]),
            Ty::Struct(vec![named("a", 0), named("b", 1)]),
            Ty::Enum(vec![Var { name: "A".into(), index: 0, fields: vec![named("x", 0), named("y", 1)] }]),
            Ty::Seq(0),
            Ty::Arr(2, 0),
            Ty::Tup(vec![3]),
        ];
        for (root, head) in [(2, vec![]), (3, vec![]), (4, vec![0u8]), (5, vec![8]), (6, vec![]), (7, vec![])] {
            let t = Types::from_tys(tys.clone(), root);
            let bytes = [&head[..], &b].concat();
            let Err(want) = t.dec(root, &mut &bytes[..]) else { fail!("the reference decodes {}", hexs(&bytes)) };
            let got = crate::run::catch(|| match scale::tracing::decode_as_type(&mut &bytes[..], t.root_id(), t.reg()) {
                Ok(v) => format!("decoded {}", show(&v)),
                Err(e) => e.to_string(),
            });
            let text = got.unwrap_or_else(|p| p);
            c09_text(&text, &want, obs).map_err(|mut e| {
                e.msg = format!("type {} bytes {}: {}", t.show(root), hexs(&bytes), e.msg);
                e
            })?;
        }
    }
    Ok(())
}

fn c09_text(text: &str, want: &DErr, obs: &mut Obs) -> R {
    let Some(p) = &want.partial else {
        obs.class("fails at the root");
        check!(
            text.starts_with("Error decoding value: ") && !text.contains("Decoded so far"),
            "failure in the outermost value is reported as {text:?}"
        );
        return Ok(());
    };
    obs.class("fails inside");
    obs.class(match want.path.len() {
        1 => "depth 1",
        2 => "depth 2",
        3 => "depth 3",
        _ => "depth >= 4",
    });
    let path: String = want.path.iter().map(|s| format!(".{s}")).collect();
    let head = format!("Error decoding value at {path}: ");
    let mut partial = String::new();
    let ctx = |c: &u32| c.to_string();
    let custom = |v: &Value<u32>| {
        fmtref::hex(v).or_else(|| match &v.value {
            ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)) => {
                Some(format!("0x{}", b.iter().map(|b| format!("{b:02X}")).collect::<String>()))
            }
            _ => None,
        })
    };
    let cfg = fmtref::Cfg { style: fmtref::Style::Pretty, leading: "", indent: "  ", ctx: Some(&ctx), custom: &custom };
    fmtref::value(p, &cfg, &mut partial);
    let tail = format!("\nDecoded so far:\n\n{partial}");
    obs.desc(|| format!("fails at {path}, decoded so far {}", show(p)));
    check!(text.starts_with(&head), "error {text:?} is not located at {path}");
    check!(text.len() > head.len() + tail.len() && text.ends_with(&tail), "error {text:?}\n does not end with {tail:?}");
    Ok(())
}

// ------------------------------------------------------------------------------------------ C10

/// Values as parts of other Rust types which are decoded and encoded by their type.
fn c10_containers(s: &mut Src, obs: &mut Obs) -> R {
    use std::collections::{BTreeMap, LinkedList, VecDeque};
    use std::{rc::Rc, sync::Arc};
    type Val = Value<()>;
    let mut o = TyOpts::new(4 + s.below(14) as i32);
    o.zst_elems = false;
    o.allow_256 = false;
    let inner = gen_types(s, o);
    let (r, mut tys) = (inner.root, inner.tys.clone());
    let var = |name: &str, index, fields| Var { name: name.into(), index, fields };
    let f = |ty| vec![Fld { name: None, ty }];
    let byte = tys.len();
    tys.push(Ty::Prim(P::U(8)));
    let kind = s.below(9);
    let outer = match kind {
        0 => Ty::Seq(r),
        1 => Ty::Arr(3, r),
        2 => Ty::Tup(vec![byte, r, r]),
        3 => Ty::Enum(vec![var("None", 0, vec![]), var("Some", 1, f(r))]),
        4 => Ty::Enum(vec![var("Ok", 0, f(r)), var("Err", 1, f(byte))]),
        5 => {
            let n = 2 + s.below(3);
            let names = distinct_names(s, n, false);
            Ty::Struct(names.into_iter().map(|n| Fld { name: Some(n), ty: r }).collect())
        }
        6 => {
            tys.push(Ty::Enum(vec![var("None", 0, vec![]), var("Some", 1, f(r))]));
            tys.push(Ty::Tup(vec![tys.len() - 1, byte]));
            Ty::Seq(tys.len() - 1)
        }
        7 => {
            tys.push(Ty::Seq(r));
            Ty::Seq(tys.len() - 1)
        }
        _ => inner.tys[r].clone(),
    };
    tys.push(outer);
    let root = tys.len() - 1;
    let t = Types::from_tys(tys, root);
    let mut fuel = 40;
    let v = t.gen_val(s, t.root, &mut fuel);
    let mut b = t.encode(t.root, &v);
    let good = b.clone();
    match s.below(6) {
        0 if !b.is_empty() => b.truncate(s.below(b.len())),
        1 if !b.is_empty() => {
            let i = s.below(b.len());
            b[i] = s.byte()
        }
        2 => {
            let n = s.len(6);
            b.extend(s.bytes(n))
        }
        _ => {}
    }
    if endless(&t, &b) {
        return Ok(());
    }
    obs.desc(|| format!("kind {kind} of {} {} bytes {}", t.show(t.root), b.len(), hexs(&b)));
    obs.class("inside other Rust types");
    if b.len() >= 3 {
        obs.nontrivial(&key(&t, &b));
    }
    let (id, reg) = (t.root_id(), t.reg());
    let left = &mut &b[..];
    let whole: Option<Val> = scale::decode_as_type(left, id, reg).ok().map(|v| strip(&v));
    let left = left.len();
    let parts: Option<Vec<Val>> = whole.as_ref().map(|w| match &w.value {
        ValueDef::Composite(c) => crate::val::kids(c).into_iter().cloned().collect(),
        ValueDef::Variant(c) => crate::val::kids(&c.values).into_iter().cloned().collect(),
        _ => vec![],
    });
    macro_rules! same {
        ($ty:ty, |$w:ident, $g:ident| $got:expr, $want:expr) => {{
            let c = &mut &b[..];
            let got = <$ty as DecodeAsType>::decode_as_type(c, id, reg);
            let what = stringify!($ty);
            match (&whole, got) {
                (None, Ok(_)) => fail!("{what} is decoded where the value of the same type is not"),
                (None, Err(_)) => {}
                (Some(w), Err(e)) => fail!("{what} is not decoded ({e}), but the value {}", show(w)),
                (Some($w), Ok($g)) => {
                    let got = $got;
                    check!(got == $want, "{what} is decoded to {got:?} but the value to {}", show($w));
                    check!(c.len() == left, "{what} leaves {} bytes, the value {left}", c.len());
                }
            }
        }};
    }
    let p = parts.clone().unwrap_or_default();
    // what is encoded: the Rust values with the parts of the valid value
    let whole_good = strip(&t.expected(t.root, &v));
    let gp: Vec<Val> = match &whole_good.value {
        ValueDef::Composite(c) => crate::val::kids(c).into_iter().cloned().collect(),
        ValueDef::Variant(c) => crate::val::kids(&c.values).into_iter().cloned().collect(),
        _ => vec![],
    };
    let name = |w: &Val| match &w.value {
        ValueDef::Variant(x) => x.name.clone(),
        _ => String::new(),
    };
    let num = |v: &Val| v.as_u128().unwrap() as u8;
    let list = |v: &Val| -> Vec<Val> {
        match &v.value {
            ValueDef::Composite(c) => crate::val::kids(c).into_iter().cloned().collect(),
            ValueDef::Variant(c) => crate::val::kids(&c.values).into_iter().cloned().collect(),
            _ => vec![],
        }
    };
    let n = s.below(4);
    let enc: Result<Vec<u8>, scale_encode::Error> = match kind {
        0 => {
            same!(Vec<Val>, |w, g| g, p);
            same!(VecDeque<Val>, |w, g| g.into_iter().collect::<Vec<_>>(), p);
            same!(LinkedList<Val>, |w, g| g.into_iter().collect::<Vec<_>>(), p);
            same!(Box<Vec<Rc<Val>>>, |w, g| g.into_iter().map(|v| (*v).clone()).collect::<Vec<_>>(), p);
            match n {
                0 => gp.encode_as_type(id, reg),
                1 => gp.into_iter().collect::<VecDeque<_>>().encode_as_type(id, reg),
                2 => gp.iter().collect::<Vec<_>>().encode_as_type(id, reg),
                _ => gp[..].encode_as_type(id, reg),
            }
        }
        1 => {
            same!([Val; 3], |w, g| g.to_vec(), p);
            let a: [Val; 3] = gp.try_into().unwrap();
            if n < 2 { a.encode_as_type(id, reg) } else { Arc::new(a).encode_as_type(id, reg) }
        }
        2 => {
            same!((u8, Val, Val), |w, g| (Val::u128(g.0 as u128), g.1.clone(), g.2.clone()), (p[0].clone(), p[1].clone(), p[2].clone()));
            same!((Val, Val, Arc<Val>), |w, g| (g.0.clone(), g.1.clone(), (*g.2).clone()), (p[0].clone(), p[1].clone(), p[2].clone()));
            if n < 2 {
                (num(&gp[0]), &gp[1], gp[2].clone()).encode_as_type(id, reg)
            } else {
                (&gp[0], gp[1].clone(), Box::new(gp[2].clone())).encode_as_type(id, reg)
            }
        }
        3 => {
            same!(Option<Val>, |w, g| g, p.first().cloned());
            gp.first().cloned().encode_as_type(id, reg)
        }
        4 => {
            let r = |w: &Val, p: &[Val]| if name(w) == "Ok" { Ok(p[0].clone()) } else { Err(num(&p[0])) };
            same!(Result<Val, u8>, |w, g| g, r(w, &p));
            r(&whole_good, &gp).encode_as_type(id, reg)
        }
        5 => {
            let named = |w: &Val| match &w.value {
                ValueDef::Composite(Composite::Named(c)) => c.iter().cloned().collect::<BTreeMap<String, Val>>(),
                _ => BTreeMap::new(),
            };
            same!(BTreeMap<String, Val>, |w, g| g, named(w));
            named(&whole_good).encode_as_type(id, reg)
        }
        6 => {
            let each = |p: &[Val]| -> Vec<(Option<Val>, u8)> {
                p.iter().map(|v| { let l = list(v); (list(&l[0]).into_iter().next(), num(&l[1])) }).collect()
            };
            same!(Vec<(Option<Val>, u8)>, |w, g| g, each(&p));
            each(&gp).encode_as_type(id, reg)
        }
        7 => {
            let each = |p: &[Val]| -> Vec<Vec<Val>> { p.iter().map(list).collect() };
            same!(Vec<Vec<Val>>, |w, g| g, each(&p));
            each(&gp).encode_as_type(id, reg)
        }
        _ => {
            same!(Box<Val>, |w, g| *g, w.clone());
            same!(Arc<Val>, |w, g| (*g).clone(), w.clone());
            Rc::new(whole_good.clone()).encode_as_type(id, reg)
        }
    };
    match enc {
        Ok(e) => check!(e == good, "kind {kind}: {} as parts of a Rust type encodes to {} not {}", show(&whole_good), hexs(&e), hexs(&good)),
        Err(e) => fail!("kind {kind}: {} as parts of a Rust type does not encode: {e}", show(&whole_good)),
    }
    Ok(())
}
fn c10(s: &mut Src, obs: &mut Obs) -> R {
    if s.ratio(1, 4) {
        return c10_containers(s, obs);
    }
    // a root struct whose fields are the field list
    let mut o = TyOpts::new(6 + s.below(20) as i32);
    o.zst_elems = false;
    let t = gen_types(s, o);
    let (types, fields): (Types, Vec<Fld>) = match &t.tys[t.root] {
        Ty::Struct(f) => {
            let f = f.clone();
            (t, f)
        }
        Ty::Tup(es) => {
            let f: Vec<Fld> = es.iter().map(|e| Fld { name: None, ty: *e }).collect();
            let mut tys = t.tys.clone();
            tys.push(Ty::Struct(f.clone()));
            let root = tys.len() - 1;
            let mut n = Types::from_tys(tys, root);
            n.has256 = t.has256;
            (n, f)
        }
        _ => {
            let name = if s.coin() { Some(field_name(s, false)) } else { None };
            let f = vec![Fld { name, ty: t.root }];
            let mut tys = t.tys.clone();
            tys.push(Ty::Struct(f.clone()));
            let root = tys.len() - 1;
            let mut n = Types::from_tys(tys, root);
            n.has256 = t.has256;
            (n, f)
        }
    };
    let t = types;
    let mut fuel = 50;
    let v = t.gen_val(s, t.root, &mut fuel);
    let mut b = t.encode(t.root, &v);
    let mut valid = true;
    match s.below(8) {
        0..=3 => {}
        4 => {
            b.truncate(s.below(b.len() + 1));
            valid = false
        }
        5 if !b.is_empty() => {
            let i = s.below(b.len());
            b[i] = s.byte();
            valid = false;
        }
        _ if !t.has256 => {
            let n = s.len(6);
            b.extend(s.bytes(n))
        }
        _ => {}
    }
    obs.desc(|| format!("fields of {} bytes {}", t.show(t.root), hexs(&b)));
    obs.class(if Types::named(&fields) { "named fields" } else { "unnamed or mixed fields" });
    obs.class_if(!valid, "corrupted");
    if fields.len() >= 2 {
        obs.nontrivial(&key(&t, &b));
    }
    let iter = || {
        fields
            .iter()
            .map(|f| scale_type_resolver::Field { name: f.name.as_deref(), id: f.ty as u32 })
            .collect::<Vec<_>>()
            .into_iter()
    };
    let reg = t.reg();
    let cs = &mut &b[..];
    let strukt = scale::decode_as_type(cs, t.root_id(), reg);
    let strukt_c = match &strukt {
        Ok(v) => match &v.value {
            ValueDef::Composite(c) => Some(c.clone()),
            _ => fail!("struct decodes to {}", show(v)),
        },
        Err(_) => None,
    };

    // --- decoding
    let agree = |what: &str, got: Option<Composite<()>>, rest: &[u8]| -> R {
        match (&strukt_c, got) {
            (None, None) => Ok(()),
            (Some(w), Some(g)) => {
                check!(strip_c(w) == g, "{what} gives {} but the struct decodes to {}", show_c(&g), show_c(w));
                check!(rest == *cs, "{what} leaves {} bytes, struct decoding {}", rest.len(), cs.len());
                Ok(())
            }
            (w, g) => fail!(
                "{what} gives {} where decoding the struct gives {}",
                g.map(|c| show_c(&c)).unwrap_or("an error".into()),
                w.as_ref().map(show_c).unwrap_or("an error".into())
            ),
        }
    };
    {
        let c = &mut &b[..];
        let got = scale::decode_as_fields(c, &mut iter(), reg).ok();
        if let (Some(w), Some(g)) = (&strukt_c, &got) {
            check!(w == g, "decode_as_fields gives {} but the struct decodes to {}", show_c(g), show_c(w));
        }
        agree("decode_as_fields", got.as_ref().map(strip_c), c)?;
    }
    {
        let c = &mut &b[..];
        let got = <Composite<()> as DecodeAsFields>::decode_as_fields(c, &mut iter(), reg).ok();
        agree("Composite::decode_as_fields", got, c)?;
    }
    let comp = |v: Value<()>| match v.value {
        ValueDef::Composite(c) => c,
        _ => Composite::Unnamed(vec![v]),
    };
    {
        let c = &mut &b[..];
        let got = <Value<()> as DecodeAsFields>::decode_as_fields(c, &mut iter(), reg).ok();
        agree("Value::decode_as_fields", got.map(comp), c)?;
    }
    {
        let c = &mut &b[..];
        let got = <Value<()> as DecodeAsType>::decode_as_type(c, t.root_id(), reg).ok();
        agree("Value::decode_as_type", got.map(comp), c)?;
    }
    {
        let c = &mut &b[..];
        let got = scale_decode::visitor::decode_with_visitor(c, t.root_id(), reg, Value::<()>::into_visitor()).ok();
        agree("Value::into_visitor", got.map(comp), c)?;
    }
    {
        let c = &mut &b[..];
        let got = scale_decode::visitor::decode_with_visitor(
            c,
            t.root_id(),
            reg,
            scale::ValueVisitor::<scale_info::PortableRegistry>::new(),
        )
        .ok();
        if let (Ok(w), Some(g)) = (&strukt, &got) {
            check!(w == g, "ValueVisitor gives {} but decode_as_type {}", show(g), show(w));
        }
        agree("ValueVisitor", got.map(|v| comp(strip(&v))), c)?;
    }

    {
        let c = &mut &b[..];
        let got = scale_decode::visitor::decode_with_visitor(
            c,
            t.root_id(),
            reg,
            scale::tracing::TraceDecodingVisitor::<scale_info::PortableRegistry>::default(),
        )
        .ok();
        if let (Ok(w), Some(g)) = (&strukt, &got) {
            check!(w == g, "TraceDecodingVisitor gives {} but decode_as_type {}", show(g), show(w));
        }
        agree("TraceDecodingVisitor", got.map(|v| comp(strip(&v))), c)?;
    }

    // --- encoding
    let exp = t.expected(t.root, &v);
    // sometimes an arbitrary value of the wrong shape
    let mut renamed = false;
    let val: Value<u32> = match s.below(8) {
        0 => {
            let n = s.below(fields.len() + 2);
            let c: Vec<Value<u32>> = match &exp.value {
                ValueDef::Composite(c) => {
                    let mut vs: Vec<Value<u32>> = crate::val::kids(c).into_iter().cloned().collect();
                    while vs.len() < n {
                        vs.push(Value { value: ValueDef::Primitive(Primitive::U128(1)), context: 0 });
                    }
                    vs.truncate(n);
                    vs
                }
                _ => vec![],
            };
            if fields.len() == 1 || n == 1 { exp.clone() } else { Value { value: ValueDef::Composite(Composite::Unnamed(c)), context: 1 } }
        }
        1 => {
            // reversed named fields
            match &exp.value {
                ValueDef::Composite(Composite::Named(vs)) => {
                    let mut vs = vs.clone();
                    vs.reverse();
                    Value { value: ValueDef::Composite(Composite::Named(vs)), context: 1 }
                }
                _ => exp.clone(),
            }
        }
        2 => match &exp.value {
            ValueDef::Composite(Composite::Named(vs)) if !vs.is_empty() => {
                let mut vs = vs.clone();
                let i = s.below(vs.len());
                if s.coin() {
                    // one of another name
                    renamed = true;
                    vs[i].0 = match s.below(3) {
                        0 => format!("{}_", vs[i].0),
                        1 => String::new(),
                        _ => vs[i].0.to_uppercase(),
                    };
                    if fields.iter().any(|f| f.name.as_ref() == Some(&vs[i].0)) {
                        vs[i].0 = "none of them".into();
                    }
                } else {
                    // and another
                    vs.insert(i, ("none of them".into(), Value { value: ValueDef::Primitive(Primitive::Bool(true)), context: 0 }));
                }
                Value { value: ValueDef::Composite(Composite::Named(vs)), context: 1 }
            }
            _ => exp.clone(),
        },
        _ => exp.clone(),
    };
    let ValueDef::Composite(c) = &val.value else { fail!("harness: not a composite") };
    let prefix = s.bytes(2);
    let enc = |f: &dyn Fn(&mut Vec<u8>) -> Result<(), scale_encode::Error>| {
        let mut out = prefix.clone();
        f(&mut out).map(|_| out).map_err(|e| e.to_string())
    };
    if renamed {
        obs.class("field of another name");
        let r = enc(&|o| c.encode_as_fields_to(&mut iter(), reg, o));
        check!(r.is_err(), "{} encodes to fields although one is missing: {r:?}", show(&val));
        let r = enc(&|o| val.encode_as_fields_to(&mut iter(), reg, o));
        check!(r.is_err(), "{} encodes to fields although one is missing: {r:?}", show(&val));
        if fields.len() == 1 {
            return Ok(());
        }
    }
    let a = enc(&|o| val.encode_as_type_to(t.root_id(), reg, o));
    let l = [
        ("Composite::encode_as_fields_to", enc(&|o| c.encode_as_fields_to(&mut iter(), reg, o))),
        ("Value::encode_as_fields_to", enc(&|o| val.encode_as_fields_to(&mut iter(), reg, o))),
        ("scale::encode_as_type", enc(&|o| scale::encode_as_type(&val, t.root_id(), reg, o))),
    ];
    for (what, r) in l {
        match (&a, &r) {
            (Ok(x), Ok(y)) => check!(x == y, "{what} of {} gives {} but encoding the struct {}", show(&val), hexs(y), hexs(x)),
            (Err(_), Err(_)) => {}
            // a struct of one field may also be encoded from a value of the inner type
            _ => fail!("{what} of {} gives {r:?} but encoding the struct {a:?}", show(&val)),
        }
    }
    if c == &match &exp.value { ValueDef::Composite(c) => c.clone(), _ => unreachable!() } {
        check!(a.is_ok(), "exactly shaped {} does not encode: {a:?}", show(&val));
        obs.class("fields encode");
    }
    // not composites
    let not = match s.below(3) {
        0 => Value::u128(s.below(4) as u128),
        1 => Value::variant("A", strip_c(c)),
        _ => Value::bit_sequence([true, false].into_iter().collect()),
    };
    let mut out = prefix.clone();
    check!(not.encode_as_fields_to(&mut iter(), reg, &mut out).is_err(), "{} is accepted as a field list", show(&not));
    Ok(())
}

fn c07_deep(_: &mut Obs) -> R {
    super::deep_ends("decode", 500, "none")?;
    super::deep_ends("decode", 100_000, "deep-nesting")
}
fn c08_deep(_: &mut Obs) -> R {
    super::deep_ends("tracing", 500, "none")?;
    super::deep_ends("tracing", 100_000, "deep-nesting")
}
