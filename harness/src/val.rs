//! Arbitrary values, their rendering, and helpers over value trees (written without using the
//! crate's own mapping functions).
use crate::src::Src;
use crate::ty::{gen_bits, gen_char, gen_string};
use scale_bits::Bits;
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};

#[derive(Clone, Copy)]
pub struct ValOpts {
    pub fuel: i32,
    pub max_depth: u32,
    pub allow_256: bool,
    /// 0: any string, 1: identifiers only, 2: mostly simple names
    pub field_names: u8,
    pub dup_names: bool,
    pub byte_lists: bool,
    pub ints_64: bool,
}
impl ValOpts {
    pub fn new(fuel: i32) -> ValOpts {
        ValOpts { fuel, max_depth: 8, allow_256: true, field_names: 0, dup_names: true, byte_lists: true, ints_64: false }
    }
}

pub const WORDS: &[&str] = &[
    "a", "b", "c", "foo", "bar", "name", "values", "Some", "None", "x1", "Foo_bar", "true", "false", "truex", "false_", "v",
    "vx", "日本", "é9", "type", "Ⅷ", "a٣", "x²", "V",
];
pub const ODD: &[&str] = &[
    "", " ", "a b", "0", "1x", "_", "_a", "a-b", "\"", "'", "\\", "\n", "v\"x\"", "(", "{", "a(", "日 本", "😀", "a\u{301}", "\0",
    "<", "__bitvec__values__", "tru", "-1", "a:b", "a,", "é\"", "\u{a0}", "\u{85}x", "\u{200b}",
];

pub fn is_ident(s: &str) -> bool {
    let mut cs = s.chars();
    match cs.next() {
        Some(c) if c.is_alphabetic() => cs.all(|c| c.is_alphanumeric() || c == '_'),
        _ => false,
    }
}

pub fn gen_ident(s: &mut Src) -> String {
    if crate::dict::chance(s, 32) {
        if let Some(t) = crate::dict::text(s).filter(|t| is_ident(t)) {
            return t;
        }
    }
    match s.weighted(&[6, 3, 2]) {
        0 => WORDS[s.below(8)].to_string(),
        1 => s.pick(WORDS).to_string(),
        _ => {
            let n = s.len(12);
            let mut out = String::new();
            for i in 0..=n {
                let mut c = gen_char(s);
                if s.ratio(1, 8) {
                    c = '_';
                }
                if i == 0 {
                    while !c.is_alphabetic() {
                        c = if c == 'b' { 'a' } else { 'b' };
                    }
                    out.push(c)
                } else if c.is_alphanumeric() || c == '_' {
                    out.push(c)
                }
            }
            out
        }
    }
}
pub fn gen_any_name(s: &mut Src) -> String {
    match s.weighted(&[10, 3, 2]) {
        0 => gen_ident(s),
        1 => s.pick(ODD).to_string(),
        _ => gen_string(s),
    }
}

struct G<'a> {
    s: &'a mut Src,
    o: ValOpts,
    fuel: i32,
    wide: bool,
}
impl<'a> G<'a> {
    fn fname(&mut self) -> String {
        match self.o.field_names {
            1 => gen_ident(self.s),
            2 => WORDS[self.s.below(8)].to_string(),
            _ => gen_any_name(self.s),
        }
    }
    fn prim(&mut self) -> Primitive {
        let s = &mut *self.s;
        match s.weighted(&[8, 5, 3, 4, 3, if self.o.allow_256 { 1 } else { 0 }, if self.o.allow_256 { 1 } else { 0 }]) {
            0 => {
                let b = if self.o.ints_64 { 64 } else { *s.pick(&[8, 128, 16, 32, 64, 128]) };
                Primitive::U128(s.uint(b))
            }
            1 => {
                let b = if self.o.ints_64 { 64 } else { *s.pick(&[8, 128, 16, 32, 64, 128]) };
                Primitive::I128(s.sint(b))
            }
            2 => Primitive::Bool(s.coin()),
            3 => Primitive::String(gen_string(s)),
            4 => Primitive::Char(gen_char(s)),
            5 => Primitive::U256(s.b256()),
            _ => Primitive::I256(s.b256()),
        }
    }
    fn comp(&mut self, d: u32) -> Composite<()> {
        if self.o.byte_lists && self.s.ratio(1, 10) {
            let mut n = self.s.len(40);
            if n >= 39 && self.s.ratio(1, 2) {
                n = *self.s.pick(&[63, 64, 127, 128, 129, 255, 256, 300]);
            }
            let hi = if self.s.ratio(1, 4) { 258 } else { 256 };
            return Composite::Unnamed((0..n).map(|_| {
                let v = if self.s.ratio(1, 12) { self.s.below(hi) } else { self.s.byte() as usize };
                Value::u128(v as u128)
            }).collect());
        }
        let n = if self.fuel <= 0 { 0 } else { self.s.len(6) };
        if n == 6 && !self.wide && self.s.ratio(1, 12) {
            self.wide = true;
            return self.wide(d);
        }
        if self.s.coin() {
            let mut out: Vec<(String, Value<()>)> = vec![];
            for _ in 0..n {
                let mut nm = self.fname();
                if !self.o.dup_names {
                    while out.iter().any(|(n, _)| *n == nm) {
                        nm.push('_');
                        if self.o.field_names == 1 && !is_ident(&nm) {
                            nm = format!("a{nm}");
                        }
                    }
                }
                let v = self.val(d + 1);
                out.push((nm, v));
            }
            Composite::Named(out)
        } else {
            Composite::Unnamed((0..n).map(|_| self.val(d + 1)).collect())
        }
    }
    /// Many entries from a few choices.
    fn wide(&mut self, d: u32) -> Composite<()> {
        let mut n = *self.s.pick(&[11, 12, 16, 17, 33, 64, 100, 129]);
        if n == 100 {
            n = crate::dict::size(self.s, 3, 5000).unwrap_or(n);
        }
        if n == 129 && self.s.ratio(1, 3) {
            n = *self.s.pick(&[255, 256, 257, 1023, 1024, 1025, 4096, 4097, 5000]);
        }
        n = crate::src::cap(n);
        self.fuel = self.fuel.min(8);
        let k = 1 + self.s.below(3);
        let base: Vec<Value<()>> = (0..k).map(|_| self.val(d + 1)).collect();
        self.fuel = 0;
        let mut vals: Vec<Value<()>> = base.iter().cycle().take(n).cloned().collect();
        let last = self.val(d + 1);
        let at = if self.s.coin() { self.s.below(n) } else { n - 1 };
        vals[at] = last;
        if self.s.coin() {
            return Composite::Unnamed(vals);
        }
        let nm = match self.o.field_names {
            1 | 2 => "k".to_string(),
            _ => self.fname(),
        };
        let dup = self.o.dup_names && self.s.ratio(1, 6);
        let mut out: Vec<(String, Value<()>)> = vals
            .into_iter()
            .enumerate()
            .map(|(i, v)| {
                let i = if dup { i / 2 } else { i };
                (format!("{nm}{i}"), v)
            })
            .collect();
        if self.o.field_names == 0 && self.s.ratio(1, 3) {
            let name = self.fname();
            if self.o.dup_names || out.iter().all(|(n, _)| *n != name) {
                out[at].0 = name;
            }
        }
        Composite::Named(out)
    }
    fn val(&mut self, d: u32) -> Value<()> {
        self.fuel -= 1;
        let leaf = self.fuel <= 0 || d >= self.o.max_depth;
        let k = if leaf { 0 } else if d == 0 { self.s.weighted(&[3, 7, 5, 1]) } else { self.s.weighted(&[6, 5, 3, 1]) };
        let def = match k {
            0 => ValueDef::Primitive(self.prim()),
            1 => ValueDef::Composite(self.comp(d)),
            2 => {
                let name = gen_any_name(self.s);
                ValueDef::Variant(Variant { name, values: self.comp(d) })
            }
            _ => {
                ValueDef::BitSequence(gen_bits(self.s, 0).into_iter().collect::<Bits>())
            }
        };
        Value { value: def, context: () }
    }
}

pub fn gen_value(s: &mut Src, o: ValOpts) -> Value<()> {
    // something long, and a long nested chain, now and then
    if o.max_depth >= 8 && s.ratio(1, 400) {
        return long(s, o);
    }
    let chain = if o.max_depth >= 8 && s.ratio(1, 40) { if s.ratio(1, 4) { crate::dict::size(s, 2, 40).unwrap_or(0) } else { s.below(40) } } else { 0 };
    let mut g = G { s, o, fuel: o.fuel, wide: false };
    let mut v = g.val(0);
    for _ in 0..chain {
        v = match g.s.below(3) {
            0 => Value::unnamed_composite([v]),
            1 => {
                let n = g.fname();
                Value::named_composite([(n, v)])
            }
            _ => {
                let n = gen_any_name(g.s);
                Value::unnamed_variant(n, [v])
            }
        };
    }
    v
}
/// A value with one long part: its entries, bits, text or name.
fn long(s: &mut Src, o: ValOpts) -> Value<()> {
    let n = *s.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 8193]);
    let n = if s.ratio(1, 3) { crate::dict::size(s, 3, 8192).unwrap_or(n) } else { n };
    // exceptionally very long
    let n = if s.ratio(1, 25) { *s.pick(&[16384, 32768, 65535, 65536, 65537, 70_001, 131_073]) } else { n };
    let n = crate::src::cap(n);
    let k = 1 + s.below(7);
    let small = n <= 4097;
    let text = |s: &mut Src| -> String {
        let c = gen_char(s);
        (0..n).map(|i| if i % (k + 1) == k { c } else { (b'a' + (i % 26) as u8) as char }).collect()
    };
    let v = match s.below(if small { 8 } else { 5 }) {
        0 => Value::bit_sequence((0..n).map(|i| i % (k + 1) == 0).collect()),
        1 => Value::string(text(s)),
        2 => Value::unnamed_composite((0..n).map(|i| Value::u128((i % (256 << (8 * (k % 2)))) as u128))),
        3 => Value::named_composite((0..n).map(|i| (format!("n{i}"), Value::u128(i as u128)))),
        5 => Value::unnamed_composite((0..n).map(|i| match (i * k) % 5 {
            0 => Value::bool(i % 2 == 0),
            1 => Value::i128(-(i as i128)),
            2 => Value::string(i.to_string()),
            3 => Value::unnamed_composite([]),
            _ => Value::unnamed_variant("V", [Value::u128(i as u128)]),
        })),
        4 => Value::variant(
            "Many".to_string(),
            match s.coin() {
                false => Composite::Unnamed((0..n).map(|i| Value::u128((i * k) as u128)).collect()),
                true => Composite::Named((0..n).map(|i| (format!("n{i}"), Value::bool(i % k == 0))).collect()),
            },
        ),
        6 if o.field_names == 0 => Value::named_composite([(text(s), Value::u128(k as u128)), ("x".to_string(), Value::bool(true))]),
        _ => Value::unnamed_variant((0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect::<String>(), [Value::u128(k as u128)]),
    };
    match s.below(4) {
        0 => Value::unnamed_composite([Value::u128(0), v, Value::bool(true)]),
        1 => Value::unnamed_variant("W", [v]),
        2 => Value::named_composite([("a".to_string(), v), ("b".to_string(), Value::u128(3))]),
        _ => v,
    }
}
pub fn rebuild<A, B>(
    v: &Value<A>,
    f: &mut dyn FnMut(&A) -> B,
    p: &dyn Fn(&Primitive) -> ValueDef<B>,
) -> Value<B> {
    let context = f(&v.context);
    let value = match &v.value {
        ValueDef::Composite(c) => ValueDef::Composite(rebuild_c(c, f, p)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: rebuild_c(&x.values, f, p) }),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
        ValueDef::Primitive(x) => p(x),
    };
    Value { value, context }
}
pub fn rebuild_c<A, B>(
    c: &Composite<A>,
    f: &mut dyn FnMut(&A) -> B,
    p: &dyn Fn(&Primitive) -> ValueDef<B>,
) -> Composite<B> {
    match c {
        Composite::Named(vs) => {
            let mut out = Vec::with_capacity(vs.len());
            for (n, v) in vs {
                out.push((n.clone(), rebuild(v, f, p)));
            }
            Composite::Named(out)
        }
        Composite::Unnamed(vs) => {
            let mut out = Vec::with_capacity(vs.len());
            for v in vs {
                out.push(rebuild(v, f, p));
            }
            Composite::Unnamed(out)
        }
    }
}
fn keep<B>(p: &Primitive) -> ValueDef<B> {
    ValueDef::Primitive(p.clone())
}
pub fn strip<A>(v: &Value<A>) -> Value<()> {
    rebuild(v, &mut |_| (), &keep)
}
pub fn strip_c<A>(c: &Composite<A>) -> Composite<()> {
    rebuild_c(c, &mut |_| (), &keep)
}
pub fn with_ctx<A, B>(v: &Value<A>, f: &mut dyn FnMut(&A) -> B) -> Value<B> {
    rebuild(v, f, &keep)
}
/// Non-negative signed numbers become unsigned.
pub fn norm_sign(v: &Value<()>) -> Value<()> {
    rebuild(v, &mut |_| (), &|p| {
        ValueDef::Primitive(match p {
            Primitive::I128(n) if *n >= 0 => Primitive::U128(*n as u128),
            p => p.clone(),
        })
    })
}
pub fn count_nodes<A>(v: &Value<A>) -> usize {
    let mut n = 0;
    rebuild(v, &mut |_| n += 1, &|p| ValueDef::Primitive(p.clone()));
    n
}
pub fn depth<A>(v: &Value<A>) -> usize {
    let c = match &v.value {
        ValueDef::Composite(c) => c,
        ValueDef::Variant(x) => &x.values,
        _ => return 0,
    };
    1 + kids(c).into_iter().map(depth).max().unwrap_or(0)
}
pub fn kids<A>(c: &Composite<A>) -> Vec<&Value<A>> {
    match c {
        Composite::Named(vs) => vs.iter().map(|(_, v)| v).collect(),
        Composite::Unnamed(vs) => vs.iter().collect(),
    }
}
pub fn any<A>(v: &Value<A>, f: &mut dyn FnMut(&Value<A>) -> bool) -> bool {
    if f(v) {
        return true;
    }
    match &v.value {
        ValueDef::Composite(c) => kids(c).into_iter().any(|v| any(v, f)),
        ValueDef::Variant(x) => kids(&x.values).into_iter().any(|v| any(v, f)),
        _ => false,
    }
}

pub trait ShowCtx {
    fn ctx(&self) -> String;
}
impl ShowCtx for () {
    fn ctx(&self) -> String {
        String::new()
    }
}
impl ShowCtx for u32 {
    fn ctx(&self) -> String {
        format!("@{self} ")
    }
}
impl ShowCtx for String {
    fn ctx(&self) -> String {
        format!("@{self:?} ")
    }
}
pub fn show<A: ShowCtx>(v: &Value<A>) -> String {
    let d = match &v.value {
        ValueDef::Composite(c) => show_c(c),
        ValueDef::Variant(x) => format!("{:?}{}", x.name, show_c(&x.values)),
        ValueDef::BitSequence(b) => format!("<{}>", b.iter().map(|b| if b { '1' } else { '0' }).collect::<String>()),
        ValueDef::Primitive(p) => match p {
            Primitive::Bool(b) => format!("{b}"),
            Primitive::Char(c) => format!("{c:?}"),
            Primitive::String(s) => format!("{s:?}"),
            Primitive::U128(n) => format!("{n}"),
            Primitive::I128(n) => format!("{n:+}"),
            Primitive::U256(b) => format!("U256({b:02x?})"),
            Primitive::I256(b) => format!("I256({b:02x?})"),
        },
    };
    format!("{}{d}", v.context.ctx())
}
pub fn show_c<A: ShowCtx>(c: &Composite<A>) -> String {
    match c {
        Composite::Named(vs) => {
            format!("{{{}}}", vs.iter().map(|(n, v)| format!("{n:?}: {}", show(v))).collect::<Vec<_>>().join(", "))
        }
        Composite::Unnamed(vs) => format!("({})", vs.iter().map(show).collect::<Vec<_>>().join(", ")),
    }
}
