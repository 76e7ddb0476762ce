//! Random type registries, model values of their types, and the reference SCALE codec for them.
use crate::src::Src;
use scale_bits::Bits;
use scale_info::{
    form::PortableForm, Field, Path, PortableRegistry, PortableType, Type, TypeDef, TypeDefArray,
    TypeDefBitSequence, TypeDefCompact, TypeDefComposite, TypeDefPrimitive, TypeDefSequence,
    TypeDefTuple, TypeDefVariant, Variant as InfoVariant,
};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};

pub type Tid = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum P {
    Bool,
    Char,
    Str,
    U(u32),
    I(u32),
}
#[derive(Clone, Debug)]
pub struct Fld {
    pub name: Option<String>,
    pub ty: Tid,
}
#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub index: u8,
    pub fields: Vec<Fld>,
}
#[derive(Clone, Debug)]
pub enum Ty {
    Prim(P),
    Seq(Tid),
    Arr(u32, Tid),
    Tup(Vec<Tid>),
    Struct(Vec<Fld>),
    Enum(Vec<Var>),
    Compact(Tid),
    /// store bits, msb order?
    Bits(u32, bool),
    /// A gap in the registry (an unrelated type).
    Hole,
}

pub struct Types {
    pub tys: Vec<Ty>,
    pub root: Tid,
    pub has256: bool,
    /// The reference decoder refuses lists of more items than this outright.
    pub cap: std::cell::Cell<u64>,
    /// Put a long list, string or bit sequence into the next value that has a place for one
    /// (1: thousands of items, 2: more than 65536).
    pub big: std::cell::Cell<u8>,
    in_run: std::cell::Cell<bool>,
    reg: std::cell::OnceCell<PortableRegistry>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Bool(bool),
    Char(char),
    Str(String),
    U(u128),
    I(i128),
    B256([u8; 32]),
    List(Vec<V>),
    Var(usize, Vec<V>),
    Bits(Vec<bool>),
}

/// Options for the type generator.
#[derive(Clone, Copy)]
pub struct TyOpts {
    pub fuel: i32,
    pub allow_256: bool,
    /// Struct/variant fields may be partly named.
    pub mixed: bool,
    /// Allow structs/tuples/arrays of exactly one element.
    pub wrappers: bool,
    /// Allow types whose values take no bytes as sequence elements.
    pub zst_elems: bool,
    pub recursion: bool,
    /// all variants' names etc drawn from simple identifiers
    pub plain_names: bool,
}
impl TyOpts {
    pub fn new(fuel: i32) -> TyOpts {
        TyOpts { fuel, allow_256: true, mixed: true, wrappers: true, zst_elems: true, recursion: true, plain_names: false }
    }
}

const NAMES: &[&str] = &[
    "a", "b", "c", "foo", "bar", "name", "values", "x", "Some", "None", "id", "hello_there", "true", "v", "r#type", "日本",
    "", "a b", "__bitvec__values__", "0", "é",
];
pub fn field_name(s: &mut Src, plain: bool) -> String {
    if !plain && crate::dict::chance(s, 32) {
        if let Some(t) = crate::dict::text(s) {
            return t;
        }
    }
    if !plain && s.ratio(1, 12) {
        return s.pick(NAMES).to_string();
    }
    let n = s.below(8);
    NAMES[n].to_string()
}
/// `n` distinct names.
pub fn distinct_names(s: &mut Src, n: usize, plain: bool) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for i in 0..n {
        let mut nm = field_name(s, plain);
        if out.contains(&nm) {
            nm = format!("{nm}{i}");
        }
        while out.contains(&nm) {
            nm.push('_');
        }
        out.push(nm);
    }
    out
}
const VNAMES: &[&str] = &["A", "B", "C", "Some", "None", "Foo", "Bar", "Ok", "Err", "true", "V", "éa", "a b", ""];

struct Gen<'a> {
    s: &'a mut Src,
    tys: Vec<Ty>,
    o: TyOpts,
    fuel: i32,
    /// enums under construction that may be referred to recursively
    open: Vec<Tid>,
    has256: Vec<bool>,
    zst: Vec<bool>,
    weight: Vec<u32>,
    done: Vec<bool>,
}

impl<'a> Gen<'a> {
    fn alloc(&mut self) -> Tid {
        // leave a gap in the registry now and then
        if self.s.ratio(1, 10) {
            self.push(Ty::Hole);
        }
        self.push(Ty::Hole)
    }
    fn push(&mut self, t: Ty) -> Tid {
        self.tys.push(t);
        self.has256.push(false);
        self.zst.push(false);
        self.weight.push(1);
        self.done.push(false);
        self.tys.len() - 1
    }
    fn fill(&mut self, id: Tid, t: Ty) -> Tid {
        let kids: Vec<Tid> = match &t {
            Ty::Seq(e) | Ty::Arr(_, e) | Ty::Compact(e) => vec![*e],
            Ty::Tup(es) => es.clone(),
            Ty::Struct(f) => f.iter().map(|f| f.ty).collect(),
            Ty::Enum(v) => v.iter().flat_map(|v| v.fields.iter().map(|f| f.ty)).collect(),
            _ => vec![],
        };
        self.has256[id] = kids.iter().any(|k| self.has256[*k]) || matches!(t, Ty::Prim(P::U(256)) | Ty::Prim(P::I(256)));
        self.zst[id] = match &t {
            Ty::Tup(_) | Ty::Struct(_) => kids.iter().all(|k| self.zst[*k]),
            Ty::Arr(n, e) => *n == 0 || self.zst[*e],
            _ => false,
        };
        self.weight[id] = match &t {
            Ty::Tup(_) | Ty::Struct(_) => 1 + kids.iter().map(|k| self.weight[*k]).sum::<u32>(),
            Ty::Arr(n, e) => 1 + n * self.weight[*e],
            Ty::Enum(vs) => {
                1 + vs.iter().map(|v| v.fields.iter().map(|f| self.weight[f.ty]).sum::<u32>()).max().unwrap_or(0)
            }
            _ => 1,
        };
        self.tys[id] = t;
        self.done[id] = true;
        id
    }
    fn prim(&mut self, tail: bool) -> P {
        match self.s.weighted(&[3, 12, 4, 3, 3, if tail && self.o.allow_256 { 1 } else { 0 }]) {
            0 => P::Bool,
            1 => P::U(*self.s.pick(&[8, 32, 16, 64, 128])),
            2 => P::I(*self.s.pick(&[8, 32, 16, 64, 128])),
            3 => P::Str,
            4 => P::Char,
            _ => *self.s.pick(&[P::U(256), P::I(256)]),
        }
    }
    fn fields(&mut self, n: usize, depth: u32, tail: bool) -> Vec<Fld> {
        // 0 = all unnamed, 1 = all named, 2 = mixed
        let mode = self.s.weighted(&[4, 6, if self.o.mixed { 1 } else { 0 }]);
        let names = distinct_names(self.s, n, self.o.plain_names);
        let mut out = vec![];
        for (i, nm) in names.into_iter().enumerate() {
            let name = match mode {
                0 => None,
                1 => Some(nm),
                _ => {
                    if self.s.coin() {
                        Some(nm)
                    } else {
                        None
                    }
                }
            };
            let ty = self.ty(depth + 1, tail && i + 1 == n);
            out.push(Fld { name, ty });
        }
        out
    }
    fn count(&mut self, max: usize) -> usize {
        let mut n = self.s.len(max);
        if n == max && self.s.ratio(1, 12) {
            n = crate::dict::size(self.s, 2, 70).unwrap_or(0).max(6 + self.s.below(60));
        }
        if n == 1 && !self.o.wrappers {
            2
        } else {
            n
        }
    }
    fn ty(&mut self, depth: u32, tail: bool) -> Tid {
        self.fuel -= 1;
        let tail_ok = tail;
        if depth > 0 && self.fuel > 0 && self.s.ratio(1, 7) {
            // share an existing type, or recurse into an open enum
            let mut cands: Vec<Tid> = (0..self.tys.len())
                .filter(|i| self.done[*i] && !matches!(self.tys[*i], Ty::Hole) && (!self.has256[*i] || tail_ok))
                .collect();
            cands.extend(self.open.iter().copied());
            if !cands.is_empty() {
                return *self.s.pick(&cands);
            }
        }
        let leaf = self.fuel <= 0 || depth > 7;
        let k = if leaf { 0 } else { self.s.weighted(&[5, 4, 2, 3, 5, 4, 2, 2]) };
        match k {
            0 => {
                let id = self.alloc();
                let p = self.prim(tail_ok);
                self.fill(id, Ty::Prim(p))
            }
            1 => {
                let id = self.alloc();
                let open = std::mem::take(&mut self.open);
                let mut open2 = open.clone();
                std::mem::swap(&mut self.open, &mut open2);
                let mut e = self.ty(depth + 1, false);
                if self.zst[e] && !self.o.zst_elems {
                    let i = self.alloc();
                    e = self.fill(i, Ty::Prim(P::U(8)));
                }
                self.open = open;
                self.fill(id, Ty::Seq(e))
            }
            2 => {
                let id = self.alloc();
                let mut n = self.s.len(6) as u32;
                if !self.o.wrappers && n == 1 {
                    n = 2;
                }
                let e = self.ty(depth + 1, tail_ok && n == 1);
                // exceptionally a long array of something small
                if n >= 4 && self.done[e] && self.weight[e] == 1 && self.s.ratio(1, 4) {
                    n = 32;
                    if self.s.ratio(1, 4) {
                        n = *self.s.pick(&[64, 65, 128, 255, 256, 257, 300, 1000]);
                        if !self.has256[e] && !self.zst[e] {
                            return self.fill(id, Ty::Arr(n, e));
                        }
                    }
                }
                while n > 0 && n * self.weight[e] > 120 && n > if self.o.wrappers { 1 } else { 2 } {
                    n /= 2;
                    if !self.o.wrappers && n == 1 {
                        n = 2;
                        break;
                    }
                }
                if self.has256[e] && n != 1 {
                    n = 0;
                }
                self.fill(id, Ty::Arr(n, e))
            }
            3 => {
                let id = self.alloc();
                let n = self.count(5);
                let es = (0..n).map(|i| self.ty(depth + 1, tail_ok && i + 1 == n)).collect();
                self.fill(id, Ty::Tup(es))
            }
            4 => {
                let id = self.alloc();
                let n = self.count(5);
                let f = self.fields(n, depth, tail_ok);
                self.fill(id, Ty::Struct(f))
            }
            5 => {
                let id = self.alloc();
                let n = 1 + self.s.len(4);
                let recursive = self.o.recursion && self.s.ratio(1, 3);
                let mut vs: Vec<Var> = vec![];
                let mut used: Vec<u8> = vec![];
                for i in 0..n {
                    let mut name = if self.o.plain_names {
                        VNAMES[self.s.below(9)].to_string()
                    } else {
                        self.s.pick(VNAMES).to_string()
                    };
                    if vs.iter().any(|v| v.name == name) {
                        name = format!("{name}{i}");
                    }
                    let mut index = if self.s.coin() { i as u8 } else { self.s.byte() };
                    while used.contains(&index) {
                        index = index.wrapping_add(1);
                    }
                    used.push(index);
                    let nf = if recursive && i == 0 { 0 } else { self.s.len(4) };
                    if recursive {
                        self.open.push(id);
                    }
                    let fields = self.fields(nf, depth, tail_ok && !recursive);
                    if recursive {
                        self.open.pop();
                    }
                    vs.push(Var { name, index, fields });
                }
                if n == 5 && self.s.ratio(1, 10) {
                    // up to every index there is
                    let more = self.s.below(252);
                    let unit = self.alloc();
                    self.fill(unit, Ty::Prim(P::U(8)));
                    for i in 0..more {
                        let mut index = (i + 1) as u8;
                        while used.contains(&index) {
                            index = index.wrapping_add(1);
                        }
                        used.push(index);
                        let fields = if i % 3 == 0 { vec![Fld { name: None, ty: unit }] } else { vec![] };
                        let fields = if self.o.wrappers { fields } else { vec![] };
                        vs.push(Var { name: format!("W{i}"), index, fields });
                    }
                }
                self.fill(id, Ty::Enum(vs))
            }
            6 => {
                let id = self.alloc();
                let layers = if self.o.wrappers { self.s.weighted(&[5, 1, 1]) } else { 0 };
                let inner = self.compact_inner(layers);
                self.fill(id, Ty::Compact(inner))
            }
            _ => {
                let id = self.alloc();
                let st = *self.s.pick(&[8, 16, 32, 64]);
                let msb = self.s.coin();
                self.fill(id, Ty::Bits(st, msb))
            }
        }
    }
    fn compact_inner(&mut self, layers: usize) -> Tid {
        let id = self.alloc();
        if layers == 0 {
            let p = P::U(*self.s.pick(&[8, 16, 32, 64, 128]));
            return self.fill(id, Ty::Prim(p));
        }
        let inner = self.compact_inner(layers - 1);
        let t = match self.s.below(3) {
            0 => Ty::Tup(vec![inner]),
            1 => Ty::Struct(vec![Fld { name: None, ty: inner }]),
            _ => Ty::Struct(vec![Fld { name: Some(field_name(self.s, self.o.plain_names)), ty: inner }]),
        };
        self.fill(id, t)
    }
}

pub fn gen_types(s: &mut Src, o: TyOpts) -> Types {
    let mut g = Gen { s, tys: vec![], fuel: o.fuel, o, open: vec![], has256: vec![], zst: vec![], weight: vec![], done: vec![] };
    let root = g.ty(0, true);
    let has256 = g.has256[root];
    Types { tys: g.tys, root, has256, cap: u64::MAX.into(), big: 0.into(), in_run: false.into(), reg: Default::default() }
}

fn fld(f: &Fld) -> Field<PortableForm> {
    Field { name: f.name.clone(), ty: (f.ty as u32).into(), type_name: None, docs: vec![] }
}

/// The parts of a value.
fn nodes(v: &V) -> usize {
    match v {
        V::List(vs) | V::Var(_, vs) => 1 + vs.iter().map(nodes).sum::<usize>(),
        _ => 1,
    }
}

impl Types {
    pub fn from_tys(tys: Vec<Ty>, root: Tid) -> Types {
        Types { tys, root, has256: false, cap: u64::MAX.into(), big: 0.into(), in_run: false.into(), reg: Default::default() }
    }
    pub fn push(&mut self, t: Ty) -> Tid {
        assert!(self.reg.get().is_none());
        self.tys.push(t);
        self.tys.len() - 1
    }
    pub fn root_id(&self) -> u32 {
        self.root as u32
    }
    pub fn reg(&self) -> &PortableRegistry {
        self.reg.get_or_init(|| self.build())
    }
    fn build(&self) -> PortableRegistry {
        let n = self.tys.len() as u32;
        let uid = |bits: u32| n + [8, 16, 32, 64].iter().position(|b| *b == bits).unwrap() as u32;
        let (lsb, msb) = (n + 4, n + 5);
        let mut types = vec![];
        let path = |segs: &[&str]| Path::<PortableForm> { segments: segs.iter().map(|s| s.to_string()).collect() };
        let mut add = |p: Path<PortableForm>, d: TypeDef<PortableForm>| {
            let id = types.len() as u32;
            types.push(PortableType { id, ty: Type::new(p, vec![], d, vec![]) });
        };
        let none: &[&str] = &[];
        for t in &self.tys {
            let d: TypeDef<PortableForm> = match t {
                Ty::Hole => TypeDef::Composite(TypeDefComposite { fields: vec![] }),
                Ty::Prim(p) => TypeDef::Primitive(match p {
                    P::Bool => TypeDefPrimitive::Bool,
                    P::Char => TypeDefPrimitive::Char,
                    P::Str => TypeDefPrimitive::Str,
                    P::U(8) => TypeDefPrimitive::U8,
                    P::U(16) => TypeDefPrimitive::U16,
                    P::U(32) => TypeDefPrimitive::U32,
                    P::U(64) => TypeDefPrimitive::U64,
                    P::U(128) => TypeDefPrimitive::U128,
                    P::U(_) => TypeDefPrimitive::U256,
                    P::I(8) => TypeDefPrimitive::I8,
                    P::I(16) => TypeDefPrimitive::I16,
                    P::I(32) => TypeDefPrimitive::I32,
                    P::I(64) => TypeDefPrimitive::I64,
                    P::I(128) => TypeDefPrimitive::I128,
                    P::I(_) => TypeDefPrimitive::I256,
                }),
                Ty::Seq(e) => TypeDef::Sequence(TypeDefSequence::new((*e as u32).into())),
                Ty::Arr(n, e) => TypeDef::Array(TypeDefArray::new(*n, (*e as u32).into())),
                Ty::Tup(es) => TypeDef::Tuple(TypeDefTuple::new_portable(es.iter().map(|e| (*e as u32).into()))),
                Ty::Struct(f) => TypeDef::Composite(TypeDefComposite { fields: f.iter().map(fld).collect() }),
                Ty::Enum(vs) => TypeDef::Variant(TypeDefVariant {
                    variants: vs
                        .iter()
                        .map(|v| InfoVariant {
                            name: v.name.clone(),
                            fields: v.fields.iter().map(fld).collect(),
                            index: v.index,
                            docs: vec![],
                        })
                        .collect(),
                }),
                Ty::Compact(e) => TypeDef::Compact(TypeDefCompact::new((*e as u32).into())),
                Ty::Bits(st, m) => {
                    TypeDef::BitSequence(TypeDefBitSequence::new_portable(uid(*st).into(), (if *m { msb } else { lsb }).into()))
                }
            };
            add(path(if matches!(t, Ty::Struct(_) | Ty::Enum(_)) { &["my", "Type"] } else { none }), d);
        }
        for p in [TypeDefPrimitive::U8, TypeDefPrimitive::U16, TypeDefPrimitive::U32, TypeDefPrimitive::U64] {
            add(path(none), TypeDef::Primitive(p));
        }
        add(path(&["bitvec", "order", "Lsb0"]), TypeDef::Composite(TypeDefComposite { fields: vec![] }));
        add(path(&["bitvec", "order", "Msb0"]), TypeDef::Composite(TypeDefComposite { fields: vec![] }));
        PortableRegistry { types }
    }

    /// Readable form; structs and enums are spelled out once.
    pub fn show(&self, t: Tid) -> String {
        let mut out = String::new();
        self.show_d(t, &mut vec![], &mut out);
        out
    }
    fn show_d(&self, t: Tid, seen: &mut Vec<Tid>, o: &mut String) {
        use std::fmt::Write;
        let named = matches!(self.tys[t], Ty::Struct(_) | Ty::Enum(_));
        if named {
            if seen.contains(&t) {
                let _ = write!(o, "#{t}");
                return;
            }
            seen.push(t);
        }
        let mut fs = |f: &Vec<Fld>, o: &mut String| {
            for (i, f) in f.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                if let Some(n) = &f.name {
                    let _ = write!(o, "{n:?}: ");
                }
                self.show_d(f.ty, seen, o);
            }
        };
        match &self.tys[t] {
            Ty::Hole => o.push_str("hole"),
            Ty::Prim(P::U(b)) => drop(write!(o, "u{b}")),
            Ty::Prim(P::I(b)) => drop(write!(o, "i{b}")),
            Ty::Prim(p) => o.push_str(&format!("{p:?}").to_lowercase()),
            Ty::Seq(e) => {
                o.push_str("Vec<");
                self.show_d(*e, seen, o);
                o.push('>');
            }
            Ty::Arr(n, e) => {
                o.push('[');
                self.show_d(*e, seen, o);
                let _ = write!(o, "; {n}]");
            }
            Ty::Tup(es) => {
                o.push_str("tup(");
                fs(&es.iter().map(|e| Fld { name: None, ty: *e }).collect(), o);
                o.push(')');
            }
            Ty::Struct(f) => {
                let _ = write!(o, "struct#{t}{{");
                fs(f, o);
                o.push('}');
            }
            Ty::Enum(vs) => {
                let _ = write!(o, "enum#{t}{{");
                for (i, v) in vs.iter().enumerate() {
                    let _ = write!(o, "{}{:?}={}(", if i > 0 { " | " } else { "" }, v.name, v.index);
                    fs(&v.fields, o);
                    o.push(')');
                }
                o.push('}');
            }
            Ty::Compact(e) => {
                o.push_str("Compact<");
                self.show_d(*e, seen, o);
                o.push('>');
            }
            Ty::Bits(st, m) => drop(write!(o, "Bits<u{st},{}>", if *m { "Msb0" } else { "Lsb0" })),
        }
    }

    /// All fields named (and at least one)?
    pub fn named(f: &[Fld]) -> bool {
        !f.is_empty() && f.iter().all(|f| f.name.is_some())
    }

    // ---------------------------------------------------------------- values

    pub fn gen_val(&self, s: &mut Src, t: Tid, fuel: &mut i32) -> V {
        *fuel -= 1;
        match &self.tys[t] {
            Ty::Hole => V::List(vec![]),
            Ty::Prim(P::Str) if self.big.get() > 0 && s.ratio(1, 4) => {
                let n = big_len(s, self.big.replace(0) as usize);
                V::Str(long_string(s, n))
            }
            Ty::Prim(p) => gen_prim(s, *p),
            Ty::Seq(e) => {
                let n = if *fuel <= 0 { 0 } else { s.len((*fuel as usize).min(12)) };
                // now and then a long sequence of something small
                let n = if n == 12 && matches!(self.tys[*e], Ty::Prim(P::U(8)) | Ty::Prim(P::Bool)) { 60 + s.below(30) } else { n };
                let slow = self.zst(*e) && !matches!(&self.tys[*e], Ty::Tup(es) if es.is_empty());
                if self.big.get() > 0 && !slow && s.coin() {
                    let small = matches!(self.tys[*e], Ty::Prim(P::Bool | P::U(8..=32) | P::I(8..=32)) | Ty::Enum(_));
                    let n = big_len(s, if small && self.big.get() > 1 { 2 } else { 1 });
                    self.big.set(0);
                    return self.gen_run(s, *e, n, true, fuel);
                }
                V::List((0..n).map(|_| self.gen_val(s, *e, fuel)).collect())
            }
            Ty::Arr(n, e) if *n > 64 => self.gen_run(s, *e, *n as usize, false, fuel),
            Ty::Arr(n, e) => V::List((0..*n).map(|_| self.gen_val(s, *e, fuel)).collect()),
            Ty::Tup(es) => V::List(es.iter().map(|e| self.gen_val(s, *e, fuel)).collect()),
            Ty::Struct(f) => V::List(f.iter().map(|f| self.gen_val(s, f.ty, fuel)).collect()),
            Ty::Enum(vs) => {
                let i = if *fuel <= 0 { 0 } else { s.below(vs.len()) };
                V::Var(i, vs[i].fields.iter().map(|f| self.gen_val(s, f.ty, fuel)).collect())
            }
            Ty::Compact(e) => self.gen_compact(s, *e),
            Ty::Bits(_, _) => {
                let big = if s.ratio(1, 4) { self.big.replace(0) } else { 0 };
                V::Bits(gen_bits(s, big))
            }
        }
    }
    /// `n` items from a handful of choices: some generated ones over and over, and others at the end.
    fn gen_run(&self, s: &mut Src, e: Tid, n: usize, may_cut: bool, fuel: &mut i32) -> V {
        // (runs within runs get out of hand)
        let inner = self.in_run.replace(true);
        let mut f = if inner { 0 } else { (*fuel / 2).min(6) };
        *fuel -= 6;
        let k = 1 + s.below(4);
        let mut base: Vec<V> = (0..k).map(|_| self.gen_val(s, e, &mut f)).collect();
        // (as do runs of large things)
        if base.iter().map(nodes).sum::<usize>() * n > 20_000 * k {
            self.in_run.set(true);
            self.big.set(0);
            f = 0;
            base = vec![self.gen_val(s, e, &mut f)];
        }
        let n = if may_cut { n.min(150_000 / base.iter().map(nodes).max().unwrap_or(1)) } else { n };
        let mut out: Vec<V> = base.iter().cycle().take(n).cloned().collect();
        for i in 0..s.below(3).min(n) {
            let at = if i == 0 { n - 1 } else { s.below(n) };
            out[at] = self.gen_val(s, e, &mut f);
        }
        self.in_run.set(inner);
        V::List(out)
    }
    /// Do values of the type take up no bytes at all?
    pub fn zst(&self, t: Tid) -> bool {
        match &self.tys[t] {
            Ty::Hole => true,
            Ty::Tup(es) => es.iter().all(|e| self.zst(*e)),
            Ty::Struct(f) => f.iter().all(|f| self.zst(f.ty)),
            Ty::Arr(n, e) => *n == 0 || self.zst(*e),
            _ => false,
        }
    }
    /// Are there lists of items that take up no bytes?
    pub fn zst_lists(&self) -> bool {
        self.tys.iter().any(|t| matches!(t, Ty::Seq(e) if self.zst(*e)))
    }
    fn gen_compact(&self, s: &mut Src, t: Tid) -> V {
        match &self.tys[t] {
            Ty::Prim(P::U(b)) => V::U(if s.coin() {
                s.uint(*b)
            } else {
                let max = if *b >= 128 { u128::MAX } else { (1u128 << b) - 1 };
                let base = *s.pick(&[0u128, 63, 64, 16383, 16384, (1 << 30) - 1, 1 << 30, (1 << 32) - 1, 1 << 32, 1 << 56, 1 << 64, 1 << 120]);
                (base + s.below(2) as u128).min(max)
            }),
            Ty::Tup(es) => V::List(vec![self.gen_compact(s, es[0])]),
            Ty::Struct(f) => V::List(vec![self.gen_compact(s, f[0].ty)]),
            _ => unreachable!(),
        }
    }

    /// The canonical encoding.
    pub fn enc(&self, t: Tid, v: &V, out: &mut Vec<u8>) {
        self.enc_c(t, v, false, out)
    }
    pub fn encode(&self, t: Tid, v: &V) -> Vec<u8> {
        let mut o = vec![];
        self.enc(t, v, &mut o);
        o
    }
    fn enc_c(&self, t: Tid, v: &V, compact: bool, out: &mut Vec<u8>) {
        match (&self.tys[t], v) {
            (Ty::Hole, _) => {}
            (Ty::Prim(P::Bool), V::Bool(b)) => out.push(*b as u8),
            (Ty::Prim(P::Char), V::Char(c)) => out.extend((*c as u32).to_le_bytes()),
            (Ty::Prim(P::Str), V::Str(x)) => {
                compact_enc(x.len() as u128, out);
                out.extend(x.as_bytes())
            }
            (Ty::Prim(P::U(_)), V::U(n)) if compact => compact_enc(*n, out),
            (Ty::Prim(P::U(b)), V::U(n)) => out.extend(&n.to_le_bytes()[..*b as usize / 8]),
            (Ty::Prim(P::I(b)), V::I(n)) => out.extend(&n.to_le_bytes()[..*b as usize / 8]),
            (Ty::Prim(_), V::B256(b)) => out.extend(b),
            (Ty::Seq(e), V::List(vs)) => {
                compact_enc(vs.len() as u128, out);
                vs.iter().for_each(|v| self.enc(*e, v, out))
            }
            (Ty::Arr(_, e), V::List(vs)) => vs.iter().for_each(|v| self.enc_c(*e, v, compact, out)),
            (Ty::Tup(es), V::List(vs)) => es.iter().zip(vs).for_each(|(e, v)| self.enc_c(*e, v, compact, out)),
            (Ty::Struct(f), V::List(vs)) => f.iter().zip(vs).for_each(|(f, v)| self.enc_c(f.ty, v, compact, out)),
            (Ty::Enum(xs), V::Var(i, vs)) => {
                out.push(xs[*i].index);
                xs[*i].fields.iter().zip(vs).for_each(|(f, v)| self.enc(f.ty, v, out))
            }
            (Ty::Compact(e), v) => self.enc_c(*e, v, true, out),
            (Ty::Bits(st, msb), V::Bits(bits)) => bits_enc(bits, *st, *msb, out),
            (t, v) => panic!("harness: value {v:?} does not fit type {t:?}"),
        }
    }

    /// The value decoding must produce.
    pub fn expected(&self, t: Tid, v: &V) -> Value<u32> {
        let def = match (&self.tys[t], v) {
            (Ty::Compact(e), v) => return self.expected(*e, v),
            (Ty::Hole, _) => ValueDef::Composite(Composite::Unnamed(vec![])),
            (_, V::Bool(b)) => ValueDef::Primitive(Primitive::Bool(*b)),
            (_, V::Char(c)) => ValueDef::Primitive(Primitive::Char(*c)),
            (_, V::Str(x)) => ValueDef::Primitive(Primitive::String(x.clone())),
            (_, V::U(n)) => ValueDef::Primitive(Primitive::U128(*n)),
            (_, V::I(n)) => ValueDef::Primitive(Primitive::I128(*n)),
            (Ty::Prim(P::U(_)), V::B256(b)) => ValueDef::Primitive(Primitive::U256(*b)),
            (_, V::B256(b)) => ValueDef::Primitive(Primitive::I256(*b)),
            (Ty::Seq(e), V::List(vs)) | (Ty::Arr(_, e), V::List(vs)) => {
                ValueDef::Composite(Composite::Unnamed(vs.iter().map(|v| self.expected(*e, v)).collect()))
            }
            (Ty::Tup(es), V::List(vs)) => {
                ValueDef::Composite(Composite::Unnamed(es.iter().zip(vs).map(|(e, v)| self.expected(*e, v)).collect()))
            }
            (Ty::Struct(f), V::List(vs)) => ValueDef::Composite(self.expected_fields(f, vs)),
            (Ty::Enum(xs), V::Var(i, vs)) => ValueDef::Variant(Variant {
                name: xs[*i].name.clone(),
                values: self.expected_fields(&xs[*i].fields, vs),
            }),
            (_, V::Bits(b)) => ValueDef::BitSequence(b.iter().copied().collect::<Bits>()),
            (t, v) => panic!("harness: value {v:?} does not fit type {t:?}"),
        };
        Value { value: def, context: t as u32 }
    }
    pub fn expected_fields(&self, f: &[Fld], vs: &[V]) -> Composite<u32> {
        let vals: Vec<Value<u32>> = f.iter().zip(vs).map(|(f, v)| self.expected(f.ty, v)).collect();
        if Types::named(f) {
            Composite::Named(f.iter().map(|f| f.name.clone().unwrap()).zip(vals).collect())
        } else {
            Composite::Unnamed(vals)
        }
    }

    // ---------------------------------------------------------------- reference decoder

    pub fn dec(&self, t: Tid, data: &mut &[u8]) -> Result<Value<u32>, DErr> {
        self.dec_c(t, data, false)
    }
    fn dec_c(&self, t: Tid, data: &mut &[u8], compact: bool) -> Result<Value<u32>, DErr> {
        let val = |d: ValueDef<u32>| Ok(Value { value: d, context: t as u32 });
        let prim = |p: Primitive| Ok(Value { value: ValueDef::Primitive(p), context: t as u32 });
        match &self.tys[t] {
            Ty::Hole => val(ValueDef::Composite(Composite::Unnamed(vec![]))),
            Ty::Prim(P::U(b)) if compact => {
                let n = compact_dec(data)?;
                if *b < 128 && n >> b != 0 {
                    return Err(DErr::here());
                }
                prim(Primitive::U128(n))
            }
            Ty::Prim(p) => match p {
                P::Bool => match take(data, 1)?[0] {
                    0 => prim(Primitive::Bool(false)),
                    1 => prim(Primitive::Bool(true)),
                    _ => Err(DErr::here()),
                },
                P::Char => {
                    let b = take(data, 4)?;
                    let c = char::from_u32(u32::from_le_bytes(b.try_into().unwrap())).ok_or(DErr::here())?;
                    prim(Primitive::Char(c))
                }
                P::Str => {
                    let n = compact_dec(data)?;
                    if n > u32::MAX as u128 {
                        return Err(DErr::here());
                    }
                    let b = take(data, n as usize)?;
                    let x = std::str::from_utf8(b).map_err(|_| DErr::here())?;
                    prim(Primitive::String(x.to_string()))
                }
                P::U(256) | P::I(256) => {
                    // (only decodable at the very end of the input)
                    if data.len() != 32 {
                        return Err(DErr::here());
                    }
                    let b: [u8; 32] = take(data, 32)?.try_into().unwrap();
                    prim(if matches!(p, P::U(_)) { Primitive::U256(b) } else { Primitive::I256(b) })
                }
                P::U(n) | P::I(n) => {
                    let k = *n as usize / 8;
                    let b = take(data, k)?;
                    let mut w = [0u8; 16];
                    w[..k].copy_from_slice(b);
                    if matches!(p, P::U(_)) {
                        prim(Primitive::U128(u128::from_le_bytes(w)))
                    } else {
                        if b[k - 1] >= 128 {
                            w[k..].iter_mut().for_each(|x| *x = 0xff);
                        }
                        prim(Primitive::I128(i128::from_le_bytes(w)))
                    }
                }
            },
            Ty::Seq(e) => {
                let n = compact_dec(data)?;
                if n > u64::MAX as u128 {
                    return Err(DErr::here());
                }
                let c = self.dec_list(n as u64, data, &mut |_| *e, false).map_err(|e| e.map(ValueDef::Composite, t))?;
                val(ValueDef::Composite(c))
            }
            Ty::Arr(n, e) => {
                let c = self.dec_list(*n as u64, data, &mut |_| *e, false).map_err(|e| e.map(ValueDef::Composite, t))?;
                val(ValueDef::Composite(c))
            }
            Ty::Tup(es) => {
                let c = self
                    .dec_list(es.len() as u64, data, &mut |i| es[i], compact)
                    .map_err(|e| e.map(ValueDef::Composite, t))?;
                val(ValueDef::Composite(c))
            }
            Ty::Struct(f) => {
                let c = self.dec_fields(f, data, compact).map_err(|e| e.map(ValueDef::Composite, t))?;
                val(ValueDef::Composite(c))
            }
            Ty::Enum(vs) => {
                let i = take(data, 1)?[0];
                let v = vs.iter().find(|v| v.index == i).ok_or(DErr::here())?;
                let mk = |c| ValueDef::Variant(Variant { name: v.name.clone(), values: c });
                let c = self.dec_fields(&v.fields, data, false).map_err(|mut e| {
                    e.path.insert(0, v.name.clone());
                    e.map(mk, t)
                })?;
                val(mk(c))
            }
            Ty::Compact(e) => self.dec_c(*e, data, true),
            Ty::Bits(st, msb) => {
                let n = compact_dec(data)?;
                if n > u32::MAX as u128 {
                    return Err(DErr::here());
                }
                let n = n as usize;
                let bytes = take(data, n.div_ceil(*st as usize) * (*st as usize / 8))?;
                val(ValueDef::BitSequence(bits_dec(bytes, n, *st, *msb).into_iter().collect()))
            }
        }
    }
    fn dec_list(
        &self,
        n: u64,
        data: &mut &[u8],
        ty: &mut dyn FnMut(usize) -> Tid,
        compact: bool,
    ) -> Result<Composite<u32>, DErr<Composite<u32>>> {
        if n > self.cap.get() {
            return Err(DErr::here());
        }
        let mut vals = vec![];
        for i in 0..n {
            match self.dec_c(ty(i as usize), data, compact) {
                Ok(v) => vals.push(v),
                Err(mut e) => {
                    e.path.insert(0, format!("[{i}]"));
                    vals.extend(e.partial);
                    return Err(DErr { path: e.path, partial: Some(Composite::Unnamed(vals)) });
                }
            }
        }
        Ok(Composite::Unnamed(vals))
    }
    pub fn dec_fields(&self, f: &[Fld], data: &mut &[u8], compact: bool) -> Result<Composite<u32>, DErr<Composite<u32>>> {
        if !Types::named(f) {
            return self.dec_list(f.len() as u64, data, &mut |i| f[i].ty, compact);
        }
        let mut vals = vec![];
        for f in f {
            let name = f.name.clone().unwrap();
            match self.dec_c(f.ty, data, compact) {
                Ok(v) => vals.push((name, v)),
                Err(mut e) => {
                    e.path.insert(0, name.clone());
                    vals.extend(e.partial.map(|p| (name, p)));
                    return Err(DErr { path: e.path, partial: Some(Composite::Named(vals)) });
                }
            }
        }
        Ok(Composite::Named(vals))
    }
}

/// Where reference decoding failed (segments from this node inwards), and what was decoded of it.
#[derive(Debug, Clone)]
pub struct DErr<T = Value<u32>> {
    pub path: Vec<String>,
    pub partial: Option<T>,
}
impl<T> DErr<T> {
    fn here() -> DErr<T> {
        DErr { path: vec![], partial: None }
    }
    fn map(self, f: impl FnOnce(T) -> ValueDef<u32>, t: Tid) -> DErr<Value<u32>> {
        DErr { path: self.path, partial: self.partial.map(|c| Value { value: f(c), context: t as u32 }) }
    }
}

fn take<'a>(data: &mut &'a [u8], n: usize) -> Result<&'a [u8], DErr> {
    if data.len() < n {
        return Err(DErr::here());
    }
    let (a, b) = data.split_at(n);
    *data = b;
    Ok(a)
}

pub fn compact_enc(n: u128, out: &mut Vec<u8>) {
    if n < 64 {
        out.push((n as u8) << 2)
    } else if n < 1 << 14 {
        out.extend(((n as u16) << 2 | 1).to_le_bytes())
    } else if n < 1 << 30 {
        out.extend(((n as u32) << 2 | 2).to_le_bytes())
    } else {
        let len = (16 - n.leading_zeros() as usize / 8).max(4);
        out.push(((len - 4) as u8) << 2 | 3);
        out.extend(&n.to_le_bytes()[..len]);
    }
}

/// Canonical compact numbers of at most 128 bits.
pub fn compact_dec(data: &mut &[u8]) -> Result<u128, DErr> {
    let orig = *data;
    let b0 = take(data, 1)?[0];
    let n = match b0 & 3 {
        0 => (b0 >> 2) as u128,
        1 => {
            let b1 = take(data, 1)?[0];
            (u16::from_le_bytes([b0, b1]) >> 2) as u128
        }
        2 => {
            let r = take(data, 3)?;
            (u32::from_le_bytes([b0, r[0], r[1], r[2]]) >> 2) as u128
        }
        _ => {
            let len = (b0 >> 2) as usize + 4;
            if len > 16 {
                return Err(DErr::here());
            }
            let r = take(data, len)?;
            let mut w = [0u8; 16];
            w[..len].copy_from_slice(r);
            u128::from_le_bytes(w)
        }
    };
    let used = orig.len() - data.len();
    let mut canon = vec![];
    compact_enc(n, &mut canon);
    if canon != orig[..used] {
        return Err(DErr::here());
    }
    Ok(n)
}

pub fn bits_enc(bits: &[bool], store: u32, msb: bool, out: &mut Vec<u8>) {
    compact_enc(bits.len() as u128, out);
    for chunk in bits.chunks(store as usize) {
        let mut w = 0u64;
        for (i, b) in chunk.iter().enumerate() {
            if *b {
                w |= 1 << if msb { store as usize - 1 - i } else { i };
            }
        }
        out.extend(&w.to_le_bytes()[..store as usize / 8]);
    }
}
fn bits_dec(bytes: &[u8], n: usize, store: u32, msb: bool) -> Vec<bool> {
    let sb = store as usize / 8;
    (0..n)
        .map(|i| {
            let k = i / store as usize;
            let mut w = [0u8; 8];
            w[..sb].copy_from_slice(&bytes[k * sb..(k + 1) * sb]);
            let w = u64::from_le_bytes(w);
            let j = i % store as usize;
            w >> (if msb { store as usize - 1 - j } else { j }) & 1 == 1
        })
        .collect()
}

pub fn gen_char(s: &mut Src) -> char {
    match s.weighted(&[7, 4, 3, 2, 1]) {
        4 => crate::dict::ch(s).unwrap_or('a'),
        0 => (b'a' + s.below(26) as u8) as char,
        1 => *s.pick(&['\'', '"', '\\', '\n', '\t', '\r', '\0', ' ', '(', '{', ',', ':', '<', '>', '_', '0', '9', '-', '+', ')', '}', '/', '\u{7f}', '\u{1b}']),
        2 => *s.pick(&['é', 'ß', '日', '😀', '\u{a0}', '\u{85}', '\u{2003}', '\u{feff}', '٣', 'Ⅷ', '²', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{200b}', '\u{301}']),
        _ => {
            let n = s.below(0x110000) as u32;
            char::from_u32(n).unwrap_or('a')
        }
    }
}
/// A length around the points where the width of an encoded length changes.
pub fn big_len(s: &mut Src, level: usize) -> usize {
    crate::src::cap(big_len_any(s, level))
}
fn big_len_any(s: &mut Src, level: usize) -> usize {
    if s.ratio(1, 3) {
        if let Some(n) = crate::dict::size(s, 4, 20_000) {
            return n;
        }
    }
    if level > 1 {
        *s.pick(&[65535, 65536, 65537, 70000, 100_001, 131_079])
    } else {
        *s.pick(&[63, 64, 65, 127, 128, 255, 256, 257, 300, 1000, 1025, 4096, 16383, 16384, 16385])
    }
}
/// About `n` bytes of text.
pub fn long_string(s: &mut Src, n: usize) -> String {
    let k = 1 + s.below(5);
    let unit: String = (0..k).map(|_| gen_char(s)).collect();
    let mut out = String::with_capacity(n + 8);
    while out.len() + unit.len() <= n {
        out.push_str(&unit);
    }
    while out.len() < n {
        out.push('z');
    }
    out
}
pub fn gen_bits(s: &mut Src, big: u8) -> Vec<bool> {
    let n = if big > 0 {
        big_len(s, big as usize)
    } else if s.ratio(1, 10) {
        *s.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 200, 256])
    } else {
        s.len(70)
    };
    if n > 300 || s.ratio(1, 4) {
        // all ones, all zeros, a short pattern
        let k = s.weighted(&[3, 2, 3]);
        let mut v: Vec<bool> = match k {
            0 => vec![true; n],
            1 => vec![false; n],
            _ => {
                let w = 1 + s.below(9);
                let unit: Vec<bool> = (0..w).map(|_| s.coin()).collect();
                unit.into_iter().cycle().take(n).collect()
            }
        };
        if n > 0 && s.coin() {
            let i = if s.coin() { n - 1 } else { s.below(n) };
            v[i] = !v[i];
        }
        return v;
    }
    (0..n).map(|_| s.coin()).collect()
}
pub fn gen_string(s: &mut Src) -> String {
    if crate::dict::chance(s, 32) {
        match s.below(4) {
            0 => {
                if let Some(n) = crate::dict::size(s, 1, 400) {
                    return long_string(s, n);
                }
            }
            k => {
                if let Some(t) = crate::dict::text(s) {
                    return match k {
                        1 => t,
                        2 => format!("{}{t}{}", gen_char(s), gen_char(s)),
                        _ => t + &gen_char(s).to_string(),
                    };
                }
            }
        }
    }
    let n = s.len(24);
    if n >= 23 && s.ratio(1, 24) {
        let n = *s.pick(&[127, 128, 255, 256, 257, 400]);
        return long_string(s, n);
    }
    let n = if n >= 23 { 60 + s.below(20) } else { n };
    (0..n).map(|_| gen_char(s)).collect()
}
pub fn gen_prim(s: &mut Src, p: P) -> V {
    match p {
        P::Bool => V::Bool(s.coin()),
        P::Char => V::Char(gen_char(s)),
        P::Str => V::Str(gen_string(s)),
        P::U(256) | P::I(256) => {
            V::B256(s.b256())
        }
        P::U(b) => V::U(s.uint(b)),
        P::I(b) => V::I(s.sint(b)),
    }
}
