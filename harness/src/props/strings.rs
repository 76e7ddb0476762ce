//! C11 C12 C13 C14 C15 C16: printing and parsing.
use crate::fmtref::{self, Cfg, Style};
use crate::refparse;
use crate::run::{Obs, Prop, R};
use crate::src::Src;
use crate::ty::{gen_char, gen_string};
use crate::val::*;
use crate::{check, fail};
use scale_value::stringify::{self, *};
use scale_value::{Composite, Primitive, Value, ValueDef};
use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "random value without 256-bit numbers printed in a random style and whitespace indentation and parsed back; non-trivial when it has at least 3 nodes",
            quick: 600_000,
            thorough: 9_000_000,
            run: c11,
            probes: &[("every char", c11_chars), ("every char in names", c11_names)],
        },
        Prop {
            id: "C12",
            rule: "random value with contexts, random configuration (style, indents, context printer, up to 3 custom formatters), some with a writer or formatter that fails; non-trivial when it has at least 2 nodes and anything but the default configuration",
            quick: 1_500_000,
            thorough: 22_500_000,
            run: c12,
            probes: &[],
        },
        Prop {
            id: "C13",
            rule: "text spelling a random value with random whitespace, escapes and number forms, mutations and truncations of it, token soups and random strings; non-trivial when at least 2 values are parsed",
            quick: 4_000_000,
            thorough: 60_000_000,
            run: c13,
            probes: &[("numbers at the limits", c13_numbers), ("deep nesting", c13_deep)],
        },
        Prop {
            id: "C14",
            rule: "0-4 custom parsers (markers, any consumption, failing, declining, hex, ss58) over texts with their markers at value positions; non-trivial when a custom parser accepts or fails below the root",
            quick: 4_000_000,
            thorough: 60_000_000,
            run: c14,
            probes: &[],
        },
        Prop {
            id: "C15",
            rule: "values with byte lists and near byte lists, and hex-like texts; non-trivial when a byte list of >= 2 bytes is formatted, or a text starting with 0x is parsed",
            quick: 6_000_000,
            thorough: 90_000_000,
            run: c15,
            probes: &[("every byte", c15_bytes)],
        },
        Prop {
            id: "C16",
            rule: "ss58 texts of random prefix and payload, intact or corrupted, with following text, and random alphanumeric texts; non-trivial when the text is an address or one edit away from one",
            quick: 4_000_000,
            thorough: 60_000_000,
            run: c16,
            probes: &[("every prefix", c16_prefixes)],
        },
    ]
}

const WS: &[char] = &[' ', ' ', ' ', '\n', '\t', '\r', '\u{a0}', '\u{2003}', '\u{85}', '\u{3000}', '\u{b}', '\u{c}', '\u{2028}'];

fn ws_string(s: &mut Src, max: usize) -> String {
    let n = s.len(max);
    (0..n).map(|_| *s.pick(WS)).collect()
}

fn opts(fuel: i32) -> ValOpts {
    ValOpts { allow_256: false, ..ValOpts::new(fuel) }
}

fn round_trip(v: &Value<()>, text: &str) -> R {
    let (r, rest) = stringify::from_str(text);
    match r {
        Ok(w) => {
            check!(w == norm_sign(v), "{text:?} parsed to {}", show(&w));
            check!(rest.is_empty(), "{text:?} left {rest:?} unparsed");
        }
        Err(e) => fail!("{text:?} did not parse: {e:?}"),
    }
    Ok(())
}

fn c11(s: &mut Src, o: &mut Obs) -> R {
    let fuel = *s.pick(&[4, 12, 40]);
    let v = gen_value(s, opts(fuel));
    let (indent, leading) = (ws_string(s, 6), ws_string(s, 6));
    let mode = s.below(6);
    o.desc(|| format!("{} mode {mode} indent {indent:?} leading {leading:?}", show(&v)));
    let n = count_nodes(&v);
    if n >= 3 {
        o.nontrivial(format!("{mode}{indent:?}{leading:?}{}", show(&v)).as_bytes());
    }
    o.class_if(n >= 10, "values of 10 or more nodes");
    o.class_if(depth(&v) >= 4, "values of depth 4 or more");
    o.class_if(
        any(&v, &mut |v| matches!(&v.value, ValueDef::Variant(x) if !is_ident(&x.name))),
        "unusual variant names",
    );
    o.class_if(
        any(&v, &mut |v| match &v.value {
            ValueDef::Composite(Composite::Named(c)) => c.iter().any(|(n, _)| !is_ident(n)),
            _ => false,
        }),
        "unusual field names",
    );
    let text = match mode {
        0 => stringify::to_string(&v),
        1 => format!("{v:#}"),
        2 => format!("{v}"),
        m => {
            let mut out = String::new();
            let b = stringify::to_writer_custom().indent_by(indent.clone()).leading_indent(leading.clone());
            let b = match m {
                3 => b.compact(),
                4 => b.pretty(),
                _ => b,
            };
            if b.write(&v, &mut out).is_err() {
                fail!("writing failed");
            }
            drop(b);
            out
        }
    };
    round_trip(&v, &text)?;
    if mode == 0 {
        let mut w = String::new();
        check!(stringify::to_writer(&v, &mut w).is_ok(), "to_writer failed");
        round_trip(&v, &w)?;
    }
    Ok(())
}

fn all_chars() -> impl Iterator<Item = char> {
    (0..0x110000u32).filter_map(char::from_u32)
}
fn c11_chars(o: &mut Obs) -> R {
    for c in all_chars() {
        o.class("chars tried alone");
        let v = Value::unnamed_composite([Value::char(c), Value::string(c.to_string())]);
        round_trip(&v, &v.to_string())?;
    }
    Ok(())
}
fn c11_names(o: &mut Obs) -> R {
    for c in all_chars() {
        o.class("chars tried in names");
        for n in [format!("{c}"), format!("a{c}")] {
            let v = Value::named_variant(n.clone(), [(n.clone(), Value::unnamed_variant(n, []))]);
            round_trip(&v, &v.to_string())?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

/// Accepts `budget` bytes' worth of text, then fails for good; counts what it is asked afterwards.
struct State {
    text: String,
    budget: Option<usize>,
    failed: bool,
    after: usize,
}
#[derive(Clone)]
struct Sink(Rc<RefCell<State>>);
impl Sink {
    fn new(budget: Option<usize>) -> Sink {
        Sink(Rc::new(RefCell::new(State { text: String::new(), budget, failed: false, after: 0 })))
    }
}
impl Write for Sink {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        let mut s = self.0.borrow_mut();
        if s.failed {
            s.after += 1;
            return Err(std::fmt::Error);
        }
        if let Some(b) = s.budget {
            if s.text.len() + t.len() > b {
                s.failed = true;
                return Err(std::fmt::Error);
            }
        }
        s.text.push_str(t);
        Ok(())
    }
}

#[derive(Clone, Debug)]
enum Fmt {
    /// Values whose context is a multiple of n are written as this text.
    Mod(u32, String),
    /// Values with exactly this context are written as this text, and then the formatter fails.
    Fail(u32, String),
    /// Booleans and numbers
    Prims(String),
    Hex,
    Never,
}
impl Fmt {
    /// (text, whether it succeeds)
    fn text(&self, v: &Value<u32>) -> Option<(String, bool)> {
        match self {
            Fmt::Mod(n, t) => (v.context % n == 0).then(|| (t.clone(), true)),
            Fmt::Fail(n, t) => (v.context == *n).then(|| (t.clone(), false)),
            Fmt::Prims(t) => match &v.value {
                ValueDef::Primitive(Primitive::Bool(_) | Primitive::U128(_)) => Some((t.clone(), true)),
                _ => None,
            },
            Fmt::Hex => fmtref::hex(v).map(|t| (t, true)),
            Fmt::Never => None,
        }
    }
}

fn gen_short(s: &mut Src) -> String {
    match s.below(4) {
        0 => String::new(),
        1 => "#".into(),
        2 => s.pick(&["  ", "\t", "**", "日", ", ", "\n", "x: "]).to_string(),
        _ => gen_string(s),
    }
}

fn c12(s: &mut Src, o: &mut Obs) -> R {
    let fuel = *s.pick(&[3, 8, 25]);
    let allow_256 = s.ratio(1, 6);
    let base = gen_value(s, ValOpts { allow_256, ..opts(fuel) });
    let mut i = 0;
    let v: Value<u32> = with_ctx(&base, &mut |_| {
        i += 1;
        i * 7 % 31
    });
    let style = *s.pick(&[Style::Normal, Style::Compact, Style::Pretty, Style::Pretty]);
    let set_style = style != Style::Normal;
    let flip = s.ratio(1, 8); // set another style first
    let leading = if s.coin() { Some(gen_short(s)) } else { None };
    let indent = if s.coin() { Some(gen_short(s)) } else { None };
    let ctx = s.ratio(1, 3);
    let ctx_fail = ctx && s.ratio(1, 6);
    let mut fmts = vec![];
    if s.coin() {
        for _ in 0..s.range(1, 3) {
            let n = 1 + s.below(8) as u32;
            let t = gen_short(s);
            fmts.push(match s.weighted(&[4, 1, 2, 2, 1]) {
                0 => Fmt::Mod(n, t),
                1 => Fmt::Fail(n * 7 % 31, t),
                2 => Fmt::Prims(t),
                3 => Fmt::Hex,
                _ => Fmt::Never,
            });
        }
    }
    let swap = s.coin();
    o.desc(|| format!("{} {style:?} leading {leading:?} indent {indent:?} ctx {ctx} failing {ctx_fail} {fmts:?}", show(&v)));

    // what is expected
    let show_ctx = |c: &u32| format!("c{c}é");
    let mut want = String::new();
    let failing: RefCell<Option<usize>> = RefCell::new(None);
    let custom = |v: &Value<u32>| {
        fmts.iter().find_map(|f| f.text(v)).map(|(t, ok)| {
            if !ok {
                failing.borrow_mut().get_or_insert(v.context as usize);
            }
            // a marker for the position of the failure, removed below
            if ok { t } else { format!("{t}\u{10fffe}!") }
        })
    };
    let l = leading.clone().unwrap_or_default();
    let ind = indent.clone().unwrap_or("  ".into());
    let cfg = Cfg { style, leading: &l, indent: &ind, ctx: if ctx { Some(&show_ctx) } else { None }, custom: &custom };
    let mut ok = fmtref::value(&v, &cfg, &mut want).is_some();
    if let Some(i) = want.find("\u{10fffe}!") {
        // generated strings contain this marker with negligible probability; skip those
        if failing.borrow().is_none() {
            return Ok(());
        }
        want.truncate(i);
        ok = false;
    }
    if ctx_fail {
        // the context printer fails at the first node
        want = "<".into();
        ok = false;
    }
    if count_nodes(&v) >= 2 && (style != Style::Normal || leading.is_some() || indent.is_some() || ctx || !fmts.is_empty()) {
        o.nontrivial(format!("{}{style:?}{leading:?}{indent:?}{ctx}{fmts:?}", show(&v)).as_bytes());
    }
    o.class(match style {
        Style::Compact => "compact",
        Style::Normal => "normal",
        Style::Pretty => "pretty",
    });
    o.class_if(ctx, "context printed");
    o.class_if(!fmts.is_empty(), "custom formatters");
    o.class_if(!ok, "failing formatter or value");

    // configure
    let mut b: ToWriterBuilder<u32, Sink> = stringify::to_writer_custom();
    if flip {
        b = if style == Style::Pretty { b.compact() } else { b.pretty() };
    }
    let style_of = |b: ToWriterBuilder<u32, Sink>| match style {
        Style::Compact => b.compact(),
        Style::Pretty => b.pretty(),
        Style::Normal => b,
    };
    if flip && !set_style {
        // there is no way back to normal: start again
        b = stringify::to_writer_custom();
    }
    if swap {
        b = style_of(b);
    }
    if ctx {
        b = b.format_context(move |c, w: &mut Sink| {
            if ctx_fail {
                Err(std::fmt::Error)
            } else {
                write!(w, "c{c}é")
            }
        });
    }
    for f in fmts.clone() {
        b = b.add_custom_formatter(move |v: &Value<u32>, w: &mut Sink| match &f {
            Fmt::Hex => custom_formatters::format_hex(v, w),
            f => {
                let (t, ok) = f.text(v)?;
                Some(if w.write_str(&t).is_err() || !ok { Err(std::fmt::Error) } else { Ok(()) })
            }
        });
    }
    if let Some(t) = &indent {
        b = b.indent_by(t.clone());
    }
    if let Some(t) = &leading {
        b = b.leading_indent(t.clone());
    }
    if !swap {
        b = style_of(b);
    }
    for round in 0..2 {
        let w = Sink::new(None);
        let r = b.write(&v, w.clone());
        let st = w.0.borrow();
        check!(r.is_ok() == ok, "write gave {r:?} (use {round}), expected ok={ok}");
        check!(st.text == want, "use {round} wrote {:?}\n expected {want:?}", st.text);
    }
    // a writer which gives up
    let total = want.len();
    let budget = s.below(total + 1);
    let w = Sink::new(Some(budget));
    let r = b.write(&v, w.clone());
    let st = w.0.borrow();
    check!(st.failed || budget == total, "writer with room for {budget} of {total} bytes was not filled");
    if st.failed {
        check!(r.is_err(), "the writer failed, but write succeeded");
        check!(want.starts_with(&st.text), "before failing wrote {:?}, which does not begin {want:?}", st.text);
        check!(st.after == 0, "the writer was used {} times after it failed", st.after);
    }
    drop(st);

    // standard display forms
    let no = |_: &Value<u32>| None;
    for alt in [false, true] {
        let cfg: Cfg<u32> = Cfg {
            style: if alt { Style::Pretty } else { Style::Normal },
            leading: "",
            indent: "  ",
            ctx: None,
            custom: &no,
        };
        let mut want = String::new();
        let ok = fmtref::value(&v, &cfg, &mut want).is_some();
        let mut got = vec![("value", disp(&v, alt)), ("definition", disp(&v.value, alt))];
        match &v.value {
            ValueDef::Composite(c) => got.push(("composite", disp(c, alt))),
            ValueDef::Variant(c) => got.push(("variant", disp(c, alt))),
            ValueDef::Primitive(c) => got.push(("primitive", disp(c, alt))),
            _ => {}
        }
        if !alt && ok {
            got.push(("to_string", Some(stringify::to_string(&v))));
            let w = Sink::new(None);
            let r = stringify::to_writer(&v, w.clone());
            let t = w.0.borrow().text.clone();
            got.push(("to_writer", r.ok().map(|_| t)));
        }
        for (what, g) in got {
            match g {
                Some(t) => {
                    check!(ok, "display of {what} succeeded with a 256-bit number: {t:?}");
                    check!(t == want, "display of {what} (alternate: {alt}) is {t:?}, expected {want:?}");
                }
                None => check!(!ok, "display of {what} (alternate: {alt}) failed"),
            }
        }
    }
    Ok(())
}
fn disp<T: std::fmt::Display>(v: &T, alt: bool) -> Option<String> {
    let mut s = String::new();
    (if alt { write!(s, "{v:#}") } else { write!(s, "{v}") }).ok().map(|_| s)
}

// ---------------------------------------------------------------- C13

/// Spells a value with free choice of everything the syntax leaves open.
struct Sloppy<'a> {
    s: &'a mut Src,
    out: String,
    /// Texts which may stand for a value.
    marks: Vec<String>,
    depth: u32,
}
impl Sloppy<'_> {
    fn ws(&mut self) {
        if self.s.ratio(1, 3) {
            let n = self.s.len(3);
            for _ in 0..n {
                let c = *self.s.pick(WS);
                self.out.push(c);
            }
        }
    }
    fn quoted(&mut self, t: &str, q: char) {
        self.out.push(q);
        for c in t.chars() {
            let must = c == '\\' || (c == q && q == '"');
            let e = match c {
                '\n' => Some('n'),
                '\t' => Some('t'),
                '\r' => Some('r'),
                '\0' => Some('0'),
                '"' | '\'' | '\\' => Some(c),
                _ => None,
            };
            match e {
                Some(e) if must || self.s.coin() => {
                    self.out.push('\\');
                    self.out.push(e)
                }
                _ => self.out.push(c),
            }
        }
        self.out.push(q);
    }
    fn digits(&mut self, n: u128) {
        if self.s.ratio(1, 6) {
            for _ in 0..self.s.range(1, 3) {
                self.out.push('0')
            }
        }
        let first = self.out.len();
        self.out.push_str(&n.to_string());
        if self.s.ratio(1, 4) {
            let t = self.out.split_off(first);
            for c in t.chars() {
                self.out.push(c);
                while self.s.ratio(1, 4) {
                    self.out.push('_')
                }
            }
        }
    }
    fn val(&mut self, v: &Value<()>) {
        if !self.marks.is_empty() && self.s.ratio(1, 3) {
            let m = self.s.pick(&self.marks).clone();
            self.out.push_str(&m);
            return;
        }
        match &v.value {
            ValueDef::Composite(c) => self.comp(c),
            ValueDef::Variant(x) => {
                let bad = x.name.starts_with("true") || x.name.starts_with("false");
                if is_ident(&x.name) && !bad && !self.s.ratio(1, 6) {
                    self.out.push_str(&x.name)
                } else {
                    self.out.push('v');
                    self.quoted(&x.name, '"');
                }
                self.ws();
                self.comp(&x.values)
            }
            ValueDef::BitSequence(b) => {
                self.out.push('<');
                self.out.extend(b.iter().map(|b| if b { '1' } else { '0' }));
                self.out.push('>');
            }
            ValueDef::Primitive(p) => match p {
                Primitive::Bool(b) => self.out.push_str(if *b { "true" } else { "false" }),
                Primitive::Char(c) => self.quoted(&c.to_string(), '\''),
                Primitive::String(t) => self.quoted(t, '"'),
                Primitive::U128(n) => {
                    if self.s.ratio(1, 6) {
                        self.out.push('+')
                    }
                    self.digits(*n)
                }
                Primitive::I128(n) if *n >= 0 => self.digits(*n as u128),
                Primitive::I128(n) => {
                    self.out.push('-');
                    self.digits(n.unsigned_abs())
                }
                _ => unreachable!(),
            },
        }
    }
    fn comp(&mut self, c: &Composite<()>) {
        self.depth += 1;
        let (items, open, close): (Vec<(Option<&String>, &Value<()>)>, _, _) = match c {
            Composite::Named(vs) => (vs.iter().map(|(n, v)| (Some(n), v)).collect(), '{', '}'),
            Composite::Unnamed(vs) => (vs.iter().map(|v| (None, v)).collect(), '(', ')'),
        };
        self.out.push(open);
        self.ws();
        for (i, (n, v)) in items.into_iter().enumerate() {
            if i > 0 {
                self.ws();
                self.out.push(',');
                self.ws();
            }
            if let Some(n) = n {
                if is_ident(n) && !self.s.ratio(1, 6) {
                    self.out.push_str(n)
                } else {
                    self.quoted(n, '"')
                }
                self.ws();
                self.out.push(':');
                self.ws();
            }
            self.val(v);
        }
        self.ws();
        self.out.push(close);
        self.depth -= 1;
    }
}
fn sloppy(s: &mut Src, v: &Value<()>, marks: Vec<String>) -> String {
    let mut p = Sloppy { s, out: String::new(), marks, depth: 0 };
    p.val(v);
    p.out
}

const TOKENS: &[&str] = &[
    "(", ")", "{", "}", ",", ":", "<", ">", "'", "\"", "\\", "1", "0", "-", "+", "_", "a", "b:", "true", "false", "v", "v\"", "v\"a\"",
    "v\"a\"(", " ", "\n", "\u{a0}", "é", "日", "😀", "\\n", "\\x", "'a'", "\"s\"", "<01>", "<2>", "340282366920938463463374607431768211456",
    "340282366920938463463374607431768211455", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "00", "0x", "a(",
    "B {", "c: 1", "\"k\": 2,", "()", "{}", "-0", "+_1", "1_", "truex", "falsey(", "٣", "Ⅷ", "²", "\u{301}", "\0", "\u{200b}", "\\'", "\\\"", "''",
    "'''", "'\\''", "'\\'", "A", "_a", "a_", "a1", "T()", "T{}",
];

fn mutate_text(s: &mut Src, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    for _ in 0..s.range(1, 3) {
        let i = s.below(cs.len() + 1);
        match s.weighted(&[4, 3, 3, 1, 1, 2]) {
            0 => {
                if i < cs.len() {
                    cs.remove(i);
                }
            }
            1 => {
                let t: Vec<char> = s.pick(TOKENS).chars().collect();
                cs.splice(i..i, t);
            }
            2 => {
                if i < cs.len() {
                    let t: Vec<char> = s.pick(TOKENS).chars().collect();
                    cs.splice(i..i + 1, t);
                }
            }
            3 => cs.truncate(i),
            4 => {
                if i < cs.len() {
                    cs.insert(i, cs[i])
                }
            }
            _ => {
                let c = gen_char(s);
                cs.insert(i, c)
            }
        }
    }
    cs.into_iter().collect()
}

fn soup(s: &mut Src) -> String {
    let n = s.len(24);
    (0..n)
        .map(|_| match s.weighted(&[8, 1]) {
            0 => s.pick(TOKENS).to_string(),
            _ => gen_char(s).to_string(),
        })
        .collect()
}

fn c13(s: &mut Src, o: &mut Obs) -> R {
    let mode = s.weighted(&[5, 6, 3, 1]);
    let mut known = None;
    let text = match mode {
        0 | 1 => {
            let fuel = *s.pick(&[3, 10, 25]);
            let v = gen_value(s, opts(fuel));
            let mut t = sloppy(s, &v, vec![]);
            if mode == 1 {
                t = mutate_text(s, &t);
            } else {
                known = Some((norm_sign(&v), t.len()));
                // what follows must not belong to the value
                if s.coin() {
                    let c = *s.pick(&[" ", ",", ")", "}", " 1", ".", "\n(", ":", "\"", "é", "'"]);
                    t.push_str(c);
                    let x = gen_string(s);
                    t.push_str(&x);
                }
            }
            t
        }
        2 => soup(s),
        _ => gen_string(s),
    };
    o.desc(|| format!("{text:?}"));
    let mut p = refparse::P::new(&text, None);
    let want = p.value(0);
    let (values, deepest) = (p.values, p.deepest);
    o.class(["spelled values", "mutated spellings", "token soups", "random strings"][mode]);
    o.class_if(want.is_ok() && mode != 0, "accepted without being a spelling");
    o.class_if(deepest >= 4, "nesting of 4 or more");
    if let Err(e) = &want {
        o.class(match &e.err {
            ParseErrorKind::ExpectedValue => "error: no value",
            ParseErrorKind::Complex(ParseComplexError::InvalidStartingCharacterInIdent) => "error: identifier",
            ParseErrorKind::Complex(ParseComplexError::MissingFieldSeparator(_)) => "error: missing colon",
            ParseErrorKind::Complex(_) => "error: closer",
            ParseErrorKind::Char(_) => "error: char",
            ParseErrorKind::String(_) => "error: string",
            ParseErrorKind::Number(_) => "error: number",
            ParseErrorKind::BitSequence(_) => "error: bits",
            ParseErrorKind::Custom(_) => "error: custom",
        });
    }
    if values >= 2 {
        o.nontrivial(text.as_bytes());
    }
    if let Some((v, n)) = known {
        match &want {
            Ok((w, m)) if *w == v && *m == n => {}
            w => fail!("harness: the reference parser reads {:?} from a spelling of {}", w, show(&v)),
        }
    }
    let (got, rest) = stringify::from_str(&text);
    check!(text.ends_with(rest), "the remainder {rest:?} is not the end of the input");
    compare(&text, &want, &got, rest)?;
    if let Ok((v, n)) = &want {
        let (again, rest) = stringify::from_str(&text[..*n]);
        check!(again.as_ref() == Ok(v) && rest.is_empty(), "what was consumed, {:?}, parses again to {again:?}", &text[..*n]);
    }
    let (b, brest) = stringify::from_str_custom().parse(&text);
    check!(b == got && brest == rest, "from_str_custom without parsers gives {b:?}, {brest:?}");
    if let Err(e) = got {
        // the displayed form carries the positions
        let shown = e.to_string();
        let at = match e.end_loc {
            Some(x) => format!("Error from char {} to {}: ", e.start_loc, x),
            None => format!("Error at char {}: ", e.start_loc),
        };
        check!(shown == format!("{at}{}", e.err), "error {e:?} displays as {shown:?}");
    }
    Ok(())
}
fn compare(
    text: &str,
    want: &Result<(Value<()>, usize), ParseError>,
    got: &Result<Value<()>, ParseError>,
    rest: &str,
) -> R {
    match (want, got) {
        (Ok((v, n)), Ok(w)) => {
            check!(v == w, "parsed to {}, expected {}", show(w), show(v));
            check!(text.len() - rest.len() == *n, "remainder {rest:?}, expected {:?}", &text[*n..]);
        }
        (Err(e), Err(f)) => check!(e == f, "error {f:?}, expected {e:?}"),
        (Ok((v, _)), Err(e)) => fail!("error {e:?}, expected {}", show(v)),
        (Err(e), Ok(v)) => fail!("parsed to {} leaving {rest:?}, expected error {e:?}", show(v)),
    }
    Ok(())
}

fn c13_numbers(o: &mut Obs) -> R {
    let mut texts = vec![];
    for base in [u128::MAX, i128::MAX as u128, 1 << 127, u64::MAX as u128, 0, 1] {
        for d in -2i32..=2 {
            let n = base.checked_add_signed(d as i128);
            let t = match n {
                Some(n) => n.to_string(),
                // just past the maximum
                None => format!("34028236692093846346337460743176821145{}", 5 + d),
            };
            for sign in ["", "+", "-"] {
                for zeros in ["", "0", "00", "0_"] {
                    for tail in ["", "_", "_ ", "a", "0", ")", "٣"] {
                        texts.push(format!("{sign}{zeros}{t}{tail}"));
                    }
                }
            }
        }
    }
    for t in texts {
        o.class("number texts");
        let (got, rest) = stringify::from_str(&t);
        compare(&t, &refparse::parse(&t), &got, rest).map_err(|e| format!("{t:?}: {}", e.msg))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug)]
enum Take {
    Marker,
    /// marker and up to n more characters
    Chars(usize),
    /// marker and everything up to and including the closing text
    Until(&'static str),
    All,
    Nothing,
}
#[derive(Clone, Debug)]
enum Act {
    Accept(Take),
    /// positions, and whether the cursor is moved before failing
    Fail(usize, Option<usize>, bool),
    /// whether the cursor is moved before declining
    Decline(bool),
}
#[derive(Clone, Debug)]
enum Spec {
    Mark(String, Act),
    Hex,
    Ss58,
}
type PRes = Option<Result<(Value<()>, usize), ParseError>>;
fn apply(sp: &Spec, t: &str) -> PRes {
    match sp {
        Spec::Hex => refparse::hex(t),
        Spec::Ss58 => refparse::ss58(t),
        Spec::Mark(m, act) => {
            let rest = t.strip_prefix(m.as_str())?;
            match act {
                Act::Decline(_) => None,
                Act::Fail(a, b, _) => Some(Err(ParseError {
                    start_loc: *a,
                    end_loc: *b,
                    err: ParseErrorKind::Custom(format!("no {m:?}")),
                })),
                Act::Accept(take) => {
                    let n = match take {
                        Take::Marker => m.len(),
                        Take::Nothing => 0,
                        Take::All => t.len(),
                        Take::Chars(n) => m.len() + rest.chars().take(*n).map(|c| c.len_utf8()).sum::<usize>(),
                        Take::Until(c) => m.len() + rest.find(c)? + c.len(),
                    };
                    Some(Ok((Value::unnamed_variant("custom", [Value::string(&t[..n])]), n)))
                }
            }
        }
    }
}

fn gen_spec(s: &mut Src) -> Spec {
    match s.weighted(&[10, 1, 1]) {
        1 => return Spec::Hex,
        2 => return Spec::Ss58,
        _ => {}
    }
    let m = match s.weighted(&[6, 2, 1]) {
        0 => s.pick(&["@", "§", "日本", "😀", "#x", "é", "%%"]).to_string(),
        1 => s.pick(&["1", "tr", "\"", "'", "(", "{", "<", "a", "-", "v\"", "()", "0"]).to_string(),
        _ => String::new(),
    };
    let act = match s.weighted(&[8, 2, 2]) {
        0 => Act::Accept(match s.weighted(&[4, 4, 4, 1, 1]) {
            0 => Take::Marker,
            1 => Take::Chars(s.len(6)),
            2 => Take::Until(s.pick(&["@", "é", "😀", " ", ")", ",", "]]"])),
            3 => Take::All,
            _ => Take::Nothing,
        }),
        1 => {
            let a = s.len(20);
            let b = if s.coin() { Some(a + s.len(20)) } else { None };
            Act::Fail(a, b, s.coin())
        }
        _ => Act::Decline(s.coin()),
    };
    Spec::Mark(m, act)
}

fn c14(s: &mut Src, o: &mut Obs) -> R {
    let n = s.len(4);
    let specs: Vec<Spec> = (0..n).map(|_| gen_spec(s)).collect();
    let mut marks = vec![];
    for sp in &specs {
        match sp {
            Spec::Mark(m, act) => {
                marks.push(m.clone());
                let body = if s.coin() { gen_string(s) } else { s.pick(&["", "x", "é日", "12", "a b", "\u{2003}z"]).to_string() };
                let tail = match act {
                    Act::Accept(Take::Until(c)) => c,
                    _ => "",
                };
                marks.push(format!("{m}{body}{tail}"));
            }
            Spec::Hex => {
                let mut t = String::from("0x");
                let n = s.len(10);
                for _ in 0..n {
                    write!(t, "{:02x}", s.byte()).unwrap()
                }
                marks.push(t);
            }
            Spec::Ss58 => marks.push(gen_address(s, 8).2),
        }
    }
    let fuel = *s.pick(&[3, 10, 25]);
    let v = gen_value(s, opts(fuel));
    let mut text = sloppy(s, &v, marks);
    if s.ratio(1, 4) {
        text = mutate_text(s, &text);
    }
    o.desc(|| format!("{text:?} with {specs:?}"));

    let mut offered: Vec<(usize, usize)> = vec![];
    let mut deep = false;
    let mut used = 0;
    let want = {
        let mut f = |p: usize, t: &str| -> PRes {
            for (i, sp) in specs.iter().enumerate() {
                offered.push((i, p));
                if let Some(r) = apply(sp, t) {
                    used += 1;
                    deep |= p > 0;
                    return Some(r);
                }
            }
            None
        };
        refparse::P::new(&text, Some(&mut f)).value(0)
    };
    o.class_if(used > 0, "a custom parser accepted or failed");
    o.class_if(used > 1, "several custom values");
    o.class_if(want.is_ok() && deep, "custom values below the root");
    o.class_if(want.is_ok() && deep && !text.is_ascii(), "of these, in non-ASCII text");
    o.class_if(matches!(&want, Err(e) if matches!(e.err, ParseErrorKind::Custom(_))), "custom errors");
    if deep {
        o.nontrivial(format!("{text}{specs:?}").as_bytes());
    }

    let log: Rc<RefCell<Vec<(usize, usize)>>> = Default::default();
    let mut b = stringify::from_str_custom();
    for (i, sp) in specs.iter().enumerate() {
        let sp = sp.clone();
        let log = log.clone();
        let total = text.len();
        b = b.add_custom_parser(move |c: &mut &str| {
            log.borrow_mut().push((i, total - c.len()));
            match &sp {
                Spec::Hex => return custom_parsers::parse_hex(c),
                Spec::Ss58 => return custom_parsers::parse_ss58(c),
                _ => {}
            }
            let r = match apply(&sp, c) {
                Some(r) => r,
                None => {
                    match &sp {
                        Spec::Mark(m, Act::Decline(true)) if c.starts_with(m.as_str()) => *c = &c[m.len()..],
                        _ => {}
                    }
                    return None;
                }
            };
            match r {
                Ok((v, n)) => {
                    *c = &c[n..];
                    Some(Ok(v))
                }
                Err(e) => {
                    if let Spec::Mark(m, Act::Fail(_, _, true)) = &sp {
                        *c = &c[m.len()..];
                    }
                    Some(Err(e))
                }
            }
        });
    }
    let (got, rest) = b.parse(&text);
    check!(text.ends_with(rest), "the remainder {rest:?} is not the end of the input");
    compare(&text, &want, &got, rest)?;
    let mut calls = log.borrow().clone();
    calls.sort();
    calls.dedup();
    offered.sort();
    offered.dedup();
    check!(calls == offered, "custom parsers were offered positions {calls:?}, expected {offered:?}");
    // what a builder has parsed makes no difference to what it parses next
    if s.ratio(1, 4) {
        let cut = (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect::<Vec<_>>();
        let cut = cut[s.below(cut.len())];
        let _ = b.parse(if s.coin() { &text[..cut] } else { &text[cut..] });
        let again = b.parse(&text);
        check!(again.0 == got && again.1 == rest, "parsed again, after something else, it gives {again:?}");
    }
    if let (Err(e), Some((_, 0))) = (&got, offered.last()) {
        if matches!(e.err, ParseErrorKind::Custom(_)) && used == 1 && !deep {
            check!(rest == text, "a custom parser failed at the root, but only {rest:?} of {text:?} is left");
        }
    }
    // the parser can be used again
    let (again, rest2) = b.parse(&text);
    check!(again == got && rest2 == rest, "a second use gives {again:?}, {rest2:?}");
    // parsers that all decline change nothing
    if used == 0 {
        let (plain, prest) = stringify::from_str(&text);
        check!(plain == got && prest == rest, "all parsers declined, but without them the result is {plain:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

fn c15_bytes(o: &mut Obs) -> R {
    for b in 0..=255u8 {
        for up in [false, true] {
            o.class("bytes tried alone");
            let t = if up { format!("0x{b:02X}") } else { format!("0x{b:02x}") };
            let mut c = t.as_str();
            let r = custom_parsers::parse_hex(&mut c);
            let v = Value::unnamed_composite([Value::u128(b as u128)]);
            check!(r == Some(Ok(v.clone())) && c.is_empty(), "{t} parsed to {r:?}");
            let mut w = String::new();
            check!(custom_formatters::format_hex(&v, &mut w) == Some(Ok(())), "{b} not formatted");
            check!(w == format!("0x{b:02X}"), "{b} formatted as {w}");
        }
    }
    // every 1- and 2-byte text after 0x
    for a in 0..=127u8 {
        for b in 0..=127u8 {
            for c in ["", "0", "aZ"] {
                let t = format!("0x{}{}{c}", a as char, b as char);
                hex_text(&t)?;
            }
        }
    }
    Ok(())
}
fn hex_text(t: &str) -> R {
    let mut c = t;
    let got = custom_parsers::parse_hex(&mut c);
    let want = refparse::hex(t);
    match (&got, &want) {
        (None, None) | (Some(Err(_)), Some(Err(_))) => check!(c == t, "{t:?}: consumed to {c:?} without a value"),
        _ => {}
    }
    match (got, want) {
        (None, None) => {}
        (Some(Ok(v)), Some(Ok((w, n)))) => {
            check!(v == w, "{t:?} gives {}, expected {}", show(&v), show(&w));
            check!(c == &t[n..], "{t:?} leaves {c:?}, expected {:?}", &t[n..]);
        }
        (Some(Err(e)), Some(Err(f))) => check!(e == f, "{t:?} gives error {e:?}, expected {f:?}"),
        (g, w) => fail!("{t:?} gives {g:?}, expected {w:?}"),
    }
    Ok(())
}
fn c15(s: &mut Src, o: &mut Obs) -> R {
    if s.coin() {
        // texts
        let mut t = String::new();
        t.push_str(*s.pick(&["0x", "0x", "0x", "0x", "0x", "0X", "x", "0", "", "00x", " 0x"]));
        let n = s.len(40);
        for _ in 0..n {
            match s.weighted(&[30, 1, 1, 1]) {
                0 => t.push(*s.pick(&b"0123456789abcdefABCDEF".map(|b| b as char))),
                1 => t.push((b' ' + s.below(95) as u8) as char),
                2 => t.push(gen_char(s)),
                _ => t.push(*s.pick(&['g', 'G', 'x', 'Z', '/', ':', '@', '`', '٣'])),
            }
        }
        if s.coin() {
            let x = gen_string(s);
            t.push_str(&x);
        }
        o.desc(|| format!("text {t:?}"));
        o.class("texts");
        if t.starts_with("0x") {
            o.class(match refparse::hex(&t) {
                Some(Ok(_)) => "hex texts accepted",
                _ => "hex texts refused",
            });
            o.nontrivial(t.as_bytes());
        }
        return hex_text(&t);
    }
    let fuel = *s.pick(&[2, 8, 20]);
    let mut v = gen_value(s, opts(fuel));
    if s.coin() {
        // a (near) byte list at the top
        let n = s.len(40);
        let mut items: Vec<Value<()>> = (0..n).map(|_| Value::u128(s.byte() as u128)).collect();
        if n > 0 && s.coin() {
            let i = s.below(n);
            items[i] = match s.below(8) {
                0 => Value::u128(256),
                1 => Value::u128(s.uint(128)),
                2 => Value::i128(5),
                3 => Value::bool(true),
                4 => Value::unnamed_composite([Value::u128(1)]),
                5 => Value::string("1"),
                6 => Value::primitive(Primitive::U256([0; 32])),
                _ => Value::u128((1 << 64) + 7),
            };
        }
        v = match s.weighted(&[4, 1, 1, 1]) {
            0 => Value::unnamed_composite(items),
            1 => Value::named_composite(items.into_iter().enumerate().map(|(i, v)| (format!("f{i}"), v)).collect::<Vec<_>>()),
            2 => Value::unnamed_variant("V", items),
            _ => Value::unnamed_composite([Value::unnamed_composite(items)]),
        };
    }
    o.desc(|| show(&v));
    o.class("values");
    let want = fmtref::hex(&v);
    o.class_if(want.is_some(), "byte lists");
    let mut w = String::from("^");
    let r = custom_formatters::format_hex(&v, &mut w);
    match &want {
        Some(t) => {
            if t.len() >= 6 {
                o.nontrivial(t.as_bytes());
            }
            check!(r == Some(Ok(())), "a byte list is not formatted: {r:?}");
            check!(w[1..] == *t, "formatted as {w:?}, expected {t:?}");
            // and back
            let mut c = t.as_str();
            let back = custom_parsers::parse_hex(&mut c);
            check!(back == Some(Ok(v.clone())) && c.is_empty(), "{t} parses to {back:?}");
            // a writer which fails
            let sink = Sink::new(Some(s.below(t.len())));
            let r = custom_formatters::format_hex(&v, sink.clone());
            check!(r == Some(Err(std::fmt::Error)), "the writer failed, but the formatter gave {r:?}");
            check!(t.starts_with(&sink.0.borrow().text), "before failing wrote {:?}", sink.0.borrow().text);
        }
        None => check!(r.is_none() && w == "^", "not a byte list, but formatted: {r:?} {w:?}"),
    }
    // whole values, printed with the formatter and parsed with the parser
    if any(&v, &mut |v| matches!(v.value, ValueDef::Primitive(Primitive::U256(_)))) {
        return Ok(());
    }
    let mut t = String::new();
    let b = stringify::to_writer_custom().add_custom_formatter(|v, w: &mut &mut String| custom_formatters::format_hex(v, w));
    let b = match s.below(3) {
        0 => b,
        1 => b.compact(),
        _ => b.pretty(),
    };
    check!(b.write(&v, &mut t).is_ok(), "writing failed");
    drop(b);
    let (back, rest) = stringify::from_str_custom().add_custom_parser(custom_parsers::parse_hex).parse(&t);
    check!(back == Ok(norm_sign(&v)) && rest.is_empty(), "{t:?} parses to {back:?}, leaving {rest:?}");
    o.class_if(t.contains("0x"), "values printed with hex parts");
    Ok(())
}

// ---------------------------------------------------------------- C16

/// (prefix, payload, address)
fn gen_address(s: &mut Src, max: usize) -> (Vec<u8>, Vec<u8>, String) {
    let prefix = match s.below(3) {
        0 => vec![*s.pick(&[0u8, 42, 2, 63, 46])],
        1 => vec![s.below(64) as u8],
        _ => two_byte(64 + s.below(16384 - 64) as u16),
    };
    let n = if max > 32 && s.coin() { *s.pick(&[32, 33]) } else { s.below(max + 1) };
    // exceptionally as long as the base58 library has room for, or longer
    let n = if max > 32 && s.ratio(1, 40) { 120 + s.below(60) } else { n };
    let mut payload = if s.ratio(1, 10) { vec![0; n] } else { s.bytes(n) };
    if n > 0 && s.ratio(1, 12) {
        let k = s.below(n);
        payload[..k].fill(0);
    }
    let t = address(&prefix, &payload);
    (prefix, payload, t)
}
fn two_byte(ident: u16) -> Vec<u8> {
    // as published: lower six bits of the first byte are bits 2..8 of the identifier, the second
    // byte holds bits 8..14 and then bits 0..2
    vec![((ident & 0xfc) >> 2) as u8 | 0x40, (ident >> 8) as u8 | ((ident & 3) << 6) as u8]
}
fn address(prefix: &[u8], payload: &[u8]) -> String {
    let mut b = [prefix, payload].concat();
    let sum = refparse::ss58_sum(&b);
    b.extend(sum);
    refparse::base58(&b)
}
fn c16_prefixes(o: &mut Obs) -> R {
    let one = (0..64u8).map(|p| vec![p]);
    let two = (64..16384u16).map(two_byte);
    for p in one.chain(two) {
        o.class("prefixes tried");
        let payload: Vec<u8> = (0..32).map(|i| (i * 7 + p[0] as usize) as u8).collect();
        let t = address(&p, &payload);
        let mut c = t.as_str();
        let r = custom_parsers::parse_ss58(&mut c);
        check!(r == Some(Ok(bytes_value(&payload))) && c.is_empty(), "prefix {p:?}: {t} parses to {r:?}");
    }
    // many zeros
    for n in 0..400 {
        let mut texts = vec![address(&[0], &vec![0; n])];
        texts.extend([0, 1, 50, 90, 100, 130, 170, 178, 179, 180, 181, 182].map(|m| format!("{}a{}", "1".repeat(n), "1".repeat(m))));
        for t in texts {
            let mut c = t.as_str();
            let r = custom_parsers::parse_ss58(&mut c);
            let w = refparse::ss58_bytes(&t);
            match (&w, &r) {
                (None, None) => check!(c == t, "declined {t}, but consumed to {c:?}"),
                (Some((b, _)), Some(Ok(v))) => check!(*v == bytes_value(b) && c.is_empty(), "{t} gives {v}"),
                _ => fail!("{t} gives {r:?}, expected {w:?}"),
            }
        }
    }
    // well known addresses
    for (t, first) in [
        ("5GrwvaEF5zXb26Fz9rcQpDWS57CtERHpNehXCPcNoHGKutQY", 0xd4u128),
        ("15oF4uVJwmo4TdGW7VfQxNLavjCXviqxT9S1MgbjMNHr6Sp5", 0xd4),
        ("HNZata7iMYWmk5RvZRTiAsSDhV8366zq2YGb3tLH5Upf74F", 0xd4),
    ] {
        let mut c = t;
        match custom_parsers::parse_ss58(&mut c) {
            Some(Ok(Value { value: ValueDef::Composite(Composite::Unnamed(v)), .. })) => {
                check!(v.len() == 32 && v[0] == Value::u128(first), "{t} parses to {v:?}")
            }
            r => fail!("{t} parses to {r:?}"),
        }
    }
    Ok(())
}
fn bytes_value(b: &[u8]) -> Value<()> {
    Value::unnamed_composite(b.iter().map(|b| Value::u128(*b as u128)))
}
fn c16(s: &mut Src, o: &mut Obs) -> R {
    let mode = s.weighted(&[5, 5, 2]);
    let follow = match s.weighted(&[3, 3, 2]) {
        0 => String::new(),
        1 => {
            let w = ws_string(s, 3);
            let c = *s.pick(&["(", "{", ")", "}", ",", ":", "_", "-", "é", ".", "\"", " x", "(1)", "{ a: 1 }", "<"]);
            let name = if s.ratio(1, 4) { *s.pick(&["_", "_a", "é", "_B2", "_é1"]) } else { "" };
            format!("{name}{w}{c}")
        }
        _ => {
            let t = gen_string(s);
            if t.starts_with(|c: char| c.is_ascii_alphanumeric()) {
                format!(" {t}")
            } else {
                t
            }
        }
    };
    let (prefix, payload, mut t) = gen_address(s, 64);
    let intact = mode == 0;
    match mode {
        0 => {}
        1 => {
            // one edit
            let mut cs: Vec<char> = t.chars().collect();
            let i = s.below(cs.len());
            let c = match s.below(3) {
                0 => *s.pick(&['0', 'O', 'I', 'l', 'é', '_']),
                _ => (*s.pick(refparse::B58)) as char,
            };
            match s.below(6) {
                0 => {
                    cs.remove(i);
                }
                1 => cs.insert(i, c),
                2 => cs.insert(0, '1'),
                3 => {
                    let j = s.below(cs.len());
                    cs.swap(i, j);
                }
                4 => {
                    // the checksum of something else, or a prefix byte out of range
                    let mut b = [prefix.as_slice(), payload.as_slice()].concat();
                    if s.coin() {
                        b[0] |= 0x80;
                    }
                    let sum = refparse::ss58_sum(&b);
                    let k = s.below(4);
                    b.extend(match k {
                        0 => vec![sum[0]],
                        1 => vec![sum[0], sum[1] ^ 1],
                        2 => vec![sum[0] ^ 128, sum[1]],
                        _ => vec![sum[0], sum[1]],
                    });
                    cs = refparse::base58(&b).chars().collect();
                }
                _ => cs[i] = c,
            }
            t = cs.into_iter().collect();
        }
        _ => {
            let n = s.len(60);
            t = match s.below(5) {
                0 => (0..n).map(|_| (*s.pick(refparse::B58)) as char).collect(),
                4 => {
                    // runs of what stands for zero
                    let mut t = String::new();
                    for _ in 0..1 + s.below(3) {
                        let most = if s.coin() { 8 } else { 200 };
                        t.push_str(&"1".repeat(s.below(most)));
                        t.push((*s.pick(refparse::B58)) as char);
                    }
                    t
                }
                1 => (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect(),
                2 => s.pick(&["true", "false", "", "1", "11", "111", "1111", "Foo", "truefalse", "5Grw", "0x12", "é", "-1"]).to_string(),
                _ => gen_any_name(s),
            };
        }
    }
    // two-byte forms of identifiers below 64 are not produced by the scheme, and not judged here
    let whole = format!("{t}{follow}");
    o.desc(|| format!("{whole:?} prefix {prefix:?} payload {payload:?} intact {intact}"));
    o.class(["addresses", "corrupted addresses", "other texts"][mode]);
    if mode < 2 {
        o.nontrivial(whole.as_bytes());
    }
    let want = refparse::ss58_bytes(&whole);
    o.class_if(want.is_some() && mode != 0, "accidental or repaired addresses");
    if intact {
        let digits = t.bytes().all(|b| b.is_ascii_digit());
        let rest = follow.trim_start_matches(|c: char| c.is_alphanumeric() || c == '_');
        let bracket = matches!(rest.trim_start().chars().next(), Some('(' | '{'));
        o.class_if(bracket && rest.len() < follow.len(), "addresses which begin a name followed by a bracket");
        o.class_if(bracket, "addresses followed by a bracket");
        let sum = refparse::ss58_sum(&[prefix.as_slice(), &payload].concat());
        let bytes = prefix.iter().chain(&payload).chain(&sum).skip_while(|b| **b == 0).count();
        o.class_if(bytes > 132, "addresses the base58 library has no room for");
        let w = if digits || bracket || bytes > 132 { None } else { Some((payload.clone(), t.len())) };
        if w != want {
            fail!("harness: the reference gives {want:?} for {whole:?}");
        }
    }
    let mut c = whole.as_str();
    let got = custom_parsers::parse_ss58(&mut c);
    match (&want, got) {
        (None, None) => check!(c == whole, "declined {whole:?}, but consumed to {c:?}"),
        (Some((b, n)), Some(Ok(v))) => {
            if mode != 0 && noncanonical(&whole[..*n]) {
                return Ok(());
            }
            check!(v == bytes_value(b), "gives {}, expected {b:?}", show(&v));
            check!(c == &whole[*n..], "leaves {c:?}, expected {:?}", &whole[*n..]);
        }
        (w, g) => {
            if mode != 0 && w.is_some() && noncanonical(&t) {
                return Ok(());
            }
            fail!("{whole:?} gives {g:?}, expected {w:?}")
        }
    }
    // as part of a larger text
    if intact && want.is_some() && s.coin() {
        let text = format!("{{ a: {t} , b: ({t},-1) }}");
        let (r, rest) = stringify::from_str_custom().add_custom_parser(custom_parsers::parse_ss58).parse(&text);
        let v = bytes_value(&payload);
        let w = Value::named_composite([("a", v.clone()), ("b", Value::unnamed_composite([v, Value::i128(-1)]))]);
        check!(r == Ok(w) && rest.is_empty(), "{text:?} parses to {r:?}");
    }
    Ok(())
}
fn noncanonical(t: &str) -> bool {
    // first byte 64..=127 with the identifier it spells below 64
    let Some((_, _)) = refparse::ss58_bytes(t) else { return false };
    let b = refparse::unbase58(t).unwrap_or_default();
    b.len() >= 2 && (64..128).contains(&b[0]) && {
        let ident = ((b[0] as u16 & 0x3f) << 2) | (b[1] as u16 >> 6) | ((b[1] as u16 & 0x3f) << 8);
        ident < 64
    }
}




fn c13_deep(_: &mut Obs) -> R {
    super::deep_ends("parse", 500, "none")?;
    super::deep_ends("parse-ok", 500, "none")?;
    super::deep_ends("parse", 200_000, "deep-nesting")
}
