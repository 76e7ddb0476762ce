//! C23: generated programs which use the `value!` macro are compiled against the crate and run.
use crate::run::{Fail, Obs, Prop, R};
use crate::src::Src;
use crate::ty::{gen_char, gen_string};
use crate::val::ODD;
use std::fmt::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "random macro invocations, compiled and run in programs of up to 100; non-trivial when at least 3 values are nested",
        quick: 120,
        thorough: 2000,
        run: c23,
        probes: &[],
    }]
}

/// An invocation: its text, the value it spells as plain Rust, and the number of values in it.
struct Gen<'a, 'b> {
    s: &'a mut Src,
    o: &'b mut Obs,
    fuel: i32,
    nodes: usize,
    ticks: u32,
    strings: usize,
    values: usize,
    /// Composites until the one that is to be spoilt
    spoil: Option<usize>,
}

const IDENTS: &[&str] = &[
    "a", "b", "foo", "bar", "name", "value", "field_name", "V1", "Some", "None", "Ok", "Err", "String", "Vec", "vec", "x", "tt", "key", "rest",
    "e", "k", "v", "fields", "variant_name", "union", "auto", "default", "__x", "_y", "é", "日本", "v0", "s0", "u8", "str", "Value", "core",
    "std", "scale_value", "value_internal", "long_snake_case_name", "CamelCase", "SHOUT", "a1", "token", "macro_rules", "main", "prim",
];

fn lit(t: &str) -> String {
    let mut out = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            ' '..='~' => out.push(c),
            'é' | '日' | '本' => out.push(c),
            _ => write!(out, "\\u{{{:x}}}", c as u32).unwrap(),
        }
    }
    out.push('"');
    out
}
fn prim(p: &str) -> String {
    format!("V {{ value: D::Primitive(P::{p}), context: () }}")
}

impl Gen<'_, '_> {
    fn string(&mut self) -> String {
        if self.s.coin() {
            self.s.pick(ODD).to_string()
        } else {
            gen_string(self.s)
        }
    }
    fn ident(&mut self) -> &'static str {
        self.s.pick(IDENTS)
    }
    /// Any space between tokens.
    fn sp(&mut self) -> &'static str {
        self.s.pick(&[" ", "", " ", "  ", " ", "/* , */ ", "\t", " "])
    }
    fn list(&mut self, items: Vec<String>) -> String {
        let mut out = String::new();
        let n = items.len();
        for (i, x) in items.into_iter().enumerate() {
            out.push_str(self.sp());
            out.push_str(&x);
            out.push_str(self.sp());
            if i + 1 < n {
                out.push(',');
            } else if self.s.coin() {
                self.o.class("trailing commas");
                out.push(',');
            }
        }
        out
    }
    /// Something is wrong here already, or there is nothing and only a comma.
    fn spoilt(&mut self, items: Vec<String>) -> String {
        if items.is_empty() {
            ",".into()
        } else {
            // always a comma at the end, which one too many before does not go with
            items.join(", ") + ","
        }
    }
    /// The fields in brackets, and the composite.
    fn comp(&mut self, d: u32) -> (String, String) {
        let spoil = match self.spoil {
            Some(0) => {
                self.spoil = None;
                true
            }
            Some(n) => {
                self.spoil = Some(n - 1);
                false
            }
            None => false,
        };
        let n = if self.fuel <= 0 { spoil as usize } else if self.s.ratio(1, 60) { self.s.range(8, 16) } else { self.s.len(5) };
        if self.s.coin() {
            let mut text = vec![];
            let mut parts = vec![];
            let mut want = String::new();
            for _ in 0..n {
                let (k, kw) = match self.s.weighted(&[6, 3, 1]) {
                    0 => {
                        let k = self.ident();
                        (k.to_string(), lit(k))
                    }
                    1 => {
                        self.o.class("string keys");
                        let k = self.string();
                        (lit(&k), lit(&k))
                    }
                    _ => {
                        self.o.class("string keys");
                        ("r\"raw \\ key\"".to_string(), lit("raw \\ key"))
                    }
                };
                let (t, w) = self.val(d + 1);
                let (a, b) = (self.sp(), self.sp());
                text.push(format!("{k}{a}:{b}{t}"));
                write!(want, "({kw}.to_string(), {w}), ").unwrap();
                parts.push((k, t));
            }
            if spoil && !parts.is_empty() {
                let i = self.s.below(parts.len());
                let (k, t) = &parts[i];
                text[i] = match self.s.below(8) {
                    0 => format!("{k}:"),
                    1 => k.clone(),
                    2 => format!(":{t}"),
                    3 => format!("{k}: :{t}"),
                    4 => format!("{k}:{t},"),
                    5 => format!(",{k}:{t}"),
                    // no comma between this and the next
                    6 => format!("{k}:(1) {k}:{t}"),
                    _ => format!("{k}:X{{}} {k}:{t}"),
                };
            }
            let l = if spoil { self.spoilt(text) } else { self.list(text) };
            (format!("{{{l}}}"), format!("C::Named(vec![{want}])"))
        } else {
            let mut text = vec![];
            let mut want = String::new();
            for _ in 0..n {
                let (t, w) = self.val(d + 1);
                text.push(t);
                write!(want, "{w}, ").unwrap();
            }
            if spoil && !text.is_empty() {
                let i = self.s.below(text.len());
                let t = &text[i];
                text[i] = match self.s.below(6) {
                    0 => format!("a: {t}"),
                    1 => format!("\"a\": {t}"),
                    2 => format!("{t},"),
                    3 => format!(",{t}"),
                    4 => format!("(1) {t}"),
                    _ => format!("X {{ }} {t}"),
                };
            }
            let l = if spoil { self.spoilt(text) } else { self.list(text) };
            (format!("({l})"), format!("C::Unnamed(vec![{want}])"))
        }
    }
    fn number(&mut self) -> (String, String) {
        let i = self.s.below(13);
        match i {
            0 => {
                // no suffix: an i32
                let n = self.s.sint(32) as i32;
                (format!("{n}"), prim(&format!("I128({n})")))
            }
            1..=6 => {
                let (b, t) = [(8, "u8"), (16, "u16"), (32, "u32"), (64, "u64"), (128, "u128"), (64, "usize")][i - 1];
                let n = self.s.uint(b);
                let t = match self.s.below(4) {
                    0 => format!("{n:#x}{t}"),
                    1 => format!("{n}_{t}"),
                    _ => format!("{n}{t}"),
                };
                (t, prim(&format!("U128({n})")))
            }
            _ => {
                let (b, t) = [(8, "i8"), (16, "i16"), (32, "i32"), (64, "i64"), (128, "i128"), (64, "isize")][i - 7];
                let n = self.s.sint(b);
                // written with its sign
                (format!("{n}{t}"), prim(&format!("I128({n})")))
            }
        }
    }
    fn leaf(&mut self) -> (String, String) {
        match self.s.weighted(&[6, 3, 2, 2, 14]) {
            0 => self.number(),
            1 => {
                let t = self.string();
                let raw = !t.contains('"') && t.chars().all(|c| !c.is_control()) && t.is_ascii() && self.s.ratio(1, 4);
                (if raw { format!("r#\"{t}\"#") } else { lit(&t) }, prim(&format!("String({}.to_string())", lit(&t))))
            }
            2 => {
                let b = self.s.coin();
                (format!("{b}"), prim(&format!("Bool({b})")))
            }
            3 => {
                let c = format!("'\\u{{{:x}}}'", gen_char(self.s) as u32);
                (c.clone(), prim(&format!("Char({c})")))
            }
            _ => {
                self.o.class("embedded expressions");
                self.expr()
            }
        }
    }
    fn expr(&mut self) -> (String, String) {
        let n = self.s.below(100) as i32;
        let p = |e: String, w: String| (e, prim(&w));
        match self.s.below(26) {
            0 => {
                // evaluated once, in order
                self.ticks += 1;
                p("t.tick()".into(), format!("U128({})", self.ticks - 1))
            }
            1 => {
                self.ticks += 1;
                p("Tick::tick(&mut t)".into(), format!("U128({})", self.ticks - 1))
            }
            2 if self.strings < 3 => {
                self.strings += 1;
                let i = self.strings - 1;
                p(format!("s{i}"), format!("String(\"moved {i}\".to_string())"))
            }
            3 if self.values < 3 => {
                self.values += 1;
                let i = self.values - 1;
                (format!("v{i}"), format!("V {{ value: D::Composite(C::Unnamed(vec![{}])), context: () }}", prim(&format!("Char('{i}')"))))
            }
            4 => p(format!("{n} + 1"), format!("I128({})", n + 1)),
            5 => p(format!("-{n}i64 * 2"), format!("I128({})", -n * 2)),
            6 => p(format!("n as u8 + {n}u8"), format!("U128({})", 7 + n)),
            7 => p("n".into(), "U128(7)".into()),
            8 => p("String::from(\"a, b: c\")".into(), "String(\"a, b: c\".to_string())".into()),
            9 => p(format!("format!(\"{{}},{{}}\", {n}, n)"), format!("String(\"{n},7\".to_string())")),
            10 => (format!("vec![{n}u8, 2]"), format!("V {{ value: D::Composite(C::Unnamed(vec![{}, {}])), context: () }}", prim(&format!("U128({n})")), prim("U128(2)"))),
            11 => p(format!("if n == {n} {{ 'a' }} else {{ 'b' }}"), format!("Char('{}')", if n == 7 { 'a' } else { 'b' })),
            12 => p(format!("match n {{ {n} => true, _ => false }}"), format!("Bool({})", n == 7)),
            13 => p(format!("[{n}i8, 5][1]"), "I128(5)".into()),
            14 => p("!yes".into(), "Bool(false)".into()),
            15 => p(format!("n.max({n})"), format!("U128({})", n.max(7))),
            16 => p("u16::MAX".into(), "U128(65535)".into()),
            17 => p(format!("scale_value::Value::u128({n})"), format!("U128({n})")),
            18 => p("pair.1".into(), "Char('p')".into()),
            19 => p("outer.inner.text.clone()".into(), "String(\"deep\".to_string())".into()),
            20 => p("&outer.inner.text[1..3]".into(), "String(\"ee\".to_string())".into()),
            21 => {
                let (t, w) = self.val(4);
                (format!("scale_value::value!({t})"), w)
            }
            22 => p(format!("std::convert::identity::<u32>({n})"), format!("U128({n})")),
            23 => ("bits()".to_string().replace("bits()", "self::bits()"), "V { value: D::BitSequence(bits()), context: () }".into()),
            24 => (
                format!("vec![(\"k\", {n}i16)]"),
                format!("V {{ value: D::Composite(C::Named(vec![(\"k\".to_string(), {})])), context: () }}", prim(&format!("I128({n})"))),
            ),
            _ => p("yes && n < 3".into(), "Bool(false)".into()),
        }
    }
    fn val(&mut self, d: u32) -> (String, String) {
        self.nodes += 1;
        self.fuel -= 1;
        let k = if self.fuel <= 0 || d > 6 { 0 } else if d == 0 { self.s.weighted(&[1, 5, 4]) } else { self.s.weighted(&[6, 3, 3]) };
        match k {
            0 => self.leaf(),
            1 => {
                let (t, w) = self.comp(d);
                (t, format!("V {{ value: D::Composite({w}), context: () }}"))
            }
            _ => {
                let name = self.ident();
                let (t, w) = self.comp(d);
                self.o.class("variants");
                let sp = self.sp();
                (format!("{name}{sp}{t}"), format!("V {{ value: D::Variant(X {{ name: {}.to_string(), values: {w} }}), context: () }}", lit(name)))
            }
        }
    }
}

const HEAD: &str = r#"#![recursion_limit = "1024"]
#![allow(warnings)]
use scale_value::{value, BitSequence, Composite as C, Primitive as P, Value as V, ValueDef as D, Variant as X};
struct Tick(u32);
impl Tick { fn tick(&mut self) -> u32 { self.0 += 1; self.0 - 1 } }
struct Inner { text: String }
struct Outer { inner: Inner }
fn bits() -> BitSequence { [true, false, true].into_iter().collect() }
fn leaf(c: char) -> V<()> { V { value: D::Composite(C::Unnamed(vec![V { value: D::Primitive(P::Char(c)), context: () }])), context: () } }
fn report(i: usize, got: V<()>, want: V<()>) { if got != want { println!("{i} got {got:?}, expected {want:?}"); } }
"#;
const VARS: &str = "let (n, yes, pair) = (7u8, true, (1u8, 'p')); let n = n as u32; let (s0, s1, s2) = (\"moved 0\".to_string(), \"moved 1\".to_string(), \"moved 2\".to_string()); let (v0, v1, v2) = (leaf('0'), leaf('1'), leaf('2')); let outer = Outer { inner: Inner { text: \"deep\".to_string() } }; let mut t = Tick(0);";

/// Where what this program was built from lies.
fn deps() -> String {
    let exe = std::env::current_exe().ok();
    exe.as_ref().and_then(|e| e.parent()).map(|d| format!("{}/deps", d.display())).unwrap_or_default()
}

fn library() -> Result<std::path::PathBuf, String> {
    let dir = deps();
    let mut found: Vec<_> = std::fs::read_dir(&dir)
        .map_err(|e| e.to_string())?
        .filter_map(|e| e.ok())
        .filter(|e| {
            let n = e.file_name().to_string_lossy().to_string();
            n.starts_with("libscale_value-") && n.ends_with(".rlib")
        })
        .filter_map(|e| Some((e.metadata().ok()?.modified().ok()?, e.path())))
        .collect();
    found.sort();
    found.pop().map(|x| x.1).ok_or("the crate's library is not built".into())
}

static N: AtomicU64 = AtomicU64::new(0);

/// Text which is not the macro's syntax - a key, value, colon or comma missing, or one too many - does not compile.
fn spoilt(s: &mut Src, o: &mut Obs) -> R {
    let count = 1 + s.below(100);
    o.extra = count as u64 - 1;
    let mut lines = vec![];
    for i in 0..count {
        let from = s.used();
        let how = s.below(4);
        let fuel = *s.pick(&[4, 12, 30]);
        let at = s.len(4);
        let mut g = Gen { s, o, fuel, nodes: 0, ticks: 0, strings: 0, values: 0, spoil: Some(at) };
        let (mut text, _) = g.val(0);
        let nodes = g.nodes;
        if g.spoil.is_some() {
            // too few composites: one around it all
            text = match g.s.below(4) {
                0 => format!("(1,,{text})"),
                1 => format!("V {{ a {text} }}"),
                2 => format!("(1), {text}"),
                _ => format!("{{ a: {text}, b }}"),
            };
        }
        let call = match how {
            0 | 1 => format!("value!({text})"),
            2 => format!("value! {{ {text} }}"),
            _ => format!("scale_value::value!({text})"),
        };
        o.class("spoilt invocations");
        if nodes >= 3 {
            o.nontrivial(call.as_bytes());
        }
        if i < 2 {
            o.desc(|| format!("spoilt: {call}"));
        }
        lines.push((call, from, s.used()));
    }
    let dir = format!("{}/macros-{}-{}", deps(), std::process::id(), N.fetch_add(1, Ordering::Relaxed));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let mut left: Vec<usize> = (0..count).collect();
    let head = HEAD.lines().count();
    let r = (|| {
        // not every error is reported while there are others
        while !left.is_empty() {
            let mut program = HEAD.to_string();
            for i in &left {
                writeln!(program, "fn f{i}() {{ {VARS} let got: V<()> = {}; }}", lines[*i].0).unwrap();
            }
            program.push_str("fn main() {}\n");
            let src = format!("{dir}/main.rs");
            std::fs::write(&src, &program).map_err(|e| e.to_string())?;
            let c = Command::new("rustc")
                .args(["--edition", "2021", "--crate-name", "main", "--emit=metadata", "--error-format=json", "--extern"])
                .arg(format!("scale_value={}", library()?.display()))
            .arg(format!("-Ldependency={}", deps()))
                .args(["-o", &format!("{dir}/main.rmeta"), &src])
                .stdin(Stdio::null())
                .output()
                .map_err(|e| format!("rustc: {e}"))?;
            let mut bad = std::collections::HashSet::new();
            for l in String::from_utf8_lossy(&c.stderr).lines() {
                let Ok(d) = serde_json::from_str::<serde_json::Value>(l) else { continue };
                if d["level"] == "error" {
                    for sp in d["spans"].as_array().into_iter().flatten() {
                        let mut sp = sp;
                        while sp.is_object() {
                            if sp["file_name"].as_str().is_some_and(|f| f.ends_with("main.rs")) {
                                bad.insert(sp["line_start"].as_u64().unwrap_or(0) as usize);
                            }
                            sp = &sp["expansion"]["span"];
                        }
                    }
                }
            }
            if c.status.success() {
                let (call, a, b) = &lines[left[0]];
                let mut smaller = vec![255u8, 0, 0];
                smaller.extend(&s.data[*a..*b]);
                return Err(Fail { msg: format!("{call} is not the macro's syntax and compiles"), sig: None, smaller: (count > 1).then_some(smaller) });
            }
            let n = left.len();
            left = left.iter().enumerate().filter(|(i, _)| !bad.contains(&(head + 1 + i))).map(|x| *x.1).collect();
            if left.len() == n {
                return Err(format!("rustc failed: {}", String::from_utf8_lossy(&c.stderr)).into());
            }
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn c23(s: &mut Src, o: &mut Obs) -> R {
    if s.below(4) == 3 {
        return spoilt(s, o);
    }
    let count = 1 + s.below(100);
    o.extra = count as u64 - 1;
    let mut program = HEAD.to_string();
    let mut spans = vec![];
    let mut texts = vec![];
    for i in 0..count {
        let from = s.used();
        let how = s.below(5);
        let fuel = *s.pick(&[4, 12, 30]);
        let mut g = Gen { s, o, fuel, nodes: 0, ticks: 0, strings: 0, values: 0, spoil: None };
        let (text, want) = if g.s.ratio(1, 100) {
            (String::new(), "V { value: D::Composite(C::Unnamed(vec![])), context: () }".to_string())
        } else {
            g.val(0)
        };
        let nodes = g.nodes;
        let call = match how {
            0 | 1 => format!("value!({text})"),
            2 => format!("value! {{ {text} }}"),
            3 => format!("value![{text}]"),
            _ => format!("scale_value::value!({text})"),
        };
        if nodes >= 3 {
            o.nontrivial(call.as_bytes());
        }
        if i < 2 {
            o.desc(|| call.clone());
        }
        // one line each
        writeln!(program, "fn f{i}() {{ {VARS} let got: V<()> = {call}; let want: V<()> = {want}; report({i}, got, want); }}").unwrap();
        spans.push((from, s.used()));
        texts.push(call);
    }
    writeln!(program, "fn main() {{ {} }}", (0..count).map(|i| format!("f{i}(); ")).collect::<String>()).unwrap();
    let fail = |i: usize, why: String| {
        let (a, b) = spans[i];
        let mut smaller = vec![0u8, 0, 0];
        smaller.extend(&s.data[a..b]);
        Err(Fail { msg: format!("{} {why}", texts[i]), sig: None, smaller: (count > 1).then_some(smaller) })
    };
    let dir = format!("{}/macros-{}-{}", deps(), std::process::id(), N.fetch_add(1, Ordering::Relaxed));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let r = (|| {
        let (src, exe) = (format!("{dir}/main.rs"), format!("{dir}/main"));
        std::fs::write(&src, &program).map_err(|e| e.to_string())?;
        let c = Command::new("rustc")
            .args(["--edition", "2021", "--crate-name", "main", "-Cdebuginfo=0", "-Copt-level=0", "--error-format=short", "--extern"])
            .arg(format!("scale_value={}", library()?.display()))
            .arg(format!("-Ldependency={}", deps()))
            .args(["-o", &exe, &src])
            .stdin(Stdio::null())
            .output()
            .map_err(|e| format!("rustc: {e}"))?;
        if !c.status.success() {
            let err = String::from_utf8_lossy(&c.stderr).to_string();
            // the first error which is in an invocation
            let head = HEAD.lines().count();
            let line = err.lines().filter(|l| l.contains("error")).find_map(|l| {
                let n: usize = l.split("main.rs:").nth(1)?.split(':').next()?.parse().ok()?;
                (n > head && n <= head + count).then_some((n - head - 1, l.to_string()))
            });
            return match line {
                Some((i, l)) => fail(i, format!("does not compile: {l}")),
                None if err.contains("scale_value") || err.contains("error") => fail(0, format!("does not compile: {}", err.chars().take(600).collect::<String>())),
                None => Err(format!("rustc failed: {err}").into()),
            };
        }
        let r = Command::new(&exe).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
        let out = String::from_utf8_lossy(&r.stdout).to_string();
        if let Some(l) = out.lines().next() {
            let (i, rest) = l.split_once(' ').unwrap_or(("0", l));
            return fail(i.parse().unwrap_or(0), rest.to_string());
        }
        if !r.status.success() {
            return Err(format!("the program failed: {}", String::from_utf8_lossy(&r.stderr)).into());
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}
