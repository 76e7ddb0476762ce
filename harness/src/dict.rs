//! The literals in the crate's source, as a dictionary for the generators: what the code compares
//! with is what inputs should be made of. Literals that the tree the harness was written against
//! does not have are preferred. Nothing is judged by them.
use crate::src::Src;
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Lit {
    Num(u128),
    Str(String),
    Char(char),
}

#[derive(Default)]
pub struct Set {
    pub nums: Vec<u128>,
    pub strs: Vec<String>,
    pub chars: Vec<char>,
}
impl Set {
    fn add(&mut self, l: &Lit) {
        match l {
            Lit::Num(n) if !self.nums.contains(n) => self.nums.push(*n),
            Lit::Str(t) if t.chars().count() >= 40 => {}
            Lit::Str(t) => {
                if !self.strs.contains(t) {
                    self.strs.push(t.clone());
                }
                for c in t.chars().take(8) {
                    self.add(&Lit::Char(c));
                }
            }
            Lit::Char(c) if !self.chars.contains(c) => self.chars.push(*c),
            _ => {}
        }
    }
    fn empty(&self) -> bool {
        self.nums.is_empty() && self.strs.is_empty() && self.chars.is_empty()
    }
}
#[derive(Default)]
pub struct Dict {
    pub all: Set,
    pub fresh: Set,
}

/// The literals of a source text, up to its tests.
fn scan(text: &str, out: &mut Vec<Lit>) {
    let text = text.split("#[cfg(test)]\nmod ").next().unwrap_or(text);
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    let mut prev: Option<(u128, usize)> = None;
    let is_word = |c: char| c.is_alphanumeric() || c == '_';
    while i < c.len() {
        let ch = c[i];
        if ch == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1
            }
        } else if ch == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1
            }
            i += 2;
        } else if ch == '"' || (ch == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && matches!(at(i + 2), '"' | '#')))) {
            let raw = ch == 'r';
            if raw {
                i += 1;
            }
            let mut hashes = 0;
            while at(i) == '#' {
                hashes += 1;
                i += 1;
            }
            i += 1;
            let mut t = String::new();
            while i < c.len() {
                if c[i] == '"' && (0..hashes).all(|k| at(i + 1 + k) == '#') {
                    i += 1 + hashes;
                    break;
                }
                if c[i] == '\\' && !raw {
                    let (ch, n) = escape(&c, i);
                    t.extend(ch);
                    i += n;
                } else {
                    t.push(c[i]);
                    i += 1;
                }
            }
            if t.chars().count() <= 200 {
                out.push(Lit::Str(t));
            }
        } else if ch == '\'' {
            if at(i + 1) == '\\' {
                let (ch, n) = escape(&c, i + 1);
                out.extend(ch.map(Lit::Char));
                i += 1 + n + 1;
            } else if at(i + 2) == '\'' {
                out.push(Lit::Char(at(i + 1)));
                i += 3;
            } else {
                i += 1;
            }
        } else if ch.is_ascii_digit() {
            let from = i;
            while i < c.len() && is_word(c[i]) {
                i += 1
            }
            let word: String = c[from..i].iter().filter(|c| **c != '_').collect();
            let n = number(&word);
            if let Some(n) = n {
                out.push(Lit::Num(n));
                // 1 << 20
                if let Some((a, end)) = prev {
                    let between: String = c[end..from].iter().filter(|c| !c.is_whitespace()).collect();
                    if between == "<<" && n < 128 {
                        out.extend(a.checked_shl(n as u32).map(Lit::Num));
                    } else if between == "*" {
                        out.extend(a.checked_mul(n).map(Lit::Num));
                    }
                }
                prev = Some((n, i));
            }
        } else if is_word(ch) {
            let from = i;
            while i < c.len() && is_word(c[i]) {
                i += 1
            }
            let word: String = c[from..i].iter().collect();
            let rest: String = c[i..c.len().min(i + 7)].iter().collect();
            if let Some(bits) = word.strip_prefix(['u', 'i']).map(|b| b.replace("size", "64")).and_then(|b| b.parse::<u32>().ok()) {
                if matches!(bits, 8 | 16 | 32 | 64 | 128) && (rest.starts_with("::MAX") || rest.starts_with("::MIN")) {
                    let unsigned = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
                    out.push(Lit::Num(if word.starts_with('u') { unsigned } else { unsigned >> 1 }));
                }
            }
        } else {
            i += 1;
        }
    }
}
fn number(w: &str) -> Option<u128> {
    for t in ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", ""] {
        if let Some(w) = w.strip_suffix(t) {
            let n = if let Some(h) = w.strip_prefix("0x") {
                u128::from_str_radix(h, 16)
            } else if let Some(b) = w.strip_prefix("0b") {
                u128::from_str_radix(b, 2)
            } else if let Some(o) = w.strip_prefix("0o") {
                u128::from_str_radix(o, 8)
            } else {
                w.parse()
            };
            if let Ok(n) = n {
                return Some(n);
            }
        }
    }
    None
}
/// The character written by an escape, and how long the escape is.
fn escape(c: &[char], i: usize) -> (Option<char>, usize) {
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    match at(i + 1) {
        'n' => (Some('\n'), 2),
        't' => (Some('\t'), 2),
        'r' => (Some('\r'), 2),
        '0' => (Some('\0'), 2),
        'x' => {
            let h: String = [at(i + 2), at(i + 3)].iter().collect();
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), 4)
        }
        'u' => {
            let mut n = 3;
            let mut h = String::new();
            while at(i + n) != '}' && n < 12 {
                h.push(at(i + n));
                n += 1;
            }
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), n + 1)
        }
        '\n' => {
            let mut n = 2;
            while at(i + n).is_whitespace() {
                n += 1;
            }
            (None, n)
        }
        x => (Some(x), 2),
    }
}

fn sources(dir: &str, out: &mut Vec<String>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    let mut ps: Vec<_> = d.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    ps.sort();
    for p in ps {
        let s = p.display().to_string();
        if p.is_dir() {
            sources(&s, out)
        } else if s.ends_with(".rs") {
            out.push(s)
        }
    }
}
fn counts() -> BTreeMap<(String, Lit), usize> {
    let root = std::env::var("VP_SRC").unwrap_or("/repo/src".into());
    let mut files = vec![];
    sources(&root, &mut files);
    let mut out = BTreeMap::new();
    for f in files {
        let mut lits = vec![];
        scan(&std::fs::read_to_string(&f).unwrap_or_default(), &mut lits);
        let name = f[root.len()..].to_string();
        for l in lits {
            *out.entry((name.clone(), l)).or_default() += 1;
        }
    }
    out
}
fn line((f, l): &(String, Lit), n: usize) -> String {
    format!("{f}\t{l:?}\t{n}")
}
/// What is kept as `dict_base.txt`.
pub fn dump() {
    for (k, n) in counts() {
        println!("{}", line(&k, n));
    }
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let base: std::collections::HashSet<&str> = include_str!("dict_base.txt").lines().collect();
        let mut d = Dict::default();
        for (k, n) in counts() {
            d.all.add(&k.1);
            if !base.is_empty() && (1..=n).all(|n| !base.contains(line(&k, n).as_str())) {
                d.fresh.add(&k.1);
            }
        }
        // (the same, whatever the order of files)
        for s in [&mut d.all, &mut d.fresh] {
            s.nums.sort();
            s.strs.sort();
            s.chars.sort();
        }
        d
    })
}
/// For replaying what was found with another dictionary.
pub fn restore(text: &str) {
    let mut d = Dict::default();
    for l in text.split_whitespace() {
        let set = if l.starts_with('f') { &mut d.fresh } else { &mut d.all };
        let (Some(kind), Some(rest)) = (l.get(1..2), l.get(2..)) else { continue };
        match kind {
            "n" => set.nums.extend(rest.parse::<u128>()),
            "c" => set.chars.extend(rest.parse().ok().and_then(char::from_u32)),
            _ => set.strs.push(rest.split('.').filter_map(|c| c.parse().ok().and_then(char::from_u32)).collect()),
        }
    }
    let _ = DICT.set(d);
}
/// The dictionary as text.
pub fn saved() -> String {
    let mut out = String::new();
    for (k, s) in [('a', &dict().all), ('f', &dict().fresh)] {
        s.nums.iter().for_each(|n| out += &format!("{k}n{n} "));
        s.chars.iter().for_each(|c| out += &format!("{k}c{} ", *c as u32));
        for t in &s.strs {
            out += &format!("{k}s{} ", t.chars().map(|c| (c as u32).to_string()).collect::<Vec<_>>().join("."));
        }
    }
    out
}

/// How often to look into the dictionary: of `den`, more when there is something new.
pub fn chance(s: &mut Src, den: usize) -> bool {
    let times = if dict().fresh.empty() { 1 } else { (den / 8).max(2) };
    s.ratio(times, den)
}
fn pick<'a, T>(s: &mut Src, f: fn(&'a Set) -> &'a Vec<T>, ok: impl Fn(&T) -> bool) -> Option<&'a T> {
    let d = dict();
    let fresh = s.ratio(3, 4);
    let k = s.u16();
    for set in if fresh { [f(&d.fresh), f(&d.all)] } else { [f(&d.all), f(&d.fresh)] } {
        let xs: Vec<&T> = set.iter().filter(|x| ok(x)).collect();
        if !xs.is_empty() {
            return Some(xs[k as usize * xs.len() >> 16]);
        }
    }
    None
}
/// A number in the code, or one beside it.
pub fn num(s: &mut Src, lo: u128, hi: u128) -> Option<u128> {
    let n = *pick(s, |s| &s.nums, |n| *n <= hi && *n >= lo)?;
    let n = match s.below(4) {
        0 | 1 => n,
        2 => n.wrapping_add(1),
        _ => n.wrapping_sub(1),
    };
    (n <= hi && n >= lo).then_some(n)
}
pub fn size(s: &mut Src, lo: usize, hi: usize) -> Option<usize> {
    num(s, lo as u128, hi as u128).map(|n| n as usize)
}
pub fn ch(s: &mut Src) -> Option<char> {
    if s.coin() {
        pick(s, |s| &s.chars, |_| true).copied()
    } else {
        num(s, 0, 0x10ffff).and_then(|n| char::from_u32(n as u32))
    }
}
pub fn text(s: &mut Src) -> Option<String> {
    pick(s, |s| &s.strs, |_| true).cloned()
}
