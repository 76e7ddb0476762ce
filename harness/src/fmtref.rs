//! Reference formatter, written from the documentation of the printing options.
use crate::val::is_ident;
use scale_value::{Composite, Primitive, Value, ValueDef};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    Compact,
    Normal,
    Pretty,
}
pub struct Cfg<'a, C> {
    pub style: Style,
    pub leading: &'a str,
    pub indent: &'a str,
    pub ctx: Option<&'a dyn Fn(&C) -> String>,
    /// First text accepted by a custom formatter.
    pub custom: &'a dyn Fn(&Value<C>) -> Option<String>,
}

/// The text, or None if there is no format for (a 256-bit number in) the value; `out` then has what
/// is written before it.
pub fn value<C>(v: &Value<C>, cfg: &Cfg<C>, out: &mut String) -> Option<()> {
    val(v, cfg, 0, out)
}
pub fn quoted(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        esc(c, &mut out)
    }
    out.push('"');
    out
}
fn esc(c: char, out: &mut String) {
    match c {
        '\n' => out.push_str("\\n"),
        '\t' => out.push_str("\\t"),
        '\r' => out.push_str("\\r"),
        '\0' => out.push_str("\\0"),
        '"' => out.push_str("\\\""),
        '\'' => out.push_str("\\'"),
        '\\' => out.push_str("\\\\"),
        c => out.push(c),
    }
}
pub fn variant_name(n: &str) -> String {
    if is_ident(n) && !n.starts_with("true") && !n.starts_with("false") {
        n.to_string()
    } else {
        format!("v{}", quoted(n))
    }
}
pub fn field_name(n: &str) -> String {
    if is_ident(n) {
        n.to_string()
    } else {
        quoted(n)
    }
}
fn line<C>(cfg: &Cfg<C>, depth: usize, out: &mut String) {
    out.push('\n');
    out.push_str(cfg.leading);
    for _ in 0..depth {
        out.push_str(cfg.indent);
    }
}
fn val<C>(v: &Value<C>, cfg: &Cfg<C>, d: usize, out: &mut String) -> Option<()> {
    if let Some(f) = cfg.ctx {
        out.push('<');
        out.push_str(&f(&v.context));
        out.push_str("> ");
    }
    if let Some(t) = (cfg.custom)(v) {
        out.push_str(&t);
        return Some(());
    }
    deff(&v.value, cfg, d, out)
}
fn deff<C>(v: &ValueDef<C>, cfg: &Cfg<C>, d: usize, out: &mut String) -> Option<()> {
    match v {
        ValueDef::Composite(c) => comp(c, cfg, d, out)?,
        ValueDef::Variant(x) => {
            out.push_str(&variant_name(&x.name));
            if cfg.style != Style::Compact {
                out.push(' ');
            }
            comp(&x.values, cfg, d, out)?
        }
        ValueDef::BitSequence(b) => {
            out.push('<');
            for b in b.iter() {
                out.push(if b { '1' } else { '0' });
            }
            out.push('>');
        }
        ValueDef::Primitive(p) => out.push_str(&prim(p)?),
    }
    Some(())
}
pub fn prim(p: &Primitive) -> Option<String> {
    Some(match p {
        Primitive::Bool(b) => (if *b { "true" } else { "false" }).into(),
        Primitive::Char(c) => {
            let mut s = String::from("'");
            esc(*c, &mut s);
            s + "'"
        }
        Primitive::String(s) => quoted(s),
        Primitive::U128(n) => n.to_string(),
        Primitive::I128(n) => n.to_string(),
        Primitive::U256(_) | Primitive::I256(_) => return None,
    })
}
fn comp<C>(c: &Composite<C>, cfg: &Cfg<C>, d: usize, out: &mut String) -> Option<()> {
    let items: Vec<(Option<&String>, &Value<C>)> = match c {
        Composite::Named(vs) => vs.iter().map(|(n, v)| (Some(n), v)).collect(),
        Composite::Unnamed(vs) => vs.iter().map(|v| (None, v)).collect(),
    };
    let named = matches!(c, Composite::Named(_));
    out.push(if named { '{' } else { '(' });
    if !items.is_empty() {
        for (i, (n, v)) in items.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            match cfg.style {
                Style::Compact => {}
                Style::Pretty => line(cfg, d + 1, out),
                Style::Normal => {
                    if i > 0 || named {
                        out.push(' ')
                    }
                }
            }
            if let Some(n) = n {
                out.push_str(&field_name(n));
                out.push(':');
                if cfg.style != Style::Compact {
                    out.push(' ');
                }
            }
            val(v, cfg, d + 1, out)?;
        }
        match cfg.style {
            Style::Compact => {}
            Style::Pretty => line(cfg, d, out),
            Style::Normal => {
                if named {
                    out.push(' ')
                }
            }
        }
    }
    out.push(if named { '}' } else { ')' });
    Some(())
}

/// What the hex formatter should write for a value.
pub fn hex<C>(v: &Value<C>) -> Option<String> {
    let ValueDef::Composite(Composite::Unnamed(vs)) = &v.value else { return None };
    if vs.is_empty() {
        return None;
    }
    let mut s = String::from("0x");
    for v in vs {
        match &v.value {
            ValueDef::Primitive(Primitive::U128(n)) if *n < 256 => {
                for d in [*n / 16, *n % 16] {
                    s.push(b"0123456789ABCDEF"[d as usize] as char)
                }
            }
            _ => return None,
        }
    }
    Some(s)
}
