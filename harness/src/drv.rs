//! One case of C29: everything the crate offers, as far as it is part of this build, on one
//! generated type, value and text. Also compiled into the other builds, see /verif/builds.
use crate::src::Src;
use crate::ty::*;
use crate::val::*;
use scale_encode::{EncodeAsFields, EncodeAsType};
use scale_value::{scale, stringify, At, Composite, Value, ValueDef};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Out = Vec<(&'static str, String)>;

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn disp(v: &Value<()>, alternate: bool) -> String {
    use std::fmt::Write;
    let mut o = String::new();
    // (fails for 256-bit numbers)
    let r = if alternate { write!(o, "{v:#}") } else { write!(o, "{v}") };
    format!("{o}{}", if r.is_err() { " error" } else { "" })
}

fn sec(out: &mut Out, name: &'static str, f: impl FnOnce() -> String) {
    let r = catch_unwind(AssertUnwindSafe(f));
    out.push((name, r.unwrap_or_else(|_| "panic".to_string())));
}

/// What happens, by name of the thing done; the names are different in one case.
pub fn outcome(s: &mut Src) -> Out {
    let mut out = vec![];
    if s.coin() {
        codec(s, &mut out);
    } else {
        texts(s, &mut out);
    }
    out
}

fn codec(s: &mut Src, out: &mut Out) {
    let o = {
        let n = s.below(16) as i32;
        TyOpts::new(3 + n)
    };
    let t = gen_types(s, o);
    let mut fuel = 30;
    let mut bytes = {
        let v = t.gen_val(s, t.root, &mut fuel);
        t.encode(t.root, &v)
    };
    match s.below(4) {
        0 if !bytes.is_empty() => {
            let i = s.below(bytes.len());
            bytes[i] = s.byte();
        }
        1 => bytes.truncate(s.below(bytes.len() + 1)),
        2 => (0..s.len(9)).for_each(|_| bytes.push(s.byte())),
        _ => {}
    }
    let other = gen_value(s, ValOpts::new(8));
    if t.zst_lists() {
        // (takes any time for the lengths which may be claimed now)
        return;
    }
    let (id, reg) = (t.root_id(), t.reg());
    let mut got: Option<Value<u32>> = None;
    sec(out, "decode", || {
        let mut c = &bytes[..];
        match scale::decode_as_type(&mut c, id, reg) {
            Ok(v) => {
                let r = format!("{} and {} left", show(&v), c.len());
                got = Some(v);
                r
            }
            Err(e) => format!("error: {e}"),
        }
    });
    sec(out, "trace", || {
        let mut c = &bytes[..];
        match scale::tracing::decode_as_type(&mut c, id, reg) {
            Ok(v) => format!("{} and {} left", show(&v), c.len()),
            Err(e) => format!("error: {e}"),
        }
    });
    sec(out, "decode fields", || {
        let mut c = &bytes[..];
        let f = [scale_type_resolver::Field::new(id, Some("a")), scale_type_resolver::Field::unnamed(id)];
        match scale::decode_as_fields(&mut c, &mut f[..1 + bytes.len() % 2].iter().cloned(), reg) {
            Ok(v) => format!("{} and {} left", show_c(&v), c.len()),
            Err(e) => format!("error: {e}"),
        }
    });
    let encode = |v: &Value<()>| {
        let mut o = vec![7];
        match v.encode_as_type_to(id, reg, &mut o) {
            Ok(()) => hexs(&o),
            Err(e) => format!("error: {e}"),
        }
    };
    if let Some(v) = got {
        let v = strip(&v);
        sec(out, "encode", || encode(&v));
        sec(out, "encode wrapped", || encode(&Value::unnamed_composite([v.clone()])));
        sec(out, "encode perturbed", || {
            encode(&match &v.value {
                ValueDef::Composite(Composite::Unnamed(vs)) if !vs.is_empty() => {
                    Value::unnamed_composite(vs[1..].iter().cloned().chain([other.clone()]))
                }
                ValueDef::Composite(Composite::Named(vs)) => Value::named_composite(vs.iter().rev().cloned().chain([("x".to_string(), other.clone())])),
                _ => other.clone(),
            })
        });
        sec(out, "encode fields", || {
            let f = [scale_type_resolver::Field::unnamed(id)];
            let mut o = vec![];
            match Value::unnamed_composite([v.clone()]).encode_as_fields_to(&mut f.iter().cloned(), reg, &mut o) {
                Ok(()) => hexs(&o),
                Err(e) => format!("error: {e}"),
            }
        });
    }
}

fn texts(s: &mut Src, out: &mut Out) {
    let n = s.below(20) as i32;
    let v = gen_value(s, ValOpts::new(4 + n));
    sec(out, "display", || disp(&v, false));
    sec(out, "alternate", || disp(&v, true));
    let compact = s.coin();
    sec(out, "custom", || {
        let mut o = String::new();
        let b = stringify::to_writer_custom().indent_by("  ").format_context(|c: &usize, w: &mut &mut String| {
            use std::fmt::Write;
            write!(w, "{c}")
        });
        let b = if compact { b.compact() } else { b.pretty() };
        let n = std::cell::Cell::new(0usize);
        let n = &n;
        let w = v.clone().map_context(move |()| {
            n.set(n.get() + 1);
            n.get()
        });
        let r = b.add_custom_formatter(|v, w: &mut &mut String| stringify::custom_formatters::format_hex(v, w)).write(&w, &mut o);
        format!("{r:?} {o}")
    });
    sec(out, "look up", || {
        let mut at: Option<&Value<()>> = Some(&v);
        let mut o = String::new();
        let mut n = 0usize;
        while let Some(x) = at {
            o.push_str(&format!("{:?} {:?} {:?} {:?} {:?}; ", x.as_bool(), x.as_char(), x.as_u128(), x.as_i128(), x.as_str()));
            at = x.at(n % 3).or(x.at("a")).or(x.at(0));
            n += 1;
        }
        o
    });
    let text = {
        let mut t: Vec<char> = disp(&v, false).chars().collect();
        for _ in 0..s.len(3) {
            let i = s.below(t.len() + 1);
            match s.below(3) {
                0 if i < t.len() => drop(t.remove(i)),
                1 if i < t.len() => t[i] = *s.pick(&['(', ')', '{', '}', ',', ':', '"', '\'', '<', '>', '0', '9', '_', '-', '+', ' ', 'v', '\\', 'é']),
                _ => t.insert(i, *s.pick(&[' ', '0', '1', 'x', '5', 'G', '(', ')', ',', '\n', '"', '_', '-'])),
            }
        }
        t.into_iter().collect::<String>()
    };
    let number = s.sint(100);
    let _ = (&text, number);
    #[cfg(feature = "from-string")]
    {
        let tell = |r: (Result<Value<()>, stringify::ParseError>, &str)| match r {
            (Ok(v), rest) => format!("{} and {rest:?}", show(&v)),
            (Err(e), rest) => format!("error: {e} ({e:?}) and {rest:?}"),
        };
        sec(out, "parse", || tell(stringify::from_str(&text)));
        sec(out, "parse with hex", || {
            tell(stringify::from_str_custom().add_custom_parser(stringify::custom_parsers::parse_hex).parse(&text))
        });
        sec(out, "parse hex", || {
            let t = format!("0x{}", hexs(text.as_bytes()));
            tell(stringify::from_str_custom().add_custom_parser(stringify::custom_parsers::parse_hex).parse(&t[..t.len() - t.len() % 3]))
        });
        #[cfg(feature = "parser-ss58")]
        sec(out, "parse with ss58", || {
            let t = text.replace('1', "5EYCAe5ijiYfyeZ2JJCGq56LmPyNRAKzpG4QkoQkkQNB5e6Z");
            tell(stringify::from_str_custom().add_custom_parser(stringify::custom_parsers::parse_ss58).parse(&t))
        });
    }
    #[cfg(feature = "serde")]
    {
        use scale_value::serde as vs;
        sec(out, "from_value", || match vs::from_value::<_, Value<()>>(v.clone()) {
            Ok(v) => show(&v),
            Err(e) => format!("error: {e}"),
        });
        sec(out, "to_value", || match vs::to_value((number, &v, Some("x"))) {
            Ok(v) => show(&v),
            Err(e) => format!("error: {e}"),
        });
        sec(out, "integers", || {
            let f = |r: Result<i128, vs::DeserializerError>| r.map(|n| n.to_string()).unwrap_or_else(|e| e.to_string());
            let v = if number % 2 == 0 || number < 0 { Value::i128(number) } else { Value::u128(number as u128) };
            [
                f(vs::from_value::<_, u8>(v.clone()).map(|n| n as i128)),
                f(vs::from_value::<_, i8>(v.clone()).map(|n| n as i128)),
                f(vs::from_value::<_, u16>(v.clone()).map(|n| n as i128)),
                f(vs::from_value::<_, i16>(v.clone()).map(|n| n as i128)),
                f(vs::from_value::<_, u32>(v.clone()).map(|n| n as i128)),
                f(vs::from_value::<_, i32>(v.clone()).map(|n| n as i128)),
                f(vs::from_value::<_, u64>(v.clone()).map(|n| n as i128)),
                f(vs::from_value::<_, i64>(v.clone()).map(|n| n as i128)),
                f(vs::from_value::<_, u128>(v.clone()).map(|n| n as i128)),
                f(vs::from_value::<_, i128>(v)),
            ]
            .join(" ")
        });
        sec(out, "typed", || {
            let v = v.clone();
            format!(
                "{:?} {:?} {:?}",
                vs::from_value::<_, Vec<(u8, String)>>(v.clone()).map_err(|e| e.to_string()),
                vs::from_value::<_, Option<Vec<u64>>>(v.clone()).map_err(|e| e.to_string()),
                vs::from_value::<_, std::collections::BTreeMap<String, char>>(v).map_err(|e| e.to_string()),
            )
        });
        sec(out, "json", || match serde_json::to_string(&v) {
            Err(e) => format!("error: {e}"),
            Ok(t) => match serde_json::from_str::<Value<()>>(&t) {
                Ok(v) => format!("{t} {}", show(&v)),
                Err(e) => format!("{t} error: {e}"),
            },
        });
    }
}
