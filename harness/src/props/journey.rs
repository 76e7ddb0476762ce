//! C28: a value keeps its meaning through any chain of representations.
use super::encode::too_deep;
use super::serde::clean;
use crate::run::{Obs, Prop, R};
use crate::src::Src;
use crate::ty::*;
use crate::val::*;
use crate::{check, fail};
use scale_value::stringify::{self, custom_formatters, custom_parsers};
use scale_value::{scale, serde as vs, Composite, Primitive, Value, ValueDef};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        rule: "a random value decoded from bytes goes through 1 to 6 of: printing and parsing in random styles (with hex), serde into itself, JSON, contexts mapped and removed, taking apart and putting together, re-encoding; non-trivial when it has at least 3 nodes and goes through at least 2 kinds of steps",
        quick: 1_600_000,
        thorough: 24_000_000,
        run: c28,
        probes: &[],
    }]
}

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Can be written as JSON and read back as the same value.
fn jsonable(v: &Value<()>) -> bool {
    !any(v, &mut |v| match &v.value {
        ValueDef::Variant(_) => true,
        ValueDef::Primitive(p) => match p {
            Primitive::Char(_) | Primitive::U256(_) | Primitive::I256(_) => true,
            Primitive::U128(n) => *n > u64::MAX as u128,
            Primitive::I128(n) => *n < i64::MIN as i128 || *n > u64::MAX as i128,
            _ => false,
        },
        // a JSON object holds each name once, and not in order
        ValueDef::Composite(Composite::Named(c)) => {
            let mut names: Vec<_> = c.iter().map(|(n, _)| n).collect();
            names.sort();
            names.dedup();
            names.len() < c.len()
        }
        _ => false,
    })
}

fn parse(text: &str, hex: bool) -> Result<Value<()>, String> {
    let (r, rest) = if hex {
        stringify::from_str_custom().add_custom_parser(custom_parsers::parse_hex).parse(text)
    } else {
        stringify::from_str(text)
    };
    match r {
        Ok(v) if rest.is_empty() => Ok(v),
        Ok(_) => Err(format!("{text:?} left {rest:?} unparsed")),
        Err(e) => Err(format!("{text:?} does not parse: {e:?}")),
    }
}

fn c28(s: &mut Src, obs: &mut Obs) -> R {
    let mut o = TyOpts::new(4 + s.below(18) as i32);
    o.allow_256 = s.ratio(1, 12);
    let t = gen_types(s, o);
    let mut fuel = 40;
    let v = t.gen_val(s, t.root, &mut fuel);
    let bytes = t.encode(t.root, &v);
    let first = scale::decode_as_type(&mut &bytes[..], t.root_id(), t.reg()).map_err(|e| format!("decode: {e}"))?;
    let mut at = strip(&first);
    if too_deep(&at) {
        obs.class("skipped: takes long to encode");
        return Ok(());
    }
    let original = norm_sign(&at);
    let n = 1 + s.len(5);
    let mut kinds = std::collections::BTreeSet::new();
    let mut path: Vec<&'static str> = vec![];
    for _ in 0..n {
        let k = s.below(10);
        let has256 = any(&at, &mut |v| matches!(v.value, ValueDef::Primitive(Primitive::U256(_) | Primitive::I256(_))));
        let what: &'static str;
        let next: Result<Value<()>, String> = match k {
            0 | 1 if !has256 => {
                what = "display";
                let alt = s.coin();
                parse(&if alt { format!("{at:#}") } else { format!("{at}") }, s.coin())
            }
            2 | 3 if !has256 => {
                what = "custom text";
                let hex = s.coin();
                let style = s.below(3);
                let indent = *s.pick(&["", " ", "  ", "\t", "\n "]);
                let mut out = String::new();
                let r = {
                    let b = stringify::to_writer_custom().indent_by(indent);
                    let b = match style {
                        0 => b.compact(),
                        1 => b.pretty(),
                        _ => b,
                    };
                    let b = if hex { b.add_custom_formatter(|v, w: &mut &mut String| custom_formatters::format_hex(v, w)) } else { b };
                    b.write(&at, &mut out)
                };
                match r {
                    Ok(()) => {
                        obs.class_if(hex && out.contains("0x"), "went through hex");
                        parse(&out, hex)
                    }
                    Err(_) => Err("writing failed".into()),
                }
            }
            4 if !has256 && clean(&at) == at => {
                what = "serde";
                let maps = any(&at, &mut |v| matches!(v.value, ValueDef::Variant(_) | ValueDef::BitSequence(_)));
                // (which serialize to maps)
                if maps || s.coin() {
                    vs::from_value::<_, Value<()>>(at.clone()).map_err(|e| format!("from_value: {e}"))
                } else {
                    vs::to_value(&at).map_err(|e| format!("to_value: {e}"))
                }
            }
            5 if clean(&at) == at && jsonable(&at) => {
                what = "json";
                obs.class("went through json");
                let text = serde_json::to_string(&at).map_err(|e| format!("json: {e}"))?;
                serde_json::from_str(&text).map_err(|e| format!("from json {text}: {e}"))
            }
            6 => {
                what = "contexts";
                let i = std::cell::Cell::new(0u32);
                let c = &i;
                let with = at.clone().map_context(move |()| {
                    c.set(c.get() + 1);
                    c.get()
                });
                let x = with.clone().map_context(|c| format!("<{c}>"));
                let mut out = vec![];
                match scale::encode_as_type(&x, t.root_id(), t.reg(), &mut out) {
                    Ok(()) if out == bytes => Ok(with.remove_context()),
                    Ok(()) => Err(format!("with contexts it encodes to {}", hexs(&out))),
                    Err(e) => Err(format!("with contexts it does not encode: {e}")),
                }
            }
            7 => {
                what = "parts";
                // taken apart and put together
                match at.clone().value {
                    ValueDef::Composite(Composite::Named(c)) => Ok(Value::named_composite(c)),
                    ValueDef::Composite(Composite::Unnamed(c)) => Ok(Value::unnamed_composite(c)),
                    ValueDef::Variant(x) => match x.values {
                        Composite::Named(c) => Ok(Value::named_variant(x.name, c)),
                        Composite::Unnamed(c) => Ok(Value::unnamed_variant(x.name, c)),
                    },
                    ValueDef::BitSequence(b) => Ok(Value::bit_sequence(b)),
                    ValueDef::Primitive(p) => Ok(Value::primitive(p)),
                }
            }
            _ => {
                what = "re-encoding";
                let mut out = vec![];
                match scale::encode_as_type(&at, t.root_id(), t.reg(), &mut out) {
                    Err(e) => Err(format!("does not encode: {e}")),
                    Ok(()) => match s.below(3) {
                        0 => scale::tracing::decode_as_type(&mut &out[..], t.root_id(), t.reg())
                            .map(|v| v.remove_context())
                            .map_err(|e| format!("tracing decoder: {e}")),
                        1 => scale::decode_as_type(&mut &out[..], t.root_id(), t.reg())
                            .map(|v| v.remove_context())
                            .map_err(|e| format!("decoder: {e}")),
                        _ => {
                            use scale_decode::DecodeAsType;
                            Value::<()>::decode_as_type(&mut &out[..], t.root_id(), t.reg()).map_err(|e| format!("DecodeAsType: {e}"))
                        }
                    },
                }
            }
        };
        kinds.insert(what);
        path.push(what);
        let next = match next {
            Ok(v) => v,
            Err(e) => fail!("type {} value {} after {path:?}: {e}", t.show(t.root), show(&at)),
        };
        check!(
            norm_sign(&next) == original,
            "type {}: {path:?} turns {} into {}",
            t.show(t.root),
            show(&at),
            show(&next)
        );
        let mut out = vec![];
        match scale::encode_as_type(&next, t.root_id(), t.reg(), &mut out) {
            Ok(()) => check!(
                out == bytes,
                "type {}: after {path:?} {} encodes to {} not {}",
                t.show(t.root),
                show(&next),
                hexs(&out),
                hexs(&bytes)
            ),
            Err(e) => fail!("type {}: after {path:?} {} does not encode: {e}", t.show(t.root), show(&next)),
        }
        at = next;
    }
    for k in &kinds {
        obs.class(k);
    }
    obs.desc(|| format!("type {} value {} steps {path:?}", t.show(t.root), show(&original)));
    if count_nodes(&original) >= 3 && kinds.len() >= 2 {
        let mut k = t.show(t.root).into_bytes();
        k.extend(&bytes);
        path.iter().for_each(|p| k.extend(p.as_bytes()));
        obs.nontrivial(&k);
    }
    Ok(())
}
