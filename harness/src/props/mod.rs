use crate::run::Prop;
mod builds;
mod decode;
mod effort;
mod encode;
mod foreign;
mod journey;
mod macros;
mod rusttypes;
mod serde;
mod strings;
mod values;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(decode::props());
    v.extend(encode::props());
    v.extend(strings::props());
    v.extend(serde::props());
    v.extend(foreign::props());
    v.extend(values::props());
    v.extend(macros::props());
    v.extend(effort::props());
    v.extend(journey::props());
    v.extend(builds::props());
    v
}

/// Handles deeply nested input on a stack of the usual size of a main thread. Run in a process of
/// its own: see `deep_ends`.
pub fn deep(what: &str, n: usize) -> i32 {
    #[derive(scale_info::TypeInfo)]
    #[allow(dead_code)]
    struct Nested(Vec<Nested>);
    let what = what.to_string();
    let r = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || match what.as_str() {
            "parse" => {
                let r = scale_value::stringify::from_str(&"(".repeat(n)).0;
                r.is_err()
            }
            "parse-ok" => {
                let t = format!("{}{}", "(".repeat(n), ")".repeat(n));
                let r = scale_value::stringify::from_str(&t).0;
                std::mem::forget(r);
                true
            }
            _ => {
                let mut types = scale_info::Registry::new();
                let id = types.register_type(&scale_info::MetaType::new::<Nested>()).id;
                let reg: scale_info::PortableRegistry = types.into();
                // one element each, until the input ends
                let bytes = vec![4u8; n];
                let mut c = &bytes[..];
                if what == "decode" {
                    scale_value::scale::decode_as_type(&mut c, id, &reg).is_err()
                } else {
                    scale_value::scale::tracing::decode_as_type(&mut c, id, &reg).is_err()
                }
            }
        })
        .unwrap()
        .join();
    match r {
        Ok(true) => 0,
        Ok(false) => 3,
        Err(_) => 4,
    }
}

/// Fails with the signature if the process ends on input nested `n` deep.
fn deep_ends(what: &str, n: usize, sig: &str) -> crate::run::R {
    use std::process::{Command, Stdio};
    let out = Command::new(std::env::current_exe().expect("own path"))
        .args(["deep", what, &n.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .expect("own program");
    match out.code() {
        Some(0) => Ok(()),
        Some(3) => Err(format!("{what}: input nested {n} deep is accepted though it does not end").into()),
        Some(_) => Err(format!("{what}: panics on input nested {n} deep").into()),
        None => Err(crate::run::Fail {
            msg: format!("{what}: the process ends with a stack overflow (8 MB) on input nested {n} deep"),
            sig: Some(sig.to_string()),
            smaller: None,
        }),
    }
}
