//! Runs the cases given on standard input, see `drv::outcome`.
#![allow(dead_code)]
#[path = "../../harness/src/dict.rs"]
mod dict;
#[path = "../../harness/src/drv.rs"]
mod drv;
#[path = "../../harness/src/src.rs"]
mod src;
#[path = "../../harness/src/ty.rs"]
mod ty;
#[path = "../../harness/src/val.rs"]
mod val;
use std::io::{Read, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    dict::restore(&std::env::var("VP_DICT").unwrap_or_default());
    if let Some(n) = std::env::var("VP_CAP").ok().and_then(|n| n.parse().ok()) {
        src::set_cap(n);
    }
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut len = [0u8; 4];
    while i.read_exact(&mut len).is_ok() {
        let mut data = vec![0u8; u32::from_le_bytes(len) as usize];
        if i.read_exact(&mut data).is_err() {
            break;
        }
        let out = drv::outcome(&mut src::Src::fixed(data));
        let mut text = String::new();
        for (k, v) in &out {
            text.push_str(k);
            text.push('\t');
            text.push_str(&v.replace('\\', "\\\\").replace('\n', "\\n"));
            text.push('\n');
        }
        if o.write_all(&(text.len() as u32).to_le_bytes()).and_then(|_| o.write_all(text.as_bytes())).and_then(|_| o.flush()).is_err() {
            break;
        }
    }
}
