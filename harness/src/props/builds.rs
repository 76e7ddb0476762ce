//! C29: the crate built with other features, without optimisation or without checks does the same.
use crate::drv;
use crate::run::{Obs, Prop, R};
use crate::src::Src;
use crate::{check, fail};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "random types, bytes, values and texts put through everything that each of five other builds of the crate offers; non-trivial when at least 6 things were done",
        quick: 100_000,
        thorough: 1_500_000,
        run: c29,
        probes: &[("every choice of features compiles", c29_compiles)],
    }]
}

/// The builds, made by check.sh.
const BUILDS: &[&str] = &["debug-none", "debug-all", "release-all", "release-serde", "release-from-string"];

struct Build {
    name: &'static str,
    child: Child,
}
impl Drop for Build {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn dir() -> String {
    std::env::var("VP_BUILDS").unwrap_or_else(|_| "/verif/target/builds".to_string())
}
/// check.sh leaves the compiler's output if the crate does not compile for one of the builds.
fn c29_compiles(_: &mut Obs) -> R {
    for name in BUILDS {
        if let Ok(text) = std::fs::read_to_string(format!("{}/{name}.failed", dir())) {
            let error = text.lines().skip_while(|l| !l.starts_with("error")).take(6).collect::<Vec<_>>().join(" ");
            fail!("the crate does not compile for the build {name}: {error}");
        }
    }
    Ok(())
}
fn start(name: &'static str) -> Result<Build, String> {
    let child = Command::new(format!("{}/{name}", dir()))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        // the cases are made from the same bytes with the same dictionary
        .env("VP_DICT", crate::dict::saved())
        .env("VP_CAP", crate::src::cap(usize::MAX).to_string())
        .spawn()
        .unwrap_or_else(|e| {
            eprintln!("the build {name} is missing: {e}");
            std::process::exit(2)
        });
    Ok(Build { name, child })
}
impl Build {
    fn ask(&mut self, data: &[u8]) -> std::io::Result<String> {
        let i = self.child.stdin.as_mut().expect("piped");
        i.write_all(&(data.len() as u32).to_le_bytes())?;
        i.write_all(data)?;
        i.flush()?;
        let o = self.child.stdout.as_mut().expect("piped");
        let mut len = [0u8; 4];
        o.read_exact(&mut len)?;
        let mut text = vec![0u8; u32::from_le_bytes(len) as usize];
        o.read_exact(&mut text)?;
        Ok(String::from_utf8(text).expect("text"))
    }
}
thread_local! {
    static CHILDREN: RefCell<Vec<Build>> = const { RefCell::new(vec![]) };
}

fn c29(s: &mut Src, obs: &mut Obs) -> R {
    let mine = drv::outcome(s);
    let data = s.data[..s.used()].to_vec();
    let want: HashMap<&str, String> = mine.iter().map(|(k, v)| (*k, v.replace('\\', "\\\\").replace('\n', "\\n"))).collect();
    check!(want.len() == mine.len(), "names are not unique");
    obs.desc(|| mine.iter().take(3).map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>().join("; "));
    for (k, v) in &mine {
        check!(v != "panic", "{k} panics in this build");
        obs.class_if(v.starts_with("error"), "errors compared");
    }
    obs.extra += (BUILDS.len() * mine.len()) as u64;
    if mine.len() >= 6 {
        obs.nontrivial(&data);
    }
    CHILDREN.with(|c| {
        let mut c = c.borrow_mut();
        for (i, name) in BUILDS.iter().enumerate() {
            if c.len() <= i {
                c.push(start(name)?);
            }
            let text = match c[i].ask(&data) {
                Ok(t) => t,
                Err(_) => {
                    c[i] = start(name)?;
                    fail!("the build {name} ends on this case ({mine:?})")
                }
            };
            let mut seen = 0;
            for line in text.lines() {
                let (k, v) = line.split_once('\t').unwrap_or((line, ""));
                match want.get(k) {
                    Some(w) => check!(w == v, "{k}: {w} here, but {v} in the build {}", c[i].name),
                    None => fail!("the build {} also does {k}", c[i].name),
                }
                seen += 1;
            }
            let all = name.ends_with("-all");
            check!(!all || seen == mine.len(), "the build {name} leaves out some of {mine:?}");
            obs.class(if all { "builds with all features" } else { "builds with fewer features" });
        }
        Ok(())
    })
}
