//! The search loop: generate cases from choice sequences, check them, shrink a failure, write the
//! replay file and the evidence file.
use crate::src::{hash64, SplitMix, Src};
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// Exact signature, for failures that may be listed in the known-findings file.
    pub sig: Option<String>,
    /// Other choices on which the property should fail too, if smaller ones are known.
    pub smaller: Option<Vec<u8>>,
}
impl From<String> for Fail {
    fn from(msg: String) -> Fail {
        Fail { msg, sig: None, smaller: None }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Fail {
        Fail { msg: msg.to_string(), sig: None, smaller: None }
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::run::Fail::from(format!($($t)*))) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::fail!($($t)*) } };
}

#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<&'static str, u64>,
    nontriv: Vec<u64>,
    /// Evaluations in this case beyond one.
    pub extra: u64,
    pub text: String,
    pub want: bool,
}
impl Obs {
    pub fn class(&mut self, c: &'static str) {
        *self.counters.entry(c).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.class(c)
        }
    }
    /// This case is non-trivial by the property's rule; `key` identifies it.
    pub fn nontrivial(&mut self, key: &[u8]) {
        if self.extra == 0 {
            self.nontriv.clear();
        }
        self.nontriv.push(hash64(key));
    }
    pub fn nontrivial_keys(&self) -> &[u64] {
        &self.nontriv
    }
    /// Readable rendering of the case (only evaluated when wanted).
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.want {
            if !self.text.is_empty() {
                self.text.push_str(" | ");
            }
            let t = f();
            if std::env::var_os("VP_DESC").is_some() { eprintln!("{}", t.chars().take(3000).collect::<String>()); }
            self.text.push_str(&t);
        }
    }
}

pub type PropFn = fn(&mut Src, &mut Obs) -> R;
pub type ProbeFn = fn(&mut Obs) -> R;

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: PropFn,
    /// Deterministic probes run before the search (regressions, exhaustive tables, known findings).
    pub probes: &'static [(&'static str, ProbeFn)],
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| *q.borrow()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let m = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {m}")));
        } else {
            old(info)
        }
    }));
}

/// Run `f`, turning a panic into a failure.
pub fn guarded(f: impl FnOnce() -> R) -> R {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    match r {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()).into()),
    }
}

/// Run `f`, returning the panic message if it panics.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// Run one case on given choices.
pub fn eval(p: &Prop, s: &mut Src, obs: &mut Obs) -> R {
    static SLOW: std::sync::OnceLock<Option<u64>> = std::sync::OnceLock::new();
    let slow = SLOW.get_or_init(|| std::env::var("VP_SLOW").ok().and_then(|n| n.parse().ok()));
    let t = slow.map(|_| Instant::now());
    let r = guarded(|| (p.run)(s, obs));
    if let (Some(t), Some(ms)) = (t, slow) {
        if t.elapsed().as_millis() as u64 > *ms {
            eprintln!("slow: {} ms, {} choices, {:?}", t.elapsed().as_millis(), s.used(), obs.text.chars().take(300).collect::<String>());
        }
    }
    r
}

pub fn known_findings(id: &str) -> Vec<String> {
    let text = std::fs::read_to_string("/verif/known_findings").unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={id} sig=")))
        .map(|l| l.split_whitespace().next().unwrap_or("").to_string())
        .collect()
}

fn shrink(p: &Prop, start: Vec<u8>, known: &[String]) -> Vec<u8> {
    let deadline = Instant::now();
    let mut evals = 0u32;
    let mut fails = |d: &[u8]| -> Option<usize> {
        evals += 1;
        if evals > 40_000 || deadline.elapsed().as_secs() > if p.id == "C23" { 100 } else { 25 } {
            return None;
        }
        let mut s = Src::fixed(d.to_vec());
        let mut o = Obs::default();
        match eval(p, &mut s, &mut o) {
            Err(f) if !f.sig.as_ref().is_some_and(|x| known.contains(x)) => Some(s.used()),
            _ => None,
        }
    };
    let mut best = start;
    if let Some(u) = fails(&best) {
        best.truncate(u);
    }
    loop {
        let before = best.clone();
        for chunk in [256usize, 64, 32, 16, 8, 6, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(chunk);
                let mut c = best.clone();
                c.drain(lo..i);
                if let Some(u) = fails(&c) {
                    c.truncate(u.max(0));
                    best = c;
                    i = lo.min(best.len());
                } else if best[lo..i].iter().any(|b| *b != 0) {
                    let mut c = best.clone();
                    c[lo..i].iter_mut().for_each(|b| *b = 0);
                    if let Some(u) = fails(&c) {
                        c.truncate(u);
                        best = c;
                    }
                    i = lo.min(best.len());
                } else {
                    i = lo;
                }
            }
        }
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u16;
            let mut hi = best[i] as u16;
            while lo < hi {
                let mid = (lo + hi) / 2;
                let mut c = best.clone();
                c[i] = mid as u8;
                if let Some(u) = fails(&c) {
                    c.truncate(u);
                    best = c;
                    hi = mid;
                    if i >= best.len() {
                        break;
                    }
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before {
            return best;
        }
    }
}

/// Is this failure one to report, rather than a known finding?
pub fn unknown(p: &Prop, f: &Fail) -> bool {
    f.sig.as_ref().is_none_or(|s| !known_findings(p.id).contains(s))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub struct Evidence {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: u64,
    pub known: Vec<String>,
}

fn case_seed(id: &str, seed: u64, i: u64) -> u64 {
    let base = hash64(format!("{seed}/{id}").as_bytes());
    SplitMix(base ^ i.wrapping_mul(0x2545F4914F6CDD1D)).next()
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

pub fn write_evidence(id: &str, rule: &str, e: &Evidence, start: Instant) {
    let tier = if thorough() { "thorough" } else { "quick" };
    let v = json!({
        "property": id,
        "tier": tier,
        "seed": seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": e.evaluations,
            "distinct_nontrivial": e.nontrivial,
            "rule": rule,
            "samples": e.samples,
            "classes": e.counters,
            "known_findings_seen": e.known,
        },
        "assumptions": ["the reference models in /verif/harness/src are written from the documentation and SCALE specification, not from the code under test"],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": e.violations,
    });
    let dir = "/verif/evidence";
    let _ = std::fs::create_dir_all(dir);
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&v).unwrap()).expect("evidence file");
}

pub fn write_replay(id: &str, mut body: serde_json::Value) -> String {
    if crate::src::is_capped() {
        body["small"] = true.into();
    }
    body["dictionary"] = crate::dict::saved().into();
    let _ = std::fs::create_dir_all("/verif/replays");
    let text = serde_json::to_string_pretty(&body).unwrap();
    let path = format!("/verif/replays/{id}-{:016x}.json", hash64(text.as_bytes()));
    std::fs::write(&path, text).expect("replay file");
    path
}

const WORKERS: usize = 8;
const PROBE: usize = 8;
const FOUND: usize = 9;
static STATE: std::sync::OnceLock<Vec<&'static AtomicU64>> = std::sync::OnceLock::new();

/// Shared with the supervising process: what each worker is at (slot i) and since when (slot i + 16).
fn map_state(path: &str) -> Option<Vec<&'static AtomicU64>> {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).ok()?;
    unsafe {
        let m = libc::mmap(std::ptr::null_mut(), 256, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        if m == libc::MAP_FAILED {
            return None;
        }
        Some((0..32).map(|i| &*(m as *const AtomicU64).add(i)).collect())
    }
}
fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(0)
}
fn slot(i: usize, v: u64) {
    if let Some(s) = STATE.get() {
        s[i + 16].store(now_ms(), Ordering::Relaxed);
        s[i].store(v, Ordering::Relaxed);
    }
}

/// Runs the check in a process of its own, so that a case which ends the process or never ends is
/// reported like any other failing case. Returns the process exit code.
pub fn supervise(p: &Prop) -> i32 {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let start = Instant::now();
    let path = format!("/verif/target/state-{}", std::process::id());
    let own = std::env::current_exe().expect("own path");
    let run_exe = |exe: &std::path::Path, args: &[&str], out: Out, gb: u64| {
        let mut c = std::process::Command::new(exe);
        c.args(args).env("VP_STATE", &path);
        match out {
            Out::Shown => {}
            Out::Quiet => {
                c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
            }
            Out::Piped => {
                c.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
            }
        }
        unsafe {
            c.pre_exec(move || {
                let l = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &l);
                libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        c.spawn().expect("own program")
    };
    let run = |args: &[&str], quiet: bool, gb: u64| run_exe(&own, args, if quiet { Out::Quiet } else { Out::Shown }, gb);
    /// None: still running after the limit
    fn wait(c: &mut std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
        let t = Instant::now();
        loop {
            if let Ok(Some(s)) = c.try_wait() {
                return Some(s);
            }
            if t.elapsed() > limit {
                return None;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    let tmp = format!("{path}.json");
    let fails = |b: &serde_json::Value, secs: u64| -> Option<String> {
        std::fs::write(&tmp, b.to_string()).expect("state file");
        let mut c = run(&["replay", &tmp], true, 12);
        let r = wait(&mut c, Duration::from_secs(secs));
        if r.is_none() {
            let _ = c.kill();
            let _ = c.wait();
        }
        match r {
            None => Some("does not end".into()),
            Some(s) if s.code() == Some(0) => None,
            Some(s) => Some(match (s.signal(), s.code()) {
                (Some(n), _) => format!("ends the process with signal {n}"),
                (_, Some(1)) => "fails".into(),
                (_, c) => format!("ends the process with code {c:?}"),
            }),
        }
    };
    // reports the first of these cases which does end or hang the process
    let blame = |bodies: Vec<serde_json::Value>, hung: bool, cases: u64| -> bool {
        for mut b in bodies {
            let Some(how) = fails(&b, if hung { 40 } else { 60 }) else { continue };
            let mut text = String::new();
            let again = match (b["index"].as_u64(), b["tail"].as_u64()) {
                (Some(i), _) => Some(Src::random(case_seed(p.id, seed(), i))),
                (_, Some(t)) => Some(Src::continued(unhex(b["choices"].as_str().unwrap_or("")), t)),
                _ => None,
            };
            if let (Some(mut s), false) = (again, hung) {
                // the choices, cut and zeroed as far as it still ends the process
                let data: Vec<u8> = (0..4096).map(|_| s.byte()).collect();
                let t = Instant::now();
                let capped = b["small"] == true;
                let with = |d: &[u8]| json!({"property": p.id, "choices": hex(d), "small": capped});
                let small = reduce(data, &mut |d| {
                    t.elapsed().as_secs() < 60 && fails(&with(d), 10).is_some_and(|h| h != "fails")
                });
                let c = with(&small);
                if let Some(h) = fails(&c, 30) {
                    text = h;
                    b = c;
                }
            }
            if text.is_empty() {
                text = how;
            }
            b["failure"] = json!(text);
            let r = write_replay(p.id, b);
            println!("{}: a case {text}", p.id);
            println!("VIOLATION property={} replay={r}", p.id);
            let mut ev = Evidence { evaluations: cases, nontrivial: 0, counters: BTreeMap::new(), samples: vec![], violations: 1, known: vec![] };
            ev.counters.insert("a case ended the process or did not end".into(), 1);
            write_evidence(p.id, p.rule, &ev, start);
            return true;
        }
        false
    };
    let how_died = |status: Option<std::process::ExitStatus>| match status {
        None => "does not end".to_string(),
        Some(s) => match s.signal() {
            Some(n) => format!("ends the process with signal {n}"),
            None => format!("ends the process with code {:?}", s.code()),
        },
    };
    let mut code = 2;
    for attempt in 0..2 {
        std::fs::write(&path, [0u8; 256]).expect("state file");
        let st = map_state(&path).expect("state file");
        let mut child = run(&["check-inner", p.id], false, 28);
        let mut hung = false;
        let status = loop {
            if let Some(s) = wait(&mut child, Duration::from_millis(500)) {
                break Some(s);
            }
            let now = now_ms();
            if (0..=PROBE).any(|i| {
                let limit = if i == PROBE { 400_000 } else { 60_000 };
                st[i].load(Ordering::Relaxed) != 0 && now.saturating_sub(st[i + 16].load(Ordering::Relaxed)) > limit
            }) {
                hung = true;
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
        };
        if let Some(c) = status.and_then(|s| s.code()) {
            if c == 0 || c == 1 {
                code = c;
                break;
            }
        }
        let died = how_died(status);
        // which case was it?
        let mut bodies = vec![];
        let f = st[FOUND].load(Ordering::Relaxed);
        if f != 0 {
            bodies.push(json!({"property": p.id, "seed": seed(), "index": f - 1}));
        }
        let k = st[PROBE].load(Ordering::Relaxed);
        if k != 0 {
            bodies.push(json!({"property": p.id, "probe": p.probes[k as usize - 1].0}));
        }
        let mut at: Vec<(u64, u64)> = (0..WORKERS).map(|i| (st[i + 16].load(Ordering::Relaxed), st[i].load(Ordering::Relaxed))).filter(|x| x.1 != 0).collect();
        at.sort();
        bodies.extend(at.iter().map(|(_, i)| json!({"property": p.id, "seed": seed(), "index": i - 1})));
        if blame(bodies, hung, at.iter().map(|x| x.1).max().unwrap_or(0)) {
            code = 1;
            break;
        }
        println!("{}: the search {died}, but no case does alone (attempt {attempt})", p.id);
    }
    // the guided search, in programs of one thread each
    let exe = std::path::PathBuf::from(std::env::var("VP_GUIDED").unwrap_or_else(|_| "/verif/target/guided/vp".into()));
    let total = crate::guide::cases(p);
    if code == 0 && total > 0 && exe.is_file() {
        let n = WORKERS as u64;
        let file = |k: u64| format!("{path}-{k}");
        let mut children: Vec<_> = (0..n)
            .map(|k| {
                std::fs::write(file(k), vec![0u8; SLOT]).expect("state file");
                let at = slot_file(&file(k)).expect("state file");
                let c = run_exe(&exe, &["guided", p.id, &k.to_string(), &(total / n).to_string(), &file(k)], Out::Piped, 12);
                (k, c, at, (0u64, Instant::now()), None::<Option<std::process::ExitStatus>>)
            })
            .collect();
        let mut stop = false;
        while !stop && children.iter().any(|c| c.4.is_none()) {
            std::thread::sleep(Duration::from_millis(20));
            for (_, c, at, since, done) in children.iter_mut().filter(|c| c.4.is_none()) {
                if let Ok(Some(s)) = c.try_wait() {
                    *done = Some(Some(s));
                    stop |= s.code() != Some(0);
                    continue;
                }
                let i = at.get().0;
                if i != since.0 {
                    *since = (i, Instant::now());
                } else if since.1.elapsed().as_secs() > 60 {
                    let _ = c.kill();
                    let _ = c.wait();
                    *done = Some(None);
                    stop = true;
                }
            }
        }
        let mut sums = BTreeMap::<&str, u64>::new();
        for (k, mut c, at, _, done) in children {
            let _ = c.kill();
            let _ = c.wait();
            let mut text = String::new();
            if let Some(mut o) = c.stdout.take() {
                use std::io::Read;
                let _ = o.read_to_string(&mut text);
            }
            let out: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
            for f in ["cases", "nontrivial", "kept"] {
                *sums.entry(f).or_default() += out[f].as_u64().unwrap_or(0);
            }
            let e = sums.entry("edges").or_default();
            *e = (*e).max(out["edges"].as_u64().unwrap_or(0));
            if std::env::var("VP_CLASSES").is_ok() {
                println!("    guided {k}: {}", text.trim());
            }
            match done {
                Some(Some(s)) if s.code() == Some(1) && code == 0 => {
                    // confirm with the program without counters
                    let choices = out["choices"].as_str().unwrap_or("");
                    if fails(&json!({"property": p.id, "choices": choices, "small": true}), 60).is_some() {
                        std::fs::write(&tmp, choices).expect("state file");
                        let mut c = run(&["found", p.id, &tmp], false, 12);
                        if wait(&mut c, Duration::from_secs(300)).is_none() {
                            let _ = c.kill();
                            let _ = c.wait();
                        }
                        code = 1;
                    } else {
                        println!("{}: a failure of the guided search does not fail again: {choices}", p.id);
                    }
                }
                Some(s) if code == 0 && s.and_then(|s| s.code()) != Some(0) => {
                    let (i, tail, data) = at.get();
                    println!("{}: the guided search {}", p.id, how_died(s));
                    if i != 0 && blame(vec![json!({"property": p.id, "choices": hex(&data), "tail": tail, "small": true})], s.is_none(), i) {
                        code = 1;
                    }
                }
                _ => {}
            }
            let _ = std::fs::remove_file(file(k));
        }
        add_guided(p.id, &sums, code == 1, start);
        println!(
            "{}: guided search: {} cases, {} kept, {} edges, {:.1}s in all",
            p.id, sums["cases"], sums["kept"], sums["edges"], start.elapsed().as_secs_f64()
        );
    }
    let _ = std::fs::remove_file(&tmp);
    let _ = std::fs::remove_file(&path);
    code
}

enum Out {
    Shown,
    Quiet,
    Piped,
}

/// Adds what the guided search did to the evidence.
fn add_guided(id: &str, sums: &BTreeMap<&str, u64>, violated: bool, start: Instant) {
    let file = format!("/verif/evidence/{id}.json");
    let Ok(text) = std::fs::read_to_string(&file) else { return };
    let Ok(mut v) = serde_json::from_str::<serde_json::Value>(&text) else { return };
    let c = &mut v["coverage"];
    c["evaluations"] = (c["evaluations"].as_u64().unwrap_or(0) + sums["cases"]).into();
    c["guided"] = json!({
        "cases": sums["cases"],
        "nontrivial": sums["nontrivial"],
        "kept_for_new_coverage": sums["kept"],
        "edges_reached_by_the_best_worker": sums["edges"],
    });
    if violated {
        v["violations"] = 1.into();
    }
    v["wall_s"] = start.elapsed().as_secs_f64().into();
    let _ = std::fs::write(file, serde_json::to_string_pretty(&v).unwrap_or_default());
}

/// A quick reduction for expensive tests: cut the tail, then halves.
fn reduce(start: Vec<u8>, bad: &mut dyn FnMut(&[u8]) -> bool) -> Vec<u8> {
    let mut best = start;
    let mut chunk = best.len() / 2;
    while chunk > 0 {
        let mut i = best.len();
        while i > 0 {
            let lo = i.saturating_sub(chunk);
            let mut c = best.clone();
            c.drain(lo..i);
            if bad(&c) {
                best = c;
            }
            i = lo.min(best.len());
        }
        chunk /= 2;
    }
    best
}

/// Shrinks a failing choice sequence, prints the case and writes its replay file.
fn report(p: &Prop, what: &str, data: Vec<u8>, known: &[String]) -> String {
    let (p, what, known) = (*p, what.to_string(), known.to_vec());
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let data = shrink(&p, data, &known);
            let mut s = Src::fixed(data.clone());
            let mut o = Obs { want: true, ..Default::default() };
            let r = eval(&p, &mut s, &mut o);
            let msg = match r {
                Err(f) => f.msg,
                Ok(()) => "(did not reproduce from its recorded choices)".into(),
            };
            println!("{}: {what}: {}\n  case: {}", p.id, msg, o.text);
            write_replay(p.id, json!({"property": p.id, "choices": hex(&data), "failure": msg, "case": o.text}))
        })
        .unwrap()
        .join()
        .unwrap()
}

/// A failure of the guided search, given as a file of choices.
pub fn found(p: &Prop, file: &str) -> i32 {
    crate::src::set_cap(crate::src::SMALL);
    let data = unhex(std::fs::read_to_string(file).expect("choices").trim());
    let path = report(p, "guided search", data, &known_findings(p.id));
    println!("VIOLATION property={} replay={}", p.id, path);
    1
}

/// What one worker of the guided search is at, readable after its death: the number of the case, the
/// seed of its tail and the choices before that.
pub struct SlotFile(*mut u8);
unsafe impl Send for SlotFile {}
const SLOT: usize = 1 << 13;
pub fn slot_file(path: &str) -> Option<SlotFile> {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).ok()?;
    unsafe {
        let m = libc::mmap(std::ptr::null_mut(), SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        (m != libc::MAP_FAILED).then_some(SlotFile(m as *mut u8))
    }
}
impl SlotFile {
    pub fn set(&self, n: u64, tail: u64, data: &[u8]) {
        let d = &data[..data.len().min(SLOT - 32)];
        unsafe {
            (self.0 as *mut u64).write_volatile(n);
            (self.0 as *mut u64).add(1).write_volatile(tail);
            (self.0 as *mut u64).add(2).write_volatile(d.len() as u64);
            std::ptr::copy_nonoverlapping(d.as_ptr(), self.0.add(24), d.len());
        }
    }
    pub fn get(&self) -> (u64, u64, Vec<u8>) {
        unsafe {
            let w = |i| (self.0 as *const u64).add(i).read_volatile();
            let n = (w(2) as usize).min(SLOT - 32);
            (w(0), w(1), std::slice::from_raw_parts(self.0.add(24), n).to_vec())
        }
    }
}

/// Returns the process exit code.
pub fn check(p: &Prop) -> i32 {
    if let Some(s) = std::env::var("VP_STATE").ok().and_then(|f| map_state(&f)) {
        let _ = STATE.set(s);
    }
    let start = Instant::now();
    let known = known_findings(p.id);
    let mut ev = Evidence { evaluations: 0, nontrivial: 0, counters: BTreeMap::new(), samples: vec![], violations: 0, known: vec![] };
    let seen_known: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
    let is_known = |f: &Fail| -> bool {
        if let Some(s) = &f.sig {
            if known.contains(s) {
                seen_known.lock().unwrap().entry(s.clone()).or_insert_with(|| f.msg.clone());
                return true;
            }
        }
        false
    };
    let mut violated = false;

    let mut probe_counters = BTreeMap::new();
    for (k, (name, f)) in p.probes.iter().enumerate() {
        slot(PROBE, k as u64 + 1);
        let mut obs = Obs { want: true, ..Default::default() };
        let f = *f;
        // run on a big stack
        let (r, obs) = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, move || {
                    let r = guarded(|| f(&mut obs));
                    (r, obs)
                })
                .unwrap()
                .join()
                .unwrap()
        });
        *probe_counters.entry(format!("probe: {name}")).or_insert(0u64) += 1;
        for (k, v) in obs.counters {
            *probe_counters.entry(k.to_string()).or_insert(0) += v;
        }
        ev.evaluations += 1;
        if let Err(e) = r {
            if is_known(&e) {
                continue;
            }
            violated = true;
            ev.violations += 1;
            let path = write_replay(p.id, json!({"property": p.id, "probe": name, "failure": e.msg, "case": obs.text}));
            println!("{}: probe {}: {}", p.id, name, e.msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            break;
        }
    }

    slot(PROBE, 0);
    if !violated {
        let total = if thorough() { p.thorough } else { p.quick };
        let budget = Duration::from_secs(if thorough() { 6 * 3600 } else { 400 });
        let step = if total < 10_000 { 1 } else { 64 };
        let next = AtomicU64::new(0);
        let first_bad = AtomicU64::new(u64::MAX);
        let bad: Mutex<Option<(u64, Vec<u8>)>> = Mutex::new(None);
        struct Acc {
            counters: BTreeMap<&'static str, u64>,
            nontriv: HashSet<u64>,
            samples: Vec<(u64, String)>,
            n: u64,
        }
        let accs: Mutex<Vec<Acc>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            let (next, first_bad, bad, accs, is_known) = (&next, &first_bad, &bad, &accs, &is_known);
            for w in 0..WORKERS {
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(sc, move || {
                        let mut acc = Acc { counters: BTreeMap::new(), nontriv: HashSet::new(), samples: vec![], n: 0 };
                        loop {
                            let lo = next.fetch_add(step, Ordering::Relaxed);
                            if lo >= total || lo > first_bad.load(Ordering::Relaxed) || start.elapsed() > budget {
                                break;
                            }
                            for i in lo..(lo + step).min(total) {
                                slot(w, i + 1);
                                let mut s = Src::random(case_seed(p.id, seed(), i));
                                let mut obs = Obs { want: i < 400, ..Default::default() };
                                let t0 = Instant::now();
                                let r = eval(p, &mut s, &mut obs);
                                if t0.elapsed().as_millis() > 1500 && std::env::var("VP_SLOW").is_ok() {
                                    let mut o = Obs { want: true, ..Default::default() };
                                    let _ = eval(p, &mut Src::fixed(s.data.clone()), &mut o);
                                    println!("slow case #{i}: {:?} {}", t0.elapsed(), o.text);
                                }
                                acc.n += 1;
                                for (k, v) in &obs.counters {
                                    *acc.counters.entry(k).or_insert(0) += v;
                                }
                                acc.n += obs.extra;
                                if !obs.nontriv.is_empty() {
                                    acc.nontriv.extend(obs.nontriv.iter());
                                    if i < 400 {
                                        acc.samples.push((i, std::mem::take(&mut obs.text)));
                                    }
                                }
                                if let Err(f) = r {
                                    if is_known(&f) {
                                        continue;
                                    }
                                    first_bad.fetch_min(i, Ordering::Relaxed);
                                    let mut b = bad.lock().unwrap();
                                    if b.as_ref().map(|(j, _)| i < *j).unwrap_or(true) {
                                        *b = Some((i, f.smaller.unwrap_or_else(|| s.data.clone())));
                                    }
                                    break;
                                }
                            }
                        }
                        slot(w, 0);
                        accs.lock().unwrap().push(acc);
                    })
                    .unwrap();
            }
        });
        let mut non = HashSet::new();
        let mut samples = vec![];
        for a in accs.into_inner().unwrap() {
            for (k, v) in a.counters {
                *ev.counters.entry(k.to_string()).or_insert(0) += v;
            }
            non.extend(a.nontriv);
            samples.extend(a.samples);
            ev.evaluations += a.n;
        }
        samples.sort();
        // a few of the shortest and a few arbitrary ones, clipped
        ev.samples = samples
            .iter()
            .filter(|(_, t)| !t.is_empty())
            .take(8)
            .map(|(i, t)| format!("#{i}: {}", t.chars().take(600).collect::<String>()))
            .collect();
        ev.nontrivial = non.len() as u64;
        if let Some((i, data)) = bad.into_inner().unwrap() {
            slot(FOUND, i + 1);
            let path = report(p, &format!("case #{i}"), data, &known);
            ev.violations += 1;
            violated = true;
            println!("VIOLATION property={} replay={}", p.id, path);
        }
    }
    for (k, v) in probe_counters {
        *ev.counters.entry(k).or_insert(0) += v;
    }
    for (s, m) in seen_known.into_inner().unwrap() {
        println!("KNOWN-FINDING: property={} {} {}", p.id, s, m);
        ev.known.push(s);
    }
    write_evidence(p.id, p.rule, &ev, start);
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1}s{}",
        p.id,
        ev.evaluations,
        ev.nontrivial,
        start.elapsed().as_secs_f64(),
        if violated { " VIOLATED" } else { "" }
    );
    if std::env::var("VP_CLASSES").is_ok() {
        for (k, v) in &ev.counters {
            println!("    {k}: {v}");
        }
        for s in &ev.samples {
            println!("    {s}");
        }
    }
    violated as i32
}

pub fn replay(p: &Prop, body: &serde_json::Value) -> i32 {
    let p = *p;
    let body = body.clone();
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            if body["small"] == true {
                crate::src::set_cap(crate::src::SMALL);
            }
            let mut o = Obs { want: true, ..Default::default() };
            let r = if let Some(name) = body["probe"].as_str() {
                match p.probes.iter().find(|(n, _)| *n == name) {
                    Some((_, f)) => guarded(|| f(&mut o)),
                    None => Err("no such probe".into()),
                }
            } else if let Some(i) = body["index"].as_u64() {
                let mut s = Src::random(case_seed(p.id, body["seed"].as_u64().unwrap_or(1), i));
                eval(&p, &mut s, &mut o)
            } else {
                let data = unhex(body["choices"].as_str().unwrap_or(""));
                let mut s = match body["tail"].as_u64() {
                    Some(t) => Src::continued(data, t),
                    None => Src::fixed(data),
                };
                eval(&p, &mut s, &mut o)
            };
            println!("case: {}", o.text);
            match r {
                Ok(()) => {
                    println!("holds");
                    0
                }
                Err(f) => {
                    println!("FAILS: {}", f.msg);
                    1
                }
            }
        })
        .unwrap()
        .join()
        .unwrap()
}
