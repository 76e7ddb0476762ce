//! Coverage-guided search. This program is built a second time with counters on the edges of the
//! code under test, its dependencies and the models (see `guided.sh`); choice sequences which reach
//! something new are kept and mutated further. The cases are those of the random search: the same
//! generators, the same oracles.
use crate::run::{eval, slot_file, unknown, Fail, Obs, Prop};
use crate::src::{hash64, SplitMix, Src, SMALL};
use std::sync::Mutex;

static REGIONS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

/// Called by the instrumentation once per object file, with its part of the counters.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let mut r = REGIONS.lock().unwrap();
    let x = (start as usize, stop as usize);
    if x.0 < x.1 && !r.contains(&x) {
        r.push(x);
    }
}

/// Everything as one list of counters.
fn counters() -> Vec<&'static mut [u64]> {
    let mut r = REGIONS.lock().unwrap().clone();
    r.sort();
    // neighbours are joined (all are in one section)
    let mut out: Vec<(usize, usize)> = vec![];
    for (a, b) in r {
        match out.last_mut() {
            Some(l) if a <= l.1 + 64 => l.1 = l.1.max(b),
            _ => out.push((a, b)),
        }
    }
    out.into_iter()
        .map(|(a, b)| {
            let a = (a + 7) & !7;
            let n = b.saturating_sub(a) / 8;
            // SAFETY: the counters are ours, and only read and reset between cases
            unsafe { std::slice::from_raw_parts_mut(a as *mut u64, n) }
        })
        .collect()
}

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

struct Coverage {
    regions: Vec<&'static mut [u64]>,
    seen: Vec<Vec<[u8; 8]>>,
    edges: usize,
}
impl Coverage {
    fn new() -> Coverage {
        let regions = counters();
        let seen = regions.iter().map(|r| vec![[0u8; 8]; r.len()]).collect();
        Coverage { regions, seen, edges: 0 }
    }
    /// Is there an edge, or a number of times, not seen before? Sets all back to zero.
    fn news(&mut self) -> bool {
        let mut new = false;
        for (r, seen) in self.regions.iter_mut().zip(&mut self.seen) {
            for (i, block) in r.chunks_mut(BLOCK).enumerate() {
                // SAFETY: both are at least as long
                if unsafe { libc::memcmp(block.as_ptr() as *const _, ZEROS.as_ptr() as *const _, block.len() * 8) } == 0 {
                    continue;
                }
                for (w, s) in block.iter_mut().zip(seen[i * BLOCK..].iter_mut()) {
                    if *w == 0 {
                        continue;
                    }
                    for (c, s) in w.to_ne_bytes().iter().zip(s.iter_mut()) {
                        let b = bucket(*c);
                        if b & !*s != 0 {
                            self.edges += (*s == 0) as usize;
                            *s |= b;
                            new = true;
                        }
                    }
                    *w = 0;
                }
            }
        }
        new
    }
}

const BLOCK: usize = 64;
static ZEROS: [u64; BLOCK] = [0; BLOCK];

/// How many cases the guided search of a property runs.
pub fn cases(p: &Prop) -> u64 {
    if let Some(n) = std::env::var("VP_GUIDED_CASES").ok().and_then(|n| n.parse().ok()) {
        return n;
    }
    let n = match p.id {
        // this one compiles programs
        "C23" => 0,
        // this one compares with other processes
        "C29" => 100_000,
        "C07" | "C09" => 700_000,
        "C08" => 700_000,
        "C04" | "C10" | "C12" | "C26" => 700_000,
        _ => 1_000_000,
    };
    if crate::run::thorough() { n * 40 } else { n }
}

const LONGEST: usize = 1500;

fn mutate(rng: &mut SplitMix, corpus: &[Vec<u8>], base: &[u8]) -> Vec<u8> {
    let mut d = base.to_vec();
    let below = |rng: &mut SplitMix, n: usize| if n == 0 { 0 } else { (rng.next() >> 11) as usize % n };
    let times = 1 + below(rng, 4) * below(rng, 3);
    for _ in 0..times {
        let at = below(rng, d.len() + 1);
        match below(rng, 10) {
            0 | 1 | 2 if !d.is_empty() => {
                let i = at.min(d.len() - 1);
                d[i] = rng.next() as u8;
            }
            3 if !d.is_empty() => {
                let i = at.min(d.len() - 1);
                d[i] = d[i].wrapping_add(below(rng, 17) as u8).wrapping_sub(8);
            }
            4 => {
                let n = 1 + below(rng, 8);
                let b: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
                d.splice(at..at, b);
            }
            5 => {
                let n = 1 + below(rng, 8);
                let end = (at + n).min(d.len());
                d.drain(at..end);
            }
            6 => {
                // a part of another one, in place of what is here or before it
                let o = &corpus[below(rng, corpus.len())];
                let i = below(rng, o.len() + 1);
                let n = (1 + below(rng, 32)).min(o.len() - i);
                let end = if rng.next() & 1 == 0 { at } else { (at + n).min(d.len()) };
                d.splice(at..end, o[i..i + n].iter().copied());
            }
            7 => {
                // its own part again
                let i = below(rng, d.len() + 1);
                let n = (1 + below(rng, 24)).min(d.len() - i);
                let c = d[i..i + n].to_vec();
                d.splice(at..at, c);
            }
            8 => d.truncate(at),
            _ => {
                let n = 1 + below(rng, 4);
                let z = if rng.next() & 1 == 0 { 0 } else { 255 };
                let end = (at + n).min(d.len());
                d[at..end].fill(z);
            }
        }
        d.truncate(LONGEST);
    }
    d
}

/// Worker `k` of the guided search. What it is at is kept in the file `at`.
pub fn search(p: &Prop, k: u64, cases: u64, at: &str) -> i32 {
    let p = *p;
    let at = slot_file(at).expect("state file");
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            crate::src::set_cap(SMALL);
            let seed = crate::run::seed();
            let start = std::time::Instant::now();
            let budget = if crate::run::thorough() { 3 * 3600 } else { 120 };
            let mut rng = SplitMix(hash64(format!("guided/{seed}/{}/{k}", p.id).as_bytes()));
            let mut cov = Coverage::new();
            let all: usize = cov.regions.iter().map(|r| r.len() * 8).sum();
            let mut corpus: Vec<Vec<u8>> = vec![];
            let mut nontriv = std::collections::HashSet::<u64>::new();
            let first = (cases / 10).max(50);
            let mut n = 0;
            let mut fail: Option<(Vec<u8>, Fail)> = None;
            while n < cases && start.elapsed().as_secs() < budget {
                let tail = rng.next();
                let data = if n < first || corpus.is_empty() {
                    vec![]
                } else {
                    let m = corpus.len();
                    // one of the latest or any; the shortest of a few
                    let span = if rng.next() % 2 == 0 { m / 8 + 1 } else { m };
                    let i = (0..3).map(|_| m - 1 - rng.next() as usize % span).min_by_key(|i| corpus[*i].len()).unwrap_or(0);
                    mutate(&mut rng, &corpus, &corpus[i])
                };
                at.set(n + 1, tail, &data);
                let mut s = Src::continued(data, tail);
                let mut obs = Obs::default();
                if n == 0 {
                    cov.news();
                }
                let bytes = crate::alloc::total();
                let r = eval(&p, &mut s, &mut obs);
                let bytes = crate::alloc::total().wrapping_sub(bytes);
                let new = cov.news();
                n += 1;
                nontriv.extend(obs.nontrivial_keys().iter().copied());
                if let Err(f) = r {
                    if !unknown(&p, &f) {
                        continue;
                    }
                    s.data.truncate(s.used());
                    fail = Some((f.smaller.clone().unwrap_or_else(|| s.data.clone()), f));
                    break;
                }
                if new && s.used() <= LONGEST && bytes < 200_000 {
                    s.data.truncate(s.used());
                    corpus.push(s.data);
                }
            }
            at.set(0, 0, &[]);
            println!(
                "{}",
                serde_json::json!({
                    "cases": n, "nontrivial": nontriv.len(), "kept": corpus.len(), "edges": cov.edges, "of": all,
                    "choices": fail.as_ref().map(|f| crate::run::hex(&f.0)),
                    "choices_each": corpus.iter().map(|c| c.len()).sum::<usize>() / corpus.len().max(1),
                    "secs": start.elapsed().as_secs_f64(),
                })
            );
            fail.is_some() as i32
        })
        .unwrap()
        .join()
        .unwrap()
}
