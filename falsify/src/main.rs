//! Searches for inputs on which the compiled crate breaks a property, and replays them.
//! The oracles are written from the standards, independently of the crate.
mod clock;
mod desc;
mod lang;
mod langs;
mod num;
mod psi;
mod read;
mod sect;
mod src;
mod tables;
mod text;

use src::Src;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// one kind of test case
pub struct Case {
    pub name: &'static str,
    /// cases drawn per round
    pub weight: u32,
    pub run: fn(&mut Src) -> R,
}

/// complete enumeration, run once
pub struct Sweep {
    pub name: &'static str,
    pub run: fn() -> Result<u64, String>,
}

pub struct Prop {
    pub id: &'static str,
    pub cases: Vec<Case>,
    pub sweeps: Vec<Sweep>,
    /// known findings that still show
    pub known: Option<fn() -> Option<String>>,
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(num::props());
    v.extend(clock::props());
    v.extend(psi::props());
    v.extend(text::props());
    v.extend(desc::props());
    v.extend(sect::props());
    v.extend(read::props());
    v.extend(lang::props());
    v
}

fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {}", m))
        }
    }
}

fn shrink(case: &Case, tape: Vec<u64>, until: Instant) -> (Vec<u64>, String) {
    let fails = |t: &Vec<u64>| -> Option<String> { let mut s = Src::replay(t.clone()); guard(|| (case.run)(&mut s)).err() };
    let mut best = tape;
    let mut msg = fails(&best).unwrap_or_default();
    let mut step = true;
    while step && Instant::now() < until {
        step = false;
        for i in 0 .. best.len() {
            if Instant::now() >= until { break; }
            for v in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if v >= best[i] { continue; }
                let mut t = best.clone();
                t[i] = v;
                if let Some(m) = fails(&t) { best = t; msg = m; step = true; break; }
            }
        }
    }
    (best, msg)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let all = props();
    if args[1] == "replay" {
        let text = std::fs::read_to_string(&args[2]).expect("replay file");
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string())).unwrap_or_default();
        let (id, case) = (get("property:"), get("case:"));
        let p = all.iter().find(|p| p.id == id).expect("property");
        let res = if let Some(c) = p.cases.iter().find(|c| c.name == case) {
            let tape: Vec<u64> = get("tape:").split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect();
            let seed = get("seed:");
            let mut s = if seed.is_empty() { Src::replay(tape) } else {
                Src::new(seed.parse().unwrap(), get("dict:").split(',').filter_map(|x| x.parse().ok()).collect())
            };
            guard(|| (c.run)(&mut s))
        } else {
            let s = p.sweeps.iter().find(|c| c.name == case).expect("case");
            guard(s.run).map(|_| ())
        };
        match res {
            Ok(()) => println!("holds"),
            Err(m) => { println!("FAILS {}", m); std::process::exit(1); }
        }
        return;
    }
    // falsify run ID SEED BUDGET_MS REPLAY_FILE DICT(comma separated)
    let id = &args[2];
    let seed: u64 = args[3].parse().unwrap();
    let budget = Duration::from_millis(args[4].parse().unwrap());
    let out = &args[5];
    let dict: Vec<u64> = args.get(6).map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let p = all.iter().find(|p| p.id == id).expect("property");
    if let Some(k) = p.known { if let Some(m) = k() { println!("KNOWN {}", m); } }
    let start = Instant::now();
    let mut swept = vec![];
    for s in &p.sweeps {
        let (run, (tx, rx)) = (s.run, std::sync::mpsc::channel());
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || { let _ = tx.send(guard(run)); }).unwrap();
        match rx.recv_timeout(Duration::from_secs(120)).unwrap_or_else(|_| Err("no result within 120 s".to_string())) {
            Ok(n) => swept.push((s.name, n)),
            Err(m) => {
                std::fs::write(out, format!("property: {}\ncase: {}\nfails: {}\n", id, s.name, m.replace('\n', " "))).unwrap();
                let n = swept.iter().map(|x| x.1).sum::<u64>();
                println!("COUNT evaluations={} distinct={}", n + 1, n + 1);
                println!("FOUND {} {}", s.name, m.replace('\n', " "));
                std::process::exit(1);
            }
        }
    }
    // every worker notes the case it is running, so that a crash or a hang can be replayed
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1).min(6) as u64;
    let shared = Arc::new(Shared {
        stop: AtomicBool::new(false),
        found: Mutex::new(None),
        running: (0 .. workers).map(|_| Mutex::new((Instant::now(), 0usize, 0u64))).collect(),
        done: AtomicU64::new(0),
    });
    let total = Arc::new(Mutex::new(Totals::default()));
    let cases: Vec<(&'static str, u32, fn(&mut Src) -> R)> = p.cases.iter().map(|c| (c.name, c.weight, c.run)).collect();
    for w in 0 .. workers {
        let (shared, total, cases, dict) = (shared.clone(), total.clone(), cases.clone(), dict.clone());
        let now = format!("{}.now.{}", out, w);
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            use std::os::unix::fs::FileExt;
            let now = std::fs::File::create(now).ok();
            let mut counts = vec![0u64; cases.len()];
            let mut distinct = std::collections::HashSet::new();
            let mut samples: Vec<String> = vec![];
            let mut n = 0u64;
            'outer: while start.elapsed() < budget && !cases.is_empty() {
                for (k, c) in cases.iter().enumerate() {
                    for _ in 0 .. c.1 {
                        if shared.stop.load(Ordering::Relaxed) { break 'outer; }
                        n += 1;
                        let case_seed = seed.wrapping_mul(1_000_003).wrapping_add(n * workers + w);
                        if let Some(f) = &now { let _ = f.write_all_at(format!("{:<40} {:<24}\n", c.0, case_seed).as_bytes(), 0); }
                        *shared.running[w as usize].lock().unwrap() = (Instant::now(), k, case_seed);
                        let mut s = Src::new(case_seed, dict.clone());
                        let r = guard(|| (c.2)(&mut s));
                        counts[k] += 1;
                        if distinct.len() < 500_000 {
                            use std::hash::{Hash, Hasher};
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            (k, &s.tape).hash(&mut h);
                            distinct.insert(h.finish());
                        }
                        if counts[k] == 1 && w == 0 { samples.push(format!("{} {:?}", c.0, &s.tape[.. s.tape.len().min(12)])); }
                        if r.is_err() {
                            let mut f = shared.found.lock().unwrap();
                            if f.is_none() { *f = Some((k, s.tape.clone())); }
                            shared.stop.store(true, Ordering::Relaxed);
                            break 'outer;
                        }
                    }
                    if start.elapsed() >= budget && counts.iter().all(|&x| x > 0) { break 'outer; }
                }
            }
            let mut t = total.lock().unwrap();
            t.n += n;
            if t.counts.is_empty() { t.counts = vec![0; cases.len()]; }
            for (a, b) in t.counts.iter_mut().zip(counts) { *a += b; }
            t.distinct.extend(distinct);
            t.samples.extend(samples);
            drop(t);
            shared.done.fetch_add(1, Ordering::Release);
        }).unwrap();
    }
    while shared.done.load(Ordering::Acquire) < workers {
        std::thread::sleep(Duration::from_millis(20));
        for w in 0 .. workers as usize {
            let (t, k, case_seed) = *shared.running[w].lock().unwrap();
            if t.elapsed() > Duration::from_secs(20) && !cases.is_empty() && start.elapsed() < budget + Duration::from_secs(60) && shared.done.load(Ordering::Acquire) < workers && !shared.stop.load(Ordering::Relaxed) {
                // still the same case
                if shared.running[w].lock().unwrap().2 != case_seed { continue; }
                let d: Vec<String> = dict.iter().map(|x| x.to_string()).collect();
                std::fs::write(out, format!("property: {}\ncase: {}\nfails: no result within 20 s\nseed: {}\ndict: {}\n", id, cases[k].0, case_seed, d.join(","))).unwrap();
                println!("FOUND {} no result within 20 s", cases[k].0);
                std::process::exit(1);
            }
        }
    }
    if let Some((k, tape)) = shared.found.lock().unwrap().take() {
        let t = total.lock().unwrap();
        let m = swept.iter().map(|x| x.1).sum::<u64>();
        println!("COUNT evaluations={} distinct={}", t.n + m, t.distinct.len() as u64 + m);
        drop(t);
        let c = &p.cases[k];
        let (tape, msg) = shrink(c, tape, Instant::now() + Duration::from_secs(5));
        let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
        std::fs::write(out, format!("property: {}\ncase: {}\nfails: {}\ntape: {}\n", id, c.name, msg.replace('\n', " "), t.join(","))).unwrap();
        println!("FOUND {} {}", c.name, msg.replace('\n', " "));
        std::process::exit(1);
    }
    let t = total.lock().unwrap();
    println!("NONE evaluations={} distinct={} cases={:?} sweeps={:?}", t.n + swept.iter().map(|x| x.1).sum::<u64>(), t.distinct.len() as u64 + swept.iter().map(|x| x.1).sum::<u64>(),
        cases.iter().map(|c| c.0).zip(t.counts.iter()).collect::<Vec<_>>(), swept);
    for s in &t.samples { println!("SAMPLE {}", s); }
}

struct Shared {
    stop: AtomicBool,
    found: Mutex<Option<(usize, Vec<u64>)>>,
    running: Vec<Mutex<(Instant, usize, u64)>>,
    done: AtomicU64,
}

#[derive(Default)]
struct Totals {
    n: u64,
    counts: Vec<u64>,
    distinct: std::collections::HashSet<u64>,
    samples: Vec<String>,
}
