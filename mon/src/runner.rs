//! Runs the workloads of a property on all cores, collects what the monitors observed, and turns it into a verdict.
use crate::bus::FxSet;
use crate::rng::{mix, Rng};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// A workload: `units` independent jobs of `iters` cases each.
pub struct Work {
    pub name: &'static str,
    pub units: u64,
    pub iters: u64,
    /// The cases are an enumeration: their number is not scaled.
    pub exact: bool,
    pub run: Box<dyn Fn(&mut Ctx, u64, std::ops::Range<u64>) + Send + Sync>,
}

pub fn work(name: &'static str, units: u64, iters: u64, run: impl Fn(&mut Ctx, u64, std::ops::Range<u64>) + Send + Sync + 'static) -> Work {
    Work { name, units, iters, exact: false, run: Box::new(run) }
}
pub fn exact_work(name: &'static str, units: u64, iters: u64, run: impl Fn(&mut Ctx, u64, std::ops::Range<u64>) + Send + Sync + 'static) -> Work {
    Work { exact: true, ..work(name, units, iters, run) }
}

pub struct Violation { pub sig: String, pub msg: String, pub work: &'static str, pub unit: u64, pub iter: u64 }

/// Per-thread context.
pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub replay: bool,
    pub work: &'static str,
    pub unit: u64,
    pub evals: u64,
    pub distinct: FxSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Violation>,
    pub known: BTreeMap<String, (u64, String)>,
    pub listed: Vec<String>,
    hb: usize,
}

static STOP: AtomicBool = AtomicBool::new(false);
static NVIOL: AtomicU64 = AtomicU64::new(0);
/// The distinct situations are counted up to here per thread (the reported number is then a lower bound).
const DISTINCT_CAP: usize = 3_000_000;
const SLOTS: usize = 64;
thread_local! { static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
static BEAT: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static BEAT_UNIT: [AtomicU64; SLOTS] = [const { AtomicU64::new(u64::MAX) }; SLOTS];

impl Ctx {
    /// Generator of one case; depends only on the seed and the case.
    pub fn rng(&self, unit: u64, iter: u64) -> Rng {
        let mut h = 0u64;
        for b in self.work.bytes() { h = mix(h ^ b as u64); }
        Rng::from_parts(&[self.seed, h, unit, iter])
    }
    /// Notes the case about to run, for the watchdog.
    #[inline]
    pub fn beat(&self, iter: u64) { BEAT[self.hb].store(iter + 1, Ordering::Relaxed); }
    pub fn eval(&mut self, key: u64) { self.evals += 1; if self.distinct.len() < DISTINCT_CAP { self.distinct.insert(key); } }
    pub fn count(&mut self, k: &str, n: u64) { if let Some(c) = self.counters.get_mut(k) { *c += n } else { self.counters.insert(k.to_string(), n); } }
    pub fn sample(&mut self, s: impl FnOnce() -> String) { if self.samples.len() < 3 { let v = s(); self.samples.push(v); } }
    pub fn violation(&mut self, iter: u64, sig: &str, msg: String) {
        if self.replay { println!("case {}:{}:{} [{sig}] {msg}", self.work, self.unit, iter); }
        if self.viols.len() < 64 && !self.viols.iter().any(|v| v.sig == sig) {
            self.viols.push(Violation { sig: sig.to_string(), msg, work: self.work, unit: self.unit, iter });
            if NVIOL.fetch_add(1, Ordering::Relaxed) > 400 { STOP.store(true, Ordering::Relaxed); }
        }
    }
    /// A violation whose signature is a known finding is only counted; anything else is a violation.
    pub fn finding(&mut self, iter: u64, key: &str, sig: &str, msg: String) {
        let k = format!("{} {}", self.prop, key);
        if self.listed.iter().any(|l| *l == k) {
            let e = self.known.entry(key.to_string()).or_insert((0, msg));
            e.0 += 1;
        } else {
            self.violation(iter, sig, msg);
        }
    }
    /// A case that hits a known finding: reported as such when the check is about it, otherwise only counted.
    pub fn finding_or(&mut self, iter: u64, relevant: bool, key: &str, sig: &str, msg: String) {
        if relevant { self.finding(iter, key, sig, msg) } else { self.count("cases cut short by a finding of another property", 1) }
    }
    pub fn stopping(&self) -> bool { STOP.load(Ordering::Relaxed) }
}

pub struct Options { pub prop: &'static str, pub level: &'static str, pub rule: &'static str, pub min_distinct: u64, pub assumptions: Vec<&'static str> }

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o.push('"');
    o
}

/// Entries "PROP KEY" of the known-findings file.
pub fn known_findings(root: &str) -> Vec<String> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(format!("{root}/known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.trim().strip_prefix("finding: property=") {
                let mut it = r.split_whitespace();
                if let (Some(p), Some(k)) = (it.next(), it.next()) { v.push(format!("{p} {k}")); }
            }
        }
    }
    v
}

pub fn run(o: Options, works: Vec<Work>, replay: Option<(String, u64, u64)>) -> i32 {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let limit = std::env::var("VERIF_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000u64 } else { 420 });
    let start = Instant::now();
    let listed = known_findings(&root);
    std::panic::set_hook(Box::new(|i| { if let Some(l) = i.location() { PANIC_AT.with(|p| *p.borrow_mut() = format!("{}:{}", l.file(), l.line())); } }));
    let mk = |hb: usize, replay: bool| Ctx {
        prop: o.prop, seed, thorough, replay, work: "", unit: 0, evals: 0, distinct: Default::default(), counters: BTreeMap::new(), samples: Vec::new(), viols: Vec::new(),
        known: BTreeMap::new(), listed: listed.clone(), hb,
    };
    if let Some((w, u, i)) = replay {
        let Some(wk) = works.iter().find(|x| x.name == w) else { eprintln!("no workload {w}"); return 4 };
        let mut c = mk(0, true);
        c.work = wk.name;
        c.unit = u;
        (wk.run)(&mut c, u, i..i + 1);
        println!("replayed {w}:{u}:{i}: {} violation(s)", c.viols.len());
        return if c.viols.is_empty() { 0 } else { 1 };
    }
    // Interleave the jobs of all workloads.
    let mut jobs: Vec<(usize, u64)> = Vec::new();
    for (wi, w) in works.iter().enumerate() { for u in 0..w.units { jobs.push((wi, u)); } }
    jobs.sort_by_key(|(wi, u)| (mix(*u ^ (*wi as u64) << 40), *wi));
    let next = AtomicU64::new(0);
    let done: Mutex<Vec<Ctx>> = Mutex::new(Vec::new());
    let harness_errors: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SLOTS);
    let finished = AtomicU64::new(0);
    let finished_jobs = AtomicU64::new(0);
    let hang: Mutex<Option<(usize, u64, u64)>> = Mutex::new(None);
    std::thread::scope(|s| {
        for t in 0..nthreads {
            let (next, done, jobs, works, mk, harness_errors, finished, finished_jobs) = (&next, &done, &jobs, &works, &mk, &harness_errors, &finished, &finished_jobs);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                let mut c = mk(t, false);
                loop {
                    if STOP.load(Ordering::Relaxed) || start.elapsed().as_secs() > limit { break; }
                    let j = next.fetch_add(1, Ordering::Relaxed) as usize;
                    let Some(&(wi, u)) = jobs.get(j) else { break };
                    let w = &works[wi];
                    c.work = w.name;
                    c.unit = u;
                    BEAT_UNIT[t].store((wi as u64) << 40 | u, Ordering::Relaxed);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (w.run)(&mut c, u, 0..w.iters)));
                    if let Err(e) = r {
                        let it = BEAT[t].load(Ordering::Relaxed).wrapping_sub(1);
                        let at = PANIC_AT.with(|p| p.borrow().clone());
                        // A panic of the crate outside of a monitored call is still a panic of the crate.
                        if at.contains("/m68000") { c.violation(it, "panic", format!("panicked at {at}: {}", crate::lockstep::panic_text(&e))); continue; }
                        harness_errors.lock().unwrap().push(format!("{}:{}:{}: {}", w.name, u, it, crate::lockstep::panic_text(&e)));
                    }
                    finished_jobs.fetch_add(1, Ordering::Relaxed);
                }
                BEAT_UNIT[t].store(u64::MAX, Ordering::Relaxed);
                done.lock().unwrap().push(c);
                finished.fetch_add(1, Ordering::Relaxed);
            }).unwrap();
        }
        // Watchdog: a single case that stays in progress for very long.
        let mut last = vec![(0u64, 0u64, Instant::now()); nthreads];
        while finished.load(Ordering::Relaxed) < nthreads as u64 {
            std::thread::sleep(std::time::Duration::from_millis(50));
            for (t, l) in last.iter_mut().enumerate() {
                let cur = (BEAT_UNIT[t].load(Ordering::Relaxed), BEAT[t].load(Ordering::Relaxed));
                if cur.0 == u64::MAX || (cur.0, cur.1) != (l.0, l.1) { *l = (cur.0, cur.1, Instant::now()); continue; }
                if l.2.elapsed().as_secs() >= 100 {
                    *hang.lock().unwrap() = Some(((cur.0 >> 40) as usize, cur.0 & 0xFF_FFFF_FFFF, cur.1.wrapping_sub(1)));
                }
            }
            if let Some((wi, u, i)) = *hang.lock().unwrap() {
                // The stuck thread cannot be joined: leave from here.
                let name = works.get(wi).map(|w| w.name).unwrap_or("?");
                let p = write_replay(&root, o.prop, "hang", &format!("the call made by case {name}:{u}:{i} did not return"), name, u, i, seed);
                println!("VIOLATION property={} replay={}", o.prop, p);
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
        }
    });
    let wall = start.elapsed().as_secs_f64();
    let mut evals = 0;
    let mut distinct: FxSet<u64> = Default::default();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut viols: BTreeMap<String, Violation> = BTreeMap::new();
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for c in done.into_inner().unwrap() {
        evals += c.evals;
        distinct.extend(c.distinct);
        for (k, n) in c.counters { *counters.entry(k).or_default() += n; }
        if samples.len() < 10 { samples.extend(c.samples); }
        for v in c.viols {
            let e = viols.get(&v.sig);
            if e.map_or(true, |e| (e.unit, e.iter) > (v.unit, v.iter)) { viols.insert(v.sig.clone(), v); }
        }
        for (k, (n, m)) in c.known { let e = known.entry(k).or_insert((0, m)); e.0 += n; }
    }
    let total_jobs = jobs.len() as u64;
    let jobs_done = finished_jobs.load(Ordering::Relaxed);
    let errs = harness_errors.into_inner().unwrap();
    samples.truncate(10);
    let mut lines = Vec::new();
    for v in viols.values() {
        let p = write_replay(&root, o.prop, &v.sig, &v.msg, v.work, v.unit, v.iter, seed);
        lines.push(format!("VIOLATION property={} replay={}", o.prop, p));
        println!("  [{}] {}:{}:{} {}", v.sig, v.work, v.unit, v.iter, v.msg);
        if lines.len() >= 20 { break; }
    }
    let mut j = String::new();
    j += &format!("{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},", jstr(o.prop), jstr(if thorough { "thorough" } else { "quick" }), seed, jstr(o.level));
    j += &format!("\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"observed\":{{{}}},\"jobs\":{},\"jobs_planned\":{}}},",
        evals, distinct.len(), jstr(o.rule), samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","), jobs_done, total_jobs);
    j += &format!("\"known_findings_observed\":{{{}}},", known.iter().map(|(k, v)| format!("{}:{}", jstr(k), v.0)).collect::<Vec<_>>().join(","));
    j += &format!("\"assumptions\":[{}],\"violations\":{},\"wall_s\":{:.2}}}", o.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","), viols.len(), wall);
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    if let Err(e) = std::fs::write(format!("{root}/evidence/{}.json", o.prop), j + "\n") { eprintln!("cannot write evidence: {e}"); return 4; }
    for (k, (n, m)) in &known { println!("KNOWN-FINDING: property={} {k}: {m} ({n} occurrences)", o.prop); }
    println!("{} {} evaluations, {} distinct, {}/{} jobs, {:.1}s, {:?}", o.prop, evals, distinct.len(), jobs_done, total_jobs, wall, counters);
    for e in errs.iter().take(5) { println!("HARNESS ERROR {e}"); }
    if !lines.is_empty() { for l in lines { println!("{l}"); } return 1; }
    if !errs.is_empty() { return 4; }
    if (distinct.len() as u64) < o.min_distinct || jobs_done < total_jobs / 2 { println!("INCONCLUSIVE property={}: too little was observed", o.prop); return 3; }
    0
}

fn write_replay(root: &str, prop: &str, sig: &str, msg: &str, work: &str, unit: u64, iter: u64, seed: u64) -> String {
    let dir = format!("{root}/evidence/replay");
    let _ = std::fs::create_dir_all(&dir);
    let h = sig.bytes().fold(7u64, |h, b| mix(h ^ b as u64)) & 0xFFFF_FFFF;
    let p = format!("{dir}/{prop}-{h:08x}.txt");
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let _ = std::fs::write(&p, format!("property: {prop}\nsignature: {sig}\nwitness: {msg}\nreplay: VERIF_SEED={seed} VERIF_TIER={tier} {root}/run.sh {prop} --case {work}:{unit}:{iter}\n"));
    p
}
