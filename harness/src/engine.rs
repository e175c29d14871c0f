//! The engine: runs cases on all cores, catches panics, shrinks failures,
//! collects what was covered.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::src::{mix, Src};

#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable identity of the kind of failure: shrinking keeps it, and known
    /// findings are keyed on it.
    pub sig: String,
    pub msg: String,
}

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !$c { return Err($crate::engine::Fail { sig: $sig.to_string(), msg: format!($($a)*) }); }
    };
}

pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    /// Set when the case exercised the property, not just its vicinity.
    pub nontrivial: bool,
    fp: u64,
    /// A one-line rendering of the case, only filled when wanted.
    pub desc: String,
    pub want_desc: bool,
    /// Executions of the code under test within the case.
    pub runs: u64,
    pub thorough: bool,
}

impl Ctx {
    pub fn new(want_desc: bool, thorough: bool) -> Ctx {
        Ctx { labels: BTreeMap::new(), nontrivial: false, fp: 0, desc: String::new(), want_desc, runs: 0, thorough }
    }
    pub fn label(&mut self, l: &str) {
        if let Some(n) = self.labels.get_mut(l) {
            *n += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    pub fn labels(&mut self, ls: &[&str]) {
        for l in ls {
            self.label(l);
        }
    }
    /// Adds to the fingerprint by which distinct cases are counted.
    pub fn print<T: Hash + ?Sized>(&mut self, t: &T) {
        let mut h = Fnv(self.fp ^ 0xcbf29ce484222325);
        t.hash(&mut h);
        self.fp = h.finish();
    }
    pub fn fingerprint(&self) -> u64 { self.fp }
    pub fn describe<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            let t = f();
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&t);
        }
    }
}

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Result<(), Fail>;

pub struct Prop {
    pub id: &'static str,
    pub case: CaseFn,
    /// Cases in the quick tier (both profiles together), per this worker.
    pub rule: &'static str,
}

// ------------------------------------------------------------------ panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    let old = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        if !QUIET.with(|q| q.get()) {
            old(info);
        }
    }));
}

#[derive(Clone, Debug, PartialEq)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
}

/// Runs `f`, turning a panic into a value.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, Panicked> {
    let q = QUIET.with(|q| q.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|c| c.set(q));
    r.map_err(|_| {
        let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        Panicked { msg, loc }
    })
}

pub enum Outcome {
    Ok,
    Fail(Fail),
    /// The harness itself is broken.
    Bug(String),
}

pub fn run_case(p: &Prop, s: &mut Src, c: &mut Ctx) -> Outcome {
    match guard(|| (p.case)(s, c)) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(f)) => Outcome::Fail(f),
        Err(pn) => {
            if pn.msg.contains(crate::io::SPIN) {
                Outcome::Fail(Fail { sig: "endless-read".into(), msg: pn.msg })
            } else if pn.loc.starts_with("src/props/") || pn.loc.starts_with("src/io.rs") || pn.loc.starts_with("src/meta.rs") {
                // The harness stumbled over what it was given.
                Outcome::Fail(Fail { sig: format!("unusable@{}", pn.loc), msg: format!("the results do not fit together: {} at {}", pn.msg, pn.loc) })
            } else if pn.loc.starts_with("src/") {
                Outcome::Bug(format!("harness panic at {}: {}", pn.loc, pn.msg))
            } else {
                let short = pn.loc.rsplit('/').next().unwrap_or("").to_string();
                Outcome::Fail(Fail { sig: format!("panic@{}", short), msg: format!("panicked at {}: {}", pn.loc, pn.msg) })
            }
        }
    }
}

// ------------------------------------------------------------------ json

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ------------------------------------------------------------------ running

pub struct RunCfg {
    pub seed: u64,
    pub from: u64,
    pub count: u64,
    pub threads: usize,
    pub thorough: bool,
    pub progress: Option<String>,
    /// A failure is noted here as soon as it is seen, before it is repeated
    /// and shrunk, which may crash or hang.
    pub found: Option<String>,
    pub known: Vec<String>,
    /// Stop starting new cases after this time (thorough tier only).
    pub max_time: Option<Duration>,
    pub case_limit: Duration,
    pub skip: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub runs: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<(u64, String)>,
    pub known: BTreeMap<String, (u64, u64, String)>,
}

pub struct Found {
    pub index: u64,
    pub fail: Fail,
    pub choices: Vec<u64>,
    pub desc: String,
    pub shrinks: u64,
    pub orig_len: usize,
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    id.hash(&mut h);
    mix(mix(seed, h.finish()), index)
}

pub enum RunResult {
    Held(Stats),
    Violated(Stats, Found),
    Broken(String),
}

pub fn run(p: &Prop, cfg: &RunCfg) -> RunResult {
    let next = AtomicU64::new(cfg.from);
    let end = cfg.from + cfg.count;
    let stop_at = AtomicU64::new(u64::MAX);
    let found: Mutex<Option<(u64, Fail)>> = Mutex::new(None);
    let bug: Mutex<Option<String>> = Mutex::new(None);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let progress = cfg.progress.as_ref().map(|f| File::create(f).expect("progress file"));
    let t0 = Instant::now();
    // Per thread: case start in ms since t0, plus one (0: idle); and the case.
    let busy: Vec<(AtomicU64, AtomicU64)> = (0..cfg.threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let alive = AtomicU64::new(cfg.threads as u64);

    std::thread::scope(|sc| {
        for t in 0..cfg.threads {
            let (next, stop_at, found, bug, total, progress, busy, alive) =
                (&next, &stop_at, &found, &bug, &total, &progress, &busy, &alive);
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                let mut st = Stats::default();
                let batch: u64 = if cfg.count <= 256 { 1 } else { 8 };
                'outer: loop {
                    let start = next.fetch_add(batch, Ordering::SeqCst);
                    if start >= end {
                        break;
                    }
                    if let Some(m) = cfg.max_time {
                        if t0.elapsed() > m {
                            break;
                        }
                    }
                    for i in start..(start + batch).min(end) {
                        if i > stop_at.load(Ordering::SeqCst) || cfg.skip.contains(&i) {
                            continue;
                        }
                        if bug.lock().unwrap().is_some() {
                            break 'outer;
                        }
                        if let Some(ref f) = *progress {
                            let _ = f.write_at(&(i + 1).to_le_bytes(), t as u64 * 8);
                        }
                        busy[t].1.store(i, Ordering::SeqCst);
                        busy[t].0.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                        let mut s = Src::random(case_seed(cfg.seed, p.id, i));
                        let mut c = Ctx::new(i < 4 || i % 4001 == 0, cfg.thorough);
                        let o = run_case(p, &mut s, &mut c);
                        busy[t].0.store(0, Ordering::SeqCst);
                        st.evaluations += 1;
                        st.runs += c.runs;
                        if c.nontrivial {
                            st.nontrivial += 1;
                            st.distinct.insert(c.fp);
                        }
                        if c.want_desc && st.samples.len() < 12 {
                            let mut d = c.desc.clone();
                            if d.len() > 700 {
                                let mut cut = 700;
                                while !d.is_char_boundary(cut) { cut -= 1; }
                                d.truncate(cut);
                                d.push_str("...");
                            }
                            st.samples.push((i, d));
                        }
                        for (k, v) in c.labels {
                            *st.labels.entry(k).or_insert(0) += v;
                        }
                        match o {
                            Outcome::Ok => {}
                            Outcome::Bug(m) => {
                                *bug.lock().unwrap() = Some(format!("case {}: {}", i, m));
                                break 'outer;
                            }
                            Outcome::Fail(f) => {
                                if cfg.known.iter().any(|k| *k == f.sig) {
                                    let e = st.known.entry(f.sig.clone()).or_insert((0, i, f.msg.clone()));
                                    e.0 += 1;
                                    continue;
                                }
                                let mut g = found.lock().unwrap();
                                if g.as_ref().map(|x| i < x.0).unwrap_or(true) {
                                    *g = Some((i, f));
                                    stop_at.store(i, Ordering::SeqCst);
                                }
                            }
                        }
                    }
                }
                if let Some(ref f) = *progress {
                    let _ = f.write_at(&0u64.to_le_bytes(), t as u64 * 8);
                }
                let mut g = total.lock().unwrap();
                g.evaluations += st.evaluations;
                g.runs += st.runs;
                g.nontrivial += st.nontrivial;
                g.distinct.extend(st.distinct);
                for (k, v) in st.labels {
                    *g.labels.entry(k).or_insert(0) += v;
                }
                g.samples.extend(st.samples);
                for (k, v) in st.known {
                    let e = g.known.entry(k).or_insert((0, v.1, v.2));
                    e.0 += v.0;
                }
                alive.fetch_sub(1, Ordering::SeqCst);
            }).expect("spawn");
        }
        // Watchdog: a case that does not end is an error of the run.
        let (busy, alive) = (&busy, &alive);
        sc.spawn(move || {
            while alive.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64 + 1;
                for b in busy.iter() {
                    let st = b.0.load(Ordering::SeqCst);
                    if st > 0 && now > st && now - st > cfg.case_limit.as_millis() as u64 {
                        eprintln!("ERROR: case {} of {} did not end within {:?}", b.1.load(Ordering::SeqCst), p.id, cfg.case_limit);
                        std::process::exit(3);
                    }
                }
            }
        });
    });

    if let Some(m) = bug.into_inner().unwrap() {
        return RunResult::Broken(m);
    }
    let mut st = total.into_inner().unwrap();
    st.samples.sort();
    match found.into_inner().unwrap() {
        None => RunResult::Held(st),
        Some((index, f)) => {
            if let Some(ref path) = cfg.found {
                let _ = std::fs::write(path, format!("{}\n{}\n{}\n", index, f.sig, f.msg.replace('\n', " ")));
            }
            // Shrinking has a limit, but a single run may not end.
            std::thread::spawn(|| {
                std::thread::sleep(Duration::from_secs(90));
                eprintln!("ERROR: repeating the failure did not end");
                std::process::exit(4);
            });
            let mut s = Src::random(case_seed(cfg.seed, p.id, index));
            let mut c = Ctx::new(false, cfg.thorough);
            // Once more, for the choices.
            let repeats = match run_case(p, &mut s, &mut c) {
                Outcome::Fail(g) => g.sig == f.sig,
                _ => false,
            };
            if !repeats {
                // It was observed, so it counts, but there is nothing to shrink.
                let fail = Fail { sig: f.sig, msg: format!("{} (a second run of the same case did not fail like this)", f.msg) };
                let choices = s.into_choices();
                let orig_len = choices.len();
                return RunResult::Violated(st, Found { index, fail, choices, desc: c.desc, shrinks: 0, orig_len });
            }
            let choices = s.into_choices();
            let orig_len = choices.len();
            let (best, shrinks) = shrink(p, choices, &f, cfg.thorough, Duration::from_secs(15));
            let mut s = Src::replay(&best);
            let mut c = Ctx::new(true, cfg.thorough);
            let fail = match run_case(p, &mut s, &mut c) { Outcome::Fail(g) => g, _ => f };
            RunResult::Violated(st, Found { index, fail, choices: best, desc: c.desc, shrinks, orig_len })
        }
    }
}

/// Greedy shrinking of the choice sequence, keeping the failure's signature.
pub fn shrink(p: &Prop, start: Vec<u64>, f: &Fail, thorough: bool, limit: Duration) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut tries = 0u64;
    let mut test = |cand: &[u64], tries: &mut u64| -> Option<Vec<u64>> {
        *tries += 1;
        let mut s = Src::replay(cand);
        let mut c = Ctx::new(false, thorough);
        match run_case(p, &mut s, &mut c) {
            Outcome::Fail(g) if g.sig == f.sig => {
                let mut v = s.into_choices();
                while v.last() == Some(&0) { v.pop(); }
                Some(v)
            }
            _ => None,
        }
    };
    let smaller = |a: &[u64], b: &[u64]| -> bool {
        (a.len(), a.iter().map(|&x| x as u128).sum::<u128>()) < (b.len(), b.iter().map(|&x| x as u128).sum::<u128>())
    };
    let mut progress = true;
    while progress && t0.elapsed() < limit {
        progress = false;
        // Delete runs.
        let mut k = best.len().max(1).next_power_of_two();
        while k >= 1 && t0.elapsed() < limit {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < limit {
                let mut cand = best.clone();
                let e = (i + k).min(cand.len());
                cand.drain(i..e);
                match test(&cand, &mut tries) {
                    Some(v) if smaller(&v, &best) => { best = v; progress = true; }
                    _ => i += k,
                }
            }
            k /= 2;
        }
        // Zero runs.
        let mut k = 8;
        while k >= 1 {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < limit {
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[i..e] { *x = 0; }
                    if let Some(v) = test(&cand, &mut tries) {
                        if smaller(&v, &best) { best = v; progress = true; }
                    }
                }
                i += k;
            }
            k /= 2;
        }
        // Lower single values.
        let mut i = 0;
        while i < best.len() && t0.elapsed() < limit {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && t0.elapsed() < limit {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                match test(&cand, &mut tries) {
                    Some(v) if smaller(&v, &best) => {
                        let same_len = v.len() > i;
                        best = v;
                        progress = true;
                        if !same_len { break; }
                        hi = best[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
    }
    (best, tries)
}
