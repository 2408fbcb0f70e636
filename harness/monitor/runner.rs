//! Case runner: deterministic cases spread over worker threads, with a journal so that an abort of
//! the process can be traced to its case, panic capture, a watchdog and coverage counters.

use crate::rng::{mix, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Allocator that can refuse (return null for) requests above a per-thread limit and records the
/// largest request, so that "memory reserved for a claimed size" is observable.
pub struct Watch;

thread_local! {
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !note(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

fn note(n: usize) -> bool {
    let lim = LIMIT.try_with(|l| l.get()).unwrap_or(usize::MAX);
    let _ = BIGGEST.try_with(|b| {
        if n > b.get() {
            b.set(n)
        }
    });
    n <= lim
}

/// runs `f` with allocation requests limited; returns the largest request seen
pub fn with_alloc_limit<T>(limit: usize, f: impl FnOnce() -> T) -> (T, usize) {
    struct Reset(usize);
    impl Drop for Reset {
        fn drop(&mut self) {
            LIMIT.with(|l| l.set(self.0));
        }
    }
    BIGGEST.with(|b| b.set(0));
    let _r = Reset(LIMIT.with(|l| l.replace(limit)));
    let r = f();
    (r, BIGGEST.with(|b| b.get()))
}

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.counts.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn distinct(&mut self, h: u64) {
        self.distinct.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let s = f();
            self.samples.push(s);
        }
    }
}

pub struct Case<'a> {
    pub idx: u64,
    pub rng: Rng,
    pub st: &'a mut Stats,
    pub scratch: &'a Path,
    pub thorough: bool,
}

pub type Res = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Case) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// counters that must have reached at least this value for a "held" verdict
    pub need: &'static [(&'static str, u64)],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((msg, loc));
            }
        });
    }));
}

pub enum Outcome {
    Held,
    Violated(String),
    HarnessError(String),
}

/// Runs code under test; a panic becomes `Err((message, location))`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_harness_loc(&l) && !m.starts_with("HARNESS-OPLIMIT") {
                // our own bug: let it surface as one
                panic!("harness: {m} at {l}");
            }
            Err(format!("panic: {m} at {l}"))
        }
    }
}

fn is_harness_loc(l: &str) -> bool {
    // the harness' own files are compiled from monitor/, the code under test from src/
    l.starts_with("monitor/")
}

pub fn run_one(p: &Prop, seed: u64, idx: u64, st: &mut Stats, scratch: &Path, thorough: bool) -> Outcome {
    let mut h = seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in p.id.bytes() {
        h = mix(h ^ b as u64);
    }
    let dir = scratch.join(format!("case-{}-{idx}", p.id));
    let mut case = Case {
        idx,
        rng: Rng::new(mix(h ^ mix(idx))),
        st,
        scratch: &dir,
        thorough,
    };
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut case)));
    if dir.exists() {
        let _ = std::fs::remove_dir_all(&dir);
    }
    match r {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(m)) => match m.strip_prefix("HARNESS: ") {
            Some(m) => Outcome::HarnessError(m.to_string()),
            None => Outcome::Violated(m),
        },
        Err(_) => {
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_harness_loc(&l) && !m.starts_with("HARNESS-OPLIMIT") {
                Outcome::HarnessError(format!("panic in the harness: {m} at {l}"))
            } else {
                Outcome::Violated(format!("panic: {m} at {l}"))
            }
        }
    }
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub scratch: PathBuf,
    pub threads: usize,
    pub cases: Option<u64>,
    pub budget_s: u64,
    pub hang_s: u64,
    pub skip: HashSet<u64>,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn run(p: &'static Prop, o: &Opts) -> i32 {
    let total = o
        .cases
        .unwrap_or(if o.thorough { p.thorough } else { p.quick });
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let result: Arc<Mutex<Option<(u64, Outcome)>>> = Arc::new(Mutex::new(None));
    let started: Arc<Vec<Mutex<Option<(u64, Instant)>>>> =
        Arc::new((0..o.threads).map(|_| Mutex::new(None)).collect());
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(o.budget_s);
    let mut hs = vec![];
    for t in 0..o.threads {
        let (next, stop, result, started) = (next.clone(), stop.clone(), result.clone(), started.clone());
        let scratch = o.scratch.join(format!("t{t}"));
        let (seed, thorough, skip) = (o.seed, o.thorough, o.skip.clone());
        let jpath = o.scratch.join(format!("journal-{t}"));
        hs.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let mut st = Stats::default();
                    let mut done = 0u64;
                    std::fs::create_dir_all(&scratch).unwrap();
                    let mut j = std::fs::File::create(&jpath).unwrap();
                    while !stop.load(Ordering::Relaxed) && Instant::now() < deadline {
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= total {
                            break;
                        }
                        if skip.contains(&idx) {
                            continue;
                        }
                        use std::io::Seek;
                        let _ = j.seek(std::io::SeekFrom::Start(0));
                        let _ = j.write_all(format!("{idx:20}\n").as_bytes());
                        *started[t].lock().unwrap() = Some((idx, Instant::now()));
                        let r = run_one(p, seed, idx, &mut st, &scratch, thorough);
                        *started[t].lock().unwrap() = None;
                        done += 1;
                        if !matches!(r, Outcome::Held) {
                            let mut g = result.lock().unwrap();
                            // keep the lowest case index so that reports are stable
                            // and prefer a violation over an error of the harness
                            let rank = |r: &Outcome| !matches!(r, Outcome::Violated(_)) as u64;
                            if g.as_ref().map_or(true, |(i, o)| (rank(&r), idx) < (rank(o), *i)) {
                                *g = Some((idx, r));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    let _ = j.seek_reset();
                    (st, done)
                })
                .unwrap(),
        );
    }
    // watchdog
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        for s in started.iter() {
            if let Some((idx, at)) = *s.lock().unwrap() {
                if at.elapsed() > Duration::from_secs(o.hang_s) {
                    println!("HANG {idx}");
                    return 4;
                }
            }
        }
    }
    let mut all = Stats::default();
    let mut done = 0;
    for h in hs {
        let (st, d) = h.join().unwrap();
        done += d;
        for (k, v) in st.counts {
            if k.starts_with("max_") {
                let e = all.counts.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *all.counts.entry(k).or_insert(0) += v;
            }
        }
        all.distinct.extend(st.distinct);
        for s in st.samples {
            if all.samples.len() < 6 {
                all.samples.push(s);
            }
        }
    }
    let res = result.lock().unwrap().take();
    let mut missing = vec![];
    for (k, n) in p.need {
        let have = all.counts.get(k).copied().unwrap_or(0);
        if have < *n {
            missing.push(format!("{k}: {have} < {n}"));
        }
    }
    let (code, verdict, idx, msg) = match &res {
        Some((i, Outcome::Violated(m))) => (1, "violated", *i as i64, m.clone()),
        Some((i, Outcome::HarnessError(m))) => (2, "error", *i as i64, m.clone()),
        _ if !missing.is_empty() && o.cases.is_none() => {
            (2, "inconclusive", -1, format!("too little observed: {}", missing.join(", ")))
        }
        _ => (0, "held", -1, String::new()),
    };
    let counts: Vec<String> = all
        .counts
        .iter()
        .map(|(k, v)| format!("{}: {v}", json_str(k)))
        .collect();
    let samples: Vec<String> = all.samples.iter().map(|s| json_str(s)).collect();
    println!(
        "RESULT {{\"verdict\": {}, \"case\": {}, \"message\": {}, \"evaluations\": {}, \"planned\": {}, \"distinct\": {}, \"rule\": {}, \"counts\": {{{}}}, \"samples\": [{}], \"wall_s\": {:.3}}}",
        json_str(verdict),
        idx,
        json_str(&msg),
        done,
        total,
        all.distinct.len(),
        json_str(p.rule),
        counts.join(", "),
        samples.join(", "),
        t0.elapsed().as_secs_f64()
    );
    code
}

trait SeekReset {
    fn seek_reset(&mut self) -> std::io::Result<()>;
}
impl SeekReset for std::fs::File {
    fn seek_reset(&mut self) -> std::io::Result<()> {
        self.set_len(0)
    }
}
