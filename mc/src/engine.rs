//! Exhaustive enumeration engine.
//!
//! A check is a deterministic enumeration of cases, split over worker threads.  Every case is run exactly once, its
//! description is published in a shared file before it runs (so that a crash or a hang can be attributed), panics are
//! caught, and the outcome is compared by the property's own oracle.  Nothing is sampled.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: String,
    pub expected: String,
    pub actual: String,
}

#[derive(Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub violation_count: u64,
    pub known: Vec<String>,
}

impl Stats {
    fn merge(&mut self, other: Stats) {
        self.states += other.states;
        self.transitions += other.transitions;
        for (k, v) in other.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
        for s in other.samples {
            if self.samples.len() < 40 {
                self.samples.push(s);
            }
        }
        self.violation_count += other.violation_count;
        for v in other.violations {
            if self.violations.len() < 400 {
                self.violations.push(v);
            }
        }
        for k in other.known {
            if !self.known.contains(&k) {
                self.known.push(k);
            }
        }
    }
}

const SLOT: usize = 4096;

pub struct Engine {
    pub tier: String,
    pub only: Option<String>,
    pub threads: usize,
    pub parity: Option<String>,
    pub stats: Mutex<Stats>,
    pub bounds: Mutex<Vec<String>>,
    pub known: Vec<String>,
    map: *mut u8,
    beats: Vec<AtomicU64>,
    start: Instant,
    stop: AtomicBool,
}
unsafe impl Sync for Engine {}
unsafe impl Send for Engine {}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CATCHING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{info}").replace('\n', " ");
        if !CATCHING.with(|c| c.get()) {
            eprintln!("HARNESS {text}");
        }
        PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let outer = CATCHING.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(outer));
    r.map_err(|_| {
        let text = PANIC.with(|p| p.borrow().clone());
        format!("PANIC {text}")
    })
}

impl Engine {
    pub fn new(tier: &str, only: Option<String>, progress: &str, parity: Option<&str>, known: Vec<String>) -> Arc<Engine> {
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
        let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(progress).expect("progress file");
        file.set_len((SLOT * threads) as u64).expect("progress size");
        use std::os::fd::AsRawFd;
        let map = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOT * threads, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, file.as_raw_fd(), 0)
        } as *mut u8;
        assert!(map as isize != -1);
        let e = Arc::new(Engine {
            tier: tier.to_string(),
            only,
            threads,
            parity: parity.map(|p| p.to_string()),
            stats: Mutex::new(Stats::default()),
            bounds: Mutex::new(vec![]),
            known,
            map,
            beats: (0..threads).map(|_| AtomicU64::new(0)).collect(),
            start: Instant::now(),
            stop: AtomicBool::new(false),
        });
        // Watchdog: a single case that runs for too long is a hang.
        let w = Arc::clone(&e);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if w.stop.load(Ordering::Relaxed) {
                return;
            }
            let now = w.start.elapsed().as_millis() as u64;
            for (i, b) in w.beats.iter().enumerate() {
                let t = b.load(Ordering::Relaxed);
                if t != 0 && now > t + 60_000 {
                    eprintln!("HANG slot={i}");
                    unsafe { libc::_exit(77) };
                }
            }
        });
        e
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    pub fn bound(&self, s: impl Into<String>) {
        let s = s.into();
        let mut b = self.bounds.lock().unwrap();
        if !b.contains(&s) {
            b.push(s);
        }
    }

    /// Run `f` once per worker thread; each worker takes its share of the enumeration through `Local::mine`.
    pub fn run(self: &Arc<Self>, f: impl Fn(&mut Local) + Send + Sync) {
        let f = &f;
        std::thread::scope(|s| {
            for id in 0..self.threads {
                let engine = Arc::clone(self);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut local = Local { id, n: engine.threads as u64, k: 0, engine: Arc::clone(&engine), stats: Stats::default(), lines: String::new() };
                        f(&mut local);
                        engine.beats[id].store(0, Ordering::Relaxed);
                        local.flush();
                        engine.stats.lock().unwrap().merge(local.stats);
                    })
                    .expect("thread");
            }
        });
    }

    /// The current case of a worker is still making progress.
    #[allow(dead_code)]
    pub fn beat(&self, id: usize) {
        self.beats[id].store((self.start.elapsed().as_millis() as u64).max(1), Ordering::Relaxed);
    }

    pub fn finish(&self) {
        self.stop.store(true, Ordering::Relaxed);
    }
}

pub struct Local {
    pub id: usize,
    n: u64,
    k: u64,
    pub engine: Arc<Engine>,
    pub stats: Stats,
    lines: String,
}

impl Local {
    /// True when the next unit of the enumeration belongs to this worker.  Every worker walks the same enumeration.
    pub fn mine(&mut self) -> bool {
        let m = self.k % self.n == self.id as u64;
        self.k += 1;
        m
    }

    pub fn skip(&self, case: &str) -> bool {
        matches!(&self.engine.only, Some(o) if o != case)
    }

    fn publish(&self, case: &str) {
        let b = case.as_bytes();
        let len = b.len().min(SLOT - 4);
        unsafe {
            let p = self.engine.map.add(self.id * SLOT);
            (p as *mut u32).write_volatile(len as u32);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(4), len);
        }
        let t = self.engine.start.elapsed().as_millis() as u64;
        self.engine.beats[self.id].store(t.max(1), Ordering::Relaxed);
    }

    fn unpublish(&self) {
        self.engine.beats[self.id].store(0, Ordering::Relaxed);
        unsafe { (self.engine.map.add(self.id * SLOT) as *mut u32).write_volatile(0) };
    }

    /// Run the code under test on one case.  A panic becomes `Err("PANIC ...")`.
    pub fn exec<T>(&mut self, case: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        self.publish(case);
        let r = catch(f);
        self.unpublish();
        self.stats.transitions += 1;
        r
    }

    /// Count one checked state (a distinct input, configuration or history).
    pub fn state(&mut self, case: &str) {
        self.stats.states += 1;
        if self.stats.samples.len() < 3 || (self.stats.states.is_power_of_two() && self.stats.samples.len() < 12) {
            self.stats.samples.push(case.to_string());
        }
    }

    pub fn outcome(&mut self, class: &str) {
        match self.stats.outcomes.get_mut(class) {
            Some(v) => *v += 1,
            None => {
                if self.stats.outcomes.len() < 5000 {
                    self.stats.outcomes.insert(class.to_string(), 1);
                }
            }
        }
    }

    /// Record an outcome for the comparison between the two builds.
    pub fn parity(&mut self, case: &str, outcome: &str) {
        if self.engine.parity.is_some() {
            // Which of several mistakes in a string is reported may depend on the order of a hash map.
            let outcome = if outcome.starts_with("err Formatter(") { "err Formatter" } else { outcome };
            self.lines.push_str(&case.replace('\n', "\\n"));
            self.lines.push_str("\t=> ");
            self.lines.push_str(&outcome.replace('\n', "\\n"));
            self.lines.push('\n');
            if self.lines.len() > 1 << 20 {
                self.flush();
            }
        }
    }

    fn flush(&mut self) {
        // One file per worker: its part of the enumeration, and so the order of its lines, is always the same.
        if let Some(f) = &self.engine.parity {
            use std::io::Write;
            let mut file = std::fs::OpenOptions::new().create(true).append(true).open(format!("{f}.{}", self.id)).expect("parity file");
            file.write_all(self.lines.as_bytes()).expect("parity write");
            self.lines.clear();
        }
    }

    pub fn violation(&mut self, case: &str, expected: impl Into<String>, actual: impl Into<String>) {
        if self.engine.known.iter().any(|k| k == case) {
            if !self.stats.known.contains(&case.to_string()) {
                self.stats.known.push(case.to_string());
            }
            return;
        }
        self.stats.violation_count += 1;
        if self.stats.violations.len() < 200 {
            self.stats.violations.push(Violation { case: case.to_string(), expected: expected.into(), actual: actual.into() });
        }
    }

    /// Compare; true when equal.
    pub fn expect(&mut self, case: &str, expected: &str, actual: &str) -> bool {
        if expected != actual {
            self.violation(case, expected, actual);
            return false;
        }
        true
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// All words of exactly length `len` over an alphabet of size `n`, as index vectors, in lexicographic order.
pub fn words(n: usize, len: usize, mut f: impl FnMut(&[usize])) {
    let mut w = vec![0usize; len];
    if n == 0 && len > 0 {
        return;
    }
    loop {
        f(&w);
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            w[i] += 1;
            if w[i] < n {
                break;
            }
            w[i] = 0;
        }
    }
}

/// Every size up to `each`, then the sizes around powers of two and round numbers up to `most`: where limits sit.
pub fn landmarks(each: usize, most: usize) -> Vec<usize> {
    let powers = (0..20).map(|k| 1usize << k);
    let round = [100usize, 200, 250, 300, 400, 500, 1_000, 2_000, 5_000, 10_000, 20_000, 50_000, 100_000];
    let mut all: Vec<usize> = (1..=each).chain(powers.chain(round).flat_map(|n| [n.saturating_sub(1), n, n + 1]).filter(|n| *n > each && *n <= most)).collect();
    all.sort();
    all.dedup();
    all
}
