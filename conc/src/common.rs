//! What the programs that explore schedules share.
use crate::engine::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Instant;
use vsync::sched;

pub static SCRATCH: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();

/// Lets a type that is not `Send` or `Sync` be used anyway, so that losing these is reported and not a build failure.
pub struct Force<T>(pub T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

pub struct Probe<T>(pub std::marker::PhantomData<T>);
pub trait No {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> No for Probe<T> {}
pub trait Yes {
    fn shareable(&self) -> bool;
}
impl<T: Send + Sync> Yes for &Probe<T> {
    fn shareable(&self) -> bool {
        true
    }
}

macro_rules! shareable {
    ($t:ty) => {
        (&&$crate::common::Probe::<$t>(std::marker::PhantomData)).shareable()
    };
}

pub static SCHEDULES: AtomicU64 = AtomicU64::new(0);
pub static POINTS: AtomicU64 = AtomicU64::new(0);
pub static LONGEST: AtomicU64 = AtomicU64::new(0);
pub static DIVERGED: AtomicU64 = AtomicU64::new(0);

pub fn account(r: sched::Report) {
    SCHEDULES.fetch_add(r.executions, Ordering::Relaxed);
    POINTS.fetch_add(r.points, Ordering::Relaxed);
    LONGEST.fetch_max(r.longest, Ordering::Relaxed);
    DIVERGED.fetch_add(r.diverged, Ordering::Relaxed);
}

/// Hash maps are keyed at random, which would make the order of their entries differ from one execution to the next.
/// With fixed keys every schedule can be run again exactly.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buffer: *mut u8, length: usize, _flags: u32) -> isize {
    std::ptr::write_bytes(buffer, 0x5a, length);
    length as isize
}

/// The threads of an execution take turns, so they are cheapest on one core.
pub fn pin(l: &Local) {
    unsafe {
        let mut old: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut old) != 0 {
            return;
        }
        let cores: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &old)).collect();
        if cores.len() < l.engine.threads {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cores[l.id], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &one);
    }
}

/// All ways to give each of `threads` threads a sequence of 1..=`most` of `n` operations, threads being alike.
pub fn programs(threads: usize, most: usize, n: usize) -> Vec<Vec<Vec<usize>>> {
    let mut sequences: Vec<Vec<usize>> = vec![];
    for len in 1..=most {
        words(n, len, |w| sequences.push(w.to_vec()));
    }
    let mut out = vec![];
    fn rec(sequences: &[Vec<usize>], from: usize, threads: usize, acc: &mut Vec<Vec<usize>>, out: &mut Vec<Vec<Vec<usize>>>) {
        if acc.len() == threads {
            out.push(acc.clone());
            return;
        }
        for i in from..sequences.len() {
            acc.push(sequences[i].clone());
            rec(sequences, i, threads, acc, out);
            acc.pop();
        }
    }
    rec(&sequences, 0, threads, &mut vec![], &mut out);
    out
}

pub fn main_with(check: impl Fn(&str, &Arc<Engine>) -> bool) {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned());
    let property = args.get(1).cloned().unwrap_or_default();
    let tier = get("--tier").unwrap_or("quick".into());
    let out = get("--out").unwrap_or("/dev/stdout".into());
    let progress = get("--progress").unwrap_or(format!("/tmp/conc-progress-{}", std::process::id()));
    let known: Vec<String> = get("--known")
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| t.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect())
        .unwrap_or_default();
    if let Some(d) = get("--scratch") {
        let _ = SCRATCH.set(d.into());
    }
    unsafe {
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        libc::mallopt(libc::M_MMAP_THRESHOLD, 256 << 20);
        libc::mallopt(libc::M_TRIM_THRESHOLD, 512 << 20);
    }
    // Panics of scheduled threads are part of the outcome.
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{info}");
        if text.contains("HARNESS") {
            eprintln!("HARNESS {text}");
        }
    }));
    let e = Engine::new(&tier, get("--only"), &progress, None, known);
    let t = Instant::now();
    if !check(property.as_str(), &e) {
        eprintln!("unknown property {property}");
        std::process::exit(2);
    }
    e.finish();
    let s = e.stats.lock().unwrap();
    let list = |v: &[String]| v.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", ");
    let mut top: Vec<_> = s.outcomes.iter().collect();
    top.sort_by(|a, b| b.1.cmp(a.1).then(a.0.cmp(b.0)));
    let o = format!(
        "{{\"property\": {}, \"build\": \"conc\", \"tier\": {}, \"states\": {}, \"transitions\": {}, \"wall_s\": {:.3}, \"distinct_outcomes\": {},\n\"outcomes\": {{{}}},\n\"samples\": [{}],\n\"bounds\": [{}],\n\"known\": [{}],\n\"validated\": {},\n\"extra\": {{\"scenarios\": {}, \"schedules\": {}, \"scheduling_points\": {}, \"longest_execution\": {}, \"diverged_replays\": {}}},\n\"violation_count\": {},\n\"violations\": [{}]}}\n",
        json_str(&property),
        json_str(&tier),
        SCHEDULES.load(Ordering::Relaxed).max(s.states),
        s.transitions,
        t.elapsed().as_secs_f64(),
        s.outcomes.len(),
        top.iter().take(40).map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "),
        list(&s.samples),
        list(&e.bounds.lock().unwrap()),
        list(&s.known),
        SCHEDULES.load(Ordering::Relaxed),
        s.states,
        SCHEDULES.load(Ordering::Relaxed),
        POINTS.load(Ordering::Relaxed),
        LONGEST.load(Ordering::Relaxed),
        DIVERGED.load(Ordering::Relaxed),
        s.violation_count,
        s.violations.iter().map(|v| format!("{{\"case\": {}, \"expected\": {}, \"actual\": {}}}", json_str(&v.case), json_str(&v.expected), json_str(&v.actual))).collect::<Vec<_>>().join(", ")
    );
    std::fs::write(&out, o).expect("write report");
    let _ = std::fs::remove_file(&progress);
    std::process::exit(if s.violation_count > 0 { 1 } else { 0 });
}
