//! C04 and C32: the thread-safe registry and provider under every schedule of a few threads.
//!
//! The crates are compiled from a copy of /repo's sources in which `std::sync` and `std::cell` are replaced by `vsync`,
//! so that every lock, cell and atomic operation is a scheduling point of a depth-first search over all schedules.
#![allow(dead_code)]

#[path = "../../mc/src/engine.rs"]
mod engine;
#[macro_use]
mod common;
#[path = "../../mc/src/prov.rs"]
mod prov;
mod world {
    pub use std::sync::Arc as RefCount;
}

use common::*;
use engine::*;
use i18n_utility::{LanguageTag, LanguageTagRegistry};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use vsync::sched;

// ---------------------------------------------------------------------------------------------------------------
// C04

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Tag(&'static str),
    Icu(&'static str),
    List,
    Deprecated,
    All,
}

const TAGS: [(&str, Option<&str>); 6] = [("en-ZA", Some("en-ZA")), ("en_ZA", Some("en-ZA")), ("EN-za", Some("en-ZA")), ("en", Some("en")), ("e", None), ("EN", Some("en"))];

fn canonical(s: &str) -> Option<&'static str> {
    TAGS.iter().find(|t| t.0 == s).unwrap().1
}

const OPS: [Op; 10] =
    [Op::Tag("en-ZA"), Op::Tag("en_ZA"), Op::Tag("EN-za"), Op::List, Op::Deprecated, Op::All, Op::Icu("en_ZA"), Op::Tag("en"), Op::Tag("e"), Op::Icu("en-ZA")];

/// What an operation adds to the two lists: the canonical tag, and the spelling where it differs.
fn adds(o: Op) -> Option<(&'static str, Option<&'static str>)> {
    match o {
        Op::Tag(s) | Op::Icu(s) => canonical(s).map(|c| (c, if c == s { None } else { Some(s) })),
        _ => None,
    }
}

fn texts(v: Vec<Arc<LanguageTag>>) -> Vec<String> {
    let mut x: Vec<String> = v.iter().map(|t| t.as_str().to_string()).collect();
    x.sort();
    x
}

type Kept = Vec<(Arc<LanguageTag>, Option<Arc<dyn std::any::Any + Send + Sync>>)>;

/// Performs an operation; `kept` gets the instances of tags and ICU languages obtained.
fn perform(r: &LanguageTagRegistry, o: Op, kept: &mut Kept) -> Vec<String> {
    match o {
        Op::Tag(s) => vec![r
            .tag(s)
            .map(|t| {
                kept.push((Arc::clone(&t), None));
                t.as_str().to_string()
            })
            .unwrap_or("error".into())],
        Op::Icu(s) => vec![r
            .tag(s)
            .map(|t| {
                let i = r.icu_language(&t);
                kept.push((t, Some(i.clone())));
                i.to_string()
            })
            .unwrap_or("error".into())],
        Op::List => texts(r.list()),
        Op::Deprecated => texts(r.list_deprecated()),
        Op::All => texts(r.list_all()),
    }
}

/// The lists after the operations: (tags, deprecated) as sorted texts.
fn lists(ops: impl Iterator<Item = Op>) -> (Vec<String>, Vec<String>) {
    let mut tags: BTreeMap<&str, ()> = BTreeMap::new();
    let mut dep: BTreeMap<&str, &str> = BTreeMap::new();
    for o in ops {
        if let Some((c, s)) = adds(o) {
            tags.insert(c, ());
            if let Some(s) = s {
                dep.insert(s, c);
            }
        }
    }
    let mut d: Vec<String> = dep.values().map(|x| x.to_string()).collect();
    d.sort();
    (tags.keys().map(|x| x.to_string()).collect(), d)
}

/// Whether the sorted list `a` is contained in the sorted list `b`, with multiplicity.
fn within(a: &[String], b: &[String]) -> bool {
    let mut j = 0;
    for x in a {
        while j < b.len() && b[j] < *x {
            j += 1;
        }
        if j == b.len() || b[j] != *x {
            return false;
        }
        j += 1;
    }
    true
}

struct Done {
    op: Op,
    start: u64,
    end: u64,
    result: Vec<String>,
    kept: Kept,
}

fn merged(l: (Vec<String>, Vec<String>), o: Op) -> Vec<String> {
    match o {
        Op::List => l.0,
        Op::Deprecated => l.1,
        _ => {
            let mut a = [l.0, l.1].concat();
            a.sort();
            a
        }
    }
}

fn registry_scenario(l: &mut Local, before: &[Op], program: &[Vec<Op>], bound: usize, release: bool) {
    let case = format!("before {before:?} threads {program:?}{} preemptions {}", if release { " releases" } else { "" }, if bound > 99 { "any".to_string() } else { bound.to_string() });
    if l.skip(&case) {
        return;
    }
    l.state(&case);
    let mut bad: Option<(String, String)> = None;
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let (engine, id) = (Arc::clone(&l.engine), l.id);
    let report = l.exec(&case, || {
        sched::explore(
            program.len(),
            bound,
            20_000,
            release,
            || {
                engine.beat(id);
                let r = LanguageTagRegistry::new();
                for o in before {
                    perform(&r, *o, &mut vec![]);
                }
                (Force(r), AtomicU64::new(1), Mutex::new(Vec::<Done>::new()))
            },
            |s, i| {
                for op in &program[i] {
                    let start = s.1.fetch_add(1, Ordering::SeqCst);
                    let mut kept = vec![];
                    let result = perform(&s.0 .0, *op, &mut kept);
                    let end = s.1.fetch_add(1, Ordering::SeqCst);
                    s.2.lock().unwrap().push(Done { op: *op, start, end, result, kept });
                }
            },
            |s, outcome| {
                let at = || outcome.schedule.iter().map(|x| x.to_string()).collect::<String>();
                if let Some(a) = &outcome.abort {
                    bad = Some(("every call returns".into(), format!("{a} at schedule {}", at())));
                    return false;
                }
                let done = s.2.into_inner().unwrap();
                let r = s.0 .0;
                for d in &done {
                    match d.op {
                        Op::Tag(t) | Op::Icu(t) => {
                            let want = canonical(t).unwrap_or("error").to_string();
                            if d.result != [want.clone()] {
                                bad = Some((format!("{:?} returns {want}", d.op), format!("{:?} at schedule {}", d.result, at())));
                                return false;
                            }
                        }
                        o => {
                            let least = merged(lists(before.iter().copied().chain(done.iter().filter(|x| x.end < d.start).map(|x| x.op))), o);
                            let most = merged(lists(before.iter().copied().chain(done.iter().filter(|x| x.start < d.end).map(|x| x.op))), o);
                            if !within(&least, &d.result) || !within(&d.result, &most) {
                                bad = Some((format!("{o:?} between {least:?} and {most:?}"), format!("{:?} at schedule {}", d.result, at())));
                                return false;
                            }
                            *kinds.entry(format!("{o:?} {:?}", d.result)).or_insert(0) += 1;
                        }
                    }
                }
                let want = lists(before.iter().copied().chain(program.iter().flatten().copied()));
                let got = match catch(|| (texts(r.list()), texts(r.list_deprecated()), texts(r.list_all()))) {
                    Ok(g) => g,
                    Err(p) => {
                        bad = Some(("lists can be read afterwards".into(), format!("{p} at schedule {}", at())));
                        return false;
                    }
                };
                let shared: Vec<Arc<LanguageTag>> = done.iter().flat_map(|d| d.kept.iter().map(|x| Arc::clone(&x.0))).chain(r.list_all()).collect();
                for t in r.list() {
                    if shared.iter().any(|x| x.as_str() == t.as_str() && !Arc::ptr_eq(x, &t)) {
                        bad = Some((format!("one instance of {}", t.as_str()), format!("several at schedule {}", at())));
                        return false;
                    }
                    let i = r.icu_language(&t);
                    if i.to_string() != t.as_str() || done.iter().flat_map(|d| &d.kept).any(|x| x.0.as_str() == t.as_str() && x.1.as_ref().is_some_and(|x| Arc::as_ptr(x) as *const () != Arc::as_ptr(&i) as *const ())) {
                        bad = Some((format!("one instance of the ICU language of {}", t.as_str()), format!("several at schedule {}", at())));
                        return false;
                    }
                }
                let all = merged(want.clone(), Op::All);
                if got != (want.0.clone(), want.1.clone(), all) {
                    bad = Some((format!("lists {want:?} afterwards"), format!("{got:?} at schedule {}", at())));
                    return false;
                }
                true
            },
        )
    });
    match report {
        Err(p) => l.violation(&case, "returns", p),
        Ok(r) => {
            l.stats.transitions += r.points;
            account(r);
        }
    }
    for (k, v) in kinds {
        for _ in 0..v.min(1) {
            l.outcome(&k);
        }
    }
    match bad {
        Some((want, got)) => l.violation(&case, want, got),
        None => l.outcome("held under every schedule"),
    }
}

fn c04(e: &Arc<Engine>) {
    let t = e.thorough();
    let ok = shareable!(LanguageTagRegistry);
    e.run(|l| {
        pin(l);
        if l.mine() {
            let case = "LanguageTagRegistry is Send and Sync";
            l.state(case);
            l.expect(case, "true", &ok.to_string());
        }
        let pick = |p: Vec<Vec<usize>>| -> Vec<Vec<Op>> { p.into_iter().map(|s| s.into_iter().map(|i| OPS[i]).collect()).collect() };
        let befores: Vec<Vec<Op>> = vec![vec![], vec![Op::Tag("en-ZA")], vec![Op::Tag("en_ZA"), Op::Icu("en")]];
        for before in &befores {
            // Two threads with one call each: all schedules; few preemptions where releases are points as well.
            for p in programs(2, 1, OPS.len()) {
                if l.mine() {
                    registry_scenario(l, before, &pick(p.clone()), 1000, false);
                    registry_scenario(l, before, &pick(p), if t { 4 } else { 2 }, true);
                }
            }
        }
        for before in &befores[..if t { 3 } else { 1 }] {
            for p in programs(2, 2, if t { OPS.len() } else { 8 }) {
                if l.mine() {
                    registry_scenario(l, before, &pick(p), if t { 3 } else { 2 }, false);
                }
            }
            for p in programs(3, 1, if t { OPS.len() } else { 8 }) {
                if l.mine() {
                    registry_scenario(l, before, &pick(p), if t { 4 } else { 2 }, false);
                }
            }
        }
        if t {
            for p in programs(4, 1, 6) {
                if l.mine() {
                    registry_scenario(l, &[], &pick(p), 2, false);
                }
            }
            for p in programs(3, 2, 4) {
                if l.mine() {
                    registry_scenario(l, &[], &pick(p), 2, false);
                }
            }
        }
    });
    e.bound(if t {
        "2 threads x 1 call of 10 from 3 initial registries: all schedules, and 4 preemptions where releases of locks are points too; 2 threads x up to 2 calls: 3 preemptions; 3 threads x 1 call: 4 preemptions; 4 threads x 1 call of 6, and 3 threads x up to 2 calls of 4: 2 preemptions"
    } else {
        "2 threads x 1 call of 10 from 3 initial registries: all schedules, and 2 preemptions where releases of locks are points too; 2 threads x up to 2 calls of 8, and 3 threads x 1 call of 8: 2 preemptions"
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C32

use prov::{answer, history_repo, Dir, Prov, REQUESTS};

fn provider_scenario(l: &mut Local, dir: &Dir, repo: usize, alone: &[String], before: &[usize], program: &[Vec<usize>], bound: usize, release: bool) {
    let name = |i: &usize| format!("{:?}", REQUESTS[*i]);
    let case = format!(
        "repository {repo} before [{}] threads {} preemptions {bound}",
        before.iter().map(name).collect::<Vec<_>>().join(" "),
        program.iter().map(|p| format!("[{}]", p.iter().map(name).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(" | ")
    );
    if l.skip(&case) {
        return;
    }
    l.state(&case);
    let mut bad: Option<(String, String)> = None;
    let (engine, id) = (Arc::clone(&l.engine), l.id);
    let report = l.exec(&case, || {
        sched::explore(
            program.len(),
            bound,
            200_000,
            release,
            || {
                engine.beat(id);
                let p = prov::open(&dir.0).expect("HARNESS repository");
                for i in before {
                    answer(&p, REQUESTS[*i]);
                }
                (Force::<Prov>(p), Mutex::new(Vec::<(usize, String)>::new()))
            },
            |s, t| {
                for i in &program[t] {
                    let a = answer(&s.0 .0, REQUESTS[*i]);
                    s.1.lock().unwrap().push((*i, a));
                }
            },
            |s, outcome| {
                let at = || outcome.schedule.iter().map(|x| x.to_string()).collect::<String>();
                if let Some(a) = &outcome.abort {
                    bad = Some(("every request returns".into(), format!("{a} at schedule {}", at())));
                    return false;
                }
                for (i, a) in s.1.into_inner().unwrap() {
                    if a != alone[i] {
                        bad = Some((format!("{:?} gives {}", REQUESTS[i], alone[i]), format!("{a} at schedule {}", at())));
                        return false;
                    }
                }
                // And nothing is left behind.
                for i in program.iter().flatten() {
                    let a = catch(|| answer(&s.0 .0, REQUESTS[*i])).unwrap_or_else(|p| p);
                    if a != alone[*i] {
                        bad = Some((format!("{:?} gives {} afterwards", REQUESTS[*i], alone[*i]), format!("{a} at schedule {}", at())));
                        return false;
                    }
                }
                true
            },
        )
    });
    match report {
        Err(p) => l.violation(&case, "returns", p),
        Ok(r) => {
            l.stats.transitions += r.points;
            account(r);
        }
    }
    match bad {
        Some((want, got)) => l.violation(&case, want, got),
        None => l.outcome("held under every schedule"),
    }
}

fn c32(e: &Arc<Engine>) {
    let t = e.thorough();
    let ok = shareable!(i18n_provider_sqlite3::LocalisationProviderSqlite3);
    let small: Vec<usize> = (0..REQUESTS.len()).filter(|i| SMALL.contains(&format!("{:?}", REQUESTS[*i]).as_str())).collect();
    assert_eq!(small.len(), SMALL.len(), "HARNESS requests");
    e.run(|l| {
        pin(l);
        if l.mine() {
            let case = "LocalisationProviderSqlite3 is Send and Sync";
            l.state(case);
            l.expect(case, "true", &ok.to_string());
        }
        let dir = Dir::new(&format!("conc-{}", l.id));
        for repo in 0..4 {
            history_repo(&dir, repo);
            let alone: Vec<String> = REQUESTS.iter().map(|r| catch(|| answer(&prov::open(&dir.0).expect("HARNESS repository"), *r)).unwrap_or_else(|p| p)).collect();
            if l.id == 0 && repo == 0 {
                for (r, a) in REQUESTS.iter().zip(&alone) {
                    l.outcome(&format!("{r:?} -> {}", &a[..a.len().min(60)]));
                }
            }
            // Details are many steps each.
            let long = |i: usize| matches!(REQUESTS[i], prov::Req::Component(_) | prov::Req::Repository | prov::Req::Identifier(..));
            for p in programs(2, 1, REQUESTS.len()) {
                if l.mine() {
                    let n = p.iter().filter(|s| long(s[0])).count();
                    let bound = match (t, n) {
                        (true, 0) => 3,
                        (true, _) => 2,
                        (false, 0) if repo < 2 => 2,
                        (false, _) => 1,
                    };
                    provider_scenario(l, &dir, repo, &alone, &[], &p, bound, false);
                }
            }
            let few: &[usize] = &small;
            let pick = |p: Vec<Vec<usize>>| -> Vec<Vec<usize>> { p.into_iter().map(|s| s.into_iter().map(|i| few[i]).collect()).collect() };
            if repo == 0 || t {
                for p in programs(3, 1, if t { few.len() } else { 3 }) {
                    if l.mine() {
                        provider_scenario(l, &dir, repo, &alone, &[], &pick(p), if t { 2 } else { 1 }, false);
                    }
                }
            }
            if repo == 1 || t {
                for p in programs(2, 2, if t { few.len() } else { 2 }) {
                    if l.mine() {
                        provider_scenario(l, &dir, repo, &alone, &[], &pick(p), if t { 2 } else { 1 }, false);
                    }
                }
            }
        }
    });
    e.bound(if t {
        "4 repositories; 2 threads x 1 of 23 requests: 3 preemptions, 2 with details; 3 threads x 1 and 2 threads x up to 2 of 6 requests: 2 preemptions"
    } else {
        "4 repositories; 2 threads x 1 of 23 requests: 2 preemptions (details, and repositories 2 and 3: 1); 3 threads x 1 of 3 requests, and 2 threads x up to 2 of 2 on one repository: 1 preemption"
    });
}

const SMALL: [&str; 6] = [
    "One(\"application\", \"i\", \"en\")",
    "Component(\"lib\")",
    "Repository",
    "All(\"application\", \"i\", \"en\")",
    "Identifier(\"lib\", \"i\")",
    "Exact(\"application\", \"i\", \"en\")",
];

fn main() {
    unsafe {
        rusqlite::ffi::sqlite3_config(rusqlite::ffi::SQLITE_CONFIG_MEMSTATUS, 0);
    }
    main_with(|property, e| {
        match property {
            "C04" => c04(e),
            "C32" => c32(e),
            _ => return false,
        }
        true
    });
}
