//! C39: the thread-safe localiser under every schedule of a few threads.
//!
//! The crates are compiled from a copy of /repo's sources in which `std::sync` and `std::cell` are replaced by `vsync`,
//! so that every lock, cell and atomic operation of the localiser, the command registry and the language tag registry
//! is a scheduling point of a depth-first search over all schedules.
#![allow(dead_code)]

#[path = "../../mc/src/engine.rs"]
mod engine;
#[macro_use]
mod common;
#[path = "../../mc/src/world.rs"]
mod world;
mod lex {
    use i18n_lexer::IcuDataProvider;
    use std::sync::Arc;
    thread_local! {
        static ICU: Arc<IcuDataProvider> = Arc::new(IcuDataProvider::try_new(i18n_lexer::DataProvider::Internal).expect("ICU data"));
    }
    pub fn icu() -> Arc<IcuDataProvider> {
        ICU.with(Arc::clone)
    }
}

use common::*;
use engine::*;
use i18n_localiser::{CommandError, CommandRegistry, Localiser, LocaliserError};
use i18n_provider::{ComponentDetails, IdentifierDetails, LocalisationProviderTrait, ProviderError, RepositoryDetails};
use i18n_utility::{LanguageTag, LanguageTagRegistry, LocalisationData, PlaceholderValue};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use vsync::sched;
use world::Values;

// ---------------------------------------------------------------------------------------------------------------
// The repository: strings of one component, whose default language is English, without locks of its own.

const STRINGS: &[(&str, &str, &str)] = &[
    ("num", "en", "{n plural one#a other#b}, {t}#{a one #}{b # many #}"),
    ("num", "ar", "{n plural one#a other#b}#{a [#]}{b <# {t}>}"),
    ("dec", "en", "{n decimal sign#always}"),
    ("lit", "en", "plain"),
    ("lit", "ar", "خطي"),
    ("esc", "en", "`{{t}`}"),
    ("late", "en", "<{#late#}>"),
    ("again", "en", "({#again#}) {t}"),
    ("boom", "en", "{#boom#}"),
    ("bad", "en", "{t"),
];

struct Table {
    strings: HashMap<(String, String), (String, Arc<LanguageTag>)>,
    details: Arc<ComponentDetails>,
}

impl Table {
    fn find(&self, component: &str, identifier: &str, tag: &str) -> Result<Option<(String, Arc<LanguageTag>)>, ProviderError> {
        if component != "c" {
            return Err(ProviderError::ComponentNotFound(component.to_string()));
        }
        Ok(self.strings.get(&(identifier.to_string(), tag.to_string())).map(|x| (x.0.clone(), Arc::clone(&x.1))))
    }
}

impl LocalisationProviderTrait for Table {
    fn string(&self, component: &str, identifier: &str, language_tag: &Arc<LanguageTag>) -> Result<Option<(String, Arc<LanguageTag>)>, ProviderError> {
        self.find(component, identifier, language_tag.as_str())
    }
    fn string_exact_match(&self, component: &str, identifier: &str, language_tag: &Arc<LanguageTag>) -> Result<Option<(String, Arc<LanguageTag>)>, ProviderError> {
        self.find(component, identifier, language_tag.as_str())
    }
    fn strings(&self, component: &str, identifier: &str, language_tag: &Arc<LanguageTag>) -> Result<Vec<(String, Arc<LanguageTag>)>, ProviderError> {
        Ok(self.find(component, identifier, language_tag.as_str())?.into_iter().collect())
    }
    fn identifier_details(&self, component: &str, _: &str) -> Result<IdentifierDetails, ProviderError> {
        Ok(IdentifierDetails { languages: vec![], default: Arc::clone(&self.component_details(component)?.default) })
    }
    fn component_details(&self, component: &str) -> Result<Arc<ComponentDetails>, ProviderError> {
        if component != "c" {
            return Err(ProviderError::ComponentNotFound(component.to_string()));
        }
        Ok(Arc::clone(&self.details))
    }
    fn repository_details(&self) -> Result<Arc<RepositoryDetails>, ProviderError> {
        Ok(Arc::new(RepositoryDetails { languages: HashMap::new(), default: None, total_strings: 0, components: vec![], contributors: vec![] }))
    }
}

thread_local! {
    static HERE: Cell<*const Localiser> = const { Cell::new(std::ptr::null()) };
}

type Parameters = Vec<PlaceholderValue>;

fn late_f(_: Parameters) -> Result<String, CommandError> {
    Ok("F".into())
}
fn late_g(_: Parameters) -> Result<String, CommandError> {
    Ok("G".into())
}
fn boom(_: Parameters) -> Result<String, CommandError> {
    panic!("the command")
}
/// Uses the localiser that runs it.
fn again(_: Parameters) -> Result<String, CommandError> {
    let l = unsafe { &*HERE.with(|h| h.get()) };
    let tag = l.language_tag_registry().tag("en").expect("tag");
    let one = l.format("c", "num", &values(1), &tag, None, None).map(|x| x.0.to_string()).unwrap_or_else(|e| format!("{e:?}"));
    // Reads of what another thread may be about to change.
    let _ = (l.default_language(), l.script_data(), l.command_registry().list(), l.command_registry().command("late").is_ok());
    let two = l.literal("c", "lit", &tag, None, Some(true)).map(|x| x.0.to_string()).unwrap_or_else(|e| format!("{e:?}"));
    Ok(format!("{one}/{two}"))
}

fn values(v: u8) -> Values {
    let mut m = Values::new();
    m.insert("n".into(), PlaceholderValue::Unsigned([1, 5000, 7][v as usize]));
    m.insert("t".into(), PlaceholderValue::String(["x", "y", "{n}"][v as usize].into()));
    m
}

fn data(v: u8) -> LocalisationData {
    let inner = LocalisationData { component: "c".into(), identifier: "num".into(), values: Some(values(v)) };
    let mut m = Values::new();
    m.insert("t".into(), PlaceholderValue::LocalisationData(inner));
    LocalisationData { component: "c".into(), identifier: "esc".into(), values: Some(m) }
}

// ---------------------------------------------------------------------------------------------------------------
// Operations

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Op {
    /// Identifier, language, values, fallback, caching.
    Format(&'static str, &'static str, u8, Option<bool>, Option<bool>),
    Literal(&'static str, &'static str, Option<bool>, Option<bool>),
    Data(&'static str, u8, Option<bool>, Option<bool>),
    Error(&'static str, u8),
    FormatDefaults(&'static str, u8),
    LiteralDefaults(&'static str),
    DataDefaults(u8),
    ErrorDefaults(u8),
    SetLanguage(&'static str),
    SetFallback(bool),
    SetCaching(bool),
    SetAll(&'static str, bool, bool),
    Language,
    Script,
    /// Inserts the command "late": f or g.
    Insert(bool),
    Look,
    Commands,
}

use Op::*;

fn answer(r: Result<(Arc<String>, Arc<LanguageTag>), LocaliserError>) -> String {
    world::printed(&world::text(r))
}

fn act(l: &Localiser, o: Op) -> String {
    let tag = |t: &str| l.language_tag_registry().tag(t).expect("tag");
    match o {
        Format(id, lang, v, f, c) => answer(l.format("c", id, &values(v), &tag(lang), f, c)),
        Literal(id, lang, f, c) => answer(l.literal("c", id, &tag(lang), f, c)),
        Data(lang, v, f, c) => answer(l.format_localisation_data(&data(v), &tag(lang), f, c)),
        Error(lang, v) => answer(l.format_error(&world::Problem(data(v)), &tag(lang), Some(true), Some(true))),
        FormatDefaults(id, v) => answer(l.format_with_defaults("c", id, &values(v))),
        LiteralDefaults(id) => answer(l.literal_with_defaults("c", id)),
        DataDefaults(v) => answer(l.format_localisation_data_with_defaults(&data(v))),
        ErrorDefaults(v) => answer(l.format_error_with_defaults(&world::Problem(data(v)))),
        SetLanguage(x) => format!("{:?}", l.defaults(Some(tag(x)), None, None).is_ok()),
        SetFallback(b) => format!("{:?}", l.defaults(None, Some(b), None).is_ok()),
        SetCaching(b) => format!("{:?}", l.defaults(None, None, Some(b)).is_ok()),
        SetAll(x, f, c) => format!("{:?}", l.defaults(Some(tag(x)), Some(f), Some(c)).is_ok()),
        Language => l.default_language().as_str().to_string(),
        Script => format!("{:?}", l.script_data()),
        Insert(f) => match l.command_registry().insert("late", if f { late_f } else { late_g }) {
            Ok(()) => "inserted".into(),
            Err(e) => format!("{e:?}"),
        },
        Look => match l.command_registry().command("late") {
            Ok(f) => f(vec![]).unwrap_or_default(),
            Err(e) => format!("{e:?}"),
        },
        Commands => {
            let mut x = l.command_registry().list();
            x.sort();
            x.join(" ")
        }
    }
}

/// Performs an operation; a panic of the command is part of the answer, one of the scheduler is not.
fn perform(l: &Localiser, o: Op) -> String {
    HERE.with(|h| h.set(l));
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| act(l, o))) {
        Ok(a) => a,
        Err(e) if e.is::<sched::Abort>() => std::panic::resume_unwind(e),
        Err(e) => format!("panic: {}", e.downcast_ref::<String>().map(|x| x.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("?")),
    }
}

fn fresh(language: &'static str, fallback: bool, caching: bool) -> Localiser {
    let tags = Arc::new(LanguageTagRegistry::new());
    let en = tags.tag("en").expect("tag");
    tags.tag("ar").expect("tag");
    let strings = STRINGS.iter().map(|(i, t, s)| ((i.to_string(), t.to_string()), (s.to_string(), tags.tag(t).expect("tag")))).collect();
    let table = Table { strings, details: Arc::new(ComponentDetails { languages: HashMap::new(), default: en, total_strings: 0 }) };
    let commands = CommandRegistry::new();
    commands.insert("again", again).expect("new");
    commands.insert("boom", boom).expect("new");
    #[allow(clippy::arc_with_non_send_sync)]
    let commands = Arc::new(commands);
    Localiser::try_new(&lex::icu(), &tags, Box::new(table), &commands, fallback, caching, language).expect("localiser")
}

const LANGUAGES: [&str; 2] = ["en", "ar"];
const START: (&str, bool, bool) = ("en", true, true);

/// What an operation that depends on the settings is with these settings.
fn explicit(o: Op, lang: &'static str, fallback: bool) -> Op {
    let f = |x: Option<bool>| Some(x.unwrap_or(fallback));
    let c = Some(false);
    match o {
        Format(id, x, v, fb, _) => Format(id, x, v, f(fb), c),
        Literal(id, x, fb, _) => Literal(id, x, f(fb), c),
        Data(x, v, fb, _) => Data(x, v, f(fb), c),
        Error(x, v) => Data(x, v, Some(true), c),
        FormatDefaults(id, v) => Format(id, lang, v, Some(fallback), c),
        LiteralDefaults(id) => Literal(id, lang, Some(fallback), c),
        DataDefaults(v) | ErrorDefaults(v) => Data(lang, v, Some(fallback), c),
        o => o,
    }
}

/// The answer to an operation alone, without caching: None = command "late" not registered, else which.
fn alone(memo: &mut BTreeMap<(Op, Option<bool>), String>, o: Op, late: Option<bool>) -> String {
    memo.entry((o, late))
        .or_insert_with(|| {
            let l = fresh("en", true, false);
            if let Some(f) = late {
                act(&l, Insert(f));
            }
            perform(&l, o)
        })
        .clone()
}

struct Done {
    op: Op,
    start: u64,
    end: u64,
    result: String,
}

/// The values a setting may have for a call from `start` to `end`: those whose change was not wholly replaced before.
fn admissible<T: Copy + PartialEq>(writes: &[(u64, u64, T)], start: u64, end: u64) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    for w in writes {
        if w.0 < end && !writes.iter().any(|x| x.0 > w.1 && x.1 < start) && !out.contains(&w.2) {
            out.push(w.2);
        }
    }
    out
}

fn judge(memo: &mut BTreeMap<(Op, Option<bool>), String>, l: &Localiser, before: &[Op], done: &[Done], scripts: &[String; 2], classes: &mut BTreeMap<String, u64>) -> Result<(), (String, String)> {
    let mut languages = vec![(0, 0, START.0)];
    let mut fallbacks = vec![(0, 0, START.1)];
    // Calls made before the threads start, one after the other: times below zero of the threads, as 1, 2, ...
    let early = before.iter().enumerate().map(|(i, o)| (*o, 2 * i as u64 + 1, 2 * i as u64 + 2));
    let all: Vec<(Op, u64, u64)> = early.chain(done.iter().map(|d| (d.op, d.start, d.end))).collect();
    for (o, s, e) in &all {
        match o {
            SetLanguage(x) => languages.push((*s, *e, *x)),
            SetFallback(b) => fallbacks.push((*s, *e, *b)),
            SetAll(x, f, _) => {
                languages.push((*s, *e, *x));
                fallbacks.push((*s, *e, *f));
            }
            _ => {}
        }
    }
    // The insertion that succeeded.
    let inserted: Vec<(u64, u64, bool)> = {
        let mut x: Vec<(u64, u64, bool)> = done.iter().filter(|d| d.result == "inserted").map(|d| (d.start, d.end, d.op == Insert(true))).collect();
        x.extend(all[..before.len()].iter().filter_map(|(o, s, e)| if let Insert(f) = o { Some((*s, *e, *f)) } else { None }).take(1));
        x
    };
    let inserts = all.iter().filter(|x| matches!(x.0, Insert(_))).count();
    if inserted.len() != inserts.min(1) {
        return Err((format!("{} of {inserts} insertions of a name succeeds", inserts.min(1)), format!("{}", inserted.len())));
    }
    let inserted = inserted.first().copied();
    let lates = |start: u64, end: u64| -> Vec<Option<bool>> {
        match inserted {
            None => vec![None],
            Some((s, e, f)) => [(e > start).then_some(None), (s < end).then_some(Some(f))].into_iter().flatten().collect(),
        }
    };
    let mut check = |memo: &mut BTreeMap<(Op, Option<bool>), String>, op: Op, start: u64, end: u64, result: &str| -> Result<(), (String, String)> {
        let mut wants: Vec<String> = vec![];
        match op {
            SetLanguage(_) | SetFallback(_) | SetCaching(_) | SetAll(..) => wants.push("true".into()),
            Language => wants.extend(admissible(&languages, start, end).iter().map(|x| x.to_string())),
            Script => wants.extend(admissible(&languages, start, end).iter().map(|x| scripts[(*x == "ar") as usize].clone())),
            Insert(_) => {
                // Refused only where the other one was not wholly later.
                match inserted {
                    Some(w) if (w.0, w.1) == (start, end) => wants.push("inserted".into()),
                    Some(w) if w.0 < end => wants.push("AlreadyExists(\"late\")".into()),
                    _ => {}
                }
            }
            Look => wants.extend(lates(start, end).into_iter().map(|x| match x {
                None => "NotFound(\"late\")".to_string(),
                Some(f) => if f { "F" } else { "G" }.to_string(),
            })),
            Commands => wants.extend(lates(start, end).into_iter().map(|x| if x.is_some() { "again boom late".to_string() } else { "again boom".to_string() })),
            o => {
                for lang in admissible(&languages, start, end) {
                    for fallback in admissible(&fallbacks, start, end) {
                        for late in lates(start, end) {
                            let want = alone(memo, explicit(o, lang, fallback), late);
                            if !wants.contains(&want) {
                                wants.push(want);
                            }
                        }
                    }
                }
            }
        }
        if wants.iter().any(|w| w == result) {
            if classes.len() < 500 {
                *classes.entry(format!("{op:?} {}", &result.chars().take(60).collect::<String>())).or_insert(0) += 1;
            }
            return Ok(());
        }
        Err((format!("{op:?} gives {}", wants.join(" or ")), result.to_string()))
    };
    for d in done {
        check(memo, d.op, d.start, d.end, &d.result)?;
    }
    // Nothing is left behind: every answer afterwards is one that the settings in force allow.
    let end = u64::MAX;
    let last = all.iter().map(|x| x.2).max().unwrap_or(0) + 1;
    let language = perform(l, Language);
    check(memo, Language, last, end, &language)?;
    let script = perform(l, Script);
    if script != scripts[(language == "ar") as usize] {
        return Err((format!("script data of {language} afterwards"), script));
    }
    for o in [Look, Commands, FormatDefaults("num", 2), LiteralDefaults("lit")] {
        let got = perform(l, o);
        check(memo, o, last, end, &got).map_err(|(w, g)| (format!("afterwards {w}"), g))?;
    }
    for d in done {
        if !matches!(d.op, SetLanguage(_) | SetFallback(_) | SetCaching(_) | SetAll(..) | Insert(_) | Language | Script | Look | Commands) {
            let got = perform(l, d.op);
            check(memo, d.op, last, end, &got).map_err(|(w, g)| (format!("afterwards {w}"), g))?;
        }
    }
    Ok(())
}

type Memo = BTreeMap<(Op, Option<bool>), String>;

#[allow(clippy::too_many_arguments)]
fn scenario(l: &mut Local, memo: &mut Memo, scripts: &[String; 2], before: &[Op], program: &[Vec<Op>], bound: usize, release: bool) {
    let case = format!("before {before:?} threads {program:?}{} preemptions {}", if release { " releases" } else { "" }, if bound > 99 { "any".to_string() } else { bound.to_string() });
    if l.skip(&case) {
        return;
    }
    l.state(&case);
    let mut bad: Option<(String, String)> = None;
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let (engine, id) = (Arc::clone(&l.engine), l.id);
    let report = l.exec(&case, || {
        sched::explore(
            program.len(),
            bound,
            20_000,
            release,
            || {
                engine.beat(id);
                let x = fresh(START.0, START.1, START.2);
                for o in before {
                    perform(&x, *o);
                }
                (Force(x), AtomicU64::new(2 * before.len() as u64 + 3), Mutex::new(Vec::<Done>::new()))
            },
            |s, i| {
                for op in &program[i] {
                    let start = s.1.fetch_add(1, Ordering::SeqCst);
                    let result = perform(&s.0 .0, *op);
                    let end = s.1.fetch_add(1, Ordering::SeqCst);
                    s.2.lock().unwrap().push(Done { op: *op, start, end, result });
                }
            },
            |s, outcome| {
                let at = || outcome.schedule.iter().map(|x| x.to_string()).collect::<String>();
                if let Some(a) = &outcome.abort {
                    bad = Some(("every call returns".into(), format!("{a} at schedule {}", at())));
                    return false;
                }
                let done = s.2.into_inner().unwrap();
                let x = s.0 .0;
                match catch(|| judge(memo, &x, before, &done, scripts, &mut classes)) {
                    Ok(Ok(())) => true,
                    Ok(Err((want, got))) => {
                        bad = Some((want, format!("{got} at schedule {}", at())));
                        false
                    }
                    Err(p) => {
                        bad = Some(("the localiser answers afterwards".into(), format!("{p} at schedule {}", at())));
                        false
                    }
                }
            },
        )
    });
    match report {
        Err(p) => l.violation(&case, "returns", p),
        Ok(r) => {
            l.stats.transitions += r.points;
            account(r);
        }
    }
    for k in classes.keys() {
        l.outcome(k);
    }
    match bad {
        Some((want, got)) => l.violation(&case, want, got),
        None => l.outcome("held under every schedule"),
    }
}

const T: Option<bool> = Some(true);
const N: Option<bool> = None;
const F: Option<bool> = Some(false);

const OPS: &[Op] = &[
    // The first are those of the longer programs.
    Format("num", "en", 2, T, T),
    Format("num", "en", 1, T, T),
    FormatDefaults("num", 1),
    SetLanguage("ar"),
    SetAll("ar", false, false),
    Insert(true),
    Format("late", "en", 0, T, T),
    Literal("num", "en", T, T),
    SetFallback(false),
    Format("dec", "ar", 1, N, N),
    Data("en", 1, T, T),
    Format("again", "en", 0, T, T),
    Format("boom", "en", 0, T, T),
    Insert(false),
    FormatDefaults("again", 0),
    Look,
    Script,
    // And these of the short ones only.
    Format("num", "ar", 1, F, T),
    Format("num", "en", 0, T, T),
    Format("num", "en", 1, T, F),
    Literal("lit", "ar", T, T),
    LiteralDefaults("dec"),
    DataDefaults(0),
    Error("en", 0),
    ErrorDefaults(1),
    Format("lit", "en", 0, T, T),
    Format("bad", "en", 0, T, T),
    Format("none", "ar", 0, N, T),
    SetCaching(false),
    SetLanguage("en"),
    Language,
    Commands,
];

fn c39(e: &Arc<Engine>) {
    let t = e.thorough();
    let ok = [("Localiser", shareable!(Localiser)), ("CommandRegistry", shareable!(CommandRegistry))];
    e.run(|l| {
        pin(l);
        if l.mine() {
            for (name, ok) in &ok {
                let case = format!("{name} is Send and Sync");
                l.state(&case);
                l.expect(&case, "true", &ok.to_string());
            }
        }
        let mut memo = Memo::new();
        for (id, want) in [("num", "ok \"5,000 many 5,000, y\" en"), ("lit", "ok \"plain\" en"), ("again", "ok \"(5,000 many 5,000, y/plain) y\" en")] {
            let got = alone(&mut memo, Format(id, "en", 1, T, F), None);
            if l.mine() {
                l.expect(&format!("{id} alone"), want, &got);
            }
        }
        let scripts = LANGUAGES.map(|x| perform(&fresh(x, true, true), Script));
        let pick = |p: Vec<Vec<usize>>| -> Vec<Vec<Op>> { p.into_iter().map(|s| s.into_iter().map(|i| OPS[i]).collect()).collect() };
        let warm = [Format("num", "en", 1, T, T), Format("late", "en", 0, T, T), Format("again", "en", 0, T, T), FormatDefaults("dec", 0), Literal("num", "en", T, T), Data("en", 0, T, T)];
        let late = [Insert(false), SetFallback(false), SetLanguage("ar"), Format("num", "en", 0, F, T)];
        for (i, before) in [&[][..], &warm, &late].into_iter().enumerate() {
            for p in programs(2, 1, OPS.len()) {
                if l.mine() {
                    let p = pick(p);
                    scenario(l, &mut memo, &scripts, before, &p, if t { 4 } else { 3 }, false);
                    if i == 1 || t {
                        scenario(l, &mut memo, &scripts, before, &p, if t { 2 } else { 1 }, true);
                    }
                }
            }
            for p in programs(3, 1, if t { 17 } else if i < 2 { 9 } else { 6 }) {
                if l.mine() {
                    scenario(l, &mut memo, &scripts, before, &pick(p), if t { 2 } else { 1 }, false);
                }
            }
            for p in programs(2, 2, if t { 17 } else if i < 2 { 7 } else { 4 }) {
                if l.mine() {
                    scenario(l, &mut memo, &scripts, before, &pick(p), if t { 2 } else { 1 }, false);
                }
            }
        }
    });
    e.bound(if t {
        "3 initial histories; 2 threads x 1 of 32 calls: 4 preemptions, and 2 where releases of locks are points too; 3 threads x 1 of 17 calls and 2 threads x up to 2 of 17 calls: 2 preemptions"
    } else {
        "3 initial histories; 2 threads x 1 of 32 calls: 3 preemptions, and 1 where releases of locks are points too after one of the histories; 3 threads x 1 of 9 calls, and 2 threads x up to 2 of 7 calls: 1 preemption"
    });
}

fn main() {
    main_with(|property, e| {
        match property {
            "C39" => c39(e),
            _ => return false,
        }
        true
    });
}
