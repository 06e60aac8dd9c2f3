//! C15 to C21, C34, C35: localiser behaviour over an in-memory repository.
use crate::engine::*;
use crate::fmt::{desc, s, sized, vals, LANGS, V};
use crate::pat::{expectation, Expect};
use crate::world::*;
use i18n_localiser::{english_a_or_an, file_path, CommandError, CommandRegistry};
use i18n_utility::{LanguageTagRegistry, LocalisationData, PlaceholderValue, ScriptData};
use icu_calendar::Date;
use icu_locid::LanguageIdentifier;
use icu_locid_transform::{LocaleExpander, TransformResult};
use std::collections::BTreeMap;
use std::sync::Arc;

// ---------------------------------------------------------------------------------------------------------------
// C15

const NAMES: &[&str] = &["a", "A", "ab", "", "é", "a "];

fn f0(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Ok("f0".into())
}
fn f1(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Ok("f1".into())
}

pub fn c15(e: &Arc<Engine>) {
    let depth = if e.thorough() { 6 } else { 5 };
    e.bound(format!("every history of up to {depth} insertions of 2 functions under {} names, and of 4 mixed with lookups; registries of every size up to {} and of sizes around powers of two and round numbers up to 2100; after every step all names are looked up and the list is compared", NAMES.len(), if e.thorough() { 600 } else { 150 }));
    e.run(|l| {
        let run = |l: &mut Local, ops: &[(usize, usize)]| {
            // (name, 0/1 insert f0/f1, 2 look up)
            let case = ops.iter().map(|(n, o)| format!("{}({:?})", ["insert_f0", "insert_f1", "command"][*o], NAMES[*n])).collect::<Vec<_>>().join(" ");
            if l.skip(&case) {
                return;
            }
            l.state(&case);
            let r = l.exec(&case, || -> Result<usize, (String, String)> {
                let reg = CommandRegistry::new();
                let mut model: BTreeMap<&str, &str> = BTreeMap::new();
                for (i, (n, o)) in ops.iter().enumerate() {
                    let name = NAMES[*n];
                    if *o < 2 {
                        let got = reg.insert(name, if *o == 0 { f0 } else { f1 });
                        match (got, model.contains_key(name)) {
                            (Ok(()), false) => {
                                model.insert(name, ["f0", "f1"][*o]);
                            }
                            (Err(CommandError::AlreadyExists(x)), true) if x == name => {}
                            (g, _) => return Err((format!("step {i}: inserted = {}", !model.contains_key(name)), format!("{g:?}"))),
                        }
                    }
                    for name in NAMES {
                        match (reg.command(name), model.get(name)) {
                            (Ok(f), Some(want)) if f(vec![]).ok().as_deref() == Some(*want) => {}
                            (Err(CommandError::NotFound(x)), None) if x == *name => {}
                            (g, w) => return Err((format!("step {i}: {name:?} is {w:?}"), format!("{:?}", g.map(|f| f(vec![]).ok())))),
                        }
                    }
                    let mut list = reg.list();
                    list.sort();
                    let want: Vec<String> = model.keys().map(|x| x.to_string()).collect();
                    if list != want {
                        return Err((format!("step {i}: list {want:?}"), format!("{list:?}")));
                    }
                }
                Ok(model.len())
            });
            match r {
                Err(p) => {
                    l.parity(&case, "panic");
                    l.violation(&case, "no panic", p)
                }
                Ok(Err((w, g))) => {
                    l.parity(&case, &g);
                    l.violation(&case, w, g)
                }
                Ok(Ok(n)) => {
                    l.parity(&case, &n.to_string());
                    l.outcome(&format!("{n} commands"));
                }
            }
        };
        for len in 1..=depth {
            words(NAMES.len() * 2, len, |w| {
                if l.mine() {
                    run(l, &w.iter().map(|x| (x / 2, x % 2)).collect::<Vec<_>>());
                }
            });
        }
        // Registries of every size.
        for n in landmarks(if l.engine.thorough() { 600 } else { 150 }, 2100) {
            if !l.mine() {
                continue;
            }
            let case = format!("{n} commands");
            if l.skip(&case) {
                continue;
            }
            l.state(&case);
            let r = l.exec(&case, || {
                let reg = CommandRegistry::new();
                let name = |i: usize| if i % 2 == 0 { format!("c{i}") } else { "c".repeat(i) };
                let mut bad = vec![];
                for i in 0..n {
                    if reg.insert(&name(i), if i % 3 == 0 { f0 } else { f1 }).is_err() {
                        bad.push(format!("{} not inserted", name(i)));
                    }
                }
                for i in 0..n {
                    if !matches!(reg.insert(&name(i), f0), Err(CommandError::AlreadyExists(_))) {
                        bad.push(format!("{} inserted twice", name(i)));
                    }
                    if reg.command(&name(i)).ok().and_then(|f| f(vec![]).ok()).as_deref() != Some(if i % 3 == 0 { "f0" } else { "f1" }) {
                        bad.push(format!("{} not found", name(i)));
                    }
                }
                let mut list = reg.list();
                list.sort();
                let mut want: Vec<String> = (0..n).map(name).collect();
                want.sort();
                if list != want {
                    bad.push(format!("list {list:?}"));
                }
                bad.first().cloned().unwrap_or("all found".into())
            });
            match r {
                Err(p) => l.violation(&case, "no panic", p),
                Ok(got) => {
                    l.expect(&case, "all found", &got);
                }
            }
        }
        for len in 1..=4 {
            words(NAMES.len() * 3, len, |w| {
                if w.iter().any(|x| x % 3 == 2) && l.mine() {
                    run(l, &w.iter().map(|x| (x / 3, x % 3)).collect::<Vec<_>>());
                }
            });
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C16, C19: the string that is used, and the language of the result

/// The documented resolution: requested tag, then its parents, then the default language and its parents.
fn resolve(strings: &BTreeMap<String, String>, requested: &str, default: &str, fallback: bool) -> Option<String> {
    let up = |t: &str| -> Option<String> {
        let mut t = t;
        loop {
            if strings.contains_key(t) {
                return Some(t.to_string());
            }
            t = &t[..t.rfind('-')?];
        }
    };
    up(requested).or_else(|| if fallback { up(default) } else { None })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Format,
    Literal,
    Data,
    DataLiteral,
}
const KINDS: [Kind; 4] = [Kind::Format, Kind::Literal, Kind::Data, Kind::DataLiteral];

fn call(w: &World, kind: Kind, component: &str, id: &str, values: &Values, tag: &str, fallback: Option<bool>, caching: Option<bool>) -> Result<(String, String), String> {
    let t = w.tag(tag);
    match kind {
        Kind::Format => text(w.loc.format(component, id, values, &t, fallback, caching)),
        Kind::Literal => text(w.loc.literal(component, id, &t, fallback, caching)),
        Kind::Data | Kind::DataLiteral => {
            let d = LocalisationData { component: component.into(), identifier: id.into(), values: if kind == Kind::Data { Some(values.clone()) } else { None } };
            text(w.loc.format_localisation_data(&d, &t, fallback, caching))
        }
    }
}

pub fn c16(e: &Arc<Engine>) {
    e.bound("every subset of 6 languages having the string x 8 requested languages x default language x fallback x caching off, on and repeated x formatted, literal and localisation data requests; every language for number, date and plural formats");
    e.run(|l| {
        let langs = ["en", "en-ZA", "de", "ar", "ar-EG", "hi"];
        let requests = ["en", "en-ZA", "de-CH", "ar-EG", "hi", "fr", "ar", "zh-Hant-TW"];
        let pattern = "n {n decimal} d {d date_time date#full} p {p plural one#a two#b few#c many#d other#e} o {o ordinal one#a two#b few#c other#e}#{a one}{b two}{c few}{d many}{e other}";
        let values = vals(&[("n", V::Float(-1234567.5)), ("d", V::Date(Date::try_new_iso_date(2024, 2, 29).unwrap())), ("p", V::Unsigned(2)), ("o", V::Unsigned(3))]);
        let w = World::new("en", false, false);
        let mut k = 0;
        for m in 0..64u32 {
            for def in ["en", "ar-EG"] {
                for req in requests {
                    for fb in [false, true] {
                        for kind in KINDS {
                            if !l.mine() {
                                continue;
                            }
                            k += 1;
                            let id = format!("i{k}");
                            w.clear();
                            w.repo.borrow_mut().components.insert("c".into(), def.into());
                            let mut strings = BTreeMap::new();
                            for (i, lang) in langs.iter().enumerate() {
                                if m >> i & 1 == 1 {
                                    w.put("c", &id, lang, pattern);
                                    strings.insert(lang.to_string(), pattern.to_string());
                                }
                            }
                            for step in 0..3 {
                                let case = format!("have={:?} request={req} default={def} fallback={fb} {kind:?} step={step}", strings.keys().collect::<Vec<_>>());
                                if l.engine.only.is_none() || !l.skip(&case) {
                                    l.state(&case);
                                }
                                let r = l.exec(&case, || call(&w, kind, "c", &id, &values, req, Some(fb), Some(step > 0)));
                                if l.skip(&case) {
                                    continue;
                                }
                                let want = match resolve(&strings, req, def, fb) {
                                    None => Err(format!("StringNotFound(c,{id},{req},{fb})")),
                                    Some(t) => Ok((
                                        if matches!(kind, Kind::Literal | Kind::DataLiteral) {
                                            pattern.to_string()
                                        } else {
                                            match expectation(pattern, &t, &values) {
                                                Expect::Text(x) => x,
                                                x => format!("{x:?}"),
                                            }
                                        },
                                        t,
                                    )),
                                };
                                match r {
                                    Err(p) => {
                                        l.parity(&case, "panic");
                                        l.violation(&case, printed(&want), p)
                                    }
                                    Ok(got) => {
                                        let g = printed(&got).replace(&id, "ID");
                                        l.parity(&case, &g);
                                        l.outcome(&match &got {
                                            Ok((_, t)) => t.clone(),
                                            Err(_) => "not found".to_string(),
                                        });
                                        l.expect(&case, &printed(&want).replace(&id, "ID"), &g);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        // Every language asked for by itself, by an extended tag, and as fallback.
        w.repo.borrow_mut().components.insert("c".into(), "en".into());
        for lang in LANGS {
            for (req, fb) in [(lang.to_string(), false), (format!("{lang}-x1y2z"), false), ("tlh".to_string(), true)] {
                for kind in KINDS {
                    if !l.mine() {
                        continue;
                    }
                    k += 1;
                    let id = format!("i{k}");
                    w.clear();
                    w.put("c", &id, lang, pattern);
                    w.repo.borrow_mut().components.insert("c".into(), lang.to_string());
                    for step in 0..3 {
                        let case = format!("language={lang} request={req} fallback={fb} {kind:?} step={step}");
                        l.state(&case);
                        let want = if matches!(kind, Kind::Literal | Kind::DataLiteral) { Expect::Text(pattern.into()) } else { expectation(pattern, lang, &values) };
                        match (l.exec(&case, || call(&w, kind, "c", &id, &values, &req, Some(fb), Some(step > 0))), want) {
                            (Err(p), _) => l.violation(&case, "no panic", p),
                            (Ok(Ok((t, tag))), Expect::Text(x)) if x == t && tag == *lang => {
                                l.parity(&case, &t);
                                l.outcome(lang)
                            }
                            (Ok(Err(_)), Expect::Error(_)) => {}
                            (Ok(g), want) => l.violation(&case, format!("{want:?} in {lang}"), printed(&g)),
                        }
                    }
                }
            }
        }
    });
}

pub fn c19(e: &Arc<Engine>) {
    e.bound("every subset of 6 language tags having the string (plain, formatted, empty) x 9 requested tags x 4 default languages or a component without one x fallback given, or by default of the localiser x caching x request kinds; unknown identifier and component");
    e.run(|l| {
        let langs = ["en", "en-ZA", "fr", "zh", "zh-Hant", "zh-Hant-TW"];
        let requests = ["en", "en-ZA", "en-GB", "fr-CA", "zh-Hant-TW", "zh-Hant-HK", "zh-Hans", "de", "und"];
        for (pi, pattern) in ["plain LANG", "LANG {x}", ""].iter().enumerate() {
            let values = vals(&[("x", s("X"))]);
            for m in 0..64u32 {
                for def in ["en", "zh-Hant-TW", "fr-CA", "de", ""] {
                    for req in requests {
                        for fb in [Some(false), Some(true), None] {
                            for default_fb in [false, true] {
                                if fb.is_some() && default_fb && m % 7 != 0 {
                                    continue;
                                }
                                if !l.mine() {
                                    continue;
                                }
                                let w = World::new("en", default_fb, false);
                                w.repo.borrow_mut().components.insert("c".into(), def.into());
                                let mut strings = BTreeMap::new();
                                for (i, lang) in langs.iter().enumerate() {
                                    if m >> i & 1 == 1 {
                                        w.put("c", "i", lang, &pattern.replace("LANG", lang));
                                        strings.insert(lang.to_string(), String::new());
                                    }
                                }
                                w.put("c", "other", "en", "other");
                                w.put("c", "other", "de", "other");
                                w.put("d", "i", "de", "wrong component");
                                w.put("d", "i", "en", "wrong component");
                                let eff = fb.unwrap_or(default_fb);
                                for (kind, caching) in [(Kind::Format, false), (Kind::Format, true), (Kind::Literal, false), (Kind::Literal, true), (Kind::Data, true), (Kind::DataLiteral, false)] {
                                    let case = format!("string={pi} have={:?} request={req} default={def:?} fallback={fb:?}/{default_fb} {kind:?} caching={caching}", strings.keys().collect::<Vec<_>>());
                                    if l.skip(&case) {
                                        continue;
                                    }
                                    l.state(&case);
                                    let found = resolve(&strings, req, if def.is_empty() { "-" } else { def }, eff);
                                    let direct = resolve(&strings, req, "-", false);
                                    let want = match &found {
                                        Some(t) => {
                                            let p = pattern.replace("LANG", t);
                                            Ok((if matches!(kind, Kind::Format | Kind::Data) { p.replace("{x}", "X") } else { p }, t.clone()))
                                        }
                                        None if eff && direct.is_none() && def.is_empty() => Err("Provider".to_string()),
                                        None => Err(format!("StringNotFound(c,i,{req},{eff})")),
                                    };
                                    match l.exec(&case, || call(&w, kind, "c", "i", &values, req, fb, Some(caching))) {
                                        Err(p) => {
                                            l.parity(&case, "panic");
                                            l.violation(&case, printed(&want), p)
                                        }
                                        Ok(got) => {
                                            let got = got.map_err(|e| if e.starts_with("Provider") { "Provider".to_string() } else { e });
                                            l.parity(&case, &printed(&got));
                                            l.outcome(&match &got {
                                                Ok((_, t)) => t.clone(),
                                                Err(e) => e.clone(),
                                            });
                                            l.expect(&case, &printed(&want), &printed(&got));
                                        }
                                    }
                                }
                                if m == 0 && pi == 0 {
                                    for kind in KINDS {
                                        let case = format!("unknown component request={req} default={def:?} fallback={fb:?}/{default_fb} {kind:?}");
                                        l.state(&case);
                                        match l.exec(&case, || call(&w, kind, "nowhere", "i", &values, req, fb, Some(false))) {
                                            Ok(Err(e)) if e.contains("ComponentNotFound") => l.outcome("component not found"),
                                            Ok(g) => l.violation(&case, "component not found", printed(&g)),
                                            Err(p) => l.violation(&case, "component not found", p),
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C17

#[derive(Clone, Debug)]
struct Req {
    kind: Kind,
    component: &'static str,
    id: &'static str,
    lang: &'static str,
    values: usize,
    fallback: Option<bool>,
    caching: Option<bool>,
}

fn cache_world(default_caching: bool) -> World {
    let w = World::new("en", false, default_caching);
    w.put("c", "num", "en", "{n plural one#a other#b} {n2 decimal}#{a # thing}{b # things {s}}");
    w.put("c", "num", "fr", "{n plural one#a other#b}#{a # chose}{b # choses ({s})}");
    w.put("c", "plain", "en", "plain text");
    w.put("c", "plain", "en-ZA", "plain text ZA");
    w.put("c", "empty", "en", "");
    w.put("c", "bad", "en", "{x");
    w.put("c", "bad", "fr", "bon {s}");
    w.put("c", "cmd", "en", "{#rec # s n}{#rec s}{#fail # s}");
    w.put("c", "sel", "en", "{s select v#a other#b}#{c2 no}{a A {n plural one#c2 other#c2}}{b B}");
    w.put("c", "a/b", "en", "slash in identifier");
    w.put("c/a", "b", "en", "slash in component {s}");
    w.put("d", "plain", "en", "plain of d");
    w
}

fn cache_values() -> Vec<Values> {
    vec![
        vals(&[("n", V::Unsigned(1)), ("n2", V::Integer(-5000)), ("s", s("v"))]),
        vals(&[("n", V::Unsigned(42)), ("n2", V::Unsigned(7)), ("s", s("{w}#"))]),
        vals(&[("n", s("text"))]),
    ]
}

fn requests(small: bool) -> Vec<Req> {
    let mut v = vec![];
    let cachings: &[Option<bool>] = if small { &[Some(true), None] } else { &[Some(true), Some(false), None] };
    let fallbacks: &[Option<bool>] = if small { &[Some(true), Some(false)] } else { &[Some(true), Some(false), None] };
    let ids: &[(&str, &str)] = if small {
        &[("c", "num"), ("c", "plain"), ("c", "bad")]
    } else {
        &[("c", "num"), ("c", "plain"), ("c", "empty"), ("c", "bad"), ("c", "cmd"), ("c", "sel"), ("c", "a/b"), ("c/a", "b"), ("d", "plain"), ("c", "none")]
    };
    for (component, id) in ids {
        for lang in if small { &["en", "fr"][..] } else { &["en", "en-ZA", "fr"][..] } {
            for fallback in fallbacks {
                for caching in cachings {
                    for kind in if small { &KINDS[..2] } else { &KINDS[..] } {
                        let nv = match kind {
                            Kind::Literal | Kind::DataLiteral => 1,
                            _ if small || *kind == Kind::Data => 2,
                            _ => 3,
                        };
                        for values in 0..nv {
                            v.push(Req { kind: *kind, component, id, lang, values, fallback: *fallback, caching: *caching });
                        }
                    }
                }
            }
        }
    }
    v
}

fn show_req(r: &Req) -> String {
    format!("{:?}({}/{},{},v{},fb={:?},ca={:?})", r.kind, r.component, r.id, r.lang, r.values, r.fallback, r.caching)
}

pub fn c17(e: &Arc<Engine>) {
    let thorough = e.thorough();
    let full = requests(false);
    let small = requests(true);
    e.bound(format!("every history of 2 of {} requests (kind, string, language, values, fallback, caching), of 3 of {} requests{}, and of 4 of the requests for one string; caches of every size up to {} strings in one and several components, strings of every size; every string of up to {} patterns out of 5 sharing branches out of 6 and 5, in histories of 5 changing values; each answer compared with that of a fresh localiser without caching", full.len(), small.len(), if thorough { " with caching default on and off" } else { "" }, if thorough { 300 } else { 140 }, if thorough { 4 } else { 3 }));
    e.run(|l| {
        let values = cache_values();
        // Oracle: each request alone, on a fresh localiser, with caching off.
        let mut alone: BTreeMap<String, String> = BTreeMap::new();
        let key = |r: &Req| format!("{:?}|{}|{}|{}|{}|{:?}", r.kind, r.component, r.id, r.lang, r.values, r.fallback);
        for r in full.iter().chain(&small) {
            alone.entry(key(r)).or_insert_with(|| {
                let w = cache_world(false);
                catch(|| printed(&call(&w, r.kind, r.component, r.id, &values[r.values], r.lang, r.fallback, Some(false)))).unwrap_or_else(|p| p)
            });
        }
        let run = |l: &mut Local, reqs: &[&Req], default_caching: bool| {
            let case = format!("caching={default_caching}: {}", reqs.iter().map(|r| show_req(r)).collect::<Vec<_>>().join(" "));
            if l.skip(&case) {
                return;
            }
            l.state(&case);
            let r = l.exec(&case, || {
                let w = cache_world(default_caching);
                reqs.iter().map(|r| printed(&call(&w, r.kind, r.component, r.id, &values[r.values], r.lang, r.fallback, r.caching))).collect::<Vec<_>>()
            });
            match r {
                Err(p) => {
                    l.parity(&case, "panic");
                    l.violation(&case, "no panic", p)
                }
                Ok(got) => {
                    if reqs.len() <= 2 {
                        l.parity(&case, &got.join(" | "));
                    }
                    l.stats.transitions += got.len() as u64 - 1;
                    for (i, (r, g)) in reqs.iter().zip(&got).enumerate() {
                        let want = &alone[&key(r)];
                        if want != g {
                            l.violation(&case, format!("step {i}: {want}"), format!("step {i}: {g}"));
                            break;
                        }
                    }
                    l.outcome(&got.iter().map(|g| if g.starts_with("ok") { 'o' } else { 'e' }).collect::<String>());
                }
            }
        };
        // Caches of every size: all strings, then all again backwards with other values.
        let max = if thorough { 300 } else { 140 };
        for n in 1..=max {
            if !l.mine() {
                continue;
            }
            for kind in 0..3 {
                let case = format!("{n} cached strings, kind {kind}");
                if l.skip(&case) {
                    continue;
                }
                l.state(&case);
                let place = |i: usize| match kind {
                    0 => ("c".to_string(), format!("i{i}")),
                    1 => (format!("c{i}"), "i".to_string()),
                    _ => (format!("c{}", i % 7), format!("i{}", i / 7)),
                };
                let r = l.exec(&case, || {
                    let w = World::new("en", false, true);
                    for i in 0..n {
                        let (c, id) = place(i);
                        w.put(&c, &id, "en", &format!("{i} {{n plural one#a other#b}}{{s}}#{{a # one}}{{b # other}}"));
                        w.put(&c, &id, "fr", &format!("{i} plain"));
                    }
                    let mut bad = vec![];
                    for step in 0..n * 2 {
                        let i = if step < n { step } else { n * 2 - 1 - step };
                        let (c, id) = place(i);
                        let number = if (step + i) % 3 == 0 { 1 } else { step as u128 + 2 };
                        let v = vals(&[("n", V::Unsigned(number)), ("s", s(&format!("-{step}")))]);
                        for (lang, want) in [("en", format!("ok \"{i} {number} {}-{step}\" en", if number == 1 { "one" } else { "other" })), ("fr", format!("ok \"{i} plain\" fr"))] {
                            let got = printed(&call(&w, Kind::Format, &c, &id, &v, lang, None, None));
                            if got != want {
                                bad.push(format!("step {step}: {got} for {want}"));
                            }
                        }
                    }
                    bad.first().cloned().unwrap_or_default()
                });
                match r {
                    Err(p) => l.violation(&case, "no panic", p),
                    Ok(got) => {
                        l.parity(&case, &got);
                        l.expect(&case, "", &got);
                    }
                }
            }
            // Strings of every size, cached, with changing values.
            if n <= 70 || thorough && n <= 130 {
                for (i, (kind, p, first)) in sized(n, 0).into_iter().enumerate() {
                    let case = format!("cached size {n} of {kind} {i}");
                    if l.skip(&case) {
                        continue;
                    }
                    l.state(&case);
                    let second = sized(n, 1).swap_remove(i).2;
                    let r = l.exec(&case, || {
                        let w = World::new("en", false, true);
                        w.put("c", "i", "en", &p);
                        [&first, &second, &first].map(|v| [Some(false), Some(true), Some(true)].map(|c| printed(&call(&w, Kind::Format, "c", "i", v, "en", None, c))))
                    });
                    match r {
                        Err(p) => l.violation(&case, "no panic", p),
                        Ok(got) => {
                            for g in &got {
                                l.expect(&case, &g[0], &g[1]);
                                l.expect(&case, &g[0], &g[2]);
                            }
                        }
                    }
                }
            }
        }
        // Every main string of patterns that share branches with number signs, formatted with changing values.
        let mains = ["{nI plural one#b other#c}", "{nI plural other#b}", "{sI select v#b other#c}", "{nI ordinal other#c}", "{sI}"];
        let bodies = ["#", "# #", "t", "{s9}#", "#{n9 plural other#c}#", "#{s8 select v#c other#d}#"];
        let histories = [[(1u128, "v"), (42, "x"), (42, "v"), (7, "x"), (1, "x")], [(5, "x"), (1, "v"), (1, "x"), (1, "v"), (6, "v")]];
        for len in 1..=if thorough { 4 } else { 3 } {
            words(mains.len(), len, |m| {
                for b in bodies {
                    for c in ["#", "(# #)", "t", "{s7 select v#d other#e}", "{n7 plural other#d}#"] {
                        if !l.mine() {
                            continue;
                        }
                        let main: String = m.iter().enumerate().map(|(i, k)| mains[*k].replace('I', &i.to_string())).collect::<Vec<_>>().join(" ");
                        let p = format!("{main}#{{e E#}}{{d #D}}{{c {c}}}{{b {b}}}");
                        for (h, history) in histories.iter().enumerate() {
                            let case = format!("pattern={p:?} history={h}");
                            if l.skip(&case) {
                                continue;
                            }
                            l.state(&case);
                            let r = l.exec(&case, || {
                                let w = World::new("en", false, true);
                                w.put("c", "i", "en", &p);
                                let fresh = World::new("en", false, false);
                                fresh.put("c", "i", "en", &p);
                                history.iter().enumerate().map(|(step, (n, t))| {
                                    let mut v = Values::new();
                                    for i in 0..10u128 {
                                        v.insert(format!("n{i}"), V::Unsigned(n + i * 10));
                                        v.insert(format!("s{i}"), s(if i as usize == step { "v" } else { t }));
                                    }
                                    [&fresh, &w].map(|w| printed(&call(w, Kind::Format, "c", "i", &v, "en", None, None)))
                                }).collect::<Vec<_>>()
                            });
                            match r {
                                Err(p) => l.violation(&case, "no panic", p),
                                Ok(got) => {
                                    for g in &got {
                                        l.expect(&case, &g[0], &g[1]);
                                    }
                                    l.stats.transitions += got.len() as u64 * 2 - 1;
                                    l.parity(&case, &got[got.len() - 1][1]);
                                }
                            }
                        }
                    }
                }
            });
        }
        // One string very often.
        for caching in [false, true] {
            if l.mine() {
                let case = format!("one string a thousand times, caching={caching}");
                if l.skip(&case) {
                    continue;
                }
                l.state(&case);
                let r = l.exec(&case, || {
                    let w = cache_world(caching);
                    (0..1000).find_map(|step| {
                        let r = &full[step * 7 % full.len()];
                        let got = printed(&call(&w, r.kind, r.component, r.id, &values[r.values], r.lang, r.fallback, Some(step % 5 != 0)));
                        (got != alone[&key(r)]).then(|| format!("step {step}: {got} for {}", alone[&key(r)]))
                    })
                });
                match r {
                    Err(p) => l.violation(&case, "no panic", p),
                    Ok(got) => {
                        l.expect(&case, "", &got.unwrap_or_default());
                    }
                }
            }
        }
        for a in &full {
            for b in &full {
                if l.mine() {
                    run(l, &[a, b], true);
                }
            }
        }
        for a in &small {
            for b in &small {
                for c in &small {
                    if l.mine() {
                        run(l, &[a, b, c], true);
                        if thorough {
                            run(l, &[a, b, c], false);
                        }
                    }
                }
            }
        }
        // Longer histories of one string each.
        for id in ["num", "plain", "bad"] {
            let own: Vec<&Req> = small.iter().filter(|r| r.id == id && r.caching == Some(true)).collect();
            words(own.len(), if thorough { 5 } else { 4 }, |w| {
                if l.mine() {
                    run(l, &w.iter().map(|i| own[*i]).collect::<Vec<_>>(), false);
                }
            });
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C18

pub fn c18(e: &Arc<Engine>) {
    let depth = if e.thorough() { 3 } else { 2 };
    e.bound(format!("every initial state (3 languages x fallback x caching) and every history of up to {depth} of 36 changes of the defaults; after each, all methods with defaults and with omitted parameters are compared with their full counterparts, and caching by counting repository requests"));
    e.run(|l| {
        let langs = ["en", "fr", "ar-EG"];
        let mut ops: Vec<(Option<&str>, Option<bool>, Option<bool>)> = vec![];
        for t in [None, Some("en"), Some("fr"), Some("ar-EG")] {
            for f in [None, Some(false), Some(true)] {
                for c in [None, Some(false), Some(true)] {
                    ops.push((t, f, c));
                }
            }
        }
        let values = vals(&[("n", V::Unsigned(2345)), ("s", s("S"))]);
        let run = |l: &mut Local, init: (&str, bool, bool), hist: &[usize]| {
            let case = format!("start=({},{},{}) {}", init.0, init.1, init.2, hist.iter().map(|i| format!("{:?}", ops[*i])).collect::<Vec<_>>().join(" "));
            if l.skip(&case) {
                return;
            }
            l.state(&case);
            let r = l.exec(&case, || -> Result<String, (String, String)> {
                let w = World::new(init.0, init.1, init.2);
                w.repo.borrow_mut().components.insert("c".into(), "en".into());
                let (mut t, mut f, mut c) = init;
                let mut log = String::new();
                for step in 0..=hist.len() {
                    if step > 0 {
                        let o = ops[hist[step - 1]];
                        if let Err(e) = w.loc.defaults(o.0.map(|t| w.tag(t)), o.1, o.2) {
                            return Err(("defaults succeed".into(), kind(&e)));
                        }
                        t = o.0.unwrap_or(t);
                        f = o.1.unwrap_or(f);
                        c = o.2.unwrap_or(c);
                    }
                    if w.loc.default_language().as_str() != t {
                        return Err((format!("step {step}: default language {t}"), w.loc.default_language().as_str().to_string()));
                    }
                    // "both" is in all languages, "base" only in the default language of the component.
                    let both = format!("both{step}");
                    let base = format!("base{step}");
                    for lang in langs {
                        w.put("c", &both, lang, &format!("{lang}: {{n decimal}} {{s}}"));
                    }
                    w.put("c", &base, "en", "en: {n decimal}");
                    // Text without patterns, and none.
                    let plain = format!("plain{step}");
                    let empty = format!("empty{step}");
                    w.put("c", &plain, "en", "en plain");
                    w.put("c", &empty, "en", "");
                    let tag = w.tag(t);
                    // Expected from the model, not from the full counterparts only.
                    let pattern = |id: &String, lang: &str| {
                        if id == &both {
                            format!("{lang}: {{n decimal}} {{s}}")
                        } else if id == &plain {
                            "en plain".to_string()
                        } else if id == &empty {
                            String::new()
                        } else {
                            "en: {n decimal}".to_string()
                        }
                    };
                    for id in [&both, &base, &plain, &empty] {
                        let has = id == &both || t == "en";
                        let lang = if has { t } else { "en" };
                        let pat = pattern(id, lang);
                        let formatted = if has || f {
                            match expectation(&pat, lang, &values) {
                                Expect::Text(x) => Ok((x, lang.to_string())),
                                x => Ok((format!("{x:?}"), lang.to_string())),
                            }
                        } else {
                            Err(format!("StringNotFound(c,{id},{t},{f})"))
                        };
                        let literal = if has || f { Ok((pat.clone(), lang.to_string())) } else { Err(format!("StringNotFound(c,{id},{t},{f})")) };
                        let data = LocalisationData { component: "c".into(), identifier: id.to_string(), values: Some(values.clone()) };
                        let data0 = LocalisationData { component: "c".into(), identifier: id.to_string(), values: None };
                        // Each with its repository requests counted twice over.
                        let counted = |name: &str, f: &dyn Fn() -> Result<(String, String), String>, want: &Result<(String, String), String>| -> Result<(), (String, String)> {
                            let c0 = w.repo.borrow().calls;
                            let got = f();
                            let c1 = w.repo.borrow().calls;
                            let again = f();
                            let c2 = w.repo.borrow().calls;
                            if &got != want || &again != want {
                                return Err((format!("step {step} {name} {id}: {}", printed(want)), format!("{} / {}", printed(&got), printed(&again))));
                            }
                            let _ = c1 - c0;
                            if want.is_ok() && c && c2 != c1 {
                                return Err((format!("step {step} {name} {id}: cached"), "asked the repository again".into()));
                            }
                            if want.is_ok() && !c && c2 == c1 {
                                return Err((format!("step {step} {name} {id}: not cached"), "the repository was not asked again".into()));
                            }
                            Ok(())
                        };
                        counted("format_with_defaults", &|| text(w.loc.format_with_defaults("c", id, &values)), &formatted)?;
                        counted("literal_with_defaults", &|| text(w.loc.literal_with_defaults("c", id)), &literal)?;
                        counted("format_localisation_data_with_defaults", &|| text(w.loc.format_localisation_data_with_defaults(&data)), &formatted)?;
                        counted("format_localisation_data_with_defaults literal", &|| text(w.loc.format_localisation_data_with_defaults(&data0)), &literal)?;
                        counted("format", &|| text(w.loc.format("c", id, &values, &tag, None, None)), &formatted)?;
                        counted("literal", &|| text(w.loc.literal("c", id, &tag, None, None)), &literal)?;
                        counted("format_localisation_data", &|| text(w.loc.format_localisation_data(&data, &tag, None, None)), &formatted)?;
                        counted("format_localisation_data literal", &|| text(w.loc.format_localisation_data(&data0, &tag, None, None)), &literal)?;
                        let (problem, problem0) = (Problem(data.clone()), Problem(data0.clone()));
                        counted("format_error_with_defaults", &|| text(w.loc.format_error_with_defaults(&problem)), &formatted)?;
                        counted("format_error_with_defaults literal", &|| text(w.loc.format_error_with_defaults(&problem0)), &literal)?;
                        counted("format_error", &|| text(w.loc.format_error(&problem, &tag, None, None)), &formatted)?;
                        counted("format_error literal", &|| text(w.loc.format_error(&problem0, &tag, None, None)), &literal)?;
                        for (ff, cc) in [(Some(false), None), (Some(true), None), (None, Some(false)), (None, Some(true)), (Some(!f), Some(!c))] {
                            let ef = ff.unwrap_or(f);
                            for t2 in langs {
                                let has2 = id == &both || t2 == "en";
                                let lang2 = if has2 { t2 } else { "en" };
                                let pat2 = pattern(id, lang2);
                                let want = if has2 || ef {
                                    match expectation(&pat2, lang2, &values) {
                                        Expect::Text(x) => Ok((x, lang2.to_string())),
                                        x => Ok((format!("{x:?}"), lang2.to_string())),
                                    }
                                } else {
                                    Err(format!("StringNotFound(c,{id},{t2},{ef})"))
                                };
                                let plain = if has2 || ef { Ok((pat2, lang2.to_string())) } else { want.clone() };
                                let tag2 = w.tag(t2);
                                for (name, want, got) in [
                                    ("format", &want, text(w.loc.format("c", id, &values, &tag2, ff, cc))),
                                    ("literal", &plain, text(w.loc.literal("c", id, &tag2, ff, cc))),
                                    ("format_localisation_data", &want, text(w.loc.format_localisation_data(&data, &tag2, ff, cc))),
                                    ("format_localisation_data literal", &plain, text(w.loc.format_localisation_data(&data0, &tag2, ff, cc))),
                                    ("format_error", &want, text(w.loc.format_error(&problem, &tag2, ff, cc))),
                                    ("format_error literal", &plain, text(w.loc.format_error(&problem0, &tag2, ff, cc))),
                                ] {
                                    if &got != want {
                                        return Err((format!("step {step} {name}({id},{t2},{ff:?},{cc:?}): {}", printed(want)), printed(&got)));
                                    }
                                }
                            }
                        }
                        // Errors, with the defaults and in full.
                        w.put("c", "oops", t, "oops {never formatted");
                        let got = (text(w.loc.format_error_with_defaults(&Oops)), text(w.loc.format_error(&Oops, &tag, None, None)));
                        let want = Ok(("oops {never formatted".to_string(), t.to_string()));
                        if got.0 != want || got.1 != want {
                            return Err((format!("step {step} format_error: {}", printed(&want)), format!("{} / {}", printed(&got.0), printed(&got.1))));
                        }
                    }
                    log.push_str(&format!("{t},{f},{c};"));
                }
                Ok(log)
            });
            match r {
                Err(p) => {
                    l.parity(&case, "panic");
                    l.violation(&case, "no panic", p)
                }
                Ok(Err((a, b))) => {
                    l.parity(&case, &b);
                    l.violation(&case, a, b)
                }
                Ok(Ok(log)) => {
                    l.parity(&case, &log);
                    l.outcome(&log);
                }
            }
        };
        for t in langs {
            for f in [false, true] {
                for c in [false, true] {
                    for len in 0..=depth {
                        if len == 3 && !(t == "en" || (f && c)) {
                            continue;
                        }
                        words(ops.len(), len, |h| {
                            if l.mine() {
                                run(l, (t, f, c), h);
                            }
                        });
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C20

#[derive(Clone, Debug)]
enum Tree {
    /// identifier, children (None: no values)
    Node(&'static str, Option<Vec<(&'static str, Tree)>>),
    Text(&'static str),
    /// A text of another language, tagged or localised earlier.
    Foreign(&'static str, bool),
    Num(u128),
}

fn foreign(t: &str, localised: bool) -> V {
    let tag = RefCount::new(LanguageTagRegistry::new()).tag("de").expect("tag");
    if localised {
        V::Localised(RefCount::new(t.to_string()), tag)
    } else {
        V::TaggedString(i18n_utility::TaggedString::new(t, &tag))
    }
}

fn to_data(t: &Tree) -> V {
    match t {
        Tree::Text(x) => s(x),
        Tree::Foreign(x, l) => foreign(x, *l),
        Tree::Num(n) => V::Unsigned(*n),
        Tree::Node(id, kids) => V::LocalisationData(LocalisationData { component: if *id == "elsewhere" { "d".into() } else { "c".into() }, identifier: id.to_string(), values: kids.as_ref().map(|k| k.iter().map(|(n, t)| (n.to_string(), to_data(t))).collect()) }),
    }
}

const TREE_STRINGS: &[(&str, &str, &str)] = &[
    ("wrap", "en", "<{a}|{b}>"),
    ("wrap", "fr", "«{b} {a}»"),
    ("leaf", "en", "leaf {{raw `#"),
    ("leaf", "fr", "feuille {"),
    ("num", "en", "n={a decimal}"),
    ("pick", "en", "{a select x#p other#q}#{p X}{q other}"),
    ("pick", "fr", "{a select x#p other#q}#{p IKS}{q autre {b}}"),
    ("elsewhere", "en", "of d {a}"),
    ("x", "en", "x"),
    ("gap", "en", "\u{a0} gap\t\n "),
    ("gap", "en-ZA", ""),
];

/// `Err(true)`: unspecified.
fn tree_expected(t: &Tree, lang: &str, fb: bool) -> Result<V, bool> {
    Ok(match t {
        Tree::Text(x) => s(x),
        Tree::Foreign(x, l) => foreign(x, *l),
        Tree::Num(n) => V::Unsigned(*n),
        Tree::Node(id, kids) => {
            let find = |lang: &str| TREE_STRINGS.iter().find(|x| x.0 == *id && x.1 == lang);
            let Some(found) = find(lang).or_else(|| if fb { find("en") } else { None }) else { return Err(false) };
            match kids {
                None => s(found.2),
                Some(k) => {
                    let mut v = Values::new();
                    for (n, t) in k {
                        v.insert(n.to_string(), tree_expected(t, lang, fb)?);
                    }
                    match expectation(found.2, found.1, &v) {
                        Expect::Text(x) => s(&x),
                        Expect::Error(_) => return Err(false),
                        Expect::Any(_) => return Err(true),
                    }
                }
            }
        }
    })
}

pub fn c20(e: &Arc<Engine>) {
    let depth = 3;
    e.bound(format!("every tree of localisation data up to depth {} over 9 identifiers, 2 placeholders and plain values, in 2 languages, with and without fallback, uncached and cached twice; single chains of every depth up to {}, and 200; every number of data values side by side up to that", depth + 1, if e.thorough() { 200 } else { 70 }));
    e.run(|l| {
        // All trees of a depth.
        let limit = if l.engine.thorough() { 15 } else { 11 };
        let leaves = || vec![Tree::Text("x"), Tree::Text("{b}"), Tree::Foreign("x", true), Tree::Foreign("f#`", false), Tree::Num(1234), Tree::Node("leaf", None), Tree::Node("x", None), Tree::Node("gap", None), Tree::Node("none", None), Tree::Node("leaf", Some(vec![]))];
        let mut level: Vec<Tree> = leaves();
        let mut all: Vec<Tree> = vec![];
        for d in 0..depth {
            let mut next = leaves();
            for id in ["wrap", "pick", "num", "elsewhere"] {
                for (i, a) in level.iter().enumerate() {
                    next.push(Tree::Node(id, Some(vec![("a", a.clone())])));
                    if id == "wrap" || id == "pick" {
                        for (j, b) in level.iter().enumerate() {
                            // The second level in pairs only with the first leaves, to bound the number.
                            if d == 0 || i < limit || j < limit {
                                next.push(Tree::Node(id, Some(vec![("a", a.clone()), ("b", b.clone())])));
                            }
                        }
                    }
                }
            }
            level = next;
            all = level.clone();
            if level.len() > 2_000_000 {
                break;
            }
        }
        let w = World::new("en", false, false);
        for (id, lang, p) in TREE_STRINGS {
            w.put(if *id == "elsewhere" { "d" } else { "c" }, id, lang, p);
        }
        let ask = |l: &mut Local, case: &str, t: &Tree, lang: &str, fb: bool| {
            if l.skip(case) {
                return;
            }
            let V::LocalisationData(d) = to_data(t) else { return };
            l.state(case);
            let want = match tree_expected(t, lang, fb) {
                Ok(V::String(x)) => Ok(x),
                Err(u) => Err(u),
                _ => Err(false),
            };
            let tag = w.tag(lang);
            let r = l.exec(case, || [false, true, true].map(|c| text(w.loc.format_localisation_data(&d, &tag, Some(fb), Some(c)))));
            match r {
                Err(p) => {
                    l.parity(case, "panic");
                    l.violation(case, "no panic", p)
                }
                Ok(got) => {
                    l.parity(case, &if got[0].is_ok() { printed(&got[0]) } else { "err".to_string() });
                    for g in &got {
                        let ok = match (&want, g) {
                            (Ok(w), Ok((g, _))) => w == g,
                            (Err(false), Err(_)) | (Err(true), _) => true,
                            _ => false,
                        };
                        if !ok {
                            return l.violation(case, format!("{want:?}"), printed(g));
                        }
                    }
                    l.outcome(if want.is_ok() { "formatted" } else { "error" });
                }
            }
        };
        for t in &all {
            for lang in ["en", "fr"] {
                for fb in [false, true] {
                    if l.mine() {
                        ask(l, &format!("{t:?} lang={lang} fallback={fb}"), t, lang, fb);
                    }
                }
            }
        }
        // Side by side.
        for n in landmarks(if l.engine.thorough() { 200 } else { 70 }, 1100) {
            if !l.mine() {
                continue;
            }
            for kind in 0..3 {
                let w = World::new("en", false, false);
                for (id, lang, p) in TREE_STRINGS {
                    w.put("c", id, lang, p);
                }
                w.put("c", "wide", "en", &(0..n).map(|i| format!("{i}{{p{i}}};")).collect::<String>());
                let kid = |i: usize| match (kind + i) % 3 {
                    0 => Tree::Node("leaf", None),
                    1 => Tree::Node("num", Some(vec![("a", Tree::Num(i as u128 % 1000))])),
                    _ => Tree::Node("pick", Some(vec![("a", Tree::Text(if i % 2 == 0 { "x" } else { "y" }))])),
                };
                let data = LocalisationData { component: "c".into(), identifier: "wide".into(), values: Some((0..n).map(|i| (format!("p{i}"), to_data(&kid(i)))).collect()) };
                let want: String = (0..n).map(|i| format!("{i}{};", match (kind + i) % 3 { 0 => "leaf {{raw `#".to_string(), 1 => format!("n={}", i % 1000), _ => if i % 2 == 0 { "X".into() } else { "other".to_string() } })).collect();
                let case = format!("{n} side by side, kind {kind}");
                if l.skip(&case) {
                    continue;
                }
                l.state(&case);
                let tag = w.tag("en");
                match l.exec(&case, || [false, true, true].map(|c| text(w.loc.format_localisation_data(&data, &tag, None, Some(c))))) {
                    Err(p) => l.violation(&case, want, p),
                    Ok(got) => got.iter().for_each(|g| {
                        l.expect(&case, &format!("ok {want:?} en"), &printed(g));
                    }),
                }
            }
        }
        for n in (3usize..if l.engine.thorough() { 200 } else { 70 }).chain([200]) {
            for end in leaves() {
                let mut t = end.clone();
                for i in 0..n {
                    t = Tree::Node(["wrap", "pick", "elsewhere"][i % 3], Some(vec![("a", t), ("b", Tree::Text("x"))]));
                }
                for lang in ["en", "fr"] {
                    for fb in [false, true] {
                        if l.mine() {
                            ask(l, &format!("chain of {n} to {end:?} lang={lang} fallback={fb}"), &t, lang, fb);
                        }
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C21, C35

fn shown(d: &Option<ScriptData>) -> String {
    match d {
        None => "none".into(),
        Some(d) => format!("{:?} {:?} {}", d.category, d.directions, d.historic),
    }
}

/// The script data by ISO 15924 code, as published with the crate.
pub fn script_table() -> BTreeMap<String, String> {
    include_str!("scripts.txt").lines().filter(|l| !l.is_empty()).map(|l| l.split_once('\t').expect("table")).map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub fn dump_scripts() {
    let w = World::new("en", false, false);
    for a in b'A'..=b'Z' {
        for b in b'a'..=b'z' {
            for c in b'a'..=b'z' {
                for d in b'a'..=b'z' {
                    let code = String::from_utf8(vec![a, b, c, d]).unwrap();
                    let t = w.tag(&format!("und-{code}"));
                    let x = w.loc.script_data_for_language_tag(&t);
                    if x.is_some() {
                        println!("{code}\t{}", shown(&x));
                    }
                }
            }
        }
    }
}

pub fn c21(e: &Arc<Engine>) {
    e.bound("all 456976 script codes; all 18252 two and three letter languages alone and with 4 regions and 4 explicit scripts; every history of up to 3 (quick) or 4 changes of the default language over 14 languages (several of one language with different scripts), some without language");
    let thorough = e.thorough();
    e.run(|l| {
        let table = script_table();
        let none = "none".to_string();
        let w = World::new("en", false, false);
        let expander = LocaleExpander::new_extended();
        let expected = |tag: &str| -> String {
            let mut id: LanguageIdentifier = tag.parse().expect("tag");
            let script = match id.script {
                Some(s) => Some(s),
                None => match expander.maximize(&mut id) {
                    TransformResult::Modified => id.script,
                    TransformResult::Unmodified => None,
                },
            };
            script.and_then(|s| table.get(s.as_str()).cloned()).unwrap_or(none.clone())
        };
        let ask = |l: &mut Local, w: &World, tag: &str, want: &str| {
            let case = format!("tag={tag}");
            if l.skip(&case) {
                return;
            }
            l.state(&case);
            match l.exec(&case, || shown(&w.loc.script_data_for_language_tag(&w.tag(tag)))) {
                Err(p) => l.violation(&case, want, p),
                Ok(g) => {
                    if want != "none" {
                        l.parity(&case, &g);
                    }
                    l.outcome(&g);
                    l.expect(&case, want, &g);
                }
            }
        };
        let mut fresh = World::new("en", false, false);
        let mut n = 0;
        for a in b'A'..=b'Z' {
            for b in b'a'..=b'z' {
                if !l.mine() {
                    continue;
                }
                for c in b'a'..=b'z' {
                    for d in b'a'..=b'z' {
                        let code = String::from_utf8(vec![a, b, c, d]).unwrap();
                        n += 1;
                        if n % 5000 == 0 {
                            fresh = World::new("en", false, false);
                        }
                        ask(l, &fresh, &format!("und-{code}"), table.get(&code).unwrap_or(&none));
                        if table.contains_key(&code) {
                            ask(l, &fresh, &format!("en-{code}-ZA"), &table[&code]);
                            ask(l, &fresh, &format!("ar-{code}"), &table[&code]);
                        }
                    }
                }
            }
        }
        for len in 2..=3 {
            words(26, len, |x| {
                if !l.mine() {
                    return;
                }
                let lang: String = x.iter().map(|i| (b'a' + *i as u8) as char).collect();
                if lang == "und" {
                    return;
                }
                n += 1;
                if n % 5000 == 0 {
                    fresh = World::new("en", false, false);
                }
                for suffix in ["", "-CN", "-TW", "-IN", "-AE", "-Arab", "-Hant-HK", "-Mong", "-Latn-valencia"] {
                    let tag = format!("{lang}{suffix}");
                    let want = expected(&tag);
                    ask(l, &fresh, &tag, &want);
                }
            });
        }
        for tag in ["und", "und-US", "und-CN", "und-EG", "und-JP", "und-419", "und-AQ", "und-ZZ"] {
            if l.mine() {
                let want = expected(tag);
                ask(l, &w, tag, &want);
            }
        }
        // Histories of the default language.
        let langs = ["en", "ar", "zh-Hant", "ja", "sr-Latn", "tlh", "he-IL", "zh", "zh-TW", "sr", "az-Arab", "az", "en-Latn-ZA", "und"];
        for len in 1..=(if thorough { 5 } else { 4 }) {
            words(langs.len() + 2, len, |h| {
                if !l.mine() || h[0] >= langs.len() {
                    return;
                }
                let case = format!("defaults {:?}", h.iter().map(|i| langs.get(*i).copied().unwrap_or("(no language)")).collect::<Vec<_>>());
                if l.skip(&case) {
                    return;
                }
                l.state(&case);
                let mut now = langs[h[0]];
                let r = l.exec(&case, || -> Result<(), (String, String)> {
                    let w = World::new(now, false, false);
                    for (i, x) in h.iter().enumerate() {
                        if i > 0 {
                            match langs.get(*x) {
                                Some(t) => {
                                    now = t;
                                    w.loc.defaults(Some(w.tag(t)), None, None).expect("defaults");
                                }
                                None => w.loc.defaults(None, Some(*x % 2 == 0), Some(*x % 2 == 1)).expect("defaults"),
                            }
                        }
                        let got = shown(&w.loc.script_data());
                        let want = expected(now);
                        if got != want {
                            return Err((format!("step {i} ({now}): {want}"), got));
                        }
                        let _ = w.loc.script_data_for_language_tag(&w.tag("ar"));
                    }
                    Ok(())
                });
                match r {
                    Err(p) => l.violation(&case, "no panic", p),
                    Ok(Err((a, b))) => l.violation(&case, a, b),
                    Ok(Ok(())) => l.outcome("history"),
                }
            });
        }
    });
}

pub fn c35(e: &Arc<Engine>) {
    use i18n_utility::{Direction, ScriptDirection};
    use icu_properties::{BidiClass, GeneralCategoryGroup, Script};
    e.bound("all 8 script directions with their accessors; every script of the table with an assigned Unicode script, over all its letters");
    e.run(|l| {
        if l.id != 0 {
            return;
        }
        use ScriptDirection::*;
        for (d, first, second) in [
            (TopToBottomLeftToRight, Direction::TopToBottom, Direction::LeftToRight),
            (TopToBottomRightToLeft, Direction::TopToBottom, Direction::RightToLeft),
            (BottomToTopLeftToRight, Direction::BottomToTop, Direction::LeftToRight),
            (BottomToTopRightToLeft, Direction::BottomToTop, Direction::RightToLeft),
            (LeftToRightTopToBottom, Direction::LeftToRight, Direction::TopToBottom),
            (LeftToRightBottomToTop, Direction::LeftToRight, Direction::BottomToTop),
            (RightToLeftTopToBottom, Direction::RightToLeft, Direction::TopToBottom),
            (RightToLeftBottomToTop, Direction::RightToLeft, Direction::BottomToTop),
        ] {
            let case = format!("{d:?}");
            l.state(&case);
            let got = l.exec(&case, || format!("{:?} {:?} {:?}", d.directions(), d.line(), d.grapheme())).unwrap_or_else(|p| p);
            l.parity(&case, &got);
            l.expect(&case, &format!("{:?} {first:?} {second:?}", (first.clone(), second.clone())), &got);
        }
        // The direction of horizontal text, from the Unicode letters of the script.
        let names = Script::name_to_enum_mapper();
        let w = World::new("en", false, false);
        let map = icu_properties::maps::script();
        let bidi = icu_properties::maps::bidi_class();
        let gc = icu_properties::maps::general_category();
        let mut per: BTreeMap<u16, (u64, u64)> = BTreeMap::new();
        for c in 0..=0x10ffffu32 {
            let Some(ch) = char::from_u32(c) else { continue };
            if !GeneralCategoryGroup::Letter.contains(gc.get(ch)) {
                continue;
            }
            let e = per.entry(map.get(ch).0).or_default();
            match bidi.get(ch) {
                BidiClass::LeftToRight => e.0 += 1,
                BidiClass::RightToLeft | BidiClass::ArabicLetter => e.1 += 1,
                _ => {}
            }
        }
        for code in script_table().keys() {
            let Some(sc) = names.get_strict(code) else { continue };
            let Some((ltr, rtl)) = per.get(&sc.0) else { continue };
            let case = format!("script={code}");
            if l.skip(&case) {
                continue;
            }
            l.state(&case);
            let got = match l.exec(&case, || w.loc.script_data_for_language_tag(&w.tag(&format!("und-{code}")))) {
                Err(p) => {
                    l.violation(&case, "script data", p);
                    continue;
                }
                Ok(None) => {
                    l.violation(&case, "script data", "none");
                    continue;
                }
                Ok(Some(d)) => d,
            };
            l.parity(&case, &shown(&Some(got.clone())));
            let horizontal: Vec<_> = got.directions.iter().map(|d| d.grapheme()).filter(|d| matches!(d, Direction::LeftToRight | Direction::RightToLeft)).collect();
            let vertical = got.directions.iter().all(|d| !matches!(d.grapheme(), Direction::LeftToRight | Direction::RightToLeft));
            l.outcome(&format!("ltr={} rtl={} {:?}", ltr > &0, rtl > &0, got.directions));
            let want = if ltr > rtl { Direction::LeftToRight } else { Direction::RightToLeft };
            if !vertical && !horizontal.contains(&want) {
                l.violation(&case, format!("{want:?}, as its letters"), shown(&Some(got)));
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C34

pub fn c34(e: &Arc<Engine>) {
    e.bound("both commands x every Unicode scalar value as first character of a word, alone, followed by a consonant or a vowel, after a vowel, and as a part of a path; every text up to 4 of 12 characters; every parameter type and number up to 3; called directly and through a pattern");
    e.run(|l| {
        type F = fn(Vec<PlaceholderValue>) -> Result<String, CommandError>;
        let fs: [(&str, F); 2] = [("file_path", file_path), ("english_a_or_an", english_a_or_an)];
        let want = |f: &str, t: &str| -> String {
            if f == "file_path" {
                return t.to_string();
            }
            (if matches!(t.chars().next(), Some('a' | 'e' | 'i' | 'o' | 'u')) { "an" } else { "a" }).to_string()
        };
        let ask = |l: &mut Local, name: &str, f: F, t: &str| {
            let case = format!("{name} {t:?}");
            if l.skip(&case) {
                return;
            }
            l.state(&case);
            match l.exec(&case, || f(vec![s(name), s(t)])) {
                Err(p) => l.violation(&case, want(name, t), p),
                Ok(Ok(g)) => {
                    l.parity(&case, &g);
                    if name != "file_path" {
                        l.outcome(&g);
                    }
                    l.expect(&case, &want(name, t), &g);
                }
                Ok(Err(e)) => l.violation(&case, want(name, t), format!("{e:?}")),
            }
        };
        for (name, f) in fs {
            for c in 0..=0x10ffffu32 {
                let Some(c) = char::from_u32(c) else { continue };
                if l.mine() {
                    ask(l, name, f, &c.to_string());
                    ask(l, name, f, &format!("{c}pple"));
                    ask(l, name, f, &format!("{c}apple"));
                    ask(l, name, f, &format!("a{c}"));
                    ask(l, name, f, &format!("./{c}/../{c}"));
                }
            }
            let alphabet: Vec<char> = "aAeE/.\\ :~éu".chars().collect();
            for len in 0..=4 {
                words(alphabet.len(), len, |w| {
                    if l.mine() {
                        ask(l, name, f, &w.iter().map(|i| alphabet[*i]).collect::<String>());
                    }
                });
            }
            // Types and numbers of parameters.
            let w = World::new("en", false, false);
            let all = crate::fmt::all_values(&w);
            for n in 0..=3usize {
                words(all.len(), n, |ix| {
                    if !l.mine() {
                        return;
                    }
                    let case = format!("{name} parameters={:?}", ix.iter().map(|i| all[*i].0).collect::<Vec<_>>());
                    if l.skip(&case) {
                        return;
                    }
                    l.state(&case);
                    let mut p = vec![s("name!")];
                    p.extend(ix.iter().map(|i| all[*i].1.clone()));
                    let got = match l.exec(&case, || f(p)) {
                        Err(p) => return l.violation(&case, "no panic", p),
                        Ok(g) => g,
                    };
                    let got = match got {
                        Ok(t) => format!("ok {t}"),
                        Err(CommandError::ParameterMissing(c, i)) => format!("missing {c} {i}"),
                        Err(CommandError::InvalidType(c, i)) => format!("type {c} {i}"),
                        Err(e) => format!("{e:?}"),
                    };
                    l.parity(&case, &got);
                    let want = match ix.first().map(|i| &all[*i].1) {
                        None => "missing name! 1".to_string(),
                        Some(V::String(t)) => format!("ok {}", want(name, t)),
                        Some(_) => "type name! 1".to_string(),
                    };
                    l.outcome(&got[..2]);
                    l.expect(&case, &want, &got);
                });
            }
            // The command itself is not a string.
            for (d, v) in &all {
                if matches!(v, V::String(_)) || !l.mine() {
                    continue;
                }
                let case = format!("{name} command={d}");
                if l.skip(&case) {
                    continue;
                }
                l.state(&case);
                match l.exec(&case, || f(vec![v.clone(), s("text")])) {
                    Ok(Err(CommandError::InvalidType(_, 0))) => {}
                    x => l.violation(&case, "an error about the type of the command", format!("{x:?}")),
                }
            }
        }
        // Through a pattern.
        let w = World::new("en", false, false);
        w.loc.command_registry().insert("file_path", file_path).expect("new");
        w.loc.command_registry().insert("an", english_a_or_an).expect("new");
        for c in 0..=0x2fffu32 {
            let Some(c) = char::from_u32(c) else { continue };
            if !l.mine() {
                continue;
            }
            let lit = if c == '`' { "``".to_string() } else { c.to_string() };
            for delay in ["", "#"] {
                let p = format!("{{#an{delay} `{lit}x`}} {{#file_path{delay} `{lit}/y`}}");
                let case = format!("pattern {p:?}");
                l.state(&case);
                match l.exec(&case, || w.pattern(&p, "en", &vals(&[]))) {
                    Ok(g) => {
                        l.expect(&case, &printed(&Ok((format!("{} {c}/y", want("an", &format!("{c}x"))), "en".into()))), &printed(&g));
                    }
                    Err(p) => l.violation(&case, "no panic", p),
                }
            }
        }
        let _ = desc;
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C38: commands that use the localiser

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    /// kind, identifier, values, caching
    Ask(Kind, &'static str, usize, Option<bool>),
    Defaults(&'static str, bool, bool),
    Insert,
    Look,
    /// The command itself fails badly; the localiser must stay usable.
    Panic,
}

thread_local! {
    static ACTS: std::cell::RefCell<(Option<std::rc::Rc<World>>, std::collections::VecDeque<Act>)> = std::cell::RefCell::default();
}

fn act_values(i: usize) -> Values {
    vals(&[("n", V::Unsigned([1, 5000][i])), ("s", s(["v", "{w}#"][i]))])
}

/// The command of these strings: does what the history says next.
fn re(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    let (w, act) = ACTS.with(|a| {
        let mut a = a.borrow_mut();
        (a.0.clone(), a.1.pop_front())
    });
    let (Some(w), Some(act)) = (w, act) else { return Ok("stop".into()) };
    Ok(match act {
        Act::Ask(kind, id, v, caching) => call(&w, kind, "c", id, &act_values(v), "en", None, caching).map(|x| x.0).unwrap_or("error".into()),
        Act::Defaults(tag, fallback, caching) => match w.loc.defaults(Some(w.tag(tag)), Some(fallback), Some(caching)) {
            Ok(_) => "set".into(),
            Err(_) => "error".into(),
        },
        Act::Insert => {
            let n = w.loc.command_registry().list().len();
            match w.loc.command_registry().insert(&format!("new{n}"), re) {
                Ok(()) => "inserted".into(),
                Err(_) => "error".into(),
            }
        }
        Act::Panic => panic!("the command"),
        Act::Look => {
            let t = w.tag("ar");
            format!("{} {}", w.loc.script_data_for_language_tag(&t).is_some(), w.loc.language_tag_registry().list().iter().any(|x| x.as_str() == "ar"))
        }
    })
}

const ACT_STRINGS: &[(&str, &str)] = &[
    ("one", "<{#re#}>"),
    ("num", "{n plural one#a other#b}#{a # one {#re#} # end}{b {#re#} of # {s}}"),
    ("two", "{#re# n s}{s}{#re#}"),
    // Not delayed: run when the string is read, kept in the cache.
    ("const", "[{#re}]"),
    ("text", "plain"),
    ("pattern", "{s}!{n decimal}"),
    ("bad", "{"),
    ("outer", "({a})"),
];

fn act_expected(act: Act, rest: &mut std::collections::VecDeque<Act>) -> String {
    let next = |rest: &mut std::collections::VecDeque<Act>| match rest.pop_front() {
        None => "stop".to_string(),
        Some(a) => act_expected(a, rest),
    };
    match act {
        Act::Ask(Kind::Literal | Kind::DataLiteral, id, _, _) => ACT_STRINGS.iter().find(|x| x.0 == id).map_or("error", |x| x.1).to_string(),
        Act::Ask(_, id, v, _) => {
            let (n, t) = ([1, 5000][v], ["v", "{w}#"][v]);
            match id {
                "const" => format!("[{}]", next(rest)),
                "one" => format!("<{}>", next(rest)),
                "num" if n == 1 => format!("1 one {} 1 end", next(rest)),
                "num" => format!("{} of 5,000 {t}", next(rest)),
                "two" => {
                    let first = next(rest);
                    format!("{first}{t}{}", next(rest))
                }
                "text" => "plain".into(),
                "pattern" => format!("{t}!{}", if n == 1 { "1" } else { "5,000" }),
                _ => "error".into(),
            }
        }
        Act::Defaults(..) => "set".into(),
        Act::Insert => "inserted".into(),
        Act::Look => "true true".into(),
        Act::Panic => "\u{1}".into(),
    }
}

/// How the string with the command is asked for.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Format,
    Data,
    /// The string is that of a value of another one.
    Nested,
    Error,
    FormatDefaults,
    DataDefaults,
    NestedDefaults,
    ErrorDefaults,
}
const WAYS: [Way; 8] = [Way::Format, Way::Data, Way::Nested, Way::Error, Way::FormatDefaults, Way::DataDefaults, Way::NestedDefaults, Way::ErrorDefaults];

impl Way {
    fn defaults(self) -> bool {
        matches!(self, Way::FormatDefaults | Way::DataDefaults | Way::NestedDefaults | Way::ErrorDefaults)
    }

    fn ask(self, w: &World, id: &str, v: &Values, caching: bool) -> Result<(String, String), String> {
        let data = |id: &str, values: Values| LocalisationData { component: "c".into(), identifier: id.into(), values: Some(values) };
        let nested = || data("outer", vals(&[("a", V::LocalisationData(data(id, v.clone())))]));
        let error = || Problem(data(id, v.clone()));
        let t = w.tag("en");
        let c = Some(caching);
        text(match self {
            Way::Format => w.loc.format("c", id, v, &t, None, c),
            Way::Data => w.loc.format_localisation_data(&data(id, v.clone()), &t, None, c),
            Way::Nested => w.loc.format_localisation_data(&nested(), &t, None, c),
            Way::Error => w.loc.format_error(&error(), &t, None, c),
            Way::FormatDefaults => w.loc.format_with_defaults("c", id, v),
            Way::DataDefaults => w.loc.format_localisation_data_with_defaults(&data(id, v.clone())),
            Way::NestedDefaults => w.loc.format_localisation_data_with_defaults(&nested()),
            Way::ErrorDefaults => w.loc.format_error_with_defaults(&error()),
        })
    }
}

pub fn c38(e: &Arc<Engine>) {
    let mut acts: Vec<Act> = vec![];
    for (id, _) in ACT_STRINGS.iter().filter(|x| x.0 != "outer").chain(&[("none", "")]) {
        for caching in [Some(false), Some(true)].into_iter().filter(|c| *id != "const" || *c == Some(false)) {
            acts.push(Act::Ask(Kind::Format, id, 0, caching));
            acts.push(Act::Ask(Kind::Format, id, 1, caching));
        }
        acts.push(Act::Ask(Kind::Literal, id, 0, Some(true)));
        if *id != "const" {
            acts.push(Act::Ask(Kind::Data, id, 1, None));
        }
        acts.push(Act::Ask(Kind::DataLiteral, id, 0, None));
    }
    acts.extend([Act::Defaults("ar", true, false), Act::Defaults("en", false, true), Act::Insert, Act::Look, Act::Panic]);
    let deep = if e.thorough() { 3 } else { 2 };
    e.bound(format!("4 strings with commands x 8 ways to ask for them (formatted, as data, as a value of another string, as an error, with the defaults or not; errors for up to 1 thing, the others for up to 2, formatted for all) x 2 value sets x uncached, cached for the first time, cached before x every sequence of up to {deep} of {} things the command does with the localiser that runs it (the same and other strings, cached and not, literals, nested data, changes of the defaults, new commands, script data, panics), nested and one after the other", acts.len()));
    e.run(|l| {
        for len in 0..=deep {
            words(acts.len(), len, |ws| {
                if !l.mine() {
                    return;
                }
                let list: Vec<Act> = ws.iter().map(|i| acts[*i]).collect();
                for id in ["one", "num", "two", "const"] {
                    for (way, v) in WAYS.iter().flat_map(|w| [(*w, 0), (*w, 1)]) {
                        // The string read before the command is kept in the cache.
                        if id == "const" && way.defaults() && list.iter().any(|a| matches!(a, Act::Defaults(_, _, true))) {
                            continue;
                        }
                        if len > 2 && way != Way::Format || len == 2 && matches!(way, Way::Error | Way::ErrorDefaults) {
                            continue;
                        }
                        for (history, cachings) in [("uncached", &[false][..]), ("cached", &[true, true]), ("mixed", &[true, false, true])] {
                            if id == "const" && history != "uncached" || len == 3 && (history == "uncached") == (v == 0) || way.defaults() && history == "mixed" {
                                continue;
                            }
                            let case = format!("{id} {way:?} values {v} {history}, the command does {list:?}");
                            if l.skip(&case) {
                                continue;
                            }
                            l.state(&case);
                            let r = l.exec(&case, || {
                                let w = std::rc::Rc::new(World::new("en", false, history != "uncached" || !way.defaults()));
                                w.loc.command_registry().insert("re", re).expect("new command");
                                ACT_STRINGS.iter().for_each(|x| w.put("c", x.0, "en", x.1));
                                ACTS.with(|a| a.borrow_mut().0 = Some(std::rc::Rc::clone(&w)));
                                let mut got: Vec<(String, String)> = vec![];
                                for c in cachings.iter().chain(&[true]) {
                                    let last = got.len() == cachings.len();
                                    let c = if last && id == "const" { &false } else { c };
                                    let queue: std::collections::VecDeque<Act> = if last { Default::default() } else { list.iter().copied().collect() };
                                    let mut rest = queue.clone();
                                    let want = act_expected(Act::Ask(Kind::Format, id, v, None), &mut rest);
                                    let want = if matches!(way, Way::Nested | Way::NestedDefaults) { format!("({want})") } else { want };
                                    ACTS.with(|a| a.borrow_mut().1 = queue);
                                    let answer = catch(|| way.ask(&w, id, &act_values(v), *c));
                                    got.push(match answer {
                                        Ok(a) => (if want.contains('\u{1}') { "panic of the command".into() } else { format!("ok {want:?} en") }, printed(&a)),
                                        Err(p) if want.contains('\u{1}') && p.contains("the command") => ("panic".into(), "panic".into()),
                                        Err(p) => (format!("ok {want:?} en"), p),
                                    });
                                }
                                ACTS.with(|a| *a.borrow_mut() = Default::default());
                                got
                            });
                            match r {
                                Err(p) => {
                                    ACTS.with(|a| *a.borrow_mut() = Default::default());
                                    l.parity(&case, "panic");
                                    l.violation(&case, "no panic", p)
                                }
                                Ok(got) => {
                                    l.parity(&case, &got.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(" | "));
                                    l.outcome(history);
                                    if let Some((want, got)) = got.iter().find(|x| x.0 != x.1) {
                                        l.violation(&case, want, got);
                                    }
                                }
                            }
                        }
                    }
                }
            });
        }
    });
}
