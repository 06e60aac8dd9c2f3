//! C03: sequential histories of the language tag registry.
use crate::engine::*;
use i18n_utility::{LanguageTag, LanguageTagRegistry};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[cfg(not(feature = "sync"))]
use std::rc::Rc as RefCount;
#[cfg(feature = "sync")]
use std::sync::Arc as RefCount;

/// Spellings, with the canonical form according to BCP 47 case rules (None: malformed).  The expected forms are
/// written out here, not computed by the code under test.
const SPELLINGS: &[(&str, Option<&str>)] = &[
    ("en", Some("en")),
    ("EN", Some("en")),
    ("en-ZA", Some("en-ZA")),
    ("en_ZA", Some("en-ZA")),
    ("En-za", Some("en-ZA")),
    ("zh-Hant-TW", Some("zh-Hant-TW")),
    ("ZH_hANT_tw", Some("zh-Hant-TW")),
    ("sl-nedis-rozaj", Some("sl-nedis-rozaj")),
    ("sl_rozaj_nedis", Some("sl-nedis-rozaj")), // variants are put in order
    ("und", Some("und")),
    ("iw", Some("iw")), // well-formed, not replaced
    ("", None),
    ("hnfg_lku", None),
    ("en-", None),
    ("e", None),
    ("en ZA", None),
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Tag(usize),
    Icu(usize),
    /// The ICU language of a tag of another registry.
    Foreign(usize),
}

#[derive(Default, Clone)]
struct Model {
    tags: BTreeSet<String>,
    deprecated: BTreeMap<String, String>,
}

fn sorted(v: Vec<RefCount<LanguageTag>>) -> Vec<String> {
    let mut x: Vec<String> = v.iter().map(|t| t.as_str().to_string()).collect();
    x.sort();
    x
}

fn history(l: &mut Local, table: &[(&str, Option<&str>)], name: Option<String>, ops: &[Op]) {
    let case = name.unwrap_or_else(|| ops
        .iter()
        .map(|o| match o {
            Op::Tag(i) => format!("tag({:?})", table[*i].0),
            Op::Icu(i) => format!("icu({:?})", table[*i].0),
            Op::Foreign(i) => format!("foreign({:?})", table[*i].0),
        })
        .collect::<Vec<_>>()
        .join(" "));
    if l.skip(&case) {
        return;
    }
    l.state(&case);
    let r = l.exec(&case, || -> Result<String, (String, String)> {
        let reg = LanguageTagRegistry::new();
        let mut model = Model::default();
        let mut shared: BTreeMap<String, RefCount<LanguageTag>> = BTreeMap::new();
        let mut languages: BTreeMap<String, RefCount<_>> = BTreeMap::new();
        let other = LanguageTagRegistry::new();
        let mut log = String::new();
        for (step, op) in ops.iter().enumerate() {
            let (Op::Tag(i) | Op::Icu(i) | Op::Foreign(i)) = op;
            let (spelling, canonical) = table[*i];
            let foreign = matches!(op, Op::Foreign(_));
            let got = if foreign { other.tag(spelling) } else { reg.tag(spelling) };
            match (got, canonical) {
                (Err(_), None) => log.push('e'),
                (Ok(t), None) => return Err((format!("step {step}: an error for {spelling:?}"), t.as_str().to_string())),
                (Err(e), Some(c)) => return Err((format!("step {step}: {c}"), format!("error {e:?}"))),
                (Ok(t), Some(c)) => {
                    if t.as_str() != c {
                        return Err((format!("step {step}: {c}"), t.as_str().to_string()));
                    }
                    match shared.get(c) {
                        Some(x) if !foreign && !RefCount::ptr_eq(x, &t) => {
                            return Err((format!("step {step}: the shared instance of {c}"), "another instance".into()))
                        }
                        _ => {}
                    }
                    if !foreign {
                        shared.insert(c.to_string(), RefCount::clone(&t));
                        model.tags.insert(c.to_string());
                        if spelling != c {
                            model.deprecated.insert(spelling.to_string(), c.to_string());
                        }
                    }
                    if let Op::Icu(_) | Op::Foreign(_) = op {
                        let icu = reg.icu_language(&t);
                        let again = reg.icu_language(&t);
                        if icu.to_string() != c || again.to_string() != c || t.icu_language().to_string() != c {
                            return Err((format!("step {step}: ICU language {c}"), format!("{icu} {again} {}", t.icu_language())));
                        }
                        let first = languages.entry(c.to_string()).or_insert_with(|| RefCount::clone(&icu));
                        if !RefCount::ptr_eq(first, &icu) || !RefCount::ptr_eq(&icu, &again) {
                            return Err((format!("step {step}: the shared ICU language of {c}"), "another instance".into()));
                        }
                    }
                    log.push('t');
                }
            }
            let tags: Vec<String> = model.tags.iter().cloned().collect();
            let mut dep: Vec<String> = model.deprecated.values().cloned().collect();
            dep.sort();
            let mut all = [tags.clone(), dep.clone()].concat();
            all.sort();
            let got = (sorted(reg.list()), sorted(reg.list_deprecated()), sorted(reg.list_all()));
            if got != (tags.clone(), dep.clone(), all.clone()) {
                return Err((format!("step {step}: lists {tags:?} {dep:?} {all:?}"), format!("{:?} {:?} {:?}", got.0, got.1, got.2)));
            }
            for t in reg.list_all() {
                if !RefCount::ptr_eq(&t, &shared[t.as_str()]) {
                    return Err((format!("step {step}: lists hold the shared instances"), format!("another instance of {}", t.as_str())));
                }
            }
        }
        Ok(format!("{log} {}/{}", model.tags.len(), model.deprecated.len()))
    });
    match r {
        Err(p) => {
            l.parity(&case, "panic");
            l.violation(&case, "no panic", p)
        }
        Ok(Err((want, got))) => {
            l.parity(&case, &got);
            l.violation(&case, want, got)
        }
        Ok(Ok(class)) => {
            l.parity(&case, &class);
            l.outcome(&class)
        }
    }
}

pub fn c03(e: &Arc<Engine>) {
    let depth = if e.thorough() { 6 } else { 5 };
    e.bound(format!("every history of 1..={depth} requests over {} spellings, and of 1..=3 requests with and without the ICU accessor, also with tags of another registry; every tag language[-script][-region] of the exhaustive spelling set; registries of up to 361 tags with a further spelling each", SPELLINGS.len()));
    e.run(|l| {
        let n = SPELLINGS.len();
        for len in 1..=3 {
            words(3 * n, len, |w| {
                if l.mine() {
                    let ops: Vec<Op> = w.iter().map(|i| if *i < n { Op::Tag(*i) } else if *i < 2 * n { Op::Icu(*i - n) } else { Op::Foreign(*i - 2 * n) }).collect();
                    history(l, SPELLINGS, None, &ops);
                }
            });
        }
        for len in 4..=depth {
            words(n, len, |w| {
                if l.mine() {
                    let ops: Vec<Op> = w.iter().map(|i| Op::Tag(*i)).collect();
                    history(l, SPELLINGS, None, &ops);
                }
            });
        }
        // Registries of every size: distinct tags, a further spelling of each, all again in reverse.
        let letters: Vec<String> = (b'a'..=b't').filter(|c| *c != b'o').map(|c| (c as char).to_string()).collect();
        let names: Vec<(String, String)> = letters.iter().flat_map(|a| letters.iter().map(move |b| (format!("q{a}-Latn-Q{}", b.to_ascii_uppercase()), format!("q{a}_Latn_q{b}")))).collect();
        let many: Vec<(&str, Option<&str>)> = names.iter().map(|(a, _)| (a.as_str(), Some(a.as_str()))).chain(names.iter().map(|(a, b)| (b.as_str(), Some(a.as_str())))).collect();
        let all = names.len();
        let thorough = l.engine.thorough();
        for n in (1..=all).filter(|n| *n < 40 || thorough || n % 13 == 0 || landmarks(1, all).contains(n)) {
            for shape in 0..3 {
                if !l.mine() {
                    continue;
                }
                let first: Vec<usize> = match shape {
                    0 => (0..n).chain(all..all + n).collect(),
                    1 => (0..n).flat_map(|i| [all + i, i]).collect(),
                    _ => (0..n).collect(),
                };
                let ops: Vec<Op> = first.iter().chain(first.iter().rev()).map(|i| if shape == 2 { Op::Icu(*i) } else { Op::Tag(*i) }).collect();
                history(l, &many, Some(format!("size {n} shape {shape}")), &ops);
            }
        }
        // Every way to write one tag: each letter in either case and either separator.
        for base in ["en", "en-ZA", "zu-Latn", "zh-Hans-CN"] {
            let chars: Vec<char> = base.chars().collect();
            for m in 0..(1u32 << chars.len()) {
                if l.mine() {
                    let spelling: String = chars
                        .iter()
                        .enumerate()
                        .map(|(i, c)| if m >> i & 1 == 0 { *c } else if *c == '-' { '_' } else if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() })
                        .collect();
                    let case = format!("spelling {spelling}");
                    if l.skip(&case) {
                        continue;
                    }
                    l.state(&case);
                    let got = l.exec(&case, || {
                        let reg = LanguageTagRegistry::new();
                        let t = reg.tag(&spelling).map(|t| t.as_str().to_string()).unwrap_or("error".into());
                        format!("{t} {} {}", reg.list().len(), reg.list_deprecated().len())
                    });
                    let want = format!("{base} 1 {}", (spelling != base) as usize);
                    match got {
                        Err(p) => l.violation(&case, &want, p),
                        Ok(g) => {
                            l.expect(&case, &want, &g);
                        }
                    }
                }
            }
        }
    });
}
