//! C36: the build with the optional features `icu_extended` and `logging`.  Languages with extensions are only accepted
//! by this build; what is asked of all builds is compared by check.py.
use crate::engine::*;
use crate::fmt::{check_with, vals, V};
use crate::pat::*;
use crate::prov::{open, Db, Dir};
use crate::world::*;
use i18n_provider::LocalisationProviderTrait;
use i18n_utility::LanguageTagRegistry;
use icu_calendar::{types::Time, Date, DateTime};
use icu_datetime::options::length::{Date as DateLength, Time as TimeLength};
use icu_locid::Locale;
use std::sync::Arc;

/// A log of everything, that is written out and dropped.
struct Everything;
impl log::Log for Everything {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        struct Nowhere;
        impl std::fmt::Write for Nowhere {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = std::fmt::Write::write_fmt(&mut Nowhere, *r.args());
    }
    fn flush(&self) {}
}

pub fn log_everything() {
    let _ = log::set_boxed_logger(Box::new(Everything));
    log::set_max_level(log::LevelFilter::Trace);
}

const BASES: &[&str] = &["en", "en-ZA", "zh-Hant-TW", "und", "sl-nedis-rozaj", "AR_eg"];
const SUBTAGS: &[&str] = &["u", "nu", "thai", "ca", "buddhist", "hc", "x", "t", "a", "de", "m0", "true", "Latn"];

/// Every sequence of subtags after a language: accepted when ICU accepts it as a locale, and then in its canonical form.
fn registry(l: &mut Local, len: usize) {
    for base in BASES {
        for n in 0..=len {
            words(SUBTAGS.len(), n, |w| {
                if !l.mine() {
                    return;
                }
                let mut tag = base.to_string();
                w.iter().for_each(|i| {
                    tag.push('-');
                    tag.push_str(SUBTAGS[*i]);
                });
                let case = format!("register {tag}");
                if l.skip(&case) {
                    return;
                }
                l.state(&case);
                let r = l.exec(&case, || {
                    let reg = LanguageTagRegistry::new();
                    match reg.tag(&tag) {
                        Err(_) => "rejected".to_string(),
                        Ok(t) => {
                            let (a, b) = (reg.icu_language(&t), reg.tag(&tag).expect("again"));
                            let c = reg.tag(t.as_str()).expect("canonical");
                            let lists = format!("{:?} {:?}", reg.list().iter().map(|t| t.as_str().to_string()).collect::<Vec<_>>(), reg.list_deprecated().len());
                            format!("{} {a} {} {} {lists}", t.as_str(), RefCount::ptr_eq(&t, &b), RefCount::ptr_eq(&t, &c))
                        }
                    }
                });
                let want = match Locale::try_from_bytes(tag.as_bytes()) {
                    Err(_) => "rejected".to_string(),
                    Ok(x) => {
                        let x = x.to_string();
                        format!("{x} {x} true true {:?} {}", vec![&x], if x == tag { 0 } else { 1 })
                    }
                };
                l.outcome(if want == "rejected" { "rejected" } else { "registered" });
                match r {
                    Err(p) => l.violation(&case, want, p),
                    Ok(g) => {
                        l.expect(&case, &want, &g);
                    }
                }
            });
        }
    }
}

const EXTENSIONS: &[&str] = &[
    "", "-u-nu-thai", "-u-nu-latn", "-u-nu-arab", "-u-nu-deva", "-u-ca-buddhist", "-u-ca-japanese", "-u-ca-coptic-nu-thai", "-u-ca-islamic-civil", "-u-hc-h23",
    "-u-hc-h12", "-u-ca-iso-hc-h12-nu-latn", "-u-attr-nu-thai", "-x-private", "-u-nu-thai-x-ca-buddhist", "-t-de-u-nu-thai", "-t-de",
    // Neither a calendar nor a numbering system of that name.
    "-u-nu-nosuch",
];

/// Languages with extensions, in canonical form.
fn locales(thorough: bool) -> Vec<String> {
    let mut out = vec![];
    let bases = ["en", "ar-EG", "th", "fa-IR", "hi", "ja-JP", "zh-Hant-TW", "de-CH"];
    for b in &bases[..if thorough { 8 } else { 5 }] {
        for e in EXTENSIONS {
            let t = format!("{b}{e}");
            out.push(Locale::try_from_bytes(t.as_bytes()).expect("locale").to_string());
        }
    }
    out
}

fn moment(lang: &str, m: &Moment, d: Option<DateLength>, t: Option<TimeLength>, calendar: &str) -> Result<String, String> {
    let mut x: Locale = lang.parse().expect("locale");
    if !calendar.is_empty() {
        x.extensions.unicode.keywords.set(icu_locid::extensions::unicode::key!("ca"), calendar.parse().expect("calendar"));
    }
    date_time(&x.to_string(), m, d, t, None)
}

pub fn c36(e: &Arc<Engine>) {
    if !cfg!(feature = "extended") {
        eprintln!("C36 is about the build with the feature `extended`");
        std::process::exit(2);
    }
    let thorough = e.thorough();
    let len = if thorough { 6 } else { 5 };
    let langs = locales(thorough);
    e.bound(format!(
        "with features icu_extended and logging, everything logged: {} languages followed by every sequence of up to {len} of {} subtags; {} languages with extensions x 20 numbers x 3 signs, x 3 moments x 9 lengths x (none or {} calendars), x plural and ordinal; the script of 27 languages with each extension, asked for, as first default and as changed default; every set of up to 3 of 7 stored languages with extensions x 14 requests",
        BASES.len(),
        SUBTAGS.len(),
        langs.len(),
        CALENDARS.len()
    ));
    e.run(|l| {
        registry(l, len);
        let w = World::new("en", false, false);
        let date = Date::try_new_iso_date(2024, 2, 29).unwrap();
        let time = Time::try_new(13, 5, 6, 0).unwrap();
        let moments = [(Moment::Date(date), V::Date(date)), (Moment::Time(time), V::Time(time)), (Moment::DateTime(DateTime::new(date, time)), V::DateTime(DateTime::new(date, time)))];
        for lang in &langs {
            // Numbers.
            for n in [0i128, 1, 2, 3, 4, 5, 9, 10, 11, 21, 22, 99, 100, 101, 1000, 1234567, -1, -12345, i128::MAX, i128::MIN] {
                if !l.mine() {
                    continue;
                }
                let v = if n < 0 { V::Integer(n) } else { V::Unsigned(n as u128) };
                let f = number_of(&v).expect("number");
                let values = vals(&[("x", v)]);
                use icu_decimal::options::GroupingStrategy::*;
                use fixed_decimal::SignDisplay;
                for (o, s, g) in [("", SignDisplay::Auto, Auto), (" sign#always", SignDisplay::Always, Auto), (" group#never", SignDisplay::Auto, Never)] {
                    let want = try_decimal(lang, &f, s, g).map_or_else(Expect::Error, |x| Expect::Text(format!("n={x};")));
                    check_with(l, &w, &format!("n={{x decimal{o}}};"), lang, &values, &format!("x={n}"), &want);
                }
                for (o, ordinal) in [("plural", false), ("ordinal", true)] {
                    if ordinal && n < 0 {
                        continue;
                    }
                    let p = format!("{{x {o} zero#z one#o two#t few#f many#m other#r}}#{{z zero #}}{{o one #}}{{t two #}}{{f few #}}{{m many #}}{{r other #}}");
                    let want = try_decimal(lang, &f, SignDisplay::Auto, Auto).map_or_else(Expect::Error, |x| Expect::Text(format!("{} {x}", category(lang, &f, ordinal))));
                    check_with(l, &w, &p, lang, &values, &format!("x={n}"), &want);
                }
            }
            // Dates and times; the calendar of the pattern comes before the calendar of the language.
            let lengths = [("", None, None), (" date#full", Some(DateLength::Full), None), (" date#short", Some(DateLength::Short), None), (" time#short", None, Some(TimeLength::Short)), (" date#long time#medium", Some(DateLength::Long), Some(TimeLength::Medium))];
            for (o, d, t) in lengths {
                for ca in [""].iter().chain(CALENDARS) {
                    for (m, v) in &moments {
                        if !l.mine() {
                            continue;
                        }
                        let want = match moment(lang, m, d, t, ca) {
                            Ok(x) => Expect::Text(format!("({x})")),
                            Err(e) => Expect::Error(e),
                        };
                        let values = vals(&[("x", v.clone())]);
                        let c = if ca.is_empty() { String::new() } else { format!(" calendar#{ca}") };
                        for p in [format!("({{x date_time{o}{c}}})"), format!("({{x date_time{c}{o}}})")] {
                            check_with(l, &w, &p, lang, &values, &format!("{m:?}"), &want);
                        }
                    }
                }
            }
        }
        // The script does not depend on the extensions, however it is asked for.
        for base in ["en", "ar-EG", "th", "fa-IR", "zh-Hant-TW", "zh", "zh-TW", "az-Arab", "az", "az-IR", "sr-Latn", "sr-ME", "sr", "uz-Cyrl-UZ", "uz-AF", "pa-PK", "pa", "und-Arab", "und-IL", "und", "en-Arab", "ar-Latn-EG", "mn-Mong", "mn-CN", "ks-Deva-IN", "xx-Qaaa", "xx"] {
            for ext in EXTENSIONS {
                if !l.mine() {
                    continue;
                }
                let lang = Locale::try_from_bytes(format!("{base}{ext}").as_bytes()).expect("locale").to_string();
                let case = format!("script of {lang}");
                if l.skip(&case) {
                    continue;
                }
                l.state(&case);
                match l.exec(&case, || {
                    let show = |d: Option<i18n_utility::ScriptData>| format!("{:?}", d.map(|d| (d.category, d.directions, d.historic)));
                    let plain = show(w.loc.script_data_for_language_tag(&w.tag(base)));
                    let direct = show(w.loc.script_data_for_language_tag(&w.tag(&lang)));
                    let made = World::new(&lang, false, false);
                    let first = show(made.loc.script_data());
                    let changed = World::new("en", false, false);
                    changed.loc.defaults(Some(changed.tag(&lang)), None, None).map_err(|e| format!("{e:?}"))?;
                    Ok::<_, String>((plain, [direct, first, show(changed.loc.script_data())]))
                }) {
                    Err(p) => l.violation(&case, "no panic", p),
                    Ok(Err(e)) => l.violation(&case, "no error", e),
                    Ok(Ok((a, b))) => {
                        for b in b {
                            l.expect(&case, &a, &b);
                        }
                    }
                }
            }
        }
        // The provider: whole subtags, extensions included.
        let stored = ["en", "en-u-nu-thai", "en-ZA", "en-ZA-u-ca-buddhist", "en-ZA-u-ca-buddhist-nu-thai", "en-x-private", "fr"];
        let asked = [
            "en", "en-u-nu-thai", "en-u-nu-latn", "en-u-nu-thai-x-private", "en-ZA", "en-ZA-u-ca-buddhist", "en-ZA-u-ca-buddhist-nu-thai", "en-ZA-u-nu-thai", "en-x-private", "en-x-other", "en-US-u-nu-thai",
            "fr-u-nu-thai", "de-u-nu-thai", "en-t-fr",
        ];
        let dir = Dir::new(&format!("extended-{}", l.id));
        for mask in 0..1u32 << stored.len() {
            if mask.count_ones() > 3 || !l.mine() {
                continue;
            }
            let have: Vec<&str> = (0..stored.len()).filter(|i| mask & (1 << i) != 0).map(|i| stored[i]).collect();
            dir.clear();
            let mut db = Db::default().component("c", "fr");
            for t in &have {
                db.string("c", "i", t, &format!("string {t}"));
            }
            db.write(&dir.file("c.sqlite3"));
            for a in asked {
                let case = format!("stored={have:?} asked={a}");
                if l.skip(&case) {
                    continue;
                }
                l.state(&case);
                let r = l.exec(&case, || {
                    let p = open(&dir.0)?;
                    let t = p.tags.tag(a).map_err(|e| format!("{e:?}"))?;
                    let one = p.p.string("c", "i", &t).map_err(|e| format!("{e:?}"))?.map(|x| format!("{} {}", x.0, x.1.as_str()));
                    let exact = p.p.string_exact_match("c", "i", &t).map_err(|e| format!("{e:?}"))?.map(|x| format!("{} {}", x.0, x.1.as_str()));
                    Ok::<_, String>(format!("{one:?} {exact:?}"))
                });
                let show = |t: &str| format!("string {t} {t}");
                let mut t = a;
                let one = loop {
                    let mut near: Vec<&&str> = have.iter().filter(|h| **h == t || h.starts_with(&format!("{t}-"))).collect();
                    near.sort();
                    if let Some(x) = near.first() {
                        break Some(show(x));
                    }
                    match t.rsplit_once('-') {
                        None => break None,
                        Some((x, _)) => t = x,
                    }
                };
                let want = format!("{one:?} {:?}", have.iter().find(|h| **h == a).map(|x| show(x)));
                l.outcome(if one.is_some() { "found" } else { "not found" });
                match r {
                    Err(p) => l.violation(&case, want, p),
                    Ok(g) => {
                        l.expect(&case, &want, &g.unwrap_or_else(|e| e));
                    }
                }
            }
        }
    });
}
