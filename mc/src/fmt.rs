//! C05 to C14: pattern strings against the reference model in `pat`.
use crate::engine::*;
use crate::pat::*;
use crate::world::*;
use fixed_decimal::{FixedDecimal, SignDisplay};
use i18n_localiser::{FormatterError, LocaliserError, TreeError};
use i18n_utility::{LocalisationData, PlaceholderValue, TaggedString};
use icu_calendar::{types::Time, Date, DateTime};
use icu_decimal::options::GroupingStrategy;
use std::sync::Arc;

/// Languages with every kind of plural rule, digits, separators and calendars of the compiled CLDR data.
pub const LANGS: &[&str] = &[
    "en", "en-ZA", "de", "de-CH", "fr", "es", "es-MX", "it", "pt", "pt-PT", "nl", "af", "sv", "da", "nb", "fi", "et", "lv", "lt", "pl", "cs", "sk",
    "sl", "hr", "sr", "bs", "ru", "uk", "be", "bg", "mk", "ro", "hu", "el", "tr", "az", "kk", "he", "ar", "ar-EG", "ar-AE", "fa", "ur", "ps", "hi", "mr",
    "ne", "bn", "gu", "pa", "ta", "te", "kn", "ml", "si", "my", "km", "lo", "th", "vi", "id", "ms", "fil", "ja", "ko", "zh", "zh-Hant-TW", "cy", "ga",
    "gd", "br", "gv", "kw", "mt", "is", "sq", "hy", "ka", "sw", "am", "zu", "so", "yo", "ig", "ha", "lb", "gsw", "dsb", "hsb", "ksh", "naq", "iu", "se",
    "smn", "shi", "tzm", "lag", "ak", "lij", "sc", "ceb", "eo", "und", "sr-Latn", "en-001", "de-AT", "it-CH", "ca", "eu", "gl", "ast", "or", "as", "sd", "ky", "uz", "mn", "tk",
];

pub type V = PlaceholderValue;

pub fn s(x: &str) -> V {
    V::String(x.to_string())
}

pub fn vals(pairs: &[(&str, V)]) -> Values {
    pairs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()
}

pub fn desc(v: &Values) -> String {
    let mut x: Vec<String> = v.iter().map(|(k, v)| format!("{k}={}", show(v))).collect();
    x.sort();
    x.join(",")
}

/// Format `pattern` and compare with the model.  Returns the outcome.
pub fn check(l: &mut Local, w: &World, pattern: &str, lang: &str, values: &Values, vdesc: &str) -> bool {
    let want = expectation(pattern, lang, values);
    check_with(l, w, pattern, lang, values, vdesc, &want)
}

pub fn check_with(l: &mut Local, w: &World, pattern: &str, lang: &str, values: &Values, vdesc: &str, want: &Expect) -> bool {
    let case = format!("pattern={pattern:?} lang={lang} values=[{vdesc}]");
    if l.skip(&case) {
        return true;
    }
    l.state(&case);
    let got = match l.exec(&case, || w.pattern(pattern, lang, values)) {
        Err(p) => {
            l.parity(&case, "panic");
            l.violation(&case, format!("{want:?}"), p);
            return false;
        }
        Ok(x) => x,
    };
    l.parity(&case, &printed(&got));
    match (want, &got) {
        (Expect::Any(u), _) => {
            l.outcome(&format!("unspecified: {u}"));
            true
        }
        (Expect::Error(e), Err(k)) => {
            l.outcome(&format!("rejected: {}", if e.len() < 60 { e } else { k }));
            true
        }
        (Expect::Text(t), Ok((s, tag))) if s == t && tag == lang => {
            l.outcome("formatted");
            true
        }
        (want, got) => {
            l.violation(&case, format!("{want:?}"), printed(got));
            false
        }
    }
}

fn esc(c: char) -> String {
    c.escape_unicode().to_string()
}

/// A value of every type, and awkward ones of each.
pub fn all_values(w: &World) -> Vec<(&'static str, V)> {
    let tag = w.tag("fr");
    vec![
        ("string", s("v")),
        ("empty", s("")),
        ("pattern-like", s("{y}#`{`z``")),
        ("unicode", s(" é字😀\u{202e}\u{0} \n")),
        ("category", s("one")),
        ("other", s("other")),
        ("iso", s("2024-02-29T13:05:06")),
        ("number", s("-1234.50")),
        ("negative", V::Integer(-1234567)),
        ("i128min", V::Integer(i128::MIN)),
        ("i128max", V::Integer(i128::MAX)),
        ("zero", V::Unsigned(0)),
        ("one", V::Unsigned(1)),
        ("u128max", V::Unsigned(u128::MAX)),
        ("float", V::Float(1.5)),
        ("nan", V::Float(f64::NAN)),
        ("inf", V::Float(f64::NEG_INFINITY)),
        ("tiny", V::Float(5e-324)),
        ("huge", V::Float(1.7976931348623157e308)),
        ("minus0", V::Float(-0.0)),
        ("tagged", V::TaggedString(TaggedString::new("tg", &tag))),
        ("localised", V::Localised(RefCount::new("lo".to_string()), RefCount::clone(&tag))),
        ("tagged-like", V::TaggedString(TaggedString::new(" {y}#`\u{202e} é \n", &w.tag("ar-EG")))),
        ("tagged-own", V::TaggedString(TaggedString::new(" {y} ", &w.tag("en")))),
        ("tagged-empty", V::TaggedString(TaggedString::new("", &tag))),
        ("localised-like", V::Localised(RefCount::new(" {y}#`\u{202e} é \n".to_string()), w.tag("en"))),
        ("localised-other", V::Localised(RefCount::new(" {y} ".to_string()), w.tag("ar-EG"))),
        ("localised-empty", V::Localised(RefCount::new(String::new()), w.tag("en"))),
        ("data", V::LocalisationData(LocalisationData { component: "c".into(), identifier: "s".into(), values: None })),
        ("decimal", V::FixedDecimal(FixedDecimal::from(1234567i64).multiplied_pow10(-2))),
        ("decimal1.0", V::FixedDecimal(FixedDecimal::from(10i64).multiplied_pow10(-1))),
        ("decimal-0", V::FixedDecimal("-0".parse().unwrap())),
        ("datetime", V::DateTime(DateTime::try_new_iso_datetime(2024, 2, 29, 13, 5, 6).unwrap())),
        ("date", V::Date(Date::try_new_iso_date(-44, 3, 15).unwrap())),
        ("time", V::Time(Time::try_new(23, 59, 60, 999_999_999).unwrap())),
    ]
}

// ---------------------------------------------------------------------------------------------------------------

struct Context {
    prefix: &'static str,
    suffix: &'static str,
    tokens: &'static [&'static str],
    quick: usize,
    thorough: usize,
}

const RAW: &[&str] = &["{", "}", "`", "#", "a", " ", "!"];

fn contexts() -> Vec<Context> {
    let c = |prefix, suffix, tokens, quick, thorough| Context { prefix, suffix, tokens, quick, thorough };
    vec![
        c("", "", RAW, 7, 8),
        c("", "", &["{", "}", "`", "#", "a", "b", " ", "x", "é", "`#", "``", "{x}"], 5, 6),
        c("{", "}", RAW, 5, 6),
        c("{x", "}", RAW, 5, 6),
        c("{x ", "}", &["plural", "ordinal", "select", "decimal", "date_time", "PLURAL", "x", " ", "#", "other#a", "}", "!"], 4, 5),
        c("{x plural", "}#{a A}{b B #}", &["one", "other", "two", "few", "nine", " ", "#", "a", "b", "_", "é", "!", "{", "}", "`"], 4, 5),
        c("{x ordinal other#a", "}#{a A}{b B #}", &["one", "other", "few", " ", "#", "a", "b", "c", "!", "}"], 5, 6),
        c("{x select", "}#{a A}{b B}", &["one", "other", "v", " ", "#", "a", "b", "c", "_", "}"], 5, 6),
        c("{x plural other#b}#{a A}", "{b B #}", RAW, 5, 6),
        c("{x plural other#b}#", "{b B #}", RAW, 5, 6),
        c("{x plural other#b}#{b", "}", RAW, 6, 7),
        c("{x plural other#b}#{b ", "}", &["{", "}", "`", "#", "a", " ", "!", "{y}", "{x}", "{`#`}", "{#rec a}", "{#rec # x}"], 4, 5),
        c("{x select other#b}#{a A}{b ", "}{d D}", &["{y plural", "}", "#", " ", "other#a", "one#d", "other#b", "{y select", "{z}", "t"], 4, 5),
        c("{#rec", "}", RAW, 6, 7),
        c("{#", "}", &["rec", "fail", "none", "evil", "nil", " ", "#", "`", "x", "!", "}"], 5, 6),
        c("{x decimal", "}", &["sign", "group", "auto", "never", "always", "min2", "except_zero", "negative", " ", "#", "}", "x", "Auto"], 4, 5),
        c("{x decimal sign#", "}", &["auto", "never", "always", "min2", "except_zero", "negative", " group#", " sign#", " "], 4, 5),
        c("{x date_time", "}", &["date", "time", "calendar", "hour", "full", "short", "buddhist", "iso", "24", " ", "#", "x"], 4, 5),
        c("{x date_time date#", "}", &["full", "long", "medium", "short", "Full", "gregory", " time#", " calendar#", " hour#", " date#"], 3, 4),
        c("{`", "`}", RAW, 5, 6),
        c("{`", "", RAW, 6, 7),
        c("{x}", "", RAW, 6, 7),
        c("{x plural other#a}", "", &["{", "}", "`", "#", "a", " ", "{a ", "{x}", "{y}"], 5, 6),
        c("t#{a", "", RAW, 6, 7),
        c("t#{a {", "}}", RAW, 5, 6),
        // Whole clauses.
        c("{x ordinal", "}#{a A #}{b B}", &[" one#a", " two#b", " few#a", " other#b", " many#a", " zero#b", " nine#a", " One#a", "#", " "], 4, 5),
        c("{x plural", "}#{a A #}{b B}", &[" one#a", " two#b", " few#a", " other#b", " many#a", " zero#b", " nine#a", " other#_", "#", " "], 4, 5),
        c("{x select", "}#{a A}{b B}", &[" one#a", " v#b", " other#b", " V#a", " é1_#a", " v #b", "\tother#a", " other#c"], 4, 5),
        c("{x decimal", "}", &[" sign#auto", " sign#never", " sign#always", " sign#min2", " group#auto", " group#never", " group#min2", " group#always", " group#negative", " size#auto", " "], 3, 4),
        c("{x date_time", "}", &[" date#full", " date#short", " date#x", " time#short", " time#medium", " time#buddhist", " calendar#iso", " calendar#buddhist", " calendar#full", " hour#24", " zone#x", " "], 3, 4),
        c("", "", &["{x}", "{y}", "{x decimal}", "{y plural other#a}", "{x select other#b}", "#", "{a A}", "{b B {z}}", "{a {x}}", "t"], 5, 6),
        c("{x plural other#a}", "", &["#", "{a A}", "{b B}", "{a}", "{c {y}}", "{x A}", " ", "t", "{a #}"], 5, 6),
        c("{x select other#a}#{a ", "}{b B}", &["{y}", "{y plural", "{y select", "{y ordinal", "{y decimal", "{y date_time", "{#rec", "{`", "`}", " one#b", " other#b", " x", "#", "}", "{x}"], 4, 5),
        c("{x plural other#a}#{a ", "}{b B #}", &["#", "{y}", "{y plural other#b}", "{z ordinal one#b}", "{z select other#b}", "t", "`#", "{`#`}", "{#rec}"], 4, 5),
    ]
}

fn each_sequence(l: &mut Local, thorough: bool, mut f: impl FnMut(&mut Local, &str)) {
    let mut text = String::new();
    for c in contexts() {
        for len in 0..=(if thorough { c.thorough } else { c.quick }) {
            words(c.tokens.len(), len, |w| {
                if l.mine() {
                    text.clear();
                    text.push_str(c.prefix);
                    for i in w {
                        text.push_str(c.tokens[*i]);
                    }
                    text.push_str(c.suffix);
                    f(l, &text);
                }
            });
        }
    }
}

/// The same sequences, of at most `max` tokens.
pub fn sequences(l: &mut Local, max: usize, mut f: impl FnMut(&mut Local, &str)) {
    let mut text = String::new();
    for c in contexts() {
        for len in 0..=max.min(c.quick) {
            words(c.tokens.len(), len, |w| {
                if l.mine() {
                    text.clear();
                    text.push_str(c.prefix);
                    for i in w {
                        text.push_str(c.tokens[*i]);
                    }
                    text.push_str(c.suffix);
                    f(l, &text);
                }
            });
        }
    }
}

fn bound_sequences(e: &Engine) {
    for c in contexts() {
        e.bound(format!("every sequence of up to {} of {} tokens {:?} between {:?} and {:?}", if e.thorough() { c.thorough } else { c.quick }, c.tokens.len(), c.tokens, c.prefix, c.suffix));
    }
}

fn value_sets() -> Vec<(String, Values)> {
    let d = V::DateTime(DateTime::try_new_iso_datetime(2024, 2, 29, 13, 5, 6).unwrap());
    [
        vals(&[("x", s("v")), ("a", s("VA")), ("b", s("VB")), ("y", s("other")), ("z", s("VZ")), ("é", s("VE"))]),
        vals(&[("x", V::Unsigned(1)), ("a", s("VA")), ("y", V::Unsigned(2)), ("z", s("VZ"))]),
        vals(&[("x", d), ("a", V::Unsigned(7))]),
    ]
    .into_iter()
    .map(|v| (desc(&v), v))
    .collect()
}

pub fn c05(e: &Arc<Engine>) {
    bound_sequences(e);
    e.bound("each without values and with values of the placeholders, with caching off, and with caching twice; every value type in every keyword pattern with every option, in all languages; deep nesting, long and large strings up to 1 MiB".to_string());
    let thorough = e.thorough();
    bound_sizes(e);
    e.run(|l| {
        each_size(l, &[]);
        let sets = value_sets();
        let empty = Values::new();
        let mut w = World::new("en", false, false);
        let mut k = 0u64;
        let mut total = |l: &mut Local, pattern: &str, lang: &str, values: &Values, vd: &str, cached: bool| {
            let case = format!("pattern={pattern:?} lang={lang} values=[{vd}] caching={cached}");
            let case = if case.len() > 900 { format!("{}...({} bytes) lang={lang} values=[{vd}] caching={cached}", pattern.chars().take(60).collect::<String>(), pattern.len()) } else { case };
            if l.skip(&case) {
                return;
            }
            l.state(&case);
            if k % 20_000 == 19_999 {
                w = World::new("en", false, false);
            }
            k += 1;
            let id = format!("i{k}");
            let r = l.exec(&case, || {
                w.clear();
                w.put("c", &id, lang, pattern);
                let tag = w.tag(lang);
                let a = text(w.loc.format("c", &id, values, &tag, Some(true), Some(cached)));
                if cached {
                    let b = text(w.loc.format("c", &id, values, &tag, Some(true), Some(true)));
                    return (printed(&a), Some(printed(&b)));
                }
                (printed(&a), None)
            });
            match r {
                Err(p) => {
                    l.parity(&case, "panic");
                    l.violation(&case, "a string or an error", p)
                }
                Ok((a, _)) => {
                    l.parity(&case, &a);
                    l.outcome(if a.starts_with("ok") { "formatted" } else { "error" });
                }
            }
        };
        each_sequence(l, thorough, |l, p| {
            total(l, p, "en", &empty, "", false);
            total(l, p, "en", &sets[0].1, &sets[0].0, true);
        });
        // Every value type in every kind of pattern, in every language.
        let probe = World::new("en", false, false);
        let all = all_values(&probe);
        let mut pats: Vec<String> = vec!["{x}".into(), "{x plural one#a other#b}#{a #}{b #.#}".into(), "{x ordinal other#b}#{b #}".into(), "{x select one#a other#b}#{a A}{b B}".into(), "{#rec # x}".into(), "{#rec x}".into(), "{x select v#a}#{a A#}".into()];
        for sign in ["", " sign#auto", " sign#never", " sign#always", " sign#except_zero", " sign#negative"] {
            for group in ["", " group#auto", " group#never", " group#always", " group#min2"] {
                pats.push(format!("{{x decimal{sign}{group}}}"));
            }
        }
        for len in ["", "full", "long", "medium", "short"] {
            for tl in ["", "full", "long", "medium", "short"] {
                for ca in [""].iter().chain(CALENDARS) {
                    let o = |k: &str, v: &str| if v.is_empty() { String::new() } else { format!(" {k}#{v}") };
                    pats.push(format!("{{x date_time{}{}{}}}", o("date", len), o("time", tl), o("calendar", ca)));
                }
            }
        }
        let mut extra = all.clone();
        for (d, y) in [("year0", 0), ("year-9999", -9999), ("year99999", 99999), ("year-99999", -99999), ("year1", 1), ("year1600", 1600), ("year5000000", 5_000_000)] {
            extra.push((d, V::Date(Date::try_new_iso_date(y, 12, 31).unwrap())));
        }
        for (d, t) in [("iso-empty", ""), ("iso-T", "T"), ("iso-TT", "TT"), ("iso-dash", "-"), ("iso-dashes", "---"), ("iso-plus", "+"), ("iso-e", "é24"), ("iso-eT", "Té2:0"), ("iso-y", "99999999999"), ("iso-colon", "T::::"), ("iso-9", "99999999T999999.999"), ("iso-e2", "2é20-1-1"), ("iso-e3", "T1é"), ("iso-e4", "T11é"), ("iso-e5", "T11:é"), ("iso-e6", "20241é"), ("iso-Z", "TZ"), ("iso-n", "T12:00:00.99999999999999999999"), ("iso-max", "+2147483647-12-31"), ("iso-over", "+2147483648")] {
            extra.push((d, s(t)));
        }
        let langs: Vec<&str> = if thorough { LANGS.to_vec() } else { LANGS.iter().copied().step_by(7).chain(["und", "th", "ar-EG", "fa", "ja", "he"]).collect() };
        for p in &pats {
            for (d, v) in &extra {
                for lang in &langs {
                    if l.mine() {
                        let values = vals(&[("x", v.clone())]);
                        total(l, p, lang, &values, &format!("x={d}"), true);
                    }
                }
            }
        }
        // Size and depth.
        let n = if thorough { 200_000 } else { 50_000 };
        let mut big: Vec<String> = vec![];
        for unit in ["{", "}", "`", "#", "a", " ", "!", "{x}", "``", "{`", "`}", "{`a`}", "{#rec ", "{x plural ", "#{", "é", "\u{301}", "{a ", "`#", "{`a``b`}"] {
            big.push(unit.repeat(n));
            big.push(format!("{{x}}#{{a {}}}", unit.repeat(n)));
            big.push(format!("{{#rec `{}`}}", unit.repeat(n / 2)));
            big.push(format!("{}{{", unit.repeat(n)));
        }
        big.push((0..5000).map(|i| format!("{{x{i}}}")).collect());
        big.push(format!("{{x plural {}other#a}}#{{a A}}", "one#a ".repeat(10000)));
        big.push(format!("{{x decimal {}}}", "sign#auto ".repeat(10000)));
        // Chain of branches, each selecting the one before.
        for depth in [2usize, 10, 100, if thorough { 2000 } else { 300 }] {
            let mut p = String::from("{x select other#b0}#{b0 leaf}");
            let mut v = vec![("x".to_string(), s("v"))];
            for i in 1..depth {
                p.push_str(&format!("{{b{i} {{p{i} select other#b{}}}}}", i - 1));
                v.push((format!("p{i}"), s("v")));
            }
            p = p.replacen("other#b0}#", &format!("other#b{}}}#", depth - 1), 1);
            let values: Values = v.into_iter().collect();
            if l.mine() {
                total(l, &p, "en", &values, "all select", true);
            }
        }
        // References in a circle, to itself and to the main string.
        for p in [
            "{x select other#a}#{a {y select other#a}}", "{x select other#a}#{a {y select other#b}}{b {z select other#a}}", "{x select other#_}#{a A}", "{x plural other#_}#{a #}",
            "{x select other#a}#{a {y select other#_}}", "{x select other#_}#{_ {y select other#_}}", "{x ordinal other#a}#{a {y ordinal other#a} #}", "{x select other#_}", "{x select _#_ other#_}#{_ #}",
            "{_ select other#_}#{_ {_}}", "{_}", "{_ plural other#_}#{_ }",
        ] {
            for v in [vals(&[]), vals(&[("x", s("v")), ("y", s("v")), ("z", s("v")), ("_", s("_"))]), vals(&[("x", V::Unsigned(1)), ("y", V::Unsigned(1)), ("z", V::Unsigned(1)), ("_", V::Unsigned(1))])] {
                if l.mine() {
                    total(l, p, "en", &v, &desc(&v), true);
                }
            }
        }
        for p in &big {
            if l.mine() {
                total(l, p, "en", &sets[0].1, &sets[0].0, true);
                total(l, p, "en", &empty, "", false);
            }
        }
    });
}

/// Strings of the size `n` in each of the ways a string can grow, with the values they take.
pub fn sized(n: usize, round: usize) -> Vec<(&'static str, String, Values)> {
    let number = |i: usize| V::Unsigned([1u128, 2, 3, 4, 1234, 21][(i + round) % 6]);
    let numbers: Values = (0..n).flat_map(|i| [(format!("x{i}"), number(i)), (format!("t{i}"), s(&format!("T{}", i + round)))]).collect();
    let join = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    let kinds = ["plural", "ordinal"];
    let mut all = vec![
        ("placeholders", join(&|i| format!("{{t{i}}},")), numbers.clone()),
        ("decimals", join(&|i| format!("{{x{i} decimal sign#{}}} ", ["auto", "always", "except_zero"][i % 3])), numbers.clone()),
        ("selects side by side", format!("{}{}", join(&|i| format!("<{{x{i} {} one#a two#b other#c}}>", kinds[i % 2])), "#{a A #}{b # B}{c C}"), numbers.clone()),
        ("branches of each", format!("{}#{}", join(&|i| format!("{{x{i} {} one#a{i} other#b{i}}};", kinds[i % 2])), join(&|i| format!("{{a{i} a #}}{{b{i} # b}}"))), numbers.clone()),
        ("nested", format!("{{x0 plural one#b0 other#b0}}#{{b{n} end}}{}", join(&|i| { let i = n - 1 - i; format!("{{b{i} ({i} # {{x{} {} one#b{} other#b{}}} #)}}", i + 1, kinds[i % 2], i + 1, i + 1) })), (0..=n).map(|i| (format!("x{i}"), number(i))).collect()),
        ("number signs", format!("{{x0 plural one#a other#b}}#{{a {}}}{{b {}}}", join(&|i| format!("# {i} ")), join(&|i| format!("{i} #"))), numbers.clone()),
        ("escapes", format!("{}{{t0}}", join(&|i| ["``", "`#", "`{", "`}"][i % 4].to_string())), numbers.clone()),
        ("literals", join(&|i| format!("{{`{i}`}}{{`#{i}{{}}`}} ")), numbers.clone()),
        ("commands", join(&|i| format!("{{#rec x{i} `{i}`}}")), numbers.clone()),
        ("delayed commands", join(&|i| format!("{{#rec# x{i} y{i}}}.")), numbers.clone()),
        ("parameters", format!("{{#rec {}}}", join(&|i| format!(" {} `{i} x`", ["x", "p", "rec"][i % 3]))), numbers.clone()),
        ("delayed parameters", format!("{{#rec#{}}}!", join(&|i| format!(" x{i} `x{i}` n{i}"))), numbers.clone()),
        ("unused strings", format!("{{x0 plural other#u0}}#{}", join(&|i| format!("{{u{i} U{i} {{t{i}}}}}"))), numbers.clone()),
        ("white space", format!("{{x0{}plural{}other#a}}{}#{{a{}A}}", " ".repeat(n), "\n ".repeat(n), " t".repeat(n), "\t".repeat(n)), numbers.clone()),
        ("long names", format!("{{{0} plural other#{1}}}{{{2} decimal}}#{{{1} {1}}}", "x".repeat(n), "y".repeat(n), "é".repeat(n)), vals(&[(&"x".repeat(n), number(0)), (&"é".repeat(n), number(1))])),
        ("long text", format!("{0}{{t0}}{0}{{x0 plural other#a}}{0}#{{a {0}}}", "t\u{e9} ".repeat(n).trim()), numbers.clone()),
        ("long value", "<{x}>{y select other#a}#{a {z}}".to_string(), vals(&["x", "y", "z"].map(|k| (k, s(&format!("v\u{e9} {k}").repeat(n)))))),
        ("long literal", format!("{{`{0}`}}{{x0 plural other#a}}#{{a {{`{0}`}}}}", "l #{}".repeat(n)), numbers.clone()),
    ];
    let keys = join(&|i| format!(" k{i}#b{i}"));
    let texts = join(&|i| format!("{{b{i} B{i}}}"));
    for chosen in [0, n / 2, n - 1, n] {
        all.push(("keys", format!("{{x select{keys} other#o}}#{texts}{{o O}}"), vals(&[("x", s(&format!("k{chosen}")))])));
    }
    all
}

/// Every size of every way a string can grow, compared with the model.
fn each_size(l: &mut Local, kinds: &[&str]) {
    let w = World::new("en", false, false);
    let max = if l.engine.thorough() { 130 } else { 70 };
    for n in landmarks(max, 520) {
        if !l.mine() {
            continue;
        }
        for round in 0..2 {
            for (kind, p, values) in sized(n, round) {
                if kinds.is_empty() || kinds.contains(&kind) {
                    let want = if kinds.is_empty() { Expect::Any("no panic".into()) } else { expectation(&p, "en", &values) };
                    check_size(l, &w, kind, n, round, &p, &values, &want);
                }
            }
        }
    }
}

fn bound_sizes(e: &Engine) {
    e.bound(format!("every size 1..={} and around powers of two and round numbers up to 520 of each way a string can grow that concerns the property (placeholders, branches, nesting, number signs, keys, commands, parameters, white space, names, texts, literals, values)", if e.thorough() { 130 } else { 70 }));
}

fn check_size(l: &mut Local, w: &World, kind: &str, n: usize, round: usize, p: &str, values: &Values, want: &Expect) {
    let case = format!("size {n} of {kind}, values {round}");
    if l.skip(&case) {
        return;
    }
    l.state(&case);
    let got = match l.exec(&case, || w.pattern(p, "en", values)) {
        Err(e) => return l.violation(&case, format!("{want:?}"), e),
        Ok(x) => x,
    };
    l.parity(&case, &printed(&got));
    match (want, &got) {
        (Expect::Text(t), Ok((s, tag))) if s == t && tag == "en" => l.outcome(&format!("formatted: {kind}")),
        (Expect::Error(_), Err(_)) | (Expect::Any(_), _) => l.outcome(&format!("{kind} {want:?}").chars().take(100).collect::<String>()),
        _ => l.violation(&case, format!("{p}\n{want:?}"), printed(&got)),
    }
}

pub fn c06(e: &Arc<Engine>) {
    // (source, result)
    const PIECES: &[(&str, &str)] = &[
        ("a", "a"),
        (" ", " "),
        ("!", "!"),
        ("\n\t", "\n\t"),
        ("\r\n", "\r\n"),
        ("\r", "\r"),
        ("\u{a0}\u{2003}", "\u{a0}\u{2003}"),
        ("  ", "  "),
        ("é\u{301}", "é\u{301}"),
        ("字😀", "字😀"),
        ("\u{202b}“", "\u{202b}“"),
        ("``", "`"),
        ("`#", "#"),
        ("`{", "{"),
        ("`}", "}"),
        ("{``}", ""),
        ("{`x y`}", "x y"),
        ("{`{}#`}", "{}#"),
        ("{````}", "`"),
        ("{`a``b````c`}", "a`b``c"),
        ("{` \n`}", " \n"),
        ("{`{#rec}`}", "{#rec}"),
        ("{`é!“`}", "é!“"),
    ];
    let n = if e.thorough() { 5 } else { 4 };
    e.bound(format!("every sequence of up to {n} of {} text, escape and literal pieces in the main string, up to {} in a branch of plural and select and between placeholders; every Unicode scalar value as text, escaped neighbour, literal pattern, branch text and command literal", PIECES.len(), n - 1));
    bound_sizes(e);
    e.run(|l| {
        each_size(l, &["escapes", "literals", "long text", "long literal", "white space"]);
        let w = World::new("en", false, false);
        let one = vals(&[("x", V::Unsigned(1)), ("y", s("Y")), ("z", s("Z"))]);
        let od = desc(&one);
        for len in 1..=n {
            words(PIECES.len(), len, |ws| {
                if l.mine() {
                    let src: String = ws.iter().map(|i| PIECES[*i].0).collect();
                    let want: String = ws.iter().map(|i| PIECES[*i].1).collect();
                    check_with(l, &w, &src, "en", &one, &od, &Expect::Text(want.clone()));
                    if len < n {
                        // White space after the branch name separates it from the text.
                        let branch_want = {
                            let mut rest = ws;
                            let mut t = String::new();
                            while let Some((f, r)) = rest.split_first() {
                                let lead = PIECES[*f].0.trim_start_matches(pws);
                                if !lead.is_empty() {
                                    break;
                                }
                                rest = r;
                            }
                            for i in rest {
                                t.push_str(PIECES[*i].1);
                            }
                            // A first piece that starts with white space and continues.
                            if let Some(f) = rest.first() {
                                if PIECES[*f].0.starts_with(pws) {
                                    t = format!("{}{}", PIECES[*f].1.trim_start_matches(pws), &t[PIECES[*f].1.len()..]);
                                }
                            }
                            t
                        };
                        check_with(l, &w, &format!("<{{x plural one#b other#b}}>#{{b {src}}}"), "en", &one, &od, &Expect::Text(format!("<{branch_want}>")));
                        check_with(l, &w, &format!("{{y select other#b}}{src}#{{a A}} {{b {src}}}\n"), "en", &one, &od, &Expect::Text(format!("{branch_want}{want}")));
                        check_with(l, &w, &format!("{src}{{y}}{src}{{z}}{src}"), "en", &one, &od, &Expect::Text(format!("{want}Y{want}Z{want}")));
                    }
                }
            });
        }
        let none = Values::new();
        for c in 0..=0x10ffffu32 {
            let Some(c) = char::from_u32(c) else { continue };
            if !l.mine() {
                continue;
            }
            let t = if "{}`#".contains(c) { format!("`{c}") } else { c.to_string() };
            let lit = if c == '`' { "``".to_string() } else { c.to_string() };
            let src = format!("{t}`#{t}{{`{lit}`}}{t}");
            check_with(l, &w, &src, "en", &none, "", &Expect::Text(format!("{c}#{c}{c}{c}")));
            let src = format!("{{x plural other#b}}{t}#{{b ={t}=}}");
            check_with(l, &w, &src, "en", &one, &od, &Expect::Text(format!("={c}={c}")));
            let src = format!("{{#rec `{lit}{lit}`}}");
            check_with(l, &w, &src, "en", &none, "", &Expect::Text(format!("[S(rec)|S({c}{c})]")));
        }
        let _ = esc;
    });
}

pub fn c07(e: &Arc<Engine>) {
    e.bound("every assignment of 35 values of all 11 types, or none, to up to 3 placeholders of 7 kinds in 8 string shapes, with and without values for placeholders that do not exist; every Unicode scalar value inside a text value of each type, and those up to U+33FF (thorough: all) in the name of a placeholder, branch or command");
    let thorough = e.thorough();
    bound_sizes(e);
    e.run(|l| {
        each_size(l, &["placeholders",  "long value", "long names"]);
        let w = World::new("en", false, false);
        let all = all_values(&w);
        let kinds = ["{NAME}", "{NAME decimal}", "{NAME date_time}", "{NAME plural one#one other#many}", "{NAME ordinal other#many}", "{NAME select one#one other#many}", "{NAME select one#one}"];
        let tail = "#{one <#>}{many <many>}";
        // One placeholder of every kind with every value.
        for k in kinds {
            for shape in ["P", "aPb", "!P ", "P`#"] {
                for (d, v) in all.iter().map(|(d, v)| (*d, Some(v))).chain([("none", None)]) {
                    for extra in [false, true] {
                        for lang in ["en", "ar-EG"] {
                            if !l.mine() {
                                continue;
                            }
                            let mut values = Values::new();
                            if let Some(v) = v {
                                values.insert("x".into(), v.clone());
                            }
                            if extra {
                                values.insert("X".into(), s("no"));
                                values.insert("_".into(), s("no"));
                                values.insert("many".into(), s("no"));
                                values.insert("".into(), s("no"));
                            }
                            let p = format!("{}{}", shape.replace('P', &k.replace("NAME", "x")), if k.contains("one#") || k.contains("many") { tail } else { "" });
                            check(l, &w, &p, lang, &values, &format!("x={d},extra={extra}"));
                        }
                    }
                }
            }
        }
        // Three plain placeholders, all values (every combination).
        let names = ["x", "y", "z1é_"];
        let choices: Vec<(&str, Option<&V>)> = all.iter().map(|(d, v)| (*d, Some(v))).chain([("none", None)]).collect();
        let shapes: &[&str] = if thorough { &["{0}{1}{2}", "a{2} {0}!{1}", "{1}`#{2}`{{0}"] } else { &["a{2} {0}!{1}"] };
        for shape in shapes {
            words(choices.len(), 3, |ws| {
                if l.mine() {
                    let mut values = Values::new();
                    let mut p = shape.to_string();
                    let mut d = vec![];
                    for (i, c) in ws.iter().enumerate() {
                        p = p.replace(&format!("{{{i}}}"), &format!("{{{}}}", names[i]));
                        if let Some(v) = choices[*c].1 {
                            values.insert(names[i].into(), v.clone());
                        }
                        d.push(choices[*c].0);
                    }
                    check(l, &w, &p, "en", &values, &d.join(","));
                }
            });
        }
        // Two placeholders of every kind.
        let mut few: Vec<(&str, Option<&V>)> = choices.iter().filter(|c| ["string", "one", "zero", "date", "time", "none", "localised", "category", "float"].contains(&c.0)).cloned().collect();
        if thorough {
            few = choices.clone();
        }
        for a in kinds {
            for b in kinds {
                for va in &few {
                    for vb in &few {
                        if !l.mine() {
                            continue;
                        }
                        let mut values = Values::new();
                        if let Some(v) = va.1 {
                            values.insert("x".into(), v.clone());
                        }
                        if let Some(v) = vb.1 {
                            values.insert("y".into(), v.clone());
                        }
                        let p = format!("{} and {}{}", a.replace("NAME", "x"), b.replace("NAME", "y"), tail);
                        check(l, &w, &p, "en", &values, &format!("{},{}", va.0, vb.0));
                    }
                }
            }
        }
        // Any character in a name.
        let last = if thorough { 0x10ffff } else { 0x33ff };
        for c in 0..=last {
            let Some(c) = char::from_u32(c) else { continue };
            if l.mine() {
                for name in [format!("{c}"), format!("a{c}b")] {
                    let v = vals(&[(&name, s("V")), ("n", V::Unsigned(1))]);
                    for p in [format!("<{{{name}}}>"), format!("{{n plural one#{name} other#o}}#{{{name} one}}{{o other}}"), format!("{{#{name}}}"), format!("{{{name} select V#{name} other#o}}#{{{name} V}}{{o other}}")] {
                        check(l, &w, &p, "en", &v, &format!("{name:?}=V,n=1"));
                    }
                }
            }
        }
        // Any character in a value.
        for c in 0..=0x10ffffu32 {
            let Some(c) = char::from_u32(c) else { continue };
            if l.mine() {
                let t = format!("{c}{c} {c}");
                for (kind, v) in [("", s(&t)), (" tagged", V::TaggedString(TaggedString::new(t.as_str(), &w.tag("fr")))), (" localised", V::Localised(RefCount::new(t.clone()), w.tag("fr")))] {
                    check_with(l, &w, "a{x}b", "en", &vals(&[("x", v)]), &format!("x=U+{:04X}{kind}", c as u32), &Expect::Text(format!("a{t}b")));
                }
            }
        }
    });
}

pub fn c08(e: &Arc<Engine>) {
    bound_sequences(e);
    e.bound("each compared with the reference grammar, with string and number values");
    let thorough = e.thorough();
    bound_sizes(e);
    e.run(|l| {
        each_size(l, &["placeholders", "unused strings", "white space", "long names", "parameters", "nested"]);
        let w = World::new("en", false, false);
        let sets = value_sets();
        each_sequence(l, thorough, |l, p| {
            let dt = p.contains("date_time");
            check(l, &w, p, "en", &sets[if dt { 2 } else { 0 }].1, &sets[if dt { 2 } else { 0 }].0);
            if p.contains("plural") || p.contains("ordinal") || p.contains("decimal") {
                check(l, &w, p, "en", &sets[1].1, &sets[1].0);
            }
        });
    });
}

pub fn c09(e: &Arc<Engine>) {
    e.bound(format!("{} languages x cardinal and ordinal x every subset of the 5 optional categories x numbers of every type; select over every subset of 3 selectors with and without other; nesting of 2 and 3 patterns", LANGS.len()));
    let thorough = e.thorough();
    bound_sizes(e);
    e.run(|l| {
        each_size(l, &["selects side by side", "branches of each", "nested", "keys", "unused strings"]);
        let w = World::new("en", false, false);
        let cats = ["zero", "one", "two", "few", "many"];
        let mut nums: Vec<V> = (0..=(if thorough { 210u128 } else { 25 })).map(V::Unsigned).collect();
        nums.extend([30, 31, 42, 80, 99, 100, 101, 102, 103, 111, 112, 120, 200, 1000, 1001, 10000, 1000000, 1000001].map(V::Unsigned));
        let mut card = nums.clone();
        card.extend([0, 1, 2, 5, -1, -2, 11].map(V::Integer));
        card.extend([0.0, 0.1, 0.5, 1.0, 1.1, 1.5, 2.0, 2.5, 11.0].map(V::Float));
        for t in ["0", "0.0", "1.0", "1.00", "1.1", "1.3", "0.04", "2.0", "2.10", "3.02", "10.0", "1000000.0", "1e0"] {
            if let Ok(d) = t.parse::<FixedDecimal>() {
                card.push(V::FixedDecimal(d));
                card.push(s(t));
            }
        }
        let langs = LANGS;
        for lang in langs {
            for ordinal in [false, true] {
                for m in 0..32u32 {
                    if !thorough && m != 0 && m != 31 && m.count_ones() != 1 && m.count_ones() != 4 && m % 5 != 0 {
                        continue;
                    }
                    let mut p = format!("a {{x {}", if ordinal { "ordinal" } else { "plural" });
                    let mut tail = String::from("#{b_other other!}");
                    // "other" in the middle of the list
                    for (i, c) in cats.iter().enumerate() {
                        if i == 2 {
                            p.push_str(" other#b_other");
                        }
                        if m >> i & 1 == 1 {
                            p.push_str(&format!(" {c}#b_{c}"));
                            tail.push_str(&format!("{{b_{c} {c}!}}"));
                        }
                    }
                    p.push_str("} z");
                    p.push_str(&tail);
                    for v in if ordinal { &nums } else { &card } {
                        if l.mine() {
                            let n = number_of(v).expect("number");
                            let c = category(lang, &n, ordinal);
                            let shown = if cats.iter().position(|x| *x == c).is_some_and(|i| m >> i & 1 == 1) { c } else { "other" };
                            let values = vals(&[("x", v.clone())]);
                            check_with(l, &w, &p, lang, &values, &desc(&values), &Expect::Text(format!("a {shown}! z")));
                        }
                    }
                }
            }
        }
        // select
        let sel = ["a", "one", "é字", "other", "A1_b"];
        for m in 1..32u32 {
            let list: Vec<&str> = (0..5).filter(|i| m >> i & 1 == 1).map(|i| sel[i]).collect();
            let p = format!("<{{x select{}}}>#{}", list.iter().map(|c| format!(" {c}#B{c}")).collect::<String>(), list.iter().map(|c| format!("{{B{c} is {c}}}")).collect::<String>());
            for v in ["a", "A", "one", "é字", "other", "A1_b", "", "b", "Ba", "_", "a ", "zero"] {
                for t in 0..3 {
                    if l.mine() {
                        let val = match t {
                            0 => s(v),
                            1 => V::TaggedString(TaggedString::new(v, &w.tag("fr"))),
                            _ => V::Localised(RefCount::new(v.to_string()), w.tag("fr")),
                        };
                        let want = if list.contains(&v) {
                            Expect::Text(format!("<is {v}>"))
                        } else if list.contains(&"other") {
                            Expect::Text("<is other>".into())
                        } else {
                            Expect::Error("no branch".into())
                        };
                        let values = vals(&[("x", val)]);
                        check_with(l, &w, &p, "en", &values, &desc(&values), &want);
                    }
                }
            }
        }
        // Several patterns sharing branches, and nesting.
        let kinds = ["plural", "ordinal", "select"];
        for ka in kinds {
            for kb in kinds {
                for kc in kinds {
                    for na in 0..4usize {
                        for nb in 0..4usize {
                            for nc in 0..4usize {
                                for shape in 0..4 {
                                    if !l.mine() {
                                        continue;
                                    }
                                    let val = |k: &str, n: usize| if k == "select" { s(["one", "two", "few", "x"][n]) } else { V::Unsigned([1, 2, 3, 4][n]) };
                                    let p = match shape {
                                        // side by side, sharing branches
                                        0 => format!("{{a {ka} one#p two#q other#r}}/{{b {kb} one#q other#p}}/{{c {kc} few#r other#q}}#{{p P}}{{q Q}}{{r R}}"),
                                        // nested in a branch
                                        1 => format!("{{a {ka} one#r two#q other#p}}#{{p P}}{{q Q{{b {kb} one#p other#p}}}}{{r R{{c {kc} one#p few#q other#p}}.}}"),
                                        // three deep
                                        2 => format!("({{a {ka} one#r other#r}})#{{p P}}{{q [{{c {kc} two#p other#p}}]}}{{r <{{b {kb} one#q other#q}}>}}"),
                                        // with strings around
                                        _ => format!("{{t}}{{a {ka} one#p other#q}}{{u}}#{{o {{`o`}}}}{{p {{b {kb} one#o other#o}}}}{{q {{v}}{{c {kc} one#o other#o}}}}"),
                                    };
                                    let values = vals(&[("a", val(ka, na)), ("b", val(kb, nb)), ("c", val(kc, nc)), ("t", s("T")), ("u", s("U")), ("v", s("V"))]);
                                    check(l, &w, &p, "en", &values, &desc(&values));
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}

pub fn c10(e: &Arc<Engine>) {
    let n = if e.thorough() { 5 } else { 4 };
    e.bound(format!("every branch of up to {n} pieces out of 9 (number sign, text, escaped number sign, nested and sibling patterns) in two plural or ordinal patterns of one string, x nested branches, formatted three times in a row with changing numbers by one cached formatter; {} languages x plural and ordinal x {} numbers of every type", LANGS.len(), 79));
    bound_sizes(e);
    e.run(|l| {
        each_size(l, &["number signs", "nested", "selects side by side", "branches of each"]);
        // Numbers of every type and form, in every language.
        let mut w = World::new("en", false, false);
        let mut nums: Vec<V> = [0u128, 1, 2, 3, 5, 11, 12, 100, 999, 1000, 1001, 9999, 10000, 12345, 100000, 1234567, u64::MAX as u128 + 1, u128::MAX].map(V::Unsigned).to_vec();
        nums.extend([0i128, 1, -1, 2, -2, 999, -999, 1000, -1000, 12345, -12345, 1234567, -1234567, i128::MIN, i128::MAX].map(V::Integer));
        nums.extend([0.0, -0.0, 0.5, 1.5, -1.5, 1.0, 999.5, 1000.5, 1234.25, -1234.25, 12345.678, 1234567.125, 1e15, 1e21, 1e-7, 0.1, 1e300, 5e-324].map(V::Float));
        for t in ["0", "-0", "1", "1.0", "0.00", "1.50", "-1.50", "999.999", "1000.0", "1234.50", "-12345.600", "1234567.89", "00012", "1000000.000001"] {
            nums.push(V::FixedDecimal(t.parse().unwrap()));
            nums.push(s(t));
        }
        for lang in LANGS {
            for (kw, full) in [("plural", true), ("plural", false), ("ordinal", true), ("ordinal", false)] {
                for v in &nums {
                    if !l.mine() || (kw == "ordinal" && !matches!(v, V::Unsigned(_))) {
                        continue;
                    }
                    let more = if full { " zero#z one#y two#x few#w many#v" } else { "" };
                    let p = format!("{{x {kw}{more} other#u}}#{{z Z#}}{{y #Y}}{{x X # X}}{{w (#|#)}}{{v `##`#}}{{u U#{{x}}}}").replace("{x}", if matches!(v, V::String(_)) { "{x}" } else { "" });
                    let values = vals(&[("x", v.clone())]);
                    check(l, &w, &p, lang, &values, &desc(&values));
                }
            }
        }
        let pieces = ["#", "t", "`#", " ", "{i plural other#in one#none}", "{s}", "{j select v#sel other#none}", "{`#`}", "{#rec # x}"];
        let inner = ["#", "a # b", "# and #", "none"];
        w = World::new("en", false, true);
        let mut count = 0u64;
        for lang in ["en", "ar-EG", "hi"] {
            for len in 1..=n {
                words(pieces.len(), len, |ws| {
                    // The model rejects doubled signs and repeated placeholders; keep those out here (C08 has them).
                    let src: String = ws.iter().map(|i| pieces[*i]).collect();
                    for inn in inner {
                        if !src.contains("#in") && inn != "#" {
                            continue;
                        }
                        for kw in ["plural", "ordinal"] {
                            if lang != "en" && kw == "ordinal" {
                                continue;
                            }
                            if !l.mine() {
                                continue;
                            }
                            let p = format!("{{x {kw} one#b other#c}} | {{y plural one#c other#b}} | {{z ordinal other#d}}#{{none none}}{{in {inn}}}{{sel {{k plural other#in}}}}{{d (#)}}{{c one #}}{{b {src}}}");
                            let ast = match parse(&p) {
                                Parsed::Accept(a) => a,
                                _ => continue,
                            };
                            count += 1;
                            if count % 5000 == 0 {
                                w = World::new("en", false, true);
                            }
                            let id = format!("n{count}");
                            w.clear();
                            w.put("c", &id, lang, &p);
                            let tag = w.tag(lang);
                            let histories: [[(u128, u128, u128, u128, u128); 3]; 2] = [[(1, 5000, 3, 40, 6), (7, 2, 9, 10, 11), (1, 1, 1234567, 0, 12)], [(1000000, 1, 2, 1, 1), (0, 0, 0, 0, 0), (21, 1, 4, 5, 99)]];
                            for (h, hist) in histories.iter().enumerate() {
                                for (step, (x, y, z, i, k)) in hist.iter().enumerate() {
                                    let values = vals(&[("x", V::Unsigned(*x)), ("y", V::Unsigned(*y)), ("z", V::Unsigned(*z)), ("i", V::Unsigned(*i)), ("k", V::Unsigned(*k)), ("s", s("#")), ("j", s(if step == 1 { "o" } else { "v" }))]);
                                    let case = format!("pattern={p:?} lang={lang} history={h} step={step} values=[{}]", desc(&values));
                                    if l.engine.only.is_some() && l.skip(&case) {
                                        let _ = w.loc.format("c", &id, &values, &tag, None, Some(true));
                                        continue;
                                    }
                                    l.state(&case);
                                    let want = evaluate(&ast, lang, &values);
                                    let got = match l.exec(&case, || text(w.loc.format("c", &id, &values, &tag, None, Some(true)))) {
                                        Err(pn) => {
                                            l.parity(&case, "panic");
                                            l.violation(&case, format!("{want:?}"), pn);
                                            continue;
                                        }
                                        Ok(g) => g,
                                    };
                                    l.parity(&case, &printed(&got));
                                    match (&want, &got) {
                                        (Expect::Any(_), _) => {}
                                        (Expect::Text(t), Ok((g, _))) if t == g => l.outcome("formatted"),
                                        _ => l.violation(&case, format!("{want:?}"), printed(&got)),
                                    }
                                }
                            }
                        }
                    }
                });
            }
        }
    });
}

pub fn numbers() -> Vec<(String, V)> {
    let mut v: Vec<(String, V)> = vec![];
    for n in [0u128, 1, 9, 10, 99, 999, 1000, 1234, 9999, 10000, 12345, 123456, 1234567, 99999999, u64::MAX as u128, u64::MAX as u128 + 1, u128::MAX] {
        v.push((format!("u{n}"), V::Unsigned(n)));
    }
    for n in [0i128, 1, -1, 5, -5, -10, 1000, -1000, -9999, -10000, 12345, -1234567, i64::MAX as i128, i64::MIN as i128, i128::MAX, i128::MIN, i128::MIN + 1] {
        v.push((format!("i{n}"), V::Integer(n)));
    }
    for n in [0.0f64, -0.0, 1.0, -1.0, 0.1, -0.1, 1.5, 1234.5, -1234.5, 123456.789, 1e21, 1e-7, 5e-324, 1.7976931348623157e308, 0.30000000000000004, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        v.push((format!("f{n:e}"), V::Float(n)));
    }
    for t in ["0", "-0", "+0", "0.0", "-0.00", "1", "+1", "-1", "1.0", "1.50", "1234.50", "-1234.5678", "+12345", "0001234", "1000000", "-0.5", "12345678901234567890123456789012345678901234567890.01"] {
        v.push((format!("d{t}"), V::FixedDecimal(t.parse().expect("decimal"))));
        v.push((format!("t{t}"), s(t)));
    }
    v
}

/// Sign and plain digits of a decimal, written out from the number types' own text form.
fn plain(v: &V) -> Option<(bool, String)> {
    let t = match v {
        V::Unsigned(n) => n.to_string(),
        V::Integer(n) => n.to_string(),
        V::FixedDecimal(d) => d.to_string(),
        V::String(t) => t.parse::<FixedDecimal>().ok()?.to_string(),
        V::Float(n) if n.is_finite() => format!("{n}"),
        _ => return None,
    };
    let neg = t.starts_with('-');
    Some((neg, t.trim_start_matches(['-', '+']).to_string()))
}

pub fn c11(e: &Arc<Engine>) {
    e.bound(format!("{} numbers of all four types, and the same as text, x (no option or 5 signs) x (no option or 4 groupings) x both orders x {} languages; for English also against the written out digits; every text of up to {} of 10 characters as value; n times every power of ten from -30 to 30 as decimal, text and float, both signs, n up to {} and others", numbers().len(), if e.thorough() { LANGS.len() } else { LANGS.len() / 3 }, if e.thorough() { 7 } else { 6 }, if e.thorough() { 3000 } else { 300 }));
    let thorough = e.thorough();
    bound_sizes(e);
    e.run(|l| {
        each_size(l, &["decimals"]);
        let w = World::new("en", false, false);
        let signs = [("", SignDisplay::Auto), ("sign#auto", SignDisplay::Auto), ("sign#never", SignDisplay::Never), ("sign#always", SignDisplay::Always), ("sign#except_zero", SignDisplay::ExceptZero), ("sign#negative", SignDisplay::Negative)];
        let groups = [("", GroupingStrategy::Auto), ("group#auto", GroupingStrategy::Auto), ("group#never", GroupingStrategy::Never), ("group#always", GroupingStrategy::Always), ("group#min2", GroupingStrategy::Min2)];
        for (i, lang) in LANGS.iter().enumerate() {
            if !thorough && i % 3 != 0 && !["en-ZA", "hi", "es", "pl", "ar-EG"].contains(lang) {
                continue;
            }
            for (st, sg) in signs {
                for (gt, gr) in groups {
                    for order in [false, true] {
                        let opts = if order { [gt, st] } else { [st, gt] };
                        let o: String = opts.iter().filter(|x| !x.is_empty()).map(|x| format!(" {x}")).collect();
                        let p = format!("n={{x decimal{o}}};");
                        for (d, v) in numbers() {
                            if !l.mine() {
                                continue;
                            }
                            let values = vals(&[("x", v.clone())]);
                            let want = match number_of(&v) {
                                None => Expect::Error("not finite".into()),
                                Some(n) => Expect::Text(format!("n={};", decimal(lang, &n, sg, gr))),
                            };
                            let ok = check_with(l, &w, &p, lang, &values, &format!("x={d}"), &want);
                            // Exactness, without ICU.
                            if ok && *lang == "en" {
                                if let (Expect::Text(t), Some((neg, digits))) = (&want, plain(&v)) {
                                    let shown: String = t.trim_start_matches("n=").trim_end_matches(';').replace(',', "");
                                    let zero = digits.chars().all(|c| c == '0' || c == '.');
                                    let sign = match sg {
                                        SignDisplay::Never => "",
                                        SignDisplay::Always => if neg { "-" } else { "+" },
                                        SignDisplay::ExceptZero => if zero { "" } else if neg { "-" } else { "+" },
                                        SignDisplay::Negative => if neg && !zero { "-" } else { "" },
                                        _ => if neg { "-" } else { "" },
                                    };
                                    let want2 = format!("{sign}{digits}");
                                    if shown != want2 {
                                        l.violation(&format!("pattern={p:?} lang={lang} values=[x={d}]"), want2, shown);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        // Text values are read as decimal numbers: sign, digits with at most one point not at the end, nothing else.  What an
        // exponent does is left to the reader of ICU.
        const TEXT: &[char] = &['0', '1', '7', '.', '-', '+', 'e', ',', ' ', '٣'];
        for len in 0..=(if thorough { 7 } else { 6 }) {
            words(TEXT.len(), len, |ws| {
                if l.mine() {
                    let x: String = ws.iter().map(|i| TEXT[*i]).collect();
                    let bare = x.strip_prefix(['-', '+']).unwrap_or(&x);
                    let own = !bare.is_empty() && bare.chars().all(|c| c.is_ascii_digit() || c == '.') && bare.matches('.').count() <= 1 && !bare.ends_with('.');
                    let v = s(&x);
                    let read = number_of(&v);
                    if !x.contains('e') && own != read.is_some() {
                        return l.violation(&format!("text value {x:?}"), "the documented form of a number", format!("own reader {own}, ICU {}", read.is_some()));
                    }
                    for (p, sg) in [("{x decimal}", SignDisplay::Auto), ("{x decimal sign#except_zero}", SignDisplay::ExceptZero)] {
                        let want = match &read {
                            None => Expect::Error("not a number".into()),
                            Some(n) => Expect::Text(decimal("en", n, sg, GroupingStrategy::Auto)),
                        };
                        check_with(l, &w, p, "en", &vals(&[("x", v.clone())]), &format!("x={x:?}"), &want);
                    }
                    // Whether the number sign shows a plus sign of the number itself is not documented.
                    if x.starts_with('+') {
                        return;
                    }
                    let values = vals(&[("x", v)]);
                    check(l, &w, "{x plural one#o other#r}#{o one #}{r other #}", "en", &values, &format!("x={x:?}"));
                }
            });
        }
        for x in ["1e32767", "1e32768", "-1e-32768", "1e-32769", "1e99999999999999999999", "0e32767", "9e400", "inf", "NaN", "-", "", "0x10", "1_000", "１"] {
            for lang in ["en", "ar-EG", "hi"] {
                if l.mine() {
                    for p in ["{x decimal}", "{x decimal group#never sign#always}", "{x plural one#o other#r}#{o one #}{r other #}"] {
                        check(l, &w, p, lang, &vals(&[("x", s(x))]), &format!("x={x:?}"));
                    }
                }
            }
        }
        // Numbers with every number of digits before and after the decimal point, written out.
        let write = |t: &str| {
            let (neg, t) = t.strip_prefix('-').map_or((false, t), |t| (true, t));
            let (whole, part) = t.split_once('.').map_or((t, None), |(a, b)| (a, Some(b)));
            let mut g = String::from(if neg { "-" } else { "" });
            for (i, c) in whole.chars().enumerate() {
                if i > 0 && (whole.len() - i) % 3 == 0 {
                    g.push(',');
                }
                g.push(c);
            }
            part.into_iter().for_each(|p| {
                g.push('.');
                g.push_str(p);
            });
            g
        };
        let last = if thorough { 3000 } else { 300 };
        for m in -30i16..=30 {
            for n in (0..=last).chain([999_999, 123_456_789, 9_007_199_254_740_991, 9_007_199_254_740_993]) {
                if !l.mine() {
                    continue;
                }
                for sign in [1i64, -1] {
                    let d = FixedDecimal::from(sign * n).multiplied_pow10(m);
                    let t = d.to_string();
                    check_with(l, &w, "{x decimal}", "en", &vals(&[("x", V::FixedDecimal(d))]), &format!("x=d{t}"), &Expect::Text(write(&t)));
                    check_with(l, &w, "{x decimal}", "en", &vals(&[("x", s(&t))]), &format!("x=t{t}"), &Expect::Text(write(&t)));
                    let f: f64 = format!("{}e{m}", sign * n).parse().expect("float");
                    // Two shortest texts may be equally near to the number; either is the number.
                    let shortest = format!("{f}");
                    let other = number_of(&V::Float(f)).map_or(shortest.clone(), |d| d.to_string());
                    let t = if other.len() == shortest.len() && other.parse() == Ok(f) { other } else { shortest };
                    check_with(l, &w, "{x decimal}", "en", &vals(&[("x", V::Float(f))]), &format!("x=f{f}"), &Expect::Text(write(&t)));
                }
            }
        }
        // Numbers one by one, in English: grouping written out.
        let max = if thorough { 200_000u128 } else { 20_000 };
        for n in (0..max).chain((0..60).flat_map(|k| [1u128 << (2 * k), (1u128 << (2 * k)) + 1, (1u128 << (2 * k)).wrapping_sub(1)])) {
            if l.mine() {
                let t = n.to_string();
                let mut g = String::new();
                for (i, c) in t.chars().enumerate() {
                    if i > 0 && (t.len() - i) % 3 == 0 {
                        g.push(',');
                    }
                    g.push(c);
                }
                check_with(l, &w, "{x decimal}", "en", &vals(&[("x", V::Unsigned(n))]), &format!("x=u{n}"), &Expect::Text(g.clone()));
                check_with(l, &w, "{x decimal sign#always}", "en", &vals(&[("x", V::Integer(-(n as i128)))]), &format!("x=i-{n}"), &Expect::Text(format!("{}{g}", if n == 0 { '+' } else { '-' })));
            }
        }
    });
}

pub fn c12(e: &Arc<Engine>) {
    let thorough = e.thorough();
    e.bound(format!("dates, times and date-times x (default or 4) date lengths x (default or 4) time lengths x (none or {} calendars) x every order of the options x languages", CALENDARS.len()));
    e.run(|l| {
        let w = World::new("en", false, false);
        let lens = ["", "full", "long", "medium", "short"];
        let dl = |x: &str| match x {
            "full" => Some(icu_datetime::options::length::Date::Full),
            "long" => Some(icu_datetime::options::length::Date::Long),
            "medium" => Some(icu_datetime::options::length::Date::Medium),
            "short" => Some(icu_datetime::options::length::Date::Short),
            _ => None,
        };
        let tl = |x: &str| match x {
            "full" => Some(icu_datetime::options::length::Time::Full),
            "long" => Some(icu_datetime::options::length::Time::Long),
            "medium" => Some(icu_datetime::options::length::Time::Medium),
            "short" => Some(icu_datetime::options::length::Time::Short),
            _ => None,
        };
        let mut dates = vec![(2024, 2, 29), (1999, 12, 31), (2000, 1, 1), (1, 1, 1), (0, 6, 15), (-44, 3, 15), (12345, 7, 4), (1989, 1, 8), (2019, 5, 1)];
        if thorough {
            dates.extend((1..=12).map(|m| (2023, m, 28)));
            dates.extend([(1868, 10, 22), (1868, 10, 23), (1912, 7, 30), (1926, 12, 25), (622, 7, 16), (-5500, 1, 1)]);
        }
        let times = [(0, 0, 0, 0), (13, 5, 6, 0), (23, 59, 59, 999_999_999), (12, 0, 0, 1), (11, 59, 0, 0)];
        let mut moments: Vec<(Moment, V)> = vec![];
        for (y, m, d) in &dates {
            let x = Date::try_new_iso_date(*y, *m, *d).unwrap();
            moments.push((Moment::Date(x), V::Date(x)));
        }
        for (h, m, sec, n) in times {
            let x = Time::try_new(h, m, sec, n).unwrap();
            moments.push((Moment::Time(x), V::Time(x)));
            let (y, mo, d) = dates[(h as usize + m as usize) % dates.len()];
            let x = DateTime::new(Date::try_new_iso_date(y, mo, d).unwrap(), x);
            moments.push((Moment::DateTime(x.clone()), V::DateTime(x)));
        }
        let langs: Vec<&str> = if thorough { LANGS.to_vec() } else { vec!["en", "en-ZA", "de", "ja", "ar-EG", "th", "fa", "zh-Hant-TW", "am", "und", "hi"] };
        for lang in &langs {
            for d in lens {
                for t in lens {
                    for ca in [""].iter().chain(CALENDARS) {
                        let mut opts: Vec<String> = vec![];
                        for (k, v) in [("date", d), ("time", t), ("calendar", ca)] {
                            if !v.is_empty() {
                                opts.push(format!(" {k}#{v}"));
                            }
                        }
                        let mut perms: Vec<Vec<String>> = vec![];
                        permute(&opts, &mut vec![], &mut perms);
                        for (m, v) in &moments {
                            let want = match date_time(lang, m, dl(d), tl(t), if ca.is_empty() { None } else { Some(ca) }) {
                                Ok(x) => Expect::Text(format!("({x})")),
                                Err(e) => Expect::Error(e),
                            };
                            let values = vals(&[("x", v.clone())]);
                            for perm in &perms {
                                if l.mine() {
                                    check_with(l, &w, &format!("({{x date_time{}}})", perm.concat()), lang, &values, &desc(&values), &want);
                                }
                            }
                        }
                    }
                }
            }
        }
        // English, every day of some years, written out.
        let months = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
        for y in if thorough { 1900..2101 } else { 2023..2025 } {
            for (mi, mn) in months.iter().enumerate() {
                for d in 1..=31u8 {
                    let Ok(x) = Date::try_new_iso_date(y, mi as u8 + 1, d) else { continue };
                    if l.mine() {
                        let v = vals(&[("x", V::Date(x))]);
                        check_with(l, &w, "{x date_time date#long}", "en", &v, &format!("x={y}-{}-{d}", mi + 1), &Expect::Text(format!("{mn} {d}, {y}")));
                        check_with(l, &w, "{x date_time}", "en", &v, &format!("x={y}-{}-{d}", mi + 1), &Expect::Text(format!("{} {d}, {y}", &mn[..3])));
                        check_with(l, &w, "{x date_time date#short}", "en", &v, &format!("x={y}-{}-{d}", mi + 1), &Expect::Text(format!("{}/{d}/{:02}", mi + 1, y % 100)));
                    }
                }
            }
        }
        for h in 0..24u8 {
            for m in 0..60u8 {
                for sec in [0u8, 1, 30, 59] {
                    if l.mine() {
                        let v = vals(&[("x", V::Time(Time::try_new(h, m, sec, 0).unwrap()))]);
                        let h12 = if h % 12 == 0 { 12 } else { h % 12 };
                        let ap = if h < 12 { "AM" } else { "PM" };
                        check_with(l, &w, "{x date_time}", "en", &v, &format!("x={h}:{m}:{sec}"), &Expect::Text(format!("{h12}:{m:02}:{sec:02}\u{202f}{ap}")));
                        check_with(l, &w, "{x date_time time#short}", "en", &v, &format!("x={h}:{m}:{sec}"), &Expect::Text(format!("{h12}:{m:02}\u{202f}{ap}")));
                    }
                }
            }
        }
    });
}

fn permute(rest: &[String], acc: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    if rest.is_empty() {
        out.push(acc.clone());
        return;
    }
    for i in 0..rest.len() {
        let mut r = rest.to_vec();
        acc.push(r.remove(i));
        permute(&r, acc, out);
        acc.pop();
    }
}

fn leap(y: i32) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}
fn month_days(y: i32, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap(y) as u32,
        _ => 0,
    }
}

pub fn c13(e: &Arc<Engine>) {
    let thorough = e.thorough();
    e.bound("every month 0..=13 and day 0..=32 of the boundary years in every documented date form; every hour 0..=25, minute 0..=60 and second 0..=61 in every documented time form with and without fraction and time zone; combinations of date and time forms; every length and three languages");
    e.run(|l| {
        let w = World::new("en", false, false);
        let mut years: Vec<i32> = vec![0, 1, 4, 100, 400, 999, 1600, 1900, 1970, 1999, 2000, 2023, 2024, 2100, 9999, -1, -4, -44, -100, -400, -9999, 10000, 12345, 99999, 100000, -10000, -12345];
        if thorough {
            years.extend(1..=400);
            years.extend(2001..2100);
            years.extend(-400..0);
        }
        let forms = |y: i32| -> (String, bool) {
            // (year text, basic form possible)
            if (0..=9999).contains(&y) {
                (format!("{y:04}"), true)
            } else if (-9999..0).contains(&y) {
                (format!("-{:04}", -y), false)
            } else if y > 9999 {
                (format!("+{y:05}"), false)
            } else {
                (format!("-{:05}", -y), false)
            }
        };
        let ask = |l: &mut Local, text: &str, lang: &str, opt: &str, want: Expect| {
            let v = vals(&[("x", s(text))]);
            let p = format!("{{x date_time{opt}}}");
            check_with(l, &w, &p, lang, &v, &format!("x={text}"), &want);
        };
        let dlen = |o: &str| if o.contains("date#full") { Some(icu_datetime::options::length::Date::Full) } else if o.contains("date#short") { Some(icu_datetime::options::length::Date::Short) } else { None };
        let tlen = |o: &str| if o.contains("time#short") { Some(icu_datetime::options::length::Time::Short) } else { None };
        let shown = |lang: &str, m: Moment, o: &str| match date_time(lang, &m, dlen(o), tlen(o), None) {
            Ok(t) => Expect::Text(t),
            Err(e) => Expect::Error(e),
        };
        let opts = ["", " date#full time#short", " date#short"];
        for y in &years {
            let (yt, basic) = forms(*y);
            for m in 0..=13u32 {
                for d in 0..=32u32 {
                    if !l.mine() {
                        continue;
                    }
                    let exists = (1..=12).contains(&m) && d >= 1 && d <= month_days(*y, m);
                    for (o, lang) in [(opts[0], "en"), (opts[1], "en"), (opts[2], "de")] {
                        let want = |date: (u32, u32)| {
                            if (1..=12).contains(&date.0) && date.1 >= 1 && date.1 <= month_days(*y, date.0) {
                                shown(lang, Moment::Date(Date::try_new_iso_date(*y, date.0 as u8, date.1 as u8).expect("exists")), o)
                            } else {
                                Expect::Error("no such date".into())
                            }
                        };
                        ask(l, &format!("{yt}-{m:02}-{d:02}"), lang, o, want((m, d)));
                        if basic {
                            ask(l, &format!("{yt}{m:02}{d:02}"), lang, o, want((m, d)));
                        }
                        if d == 1 {
                            ask(l, &format!("{yt}-{m:02}"), lang, o, want((m, 1)));
                        }
                        if m == 1 && d == 1 {
                            ask(l, &yt, lang, o, want((1, 1)));
                        }
                    }
                    // With a time.
                    for (tt, t) in [("T13:05:06", (13, 5, 6)), ("T130506", (13, 5, 6)), ("T07", (7, 0, 0)), ("T23:59:59.999Z", (23, 59, 59)), ("T", (0, 0, 0)), ("T00:00-05:00", (0, 0, 0))] {
                        let want = if exists {
                            shown("en", Moment::DateTime(DateTime::new(Date::try_new_iso_date(*y, m as u8, d as u8).unwrap(), Time::try_new(t.0, t.1, t.2, 0).unwrap())), "")
                        } else {
                            Expect::Error("no such date".into())
                        };
                        ask(l, &format!("{yt}-{m:02}-{d:02}{tt}"), "en", "", want.clone());
                        if basic {
                            ask(l, &format!("{yt}{m:02}{d:02}{tt}"), "en", "", want);
                        }
                    }
                }
            }
        }
        let zones = ["", "Z", "+02:00", "-02:00", "+0530", "-0930"];
        let fractions = ["", ".0", ".000", ".999", ".001"];
        let seconds: Vec<u32> = if thorough { (0..=61).collect() } else { vec![0, 1, 9, 10, 30, 58, 59, 60, 61] };
        for h in 0..=25u32 {
            for m in 0..=60u32 {
                for sec in &seconds {
                    if !l.mine() {
                        continue;
                    }
                    let good_h = h < 24;
                    let want = |h: u32, m: u32, sec: u32, o: &str| -> Expect {
                        if h > 24 || m > 59 || sec > 60 {
                            return Expect::Error("no such time".into());
                        }
                        if h == 24 && (m > 0 || sec > 0) {
                            return Expect::Any("after the last instant of the day");
                        }
                        shown("en", Moment::Time(Time::try_new(h as u8, m as u8, sec as u8, 0).expect("exists")), o)
                    };
                    for o in ["", " time#short"] {
                        ask(l, &format!("T{h:02}:{m:02}:{sec:02}"), "en", o, want(h, m, *sec, o));
                        ask(l, &format!("T{h:02}{m:02}{sec:02}"), "en", o, want(h, m, *sec, o));
                        if *sec == 0 {
                            ask(l, &format!("T{h:02}:{m:02}"), "en", o, want(h, m, 0, o));
                            ask(l, &format!("T{h:02}{m:02}"), "en", o, want(h, m, 0, o));
                        }
                        if *sec == 0 && m == 0 {
                            ask(l, &format!("T{h:02}"), "en", o, want(h, 0, 0, o));
                        }
                    }
                    let few = thorough || m % 15 == 0 || m == 59;
                    if few && good_h {
                        for z in zones {
                            for f in fractions {
                                if z.is_empty() && f.is_empty() {
                                    continue;
                                }
                                ask(l, &format!("T{h:02}:{m:02}:{sec:02}{f}{z}"), "en", "", want(h, m, *sec, ""));
                                ask(l, &format!("T{h:02}{m:02}{sec:02}{f}{z}"), "en", "", want(h, m, *sec, ""));
                            }
                            if *sec == 0 {
                                ask(l, &format!("T{h:02}:{m:02}{z}"), "en", "", want(h, m, 0, ""));
                                ask(l, &format!("T{h:02}{m:02}{z}"), "en", "", want(h, m, 0, ""));
                            }
                            if *sec == 0 && m == 0 {
                                ask(l, &format!("T{h:02}{z}"), "en", "", want(h, 0, 0, ""));
                            }
                        }
                    }
                    // Date first.
                    if few {
                        let w2 = match want(h, m, *sec, "") {
                            Expect::Text(_) => shown("en", Moment::DateTime(DateTime::new(Date::try_new_iso_date(2024, 2, 29).unwrap(), Time::try_new(h as u8, m as u8, *sec as u8, 0).unwrap())), ""),
                            x => x,
                        };
                        ask(l, &format!("2024-02-29T{h:02}:{m:02}:{sec:02}"), "en", "", w2.clone());
                        ask(l, &format!("20240229T{h:02}{m:02}{sec:02}Z"), "en", "", w2.clone());
                        ask(l, &format!("20240229T{h:02}{m:02}{sec:02}+0100"), "en", "", w2);
                    }
                }
            }
        }
        // Texts that are no date or time at all.
        for t in ["20x4", "2024-", "2024-x", "2024-1x", "2024-02-x", "T1x", "T12:x0", "T12:00:x0", "2024-02-30", "2024-13-01T00:00", "2023-02-29T10:00", "2024-00", "T25", "T12:60", "20240230"] {
            if l.mine() {
                ask(l, t, "en", "", Expect::Error("not a date".into()));
            }
        }
    });
}

pub fn c14(e: &Arc<Engine>) {
    let n = if e.thorough() { 4 } else { 3 };
    e.bound(format!("5 commands (registered, failing, unregistered) x delay marker in its spellings x every sequence of up to {n} parameters out of 14 x values of every type, in the main string, in branches chosen and not, twice in one string; and how often the command runs"));
    bound_sizes(e);
    e.run(|l| {
        each_size(l, &["commands", "delayed commands", "parameters", "delayed parameters"]);
        let w = World::new("en", false, false);
        let all = all_values(&w);
        // (source, name of the parameter)
        let params: &[(&str, &str)] = &[("x", "x"), ("y", "y"), ("é1_", "é1_"), ("`a b`", "a b"), ("``", ""), ("`{}#`", "{}#"), ("`a``b`", "a`b"), ("`x`", "x"), ("rec", "rec"), ("`#`", "#"), ("` x `", " x "), ("`x y`", "x y"), ("X", "X"), ("`é\n`", "é\n")];
        for name in ["rec", "evil", "nil", "fail", "none", "Rec"] {
            for (dt, delay) in [("", false), ("#", true), (" #", true), ("  #", true)] {
                for len in 0..=n {
                    words(params.len(), len, |ws| {
                        if !l.mine() {
                            return;
                        }
                        let src: String = ws.iter().map(|i| format!(" {}", params[*i].0)).collect();
                        let cmd = format!("{{#{name}{dt}{src}}}");
                        for (vd, v) in all.iter().filter(|v| len <= 1 || ["string", "u128max", "pattern-like", "data"].contains(&v.0)) {
                            let mut values = vals(&[("x", v.clone()), ("q", V::Unsigned(1)), ("r", s("a")), ("a b", s("AB")), ("", s("EMPTY"))]);
                            if len > 0 && ws[0] == 1 {
                                values.remove("x");
                            }
                            let out: Result<String, ()> = match name {
                                "rec" => Ok(format!(
                                    "[{}]",
                                    [format!("S({name})")]
                                        .into_iter()
                                        .chain(ws.iter().map(|i| match values.get(params[*i].1) {
                                            Some(v) if delay => show(v),
                                            _ => format!("S({})", params[*i].1),
                                        }))
                                        .collect::<Vec<_>>()
                                        .join("|")
                                )),
                                "evil" => Ok("{x}#`` {#rec} ".into()),
                                "nil" => Ok(String::new()),
                                _ => Err(()),
                            };
                            let e = |f: &dyn Fn(&str) -> String| match &out {
                                Ok(t) => Expect::Text(f(t)),
                                Err(()) => Expect::Error("command".into()),
                            };
                            let d = format!("x={vd}");
                            let hidden = if delay || out.is_ok() { Expect::Text("C".into()) } else { Expect::Any("failing command in a branch not shown") };
                            // How often the command occurs, and how often where it is shown.
                            for (p, want, occurs, shown) in [
                                (cmd.clone(), e(&|t| t.to_string()), 1, 1),
                                (format!("a{cmd} {cmd}`#"), e(&|t| format!("a{t} {t}#")), 2, 2),
                                (format!("{{q plural other#b}}#{{b <{cmd}#>}}"), e(&|t| format!("<{t}1>")), 1, 1),
                                (format!("{{r select a#c other#b}}#{{b {cmd}}}{{c C}}"), hidden, 1, 0),
                            ] {
                                let before = calls();
                                if check_with(l, &w, &p, "en", &values, &d, &want) && matches!(want, Expect::Text(_)) && !l.skip(&format!("pattern={p:?} lang=en values=[{d}]")) {
                                    let n = calls() - before;
                                    if if delay { n != shown } else { n > occurs } {
                                        l.violation(&format!("pattern={p:?} lang=en values=[{d}]"), format!("the command runs {} times", if delay { shown } else { occurs }), format!("{n} times"));
                                    }
                                }
                            }
                        }
                    });
                }
            }
        }
    });
}

/// The kind of an error about names, and the names.
fn names_of(e: &FormatterError) -> Option<Fault> {
    use FormatterError as F;
    let f = |k: &'static str, v: &[&String]| Some(Fault(k, v.iter().map(|x| x.to_string()).collect()));
    match e {
        F::InvalidKeyword(a, b) => f("InvalidKeyword", &[a, b]),
        F::InvalidOption(a, b, c) => f("InvalidOption", &[a, b, c]),
        F::InvalidOptionValue(a, b, c) => f("InvalidOptionValue", &[a, b, c]),
        F::InvalidSelector(a, b, c) => f("InvalidSelector", &[a, b, c]),
        F::SelectorNamed(a, b, c) => f("SelectorNamed", &[a, b, c]),
        F::SelectorOther(a, b) => f("SelectorOther", &[a, b]),
        _ => None,
    }
}

/// C37: what the error of a rejected string says.
pub fn c37(e: &Arc<Engine>) {
    bound_sequences(e);
    e.bound("each with values of the placeholders; the error is compared with the first token at which reading the string one token longer at a time fails, and with every fault of the names in it; each accepted one without values; all once more after text of several characters to a grapheme".to_string());
    e.bound(format!("every sequence of up to {} of the four grammar characters and tokens of several characters to a grapheme", if e.thorough() { 6 } else { 5 }));
    let thorough = e.thorough();
    e.run(|l| {
        let w = World::new("en", false, false);
        let seg = icu_segmenter::GraphemeClusterSegmenter::new();
        let values = vals(&[("x", s("v")), ("a", s("VA")), ("y", V::Unsigned(2)), ("z", s("VZ"))]);
        let mut check = |l: &mut Local, p: &str| {
            let case = format!("pattern={p:?}");
            if l.skip(&case) {
                return;
            }
            l.state(&case);
            if !p.contains(['{', '}', '`', '#']) {
                return;
            }
            let want = why(p, |t| crate::lex::graphemes(&seg, t));
            let commands = p.contains("{#");
            let r = l.exec(&case, || {
                w.clear();
                w.put("c", "s", "en", p);
                let tag = w.tag("en");
                w.loc.format("c", "s", &values, &tag, Some(false), Some(false))
            });
            let r = match r {
                Err(p) => return l.violation(&case, "no panic", p),
                Ok(r) => r,
            };
            let got = match &r {
                Ok(_) => Why::Fine,
                Err(LocaliserError::Formatter(FormatterError::Tree(t))) => match t {
                    TreeError::EndedAbruptly => Why::Ended,
                    TreeError::InvalidToken(_, at, token) => Why::Token(*at, token.clone()),
                    TreeError::MultiNumberSign(at) => Why::SecondSign(*at),
                    TreeError::UniquePattern(x) => Why::Placeholder(x.clone()),
                    TreeError::UniqueNamed(x) => Why::Branch(x.clone()),
                    #[allow(unreachable_patterns)]
                    _ => return l.violation(&case, format!("{want:?}"), format!("{t:?}")),
                },
                Err(LocaliserError::Formatter(f)) => match names_of(f) {
                    Some(f) => Why::Names(vec![f], true),
                    // About a command or a value.
                    None => Why::Fine,
                },
                Err(_) => Why::Fine,
            };
            l.parity(&case, &match &got {
                // Which of several is reported is not fixed.
                Why::Names(..) => "names".to_string(),
                x => format!("{x:?}"),
            });
            let good = match (&want, &got) {
                (Why::Names(all, _), Why::Names(one, _)) => all.contains(&one[0]),
                // One about a command may be found first.
                (Why::Names(_, must), Why::Fine) => !must || (commands && r.is_err()),
                (Why::Somehow, _) => r.is_err(),
                (a, b) => a == b,
            };
            l.outcome(match &got {
                Why::Fine | Why::Somehow => if r.is_ok() { "formatted" } else { "error of a value or a command" },
                Why::Ended => "ended",
                Why::Token(..) => "token",
                Why::SecondSign(_) => "second number sign",
                Why::Placeholder(_) => "placeholder twice",
                Why::Branch(_) => "branch twice",
                Why::Names(v, _) => v[0].0,
            });
            if !good {
                l.violation(&case, format!("{want:?}"), match r {
                    Ok((s, _)) => format!("Ok({s:?})"),
                    Err(e) => format!("{e:?}"),
                });
            }
        };
        each_sequence(l, thorough, &mut check);
        // Positions are counted in graphemes, of the whole string.
        each_sequence(l, false, |l, p| check(l, &format!("e\u{301}\u{302}字\r\n{p}")));
        let tokens = ["{", "}", "`", "#", "e\u{301}", "\r\n", "字", "!", "x", "👨\u{200d}👩\u{200d}👧"];
        for len in 0..=(if thorough { 6 } else { 5 }) {
            words(tokens.len(), len, |w| {
                if l.mine() {
                    check(l, &w.iter().map(|i| tokens[*i]).collect::<String>());
                }
            });
        }
        // The placeholder that has no value is named.
        each_sequence(l, false, |l, p| {
            let Parsed::Accept(ast) = parse(p) else { return };
            let of = |parts: &[Part]| -> Vec<String> {
                parts
                    .iter()
                    .filter_map(|x| match x {
                        Part::Str(p) | Part::Decimal(p, ..) | Part::DateTime(p, ..) | Part::Plural { ph: p, .. } | Part::Select { ph: p, .. } => Some(p.clone()),
                        _ => None,
                    })
                    .collect()
            };
            let main = of(&ast.main);
            if main.is_empty() {
                return;
            }
            let case = format!("pattern={p:?} without values");
            if l.skip(&case) {
                return;
            }
            l.state(&case);
            let r = l.exec(&case, || {
                w.clear();
                w.put("c", "s", "en", p);
                w.loc.format("c", "s", &Values::new(), &w.tag("en"), Some(false), Some(false))
            });
            let good = match &r {
                Ok(Err(LocaliserError::Formatter(FormatterError::PlaceholderValue(_, n)))) => main.contains(n),
                Ok(Err(_)) => p.contains("{#"),
                _ => false,
            };
            l.outcome("value missing");
            if !good {
                l.violation(&case, format!("an error about one of {main:?}"), format!("{r:?}"));
            }
        });
    });
}
