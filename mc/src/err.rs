//! C22: errors, localised with the strings that the crates ship.
use crate::engine::*;
use crate::fmt::{vals, V};
use crate::world::*;
use i18n_lexer::{IcuError, LexerError};
use i18n_localiser::*;
use i18n_provider::ProviderError;
use i18n_provider_sqlite3::{LocalisationProviderSqlite3, ProviderSqlite3Error, SchemaError};
use i18n_utility::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// Kind of the error (empty: not named) and everything that it carries, with what its causes carry.
type Info = (String, Vec<String>);

fn nest(kind: &str, inner: Vec<String>) -> Info {
    (kind.to_string(), inner)
}

fn of_registry(e: &RegistryError) -> Info {
    match e {
        #[cfg(feature = "extended")]
        RegistryError::Locale(p) => nest("RegistryError::Locale", vec![p.to_string()]),
        #[cfg(not(feature = "extended"))]
        RegistryError::LanguageIdentifier(p) => nest("RegistryError::LanguageIdentifier", vec![p.to_string()]),
        #[allow(unreachable_patterns)]
        _ => nest("", vec![]),
    }
}

fn of_lexer(e: &LexerError) -> Info {
    nest(&format!("LexerError::{e:?}"), vec![])
}

fn of_icu(e: &IcuError) -> Info {
    nest(&format!("IcuError::{e:?}"), vec![])
}

fn of_tree(e: &TreeError) -> Info {
    match e {
        TreeError::Lexer(_) => nest("TreeError::Lexer", vec![]),
        TreeError::EndedAbruptly => nest("TreeError::EndedAbruptly", vec![]),
        TreeError::InvalidToken(s, p, t) => nest("TreeError::InvalidToken", vec![s.to_string(), p.to_string(), t.clone()]),
        TreeError::UniquePattern(i) => nest("TreeError::UniquePattern", vec![i.clone()]),
        TreeError::MultiNumberSign(p) => nest("TreeError::MultiNumberSign", vec![p.to_string()]),
        TreeError::UniqueNamed(i) => nest("TreeError::UniqueNamed", vec![i.clone()]),
        _ => nest("", vec![]),
    }
}

fn of_command(e: &CommandError) -> Info {
    match e {
        CommandError::Custom(_) => nest("CommandError::Custom", vec![]),
        CommandError::AlreadyExists(c) => nest("CommandError::AlreadyExists", vec![c.clone()]),
        CommandError::NotFound(c) => nest("CommandError::NotFound", vec![c.clone()]),
        CommandError::ParameterMissing(c, i) => nest("CommandError::ParameterMissing", vec![c.clone(), i.to_string()]),
        CommandError::InvalidType(c, i) => nest("CommandError::InvalidType", vec![c.clone(), i.to_string()]),
        _ => nest("", vec![]),
    }
}

fn of_provider(e: &ProviderError) -> Info {
    match e {
        ProviderError::ComponentNotFound(c) => nest("ProviderError::ComponentNotFound", vec![c.clone()]),
        ProviderError::LanguageTagRegistry(e) => nest("ProviderError::LanguageTagRegistry", of_registry(e).1),
        ProviderError::DefaultLanguage(c) => nest("ProviderError::DefaultLanguage", vec![c.clone()]),
        ProviderError::InvalidDefaultLanguage(c) => nest("ProviderError::InvalidDefaultLanguage", vec![c.clone()]),
        ProviderError::DefaultLanguageCount(c, l) => nest("ProviderError::DefaultLanguageCount", vec![c.clone(), l.clone()]),
        ProviderError::Custom(_) => nest("ProviderError::Custom", vec![]),
        _ => nest("", vec![]),
    }
}

fn of_schema(e: &SchemaError) -> Info {
    match e {
        SchemaError::Sqlite3(e) => nest("SchemaError::Sqlite3", vec![e.to_string()]),
        SchemaError::MissingTable(t) => nest("", vec![t.clone()]),
        SchemaError::Version(p, v) => nest("SchemaError::Version", vec![p.clone(), v.clone()]),
        SchemaError::MissingVersion(p) => nest("SchemaError::MissingVersion", vec![p.clone()]),
        SchemaError::MissingColumn(t, c) => nest("", vec![t.clone(), c.clone()]),
        SchemaError::ColumnProperty(t, c, p) => nest("", vec![t.clone(), c.clone(), p.clone()]),
        SchemaError::ColumnDefault(t, c, d) => nest("", vec![t.clone(), c.clone(), d.clone()]),
        SchemaError::ColumnMismatch(t, c) => nest("", vec![t.clone(), c.clone()]),
        #[allow(unreachable_patterns)]
        _ => nest("", vec![]),
    }
}

fn of_sqlite(e: &ProviderSqlite3Error) -> Info {
    match e {
        ProviderSqlite3Error::Io(e) => nest("ProviderSqlite3Error::Io", vec![e.to_string()]),
        ProviderSqlite3Error::Sqlite3(e) => nest("ProviderSqlite3Error::Sqlite3", vec![e.to_string()]),
        ProviderSqlite3Error::NotDirectory(p) => nest("ProviderSqlite3Error::NotDirectory", vec![p.display().to_string()]),
        ProviderSqlite3Error::NoSqlite3Files(p) => nest("ProviderSqlite3Error::NoSqlite3Files", vec![p.display().to_string()]),
        ProviderSqlite3Error::PathConversion => nest("ProviderSqlite3Error::PathConversion", vec![]),
        ProviderSqlite3Error::NotExists(p) => nest("ProviderSqlite3Error::NotExists", vec![p.display().to_string()]),
        ProviderSqlite3Error::SchemaInvalid(e) => nest("ProviderSqlite3Error::SchemaInvalid", of_schema(e).1),
        #[allow(unreachable_patterns)]
        _ => nest("", vec![]),
    }
}

fn of_formatter(e: &FormatterError) -> Info {
    use FormatterError::*;
    let (name, details) = match e {
        Localiser(e) => ("Localiser", of_localiser(e).1),
        Tree(e) => ("Tree", of_tree(e).1),
        Locale(e) => ("Locale", vec![e.to_string()]),
        Calendar(e) => ("Calendar", vec![e.to_string()]),
        ParseInt(e) => ("ParseInt", vec![e.to_string()]),
        Decimal(e) => ("Decimal", vec![e.to_string()]),
        DateTime(e) => ("DateTime", vec![e.to_string()]),
        PluralRules(e) => ("PluralRules", vec![e.to_string()]),
        FixedDecimal(e) => ("FixedDecimal", vec![e.to_string()]),
        Command(e) => ("Command", of_command(e).1),
        NoGrammar => ("NoGrammar", vec![]),
        InvalidRoot => ("InvalidRoot", vec![]),
        RetrieveChildren(n) => ("RetrieveChildren", vec![n.to_string()]),
        NodeNotFound(n) => ("NodeNotFound", vec![n.to_string()]),
        FirstChild(n) => ("FirstChild", vec![n.to_string()]),
        RetrieveNodeData(n) => ("RetrieveNodeData", vec![n.to_string()]),
        RetrieveNodeToken(n) => ("RetrieveNodeToken", vec![n.to_string()]),
        LastChild(n) => ("LastChild", vec![n.to_string()]),
        InvalidNode(n) => ("InvalidNode", vec![n.to_string()]),
        NoChildren(n) => ("NoChildren", vec![n.to_string()]),
        PatternNamed(i) => ("PatternNamed", vec![i.clone()]),
        PatternPart(i, n) => ("PatternPart", vec![i.clone(), n.to_string()]),
        InvalidOptionValue(v, o, k) => ("InvalidOptionValue", vec![v.clone(), o.clone(), k.clone()]),
        InvalidKeyword(k, p) => ("InvalidKeyword", vec![k.clone(), p.clone()]),
        SelectorNamed(n, s, i) => ("SelectorNamed", vec![n.clone(), s.clone(), i.clone()]),
        SelectorOther(k, p) => ("SelectorOther", vec![k.clone(), p.clone()]),
        InvalidOption(o, k, p) => ("InvalidOption", vec![o.clone(), k.clone(), p.clone()]),
        InvalidSelector(o, k, p) => ("InvalidSelector", vec![o.clone(), k.clone(), p.clone()]),
        NumberSignString(i) => ("NumberSignString", vec![i.to_string()]),
        SelectorsIndex(i) => ("SelectorsIndex", vec![i.to_string()]),
        SelectorsIndexNamed(i, n) => ("SelectorsIndexNamed", vec![i.clone(), n.to_string()]),
        PlaceholderValue(a, b) => ("PlaceholderValue", vec![a.clone(), b.clone()]),
        InvalidValue(a) => ("InvalidValue", vec![a.clone()]),
        NamedStringIdentifier(a) => ("NamedStringIdentifier", vec![a.clone()]),
        NoIcuProvider => ("NoIcuProvider", vec![]),
        NeverReached => ("NeverReached", vec![]),
        _ => return nest("", vec![]),
    };
    nest(&format!("FormatterError::{name}"), details)
}

fn of_localiser(e: &LocaliserError) -> Info {
    match e {
        LocaliserError::Registry(e) => nest("LocaliserError::Registry", of_registry(e).1),
        LocaliserError::Formatter(e) => nest("LocaliserError::Formatter", of_formatter(e).1),
        LocaliserError::Provider(e) => nest("LocaliserError::Provider", of_provider(e).1),
        // Whether fallback was used is said in words.
        LocaliserError::StringNotFound(c, i, l, _) => nest("LocaliserError::StringNotFound", vec![c.clone(), i.clone(), l.clone()]),
        LocaliserError::CacheEntry(c, i) => nest("LocaliserError::CacheEntry", vec![c.clone(), i.clone()]),
        LocaliserError::NeverReached => nest("LocaliserError::NeverReached", vec![]),
        #[allow(unreachable_patterns)]
        _ => nest("", vec![]),
    }
}

trait Shows: LocalisationTrait + std::fmt::Display {}
impl<T: LocalisationTrait + std::fmt::Display> Shows for T {}

/// The shipped strings: copies of the databases of all crates in one directory.
pub struct Shipped {
    pub loc: Localiser,
    pub tags: RefCount<LanguageTagRegistry>,
    /// (component, identifier) to tag to string
    pub strings: BTreeMap<(String, String), BTreeMap<String, String>>,
}

fn databases(dir: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).expect("directory of the repository").flatten() {
        let p = e.path();
        let name = e.file_name().to_string_lossy().to_string();
        if p.is_dir() && name != "target" && !name.starts_with('.') {
            if name == "l10n" {
                for f in std::fs::read_dir(&p).expect("l10n").flatten() {
                    if f.path().extension().is_some_and(|x| x == "sqlite3") {
                        out.push(f.path());
                    }
                }
            } else if !["tests", "examples", "benches"].contains(&name.as_str()) {
                databases(&p, out);
            }
        }
    }
}

impl Shipped {
    pub fn new(dir: &Path) -> Shipped {
        let mut found = vec![];
        databases(Path::new("/repo/crates"), &mut found);
        found.sort();
        let mut strings: BTreeMap<(String, String), BTreeMap<String, String>> = BTreeMap::new();
        for f in &found {
            let to = dir.join(f.file_name().expect("name"));
            std::fs::copy(f, &to).expect("copy");
            let c = rusqlite::Connection::open(&to).expect("open");
            let mut s = c.prepare("SELECT component, identifier, languageTag, string FROM pattern").expect("pattern");
            let rows = s.query_map([], |r| Ok((r.get::<_, String>(0)?, r.get::<_, String>(1)?, r.get::<_, String>(2)?, r.get::<_, String>(3)?))).expect("rows");
            for r in rows.flatten() {
                strings.entry((r.0, r.1)).or_default().insert(r.2, r.3);
            }
        }
        let tags = RefCount::new(LanguageTagRegistry::new());
        let p = LocalisationProviderSqlite3::try_new(dir.to_path_buf(), &tags, false).expect("shipped databases");
        let loc = Localiser::try_new(&crate::lex::icu(), &tags, Box::new(p), &commands(), true, false, "en-ZA").expect("localiser");
        Shipped { loc, tags, strings }
    }
}

/// Whether the kind of the error is named: as a word, not as the beginning of another one.
fn names(t: &str, kind: &str) -> bool {
    let part = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == ':');
    t.match_indices(kind).any(|(i, _)| {
        let after = &t[i + kind.len()..];
        !part(t[..i].chars().last()) && !part(after.chars().next().filter(|c| *c != ':' || after.starts_with("::")))
    })
}

/// A value of a type that cannot be named here, a plain enumeration: its first variant.
fn first<T>() -> T {
    unsafe { std::mem::zeroed() }
}

/// Text of a string that is shown whatever the values: before its first grammar character.
fn fixed_text(s: &str) -> &str {
    &s[..s.find(['{', '}', '`', '#']).unwrap_or(s.len())]
}

pub fn c22(e: &Arc<Engine>) {
    let thorough = e.thorough();
    e.bound(format!("every publicly constructible variant of the 10 error types x every combination of details out of {} texts and 4 numbers, alone and wrapped in every variant that carries a cause, up to depth {}; every error that a malformed pattern of the sequences of C08 (up to 4 tokens, thorough 5) or a wrong value produces, and its causes; x 6 requested languages x caching; with the strings of all crates", if thorough { 6 } else { 4 }, if thorough { 4 } else { 3 }));
    e.run(|l| {
        let dir = crate::prov::Dir::new(&format!("shipped-{}", l.id));
        let shipped = Shipped::new(&dir.0);
        let langs = ["en-ZA", "it", "en", "it-CH", "de", "zh-Hant-TW"];
        let tags: Vec<_> = langs.iter().map(|t| shipped.tags.tag(*t).expect("tag")).collect();
        let ask = |l: &mut Local, what: &str, err: &dyn Shows, info: Info| {
            let plain = err.to_string();
            let data = err.localisation_data();
            let case = format!("{what} described");
            if !l.skip(&case) {
                l.state(&case);
                if plain.trim().is_empty() {
                    l.violation(&case, "a description", "empty");
                } else if let Some(d) = info.1.iter().find(|d| !plain.contains(d.as_str())) {
                    l.violation(&case, format!("contains {d:?}"), plain.clone());
                }
            }
            for (lang, tag) in langs.iter().zip(&tags) {
                let case = format!("{what} in {lang}");
                if l.skip(&case) {
                    continue;
                }
                l.state(&case);
                let mut answers: Vec<String> = vec![];
                let r = l.exec(&case, || {
                    let mut v = vec![];
                    for c in [false, true, true] {
                        v.push(text(shipped.loc.format_localisation_data(&data, tag, Some(true), Some(c))));
                    }
                    // Everything exists in English: no need to fall back.
                    if lang.starts_with("en") {
                        v.push(text(shipped.loc.format_localisation_data(&data, tag, Some(false), Some(false))));
                    }
                    v
                });
                let r = match r {
                    Err(p) => {
                        l.violation(&case, "no panic", p);
                        continue;
                    }
                    Ok(r) => r,
                };
                for a in &r {
                    match a {
                        Ok((t, _)) => answers.push(t.clone()),
                        Err(x) => {
                            l.violation(&case, "a message", format!("{x}"));
                            break;
                        }
                    }
                }
                if answers.len() < r.len() {
                    l.parity(&case, "error");
                    continue;
                }
                l.parity(&case, &answers[0]);
                let t = &answers[0];
                if answers.iter().any(|x| x != t) {
                    l.violation(&case, "the same message, cached or not", format!("{answers:?}"));
                    continue;
                }
                if t.trim().is_empty() || !names(t, &info.0) {
                    l.violation(&case, format!("names {}", info.0), t.clone());
                    continue;
                }
                if let Some(d) = info.1.iter().find(|d| !t.contains(d.as_str())) {
                    l.violation(&case, format!("contains {d:?}"), t.clone());
                    continue;
                }
                // Each detail on its own, not one standing for another.
                let mut rest: Vec<&String> = info.1.iter().filter(|d| d.starts_with('<') || (d.len() > 4 && d.bytes().all(|b| b.is_ascii_digit()))).collect();
                rest.sort();
                let n = rest.len();
                rest.dedup();
                if rest.len() == n {
                    // And in its place: English has them in the order of the plain description.
                    if *lang == "en-ZA" && n > 1 {
                        let order = |t: &str| {
                            let mut o: Vec<(Option<usize>, &String)> = rest.iter().map(|d| (t.find(d.as_str()), *d)).collect();
                            o.sort();
                            o.into_iter().map(|x| x.1.clone()).collect::<Vec<_>>()
                        };
                        if order(t) != order(&plain) {
                            l.violation(&case, format!("in the order of {plain:?}"), t.clone());
                        }
                    }
                    for d in &rest {
                        if t.matches(d.as_str()).count() != 1 {
                            l.violation(&case, format!("{d:?} once"), t.clone());
                        }
                    }
                }
                // Messages with a translation are shown in it.
                let mut stack = vec![&data];
                while let Some(d) = stack.pop() {
                    if let Some(s) = shipped.strings.get(&(d.component.clone(), d.identifier.clone())) {
                        let base = lang.split('-').next().unwrap_or("");
                        let found = s.get(*lang).or_else(|| s.get(base)).or_else(|| if base == "en" { s.get("en-ZA") } else { None });
                        if let Some(s) = found.or_else(|| s.get("en-ZA")) {
                            if !t.contains(fixed_text(s)) {
                                l.violation(&case, format!("contains {:?}", fixed_text(s)), t.clone());
                                break;
                            }
                        }
                    }
                    for v in d.values.iter().flatten() {
                        if let V::LocalisationData(d) = v.1 {
                            stack.push(d);
                        }
                    }
                }
                l.outcome(&format!("{} {}", info.0, if t.contains('‘') { "shown" } else { "shown otherwise" }));
            }
        };
        // Whether the default language was tried is said, in both ways of showing the error.
        for (lang, tag) in langs.iter().zip(&tags) {
            if !l.mine() {
                continue;
            }
            let case = format!("fallback told apart in {lang}");
            if l.skip(&case) {
                continue;
            }
            l.state(&case);
            let err = |f| LocaliserError::StringNotFound("<one>".into(), "<two two>".into(), "de".into(), f);
            let r = l.exec(&case, || {
                let shown = |f| printed(&text(shipped.loc.format_localisation_data(&err(f).localisation_data(), tag, Some(true), Some(false))));
                (shown(true), shown(false), err(true).to_string(), err(false).to_string())
            });
            match r {
                Err(p) => l.violation(&case, "no panic", p),
                Ok((a, b, c, d)) => {
                    // Only that is different, and English says it in the words of the description.
                    let word = |x: &str, y: &str| {
                        let n = x.chars().zip(y.chars()).take_while(|(x, y)| x == y).count();
                        let x: Vec<char> = x.chars().collect();
                        let y: Vec<char> = y.chars().collect();
                        let m = x.iter().rev().zip(y.iter().rev()).take_while(|(x, y)| x == y).count().min(x.len().min(y.len()) - n);
                        (x[n..x.len() - m].iter().collect::<String>(), y[n..y.len() - m].iter().collect::<String>())
                    };
                    if a == b || c == d {
                        l.violation(&case, "different messages", format!("{a:?} {c:?}"));
                    } else if lang.starts_with("en") {
                        l.expect(&case, &format!("{:?}", word(&c, &d)), &format!("{:?}", word(&a, &b)));
                    }
                }
            }
        }
        // The same through the error itself.
        let ask_error = |l: &mut Local, what: &str, data: LocalisationData, shown: String| {
            let case = format!("{what} through format_error");
            if l.skip(&case) {
                return;
            }
            l.state(&case);
            let r = l.exec(&case, || {
                let a = printed(&text(shipped.loc.format_localisation_data(&data, &tags[1], Some(true), Some(false))));
                let d = Problem(data.clone());
                let b = printed(&text(shipped.loc.format_error(&d, &tags[1], Some(true), Some(false))));
                (a, b, shown.clone())
            });
            match r {
                Err(p) => l.violation(&case, "no panic", p),
                Ok((a, b, d)) => {
                    l.expect(&case, &a, &b);
                    if d.is_empty() {
                        l.violation(&case, "a description", "empty");
                    }
                }
            }
        };
        let all_texts = ["<one>", "<two two>", "<{three}#`>", "", "é字😀", "\u{202e}\n"];
        let texts = &all_texts[..if thorough { 6 } else { 4 }];
        let numbers = [0usize, 1, 12345, usize::MAX];
        macro_rules! go {
            ($e:expr, $f:ident) => {{
                let x = $e;
                if l.mine() {
                    let what = format!("{x:?}");
                    let info = $f(&x);
                    ask(l, &what, &x, info);
                    ask_error(l, &what, x.localisation_data(), x.to_string());
                }
            }};
        }
        // Every combination of up to three details.
        let t = |i: usize| texts[i].to_string();
        let registry: Vec<RegistryError> = ["a", "e", "en-x-", "1234567890", "en-Latn-Latn", ""]
            .iter()
            .filter_map(|t| LanguageTagRegistry::new().tag(*t).err())
            .collect();
        let mut formatter: Vec<FormatterError> = vec![];
        let mut tree: Vec<TreeError> = vec![];
        let mut command: Vec<CommandError> = vec![];
        let mut provider: Vec<ProviderError> = vec![];
        let mut localiser: Vec<LocaliserError> = vec![];
        let mut schema: Vec<SchemaError> = vec![];
        let mut sqlite: Vec<ProviderSqlite3Error> = vec![];
        use FormatterError as F;
        let sql = || RefCount::new(rusqlite::Error::InvalidColumnName("<sql>".into()));
        for f in [
            F::RetrieveChildren(first()),
            F::NodeNotFound(first()),
            F::FirstChild(first()),
            F::RetrieveNodeData(first()),
            F::RetrieveNodeToken(first()),
            F::LastChild(first()),
            F::InvalidNode(first()),
            F::NoChildren(first()),
        ] {
            formatter.push(f);
        }
        words(texts.len(), 3, |w| {
            let (a, b, c) = (t(w[0]), t(w[1]), t(w[2]));
            formatter.push(F::InvalidOptionValue(a.clone(), b.clone(), c.clone()));
            formatter.push(F::SelectorNamed(a.clone(), b.clone(), c.clone()));
            formatter.push(F::InvalidOption(a.clone(), b.clone(), c.clone()));
            formatter.push(F::InvalidSelector(a.clone(), b.clone(), c.clone()));
            for f in [false, true] {
                localiser.push(LocaliserError::StringNotFound(a.clone(), b.clone(), c.clone(), f));
            }
            schema.push(SchemaError::ColumnProperty(a.clone(), b.clone(), c.clone()));
            schema.push(SchemaError::ColumnDefault(a.clone(), b.clone(), c.clone()));
            if w[2] != 0 {
                return;
            }
            formatter.push(F::InvalidKeyword(a.clone(), b.clone()));
            formatter.push(F::SelectorOther(a.clone(), b.clone()));
            formatter.push(F::PlaceholderValue(a.clone(), b.clone()));
            provider.push(ProviderError::DefaultLanguageCount(a.clone(), b.clone()));
            localiser.push(LocaliserError::CacheEntry(a.clone(), b.clone()));
            schema.push(SchemaError::Version(a.clone(), b.clone()));
            schema.push(SchemaError::MissingColumn(a.clone(), b.clone()));
            schema.push(SchemaError::ColumnMismatch(a.clone(), b.clone()));
            if w[1] != 0 {
                return;
            }
            for n in numbers {
                formatter.push(F::PatternPart(a.clone(), n));
                formatter.push(F::SelectorsIndexNamed(a.clone(), n));
                command.push(CommandError::ParameterMissing(a.clone(), n));
                command.push(CommandError::InvalidType(a.clone(), n));
            }
            formatter.push(F::PatternNamed(a.clone()));
            formatter.push(F::InvalidValue(a.clone()));
            formatter.push(F::NamedStringIdentifier(a.clone()));
            tree.push(TreeError::UniquePattern(a.clone()));
            tree.push(TreeError::UniqueNamed(a.clone()));
            command.push(CommandError::AlreadyExists(a.clone()));
            command.push(CommandError::NotFound(a.clone()));
            provider.push(ProviderError::ComponentNotFound(a.clone()));
            provider.push(ProviderError::DefaultLanguage(a.clone()));
            provider.push(ProviderError::InvalidDefaultLanguage(a.clone()));
            schema.push(SchemaError::MissingTable(a.clone()));
            schema.push(SchemaError::MissingVersion(a.clone()));
            sqlite.push(ProviderSqlite3Error::NotDirectory(PathBuf::from(&a)));
            sqlite.push(ProviderSqlite3Error::NoSqlite3Files(PathBuf::from(&a)));
            sqlite.push(ProviderSqlite3Error::NotExists(PathBuf::from(&a)));
            sqlite.push(ProviderSqlite3Error::Io(RefCount::new(std::io::Error::other(a.clone()))));
        });
        for n in numbers {
            formatter.push(F::NumberSignString(n));
            formatter.push(F::SelectorsIndex(n));
            tree.push(TreeError::MultiNumberSign(n));
        }
        formatter.extend([F::NoGrammar, F::InvalidRoot, F::NoIcuProvider, F::NeverReached]);
        formatter.extend([
            F::Locale(icu_locid::ParserError::InvalidLanguage),
            F::Locale(icu_locid::ParserError::InvalidExtension),
            F::Calendar(icu_calendar::CalendarError::OutOfRange),
            F::Calendar(icu_calendar::CalendarError::Underflow { field: "<field>", min: -5 }),
            F::ParseInt("x".parse::<u8>().unwrap_err()),
            F::ParseInt("".parse::<u8>().unwrap_err()),
            F::Decimal(icu_decimal::DecimalError::Data(icu_provider::DataError::custom("<data>"))),
            F::DateTime(icu_datetime::DateTimeError::UnsupportedOptions),
            F::PluralRules(icu_plurals::Error::Data(icu_provider::DataError::custom("<data>"))),
            F::FixedDecimal(fixed_decimal::Error::Limit),
            F::FixedDecimal(fixed_decimal::Error::Syntax),
        ]);
        tree.push(TreeError::EndedAbruptly);
        tree.extend([LexerError::NoGrammar, LexerError::EmptyString].map(TreeError::Lexer));
        localiser.push(LocaliserError::NeverReached);
        schema.push(SchemaError::Sqlite3(sql()));
        sqlite.push(ProviderSqlite3Error::PathConversion);
        sqlite.push(ProviderSqlite3Error::Sqlite3(sql()));
        for e in &schema {
            go!(e.clone(), of_schema);
        }
        sqlite.extend(schema.into_iter().map(ProviderSqlite3Error::SchemaInvalid));
        for e in &registry {
            go!(*e, of_registry);
        }
        for e in [LexerError::NoGrammar, LexerError::EmptyString] {
            go!(e, of_lexer);
        }
        for e in [IcuError::Grapheme, IcuError::Syntax, IcuError::WhiteSpace] {
            go!(e, of_icu);
        }
        for e in &sqlite {
            go!(e.clone(), of_sqlite);
        }
        provider.extend(registry.iter().map(|e| ProviderError::LanguageTagRegistry(*e)));
        for e in &sqlite {
            let inner = of_sqlite(e).1;
            let p = ProviderError::Custom(RefCount::new(Box::new(e.clone())));
            let q = LocaliserError::Provider(p.clone());
            if l.mine() {
                ask(l, &format!("{p:?}"), &p, nest("ProviderError::Custom", inner.clone()));
                ask(l, &format!("{q:?}"), &q, nest("LocaliserError::Provider", inner));
            }
        }
        let custom = |e: Box<dyn LocalisationErrorTrait>| CommandError::Custom(RefCount::new(e));
        for e in &tree {
            go!(e.clone(), of_tree);
            let c = custom(Box::new(e.clone()));
            if l.mine() {
                ask(l, &format!("{c:?}"), &c, nest("CommandError::Custom", of_tree(e).1));
                let f = F::Command(c);
                ask(l, &format!("{f:?}"), &f, nest("FormatterError::Command", of_tree(e).1));
            }
            formatter.push(F::Tree(e.clone()));
        }
        for e in &command {
            go!(e.clone(), of_command);
            formatter.push(F::Command(e.clone()));
        }
        localiser.extend(registry.iter().map(|e| LocaliserError::Registry(*e)));
        for e in &provider {
            go!(e.clone(), of_provider);
            localiser.push(LocaliserError::Provider(e.clone()));
        }
        for round in 0..if thorough { 3 } else { 2 } {
            for e in &localiser {
                go!(e.clone(), of_localiser);
            }
            if round > 0 {
                formatter = localiser.drain(..).map(|e| F::Localiser(Box::new(e))).collect();
            }
            for e in &formatter {
                go!(e.clone(), of_formatter);
            }
            localiser = formatter.drain(..).map(LocaliserError::Formatter).collect();
        }
        // Errors that the localiser really returns, with their causes.
        let w = World::new("en", false, false);
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut harvest = |l: &mut Local, pattern: &str, values: &Values| {
            w.clear();
            w.put("c", "s", "en", pattern);
            let tag = w.tag("en");
            let Ok(Err(e)) = catch(|| w.loc.format("c", "s", values, &tag, Some(false), Some(false))) else { return };
            let key = format!("{e:?}");
            // The strings of that one are not shipped.
            if key.contains("Custom(Oops)") {
                return;
            }
            if !seen.insert(key.clone()) {
                return;
            }
            ask(l, &key, &e, of_localiser(&e));
            if let LocaliserError::Formatter(f) = &e {
                ask(l, &format!("{f:?}"), f, of_formatter(f));
                match f {
                    F::Tree(t) => ask(l, &format!("{t:?}"), t, of_tree(t)),
                    F::Command(c) => ask(l, &format!("{c:?}"), c, of_command(c)),
                    F::Localiser(e) => ask(l, &format!("{e:?}"), &**e, of_localiser(e)),
                    _ => {}
                }
            }
        };
        let values = vals(&[("x", V::String("v".into())), ("y", V::Unsigned(1))]);
        let dates = vals(&[("x", V::String("2024-02-30".into())), ("y", V::String("T99:99".into()))]);
        crate::fmt::sequences(l, if thorough { 5 } else { 4 }, |l, p| {
            harvest(l, p, &values);
            if p.contains("date_time") {
                harvest(l, p, &dates);
            }
        });
        let all = crate::fmt::all_values(&w);
        for p in ["{x}", "{x decimal}", "{x date_time}", "{x plural other#a}#{a A}", "{x ordinal one#a other#a}#{a #}", "{x select one#a}#{a A}", "{#none x}", "{#fail x}", "{#rec # x}", "{x date_time calendar#buddhist}"] {
            for (_, v) in &all {
                if l.mine() {
                    harvest(l, p, &vals(&[("x", v.clone())]));
                }
            }
            if l.mine() {
                harvest(l, p, &Values::new());
            }
        }
    });
}
