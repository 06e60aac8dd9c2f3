//! C23 to C31: the Sqlite3 provider, on generated repositories.
use crate::engine::*;
use crate::world::RefCount;
use i18n_provider::{LocalisationProviderTrait, ProviderError};
use i18n_provider_sqlite3::{verify_schema, LocalisationProviderSqlite3, ProviderSqlite3Error, SchemaError};
use i18n_utility::{LanguageTag, LanguageTagRegistry};
use rusqlite::Connection;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// The documented schema, as the shipped templates have it.  One entry per column: name, type, not null, primary key.
pub type Column = (&'static str, &'static str, bool, bool);
pub const TABLES: &[(&str, &[Column])] = &[
    ("component", &[("rowID", "INTEGER", true, true), ("identifier", "TEXT", true, false), ("languageTag", "TEXT", true, false), ("comment", "TEXT", false, false), ("added", "DATE", true, false)]),
    (
        "contributor",
        &[
            ("rowID", "INTEGER", true, true),
            ("component", "TEXT", true, false),
            ("languageTag", "TEXT", true, false),
            ("contributor", "TEXT", true, false),
            ("substituteFor", "TEXT", false, false),
            ("comment", "TEXT", false, false),
            ("verified", "DATE", false, false),
        ],
    ),
    ("language", &[("rowID", "INTEGER", true, true), ("tag", "TEXT", true, false), ("englishName", "TEXT", false, false), ("added", "DATE", true, false)]),
    ("languageData", &[("rowID", "INTEGER", true, true), ("component", "TEXT", true, false), ("languageTag", "TEXT", true, false), ("count", "INTEGER", true, false), ("ratio", "REAL", true, false)]),
    ("metadata", &[("rowID", "INTEGER", true, true), ("component", "TEXT", true, false), ("key", "TEXT", true, false), ("value", "TEXT", true, false), ("comment", "TEXT", false, false), ("verified", "DATE", false, false)]),
    (
        "pattern",
        &[
            ("rowID", "INTEGER", true, true),
            ("component", "TEXT", true, false),
            ("identifier", "TEXT", true, false),
            ("languageTag", "TEXT", true, false),
            ("string", "TEXT", true, false),
            ("comment", "TEXT", false, false),
            ("verified", "DATE", false, false),
        ],
    ),
];

fn column_sql(c: &Column) -> String {
    format!("{} {}{}{}", c.0, c.1, if c.3 { " PRIMARY KEY AUTOINCREMENT" } else { "" }, if c.2 { " NOT NULL" } else { "" })
}

fn standard() -> String {
    let mut s = String::new();
    for (t, cols) in TABLES {
        let extra = match *t {
            "component" => ", UNIQUE (identifier)",
            "contributor" => ", UNIQUE (component, languageTag, contributor)",
            "pattern" => ", UNIQUE (component, identifier, languageTag)",
            _ => "",
        };
        s += &format!("CREATE TABLE {t} ({}{extra});", cols.iter().map(column_sql).collect::<Vec<_>>().join(", "));
    }
    s
}

/// Content of one database file.
#[derive(Default, Clone, Debug)]
pub struct Db {
    /// component, default language
    pub components: Vec<(String, String)>,
    /// component, identifier, tag, string
    pub patterns: Vec<(String, String, String, String)>,
    /// component, tag, name
    pub contributors: Vec<(String, String, String)>,
}

impl Db {
    pub fn component(mut self, c: &str, tag: &str) -> Db {
        self.components.push((c.into(), tag.into()));
        self
    }
    pub fn string(&mut self, c: &str, id: &str, tag: &str, s: &str) {
        self.patterns.push((c.into(), id.into(), tag.into(), s.into()));
    }
    pub fn contributor(&mut self, c: &str, tag: &str, who: &str) {
        self.contributors.push((c.into(), tag.into(), who.into()));
    }
    pub fn write(&self, path: &Path) {
        let _ = std::fs::remove_file(path);
        let c = Connection::open(path).expect("create database");
        c.execute_batch("PRAGMA journal_mode=OFF; PRAGMA synchronous=OFF;").expect("pragma");
        let mut sql = String::from("BEGIN;");
        sql += &standard();
        sql += "INSERT INTO metadata(component,key,value) VALUES('application','schema_version','1.0');";
        c.execute_batch(&sql).expect("schema");
        self.fill(&c);
        c.execute_batch("COMMIT;").expect("commit");
    }
    pub fn fill(&self, c: &Connection) {
        let mut s = c.prepare("INSERT INTO component(identifier,languageTag,added) VALUES(?1,?2,'2024-01-01')").expect("sql");
        for x in &self.components {
            s.execute([&x.0, &x.1]).expect("component");
        }
        let mut s = c.prepare("INSERT INTO pattern(component,identifier,languageTag,string) VALUES(?1,?2,?3,?4)").expect("sql");
        for x in &self.patterns {
            s.execute([&x.0, &x.1, &x.2, &x.3]).expect("pattern");
        }
        let mut s = c.prepare("INSERT INTO contributor(component,languageTag,contributor) VALUES(?1,?2,?3)").expect("sql");
        for x in &self.contributors {
            s.execute([&x.0, &x.1, &x.2]).expect("contributor");
        }
    }
}

/// A scratch directory of one worker.
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new(name: &str) -> Dir {
        let base = crate::SCRATCH.get().cloned().unwrap_or_else(|| std::env::temp_dir().join(format!("mc-{}", std::process::id())));
        let d = base.join(name);
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch");
        Dir(d)
    }
    pub fn file(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
    pub fn clear(&self) {
        std::fs::remove_dir_all(&self.0).expect("clear");
        std::fs::create_dir_all(&self.0).expect("scratch");
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

const AIO: &str = "__all_in_one__.sqlite3";

pub struct Prov {
    pub tags: RefCount<LanguageTagRegistry>,
    pub p: LocalisationProviderSqlite3,
}

pub fn open(dir: &Path) -> Result<Prov, String> {
    let tags = RefCount::new(LanguageTagRegistry::new());
    match LocalisationProviderSqlite3::try_new(dir.to_path_buf(), &tags, false) {
        Ok(p) => Ok(Prov { tags, p }),
        Err(e) => Err(open_error(&e)),
    }
}

pub fn open_error(e: &ProviderSqlite3Error) -> String {
    match e {
        ProviderSqlite3Error::NotDirectory(p) => format!("NotDirectory({})", p.display()),
        ProviderSqlite3Error::NoSqlite3Files(p) => format!("NoSqlite3Files({})", p.display()),
        ProviderSqlite3Error::SchemaInvalid(_) => "SchemaInvalid".into(),
        ProviderSqlite3Error::Io(_) => "Io".into(),
        ProviderSqlite3Error::Sqlite3(_) => "Sqlite3".into(),
        e => format!("{e:?}"),
    }
}

pub fn error(e: &ProviderError) -> String {
    match e {
        ProviderError::ComponentNotFound(c) => format!("ComponentNotFound({c})"),
        ProviderError::DefaultLanguage(c) => format!("DefaultLanguage({c})"),
        ProviderError::InvalidDefaultLanguage(c) => format!("InvalidDefaultLanguage({c})"),
        ProviderError::DefaultLanguageCount(c, l) => format!("DefaultLanguageCount({c},{l})"),
        ProviderError::LanguageTagRegistry(_) => "LanguageTagRegistry".into(),
        e => format!("{e}"),
    }
}

type Found = Vec<(String, String)>;

fn found(r: Option<(String, RefCount<LanguageTag>)>) -> Found {
    r.into_iter().map(|(s, t)| (s, t.as_str().to_string())).collect()
}

impl Prov {
    pub fn tag(&self, t: &str) -> RefCount<LanguageTag> {
        self.tags.tag(t).expect("tag")
    }
    pub fn string(&self, c: &str, i: &str, t: &str) -> Result<Found, String> {
        self.p.string(c, i, &self.tag(t)).map(found).map_err(|e| error(&e))
    }
    pub fn exact(&self, c: &str, i: &str, t: &str) -> Result<Found, String> {
        self.p.string_exact_match(c, i, &self.tag(t)).map(found).map_err(|e| error(&e))
    }
    /// Sorted: the order of several strings is not specified.
    pub fn strings(&self, c: &str, i: &str, t: &str) -> Result<Found, String> {
        let mut v: Found = self.p.strings(c, i, &self.tag(t)).map_err(|e| error(&e))?.into_iter().map(|(s, t)| (s, t.as_str().to_string())).collect();
        v.sort();
        Ok(v)
    }
    pub fn identifier(&self, c: &str, i: &str) -> Result<String, String> {
        let d = self.p.identifier_details(c, i).map_err(|e| error(&e))?;
        let mut v: Vec<&str> = d.languages.iter().map(|t| t.as_str()).collect();
        v.sort();
        Ok(format!("{v:?} default {}", d.default.as_str()))
    }
    pub fn component(&self, c: &str) -> Result<String, String> {
        let d = self.p.component_details(c).map_err(|e| error(&e))?;
        Ok(component_text(&d))
    }
    pub fn repository(&self) -> Result<String, String> {
        let d = self.p.repository_details().map_err(|e| error(&e))?;
        Ok(repository_text(&d))
    }
}

pub fn component_text(d: &i18n_provider::ComponentDetails) -> String {
    let mut v: Vec<String> = d
        .languages
        .iter()
        .map(|(t, x)| {
            let mut c = x.contributors.clone();
            c.sort();
            format!("{} {} {} {c:?}", t.as_str(), x.count, x.ratio)
        })
        .collect();
    v.sort();
    format!("{v:?} default {} total {}", d.default.as_str(), d.total_strings)
}

pub fn repository_text(d: &i18n_provider::RepositoryDetails) -> String {
    // The contributors of a single language are not filled in at this level.
    let mut v: Vec<String> = d.languages.iter().map(|(t, x)| format!("{} {} {}", t.as_str(), x.count, x.ratio)).collect();
    v.sort();
    let mut c = d.components.clone();
    c.sort();
    let mut n = d.contributors.clone();
    n.sort();
    format!("{v:?} default {:?} total {} components {c:?} contributors {n:?}", d.default.as_ref().map(|t| t.as_str().to_string()), d.total_strings)
}

// ---------------------------------------------------------------------------------------------------------------
// Lookup: C23, C24, C25

fn extends(tag: &str, of: &str) -> bool {
    tag == of || (tag.len() > of.len() && tag.starts_with(of) && tag.as_bytes()[of.len()] == b'-')
}

fn shortened(tag: &str) -> Vec<&str> {
    let mut v = vec![tag];
    while let Some(i) = v[v.len() - 1].rfind('-') {
        let t = &tag[..i];
        v.push(t);
    }
    v
}

/// All strings of one file for a request, by the documented search.
fn search(stored: &[(String, String)], request: &str) -> Vec<(String, String)> {
    for t in shortened(request) {
        let mut m: Vec<(String, String)> = stored.iter().filter(|x| extends(&x.1, t)).cloned().collect();
        if !m.is_empty() {
            m.sort();
            return m;
        }
    }
    vec![]
}

/// Which tag of `search` a request for one string must return: the exact one at the level that matched, else any.
fn one(stored: &[(String, String)], request: &str) -> (Vec<(String, String)>, bool) {
    for t in shortened(request) {
        let m: Vec<(String, String)> = stored.iter().filter(|x| extends(&x.1, t)).cloned().collect();
        if let Some(x) = m.iter().find(|x| x.1 == t) {
            return (vec![x.clone()], true);
        }
        if !m.is_empty() {
            return (m, true);
        }
    }
    (vec![], false)
}

struct Family {
    stored: Vec<&'static str>,
    requests: Vec<&'static str>,
}

fn families(thorough: bool) -> Vec<Family> {
    let mut v = vec![
        Family { stored: vec!["en", "en-ZA", "en-GB-oxendict", "enm", "fr"], requests: vec!["en", "en-ZA", "en-GB", "en-GB-oxendict", "en-GB-scotland", "enm", "enm-ZA", "fr", "fr-CA", "e-x", "de", "en-US", "und"] },
        Family { stored: vec!["zh", "zh-Hant", "zh-Hant-TW", "zh-Hans-TW", "zh-TW"], requests: vec!["zh", "zh-Hant", "zh-Hant-TW", "zh-Hant-HK", "zh-Hans", "zh-Hans-TW", "zh-TW", "zh-HK", "zh-Hant-TW-fonipa", "zu", "yue-Hant-TW"] },
        Family { stored: vec!["sl-rozaj", "sl", "sl-nedis-rozaj", "sla", "slx-SI"], requests: vec!["sl", "sl-rozaj", "sl-nedis", "sl-nedis-rozaj", "sl-SI-rozaj", "sl-SI", "sla", "sla-SI", "slx", "slx-SI", "slx-IT", "s-l"] },
    ];
    {
        v.push(Family { stored: vec!["az", "az-Arab", "az-Arab-IR", "az-Latn-AZ", "az-AZ", "azb", "az-Cyrl-AZ-1994"], requests: vec!["az", "az-Arab", "az-Arab-IR", "az-Arab-AZ", "az-Latn", "az-Latn-AZ", "az-Latn-IR", "az-AZ", "az-IR", "azb", "azb-Arab-IR", "az-Cyrl", "az-Cyrl-AZ", "az-Cyrl-AZ-1994", "az-Cyrl-RU", "aza"] });
        v.push(Family { stored: vec!["und", "und-Latn", "de", "de-DE", "de-1996", "de-DE-1996"], requests: vec!["und", "und-Latn", "und-Latn-DE", "und-DE", "de", "de-DE", "de-1996", "de-DE-1996", "de-DE-1901", "de-AT-1996", "de-1901"] });
    }
    if thorough {
        v.push(Family { stored: vec!["sr", "sr-Cyrl", "sr-Cyrl-RS", "sr-Latn", "sr-Latn-RS", "sr-Latn-RS-ekavsk", "sr-RS", "srn", "sr-ME"], requests: vec!["sr", "sr-Cyrl", "sr-Cyrl-RS", "sr-Cyrl-ME", "sr-Latn", "sr-Latn-RS", "sr-Latn-RS-ekavsk", "sr-Latn-RS-ijekavsk", "sr-Latn-ME", "sr-RS", "sr-ME", "sr-ME-ijekavsk", "srn", "srn-SR", "srr", "sh"] });
    }
    v.iter_mut().for_each(|f| f.requests.retain(|t| icu_locid::LanguageIdentifier::try_from_bytes(t.as_bytes()).is_ok()));
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Which {
    One,
    All,
    Exact,
}

/// One request, compared with the strings of the identifier in the combined file and in the own file.
#[allow(clippy::too_many_arguments)]
fn lookup_case(l: &mut Local, which: Which, p: &Prov, case: &str, id: &str, r: &str, a: &[(String, String)], o: &[(String, String)]) {
    l.state(&case);
    let got = l.exec(&case, || match which {
        Which::One => p.string("comp", id, r),
        Which::All => p.strings("comp", id, r),
        Which::Exact => p.exact("comp", id, r),
    });
    let got = match got {
        Ok(Ok(g)) => g,
        Ok(Err(x)) => {
            l.violation(&case, "no error", x);
            return;
        }
        Err(x) => {
            l.violation(&case, "no panic", x);
            return;
        }
    };
    l.parity(&case, &format!("{got:?}"));
    match which {
        Which::Exact => {
            let want: Found = a.iter().find(|x| x.1 == *r).or_else(|| o.iter().find(|x| x.1 == *r)).cloned().into_iter().collect();
            l.outcome(if want.is_empty() { "none" } else { "exact" });
            l.expect(&case, &format!("{want:?}"), &format!("{got:?}"));
        }
        Which::All => {
            let mut want = search(a, r);
            if want.is_empty() {
                want = search(o, r);
            }
            l.outcome(&format!("{} strings", want.len()));
            if l.expect(&case, &format!("{want:?}"), &format!("{got:?}")) {
                // Consistent with the request for one string.
                let single = l.exec(&case, || p.string("comp", id, r));
                match single {
                    Ok(Ok(s)) if s.is_empty() == got.is_empty() && s.iter().all(|x| got.contains(x)) => {}
                    x => l.violation(&case, format!("one string of {got:?}"), format!("{x:?}")),
                }
            }
        }
        Which::One => {
            let (mut want, hit) = one(a, r);
            if !hit {
                want = one(o, r).0;
            }
            l.outcome(match (want.len(), want.first().map(|x| x.1 == *r)) {
                (0, _) => "none",
                (1, Some(true)) => "exact",
                (1, _) => "one related",
                _ => "any of several extensions",
            });
            let ok = if want.is_empty() { got.is_empty() } else { got.len() == 1 && want.contains(&got[0]) };
            if !ok {
                l.violation(&case, format!("one of {want:?}"), format!("{got:?}"));
            }
        }
    }
}

/// Many languages of one identifier, tags of many subtags, strings and identifiers of every size.
fn lookup_sizes(l: &mut Local, which: Which) {
    if !l.mine() {
        return;
    }
    let max = if l.engine.thorough() { 300usize } else { 90 };
    let letters: Vec<char> = ('a'..='z').collect();
    let language = |i: usize| format!("q{}{}", letters[i / 26], letters[i % 26]);
    let region = |i: usize| format!("en-{}{}", letters[i / 26], letters[i % 26]).replace("en-", "").to_uppercase();
    let variants: Vec<String> = (0..9).map(|i| format!("varia{i}")).collect();
    let deep = |n: usize| format!("en-Latn-US{}", variants[..n].iter().map(|v| format!("-{v}")).collect::<String>());
    type Content = (Vec<(String, String)>, Vec<(String, String)>);
    let mut content: Vec<(String, Content, Vec<String>)> = vec![];
    let mut put = |id: String, tags: Vec<(String, String)>, own: bool, requests: Vec<String>| content.push((id, if own { (vec![], tags) } else { (tags, vec![]) }, requests));
    for n in landmarks(max, 600) {
        let own = n % 2 == 0;
        put(format!("languages{n}"), (0..n).map(|i| (format!("{n} {i}"), language(i))).collect(), own, vec![language(0), language(n / 2), language(n - 1), language(n), format!("{}-ZA", language(n - 1))]);
        put(format!("regions{n}"), (0..n).map(|i| (format!("{n} {i}"), format!("en-{}", region(i)))).collect(), own, vec!["en".into(), format!("en-{}", region(0)), format!("en-{}", region(n - 1)), format!("en-{}", region(n)), format!("en-{}-oxendict", region(n / 2))]);
        put("i".repeat(n), vec![(format!("{n}"), "en".into())], own, vec!["en".into(), "fr".into()]);
        put(format!("text{n}"), vec![("é ".repeat(n * n.min(200)), "en".into())], own, vec!["en".into(), "en-ZA".into(), "fr".into()]);
    }
    for stored in 0..variants.len() {
        for other in 0..=variants.len() {
            let mut tags = vec![(format!("at {stored}"), deep(stored))];
            if other < variants.len() && other != stored {
                tags.push((format!("at {other}"), deep(other)));
            }
            if other == variants.len() {
                tags.push(("base".into(), "en".into()));
            }
            put(format!("deep{stored}-{other}"), tags, stored % 2 == 0, (0..=variants.len()).map(deep).chain(["en".into(), "en-Latn".into(), "en-US".into(), "en-Latn-GB".into()]).collect());
        }
    }
    let dir = Dir::new(&format!("lookup-sizes-{}", l.id));
    let mut aio = Db::default().component("comp", "en");
    let mut own = Db::default().component("comp", "en");
    for (id, (a, o), _) in &content {
        a.iter().for_each(|x| aio.string("comp", id, &x.1, &x.0));
        o.iter().for_each(|x| own.string("comp", id, &x.1, &x.0));
    }
    aio.write(&dir.file(AIO));
    own.write(&dir.file("comp.sqlite3"));
    let p = match open(&dir.0) {
        Ok(p) => p,
        Err(x) => return l.violation("sizes open", "opens", x),
    };
    for (id, (a, o), requests) in &content {
        for r in requests {
            let case = format!("{which:?} sizes {id} request={r}");
            if !l.skip(&case) {
                lookup_case(l, which, &p, &case, id, r, a, o);
            }
        }
    }
}

/// One repository holds every assignment of {nowhere, combined file, own file, both} to the tags of a family, each as
/// an identifier of its own, beside decoys of other components and similar identifiers.
fn lookup(e: &Arc<Engine>, which: Which) {
    e.bound("for each tag family: every assignment of {not stored, combined file, own file, both} to each of its tags (4^n identifiers) x every request tag x {both files, only combined, only own}; decoy components and identifiers present; identifiers with every number of languages and regions up to 90 (thorough 300) and of landmark numbers up to 600, of every such length, texts of every such size and tags of up to 9 variants");
    e.run(|l| {
        for (fi, f) in families(l.engine.thorough()).iter().enumerate() {
            let n = f.stored.len();
            for layout in ["both", "combined", "own"] {
                let dir = Dir::new(&format!("lookup-{}-{fi}-{layout}", l.id));
                // Each worker takes its share of the assignments, in a repository of its own.
                let mut aio = Db::default().component("comp", f.stored[0]).component("decoy", f.stored[0]);
                let mut own = Db::default().component("comp", f.stored[0]).component("decoy", f.stored[0]);
                let mut content: BTreeMap<String, (Vec<(String, String)>, Vec<(String, String)>)> = BTreeMap::new();
                words(4, n, |w| {
                    if !l.mine() || (layout == "combined" && w.iter().any(|x| x & 2 != 0)) || (layout == "own" && w.iter().any(|x| x & 1 != 0)) {
                        return;
                    }
                    let id = format!("id{}", w.iter().map(|x| x.to_string()).collect::<String>());
                    let c = content.entry(id.clone()).or_default();
                    // Distinct texts, the same text for all languages of a file, or empty texts.
                    let text = |t: &str, file: &str| match w.iter().sum::<usize>() % 5 {
                        0 | 1 => format!("{id} {t} {file}"),
                        2 | 3 => format!("{id} {file}"),
                        _ => String::new(),
                    };
                    for (i, t) in f.stored.iter().enumerate() {
                        if w[i] & 1 != 0 {
                            let s = text(t, "combined");
                            aio.string("comp", &id, t, &s);
                            c.0.push((s, t.to_string()));
                        } else if i == 0 {
                            aio.string("decoy", &id, t, "decoy");
                        }
                        if w[i] & 2 != 0 {
                            let s = text(t, "own");
                            own.string("comp", &id, t, &s);
                            c.1.push((s, t.to_string()));
                        } else {
                            own.string("decoy", &id, t, "decoy");
                        }
                    }
                });
                // Similar identifiers that must never be found.
                for t in &f.stored {
                    for id in ["id", "id0", "ID", "id_", "id%", "comp"] {
                        aio.string("comp", id, t, "decoy identifier");
                        own.string("comp", id, t, "decoy identifier");
                    }
                }
                if layout != "own" {
                    aio.write(&dir.file(AIO));
                }
                if layout != "combined" {
                    own.write(&dir.file("comp.sqlite3"));
                }
                let p = match open(&dir.0) {
                    Ok(p) => p,
                    Err(x) => {
                        l.violation(&format!("family={fi} layout={layout} open"), "opens", x);
                        continue;
                    }
                };
                for (id, (a, o)) in &content {
                    for r in &f.requests {
                        let case = format!("{which:?} family={fi} {layout} {id} of {:?} request={r}", f.stored);
                        if l.skip(&case) {
                            continue;
                        }
                        lookup_case(l, which, &p, &case, id, r, a, o);
                    }
                }
            }
        }
        lookup_sizes(l, which);
        // Unusual identifiers and components: compared as they are, never as patterns.
        if l.id == 0 {
            let names = ["a", "A", "_", "%", "a%", "b_b", "é", "e\u{301}", "", " a", "a ", "'", "\"", "a'--", "日本", "a\u{0}b", "?1", "*", "application"];
            let dir = Dir::new("lookup-names");
            let mut db = Db::default();
            for c in names {
                db = db.component(c, "en");
            }
            for c in names {
                for (i, id) in names.iter().enumerate() {
                    if (c.len() + i) % 3 != 0 {
                        db.string(c, id, "en", &format!("{c}/{id}"));
                    }
                }
            }
            db.write(&dir.file(AIO));
            let p = match open(&dir.0) {
                Ok(p) => p,
                Err(x) => return l.violation("names open", "opens", x),
            };
            for c in names {
                for (i, id) in names.iter().enumerate() {
                    for r in ["en", "en-ZA", "fr"] {
                        let case = format!("{which:?} component={c:?} identifier={id:?} request={r}");
                        if l.skip(&case) {
                            continue;
                        }
                        l.state(&case);
                        let got = l.exec(&case, || match which {
                            Which::One => p.string(c, id, r),
                            Which::All => p.strings(c, id, r),
                            Which::Exact => p.exact(c, id, r),
                        });
                        let there = (c.len() + i) % 3 != 0 && (r == "en" || (r == "en-ZA" && which != Which::Exact));
                        let want: Found = if there { vec![(format!("{c}/{id}"), "en".into())] } else { vec![] };
                        let got = format!("{got:?}");
                        l.parity(&case, &got);
                        l.expect(&case, &format!("{:?}", Ok::<Result<Found, String>, String>(Ok(want))), &got);
                    }
                }
            }
        }
    });
}

pub fn c23(e: &Arc<Engine>) {
    lookup(e, Which::One)
}
pub fn c24(e: &Arc<Engine>) {
    lookup(e, Which::All)
}
pub fn c25(e: &Arc<Engine>) {
    lookup(e, Which::Exact)
}

// ---------------------------------------------------------------------------------------------------------------
// Details: C26

/// What one file says about one component.
#[derive(Clone, Debug, PartialEq)]
pub struct Part {
    /// Default language in the component table.
    pub default: Option<&'static str>,
    /// language -> (number of strings, contributors)
    pub langs: Vec<(&'static str, usize, &'static [&'static str])>,
}

/// One component: what the combined and the own file say.
#[derive(Clone, Debug, PartialEq)]
pub struct Comp {
    pub name: &'static str,
    pub combined: Option<Part>,
    pub own: Option<Part>,
}

fn put(db: &mut Db, name: &str, part: &Part, file: &str) {
    if let Some(d) = part.default {
        db.components.push((name.into(), d.into()));
    }
    for (t, n, who) in &part.langs {
        for i in 0..*n {
            // Strings count whatever their text is: also empty, blank or the same as another.
            db.string(name, &format!("{file}{i}"), t, ["text", "", " ", "{"][i % 4]);
        }
        for w in *who {
            db.contributor(name, t, w);
        }
    }
}

pub fn build(dir: &Dir, comps: &[Comp]) {
    dir.clear();
    // Rows of other components, which belong to no component of the repository.
    let ghost = |db: &mut Db, name: &str| {
        for t in ["en", "de"] {
            db.string(name, "ghost", t, "ghost");
            db.contributor(name, t, "ghost");
        }
    };
    let mut aio = Db::default();
    ghost(&mut aio, "ghost");
    let mut any = false;
    for c in comps {
        if let Some(p) = &c.combined {
            any = true;
            put(&mut aio, c.name, p, "combined");
        }
        if let Some(p) = &c.own {
            let mut own = Db::default();
            put(&mut own, c.name, p, "own");
            ghost(&mut own, "ghost");
            own.components.push(("ghost".into(), "en".into()));
            own.write(&dir.file(&format!("{}.sqlite3", c.name)));
        }
    }
    if any {
        aio.write(&dir.file(AIO));
    }
}

/// The expected details of one component, or the error.  `None`: outside the precondition.
fn component_expected(c: &Comp) -> Option<Result<(BTreeMap<&'static str, (usize, BTreeSet<&'static str>)>, &'static str), String>> {
    let parts: Vec<&Part> = c.combined.iter().chain(c.own.iter()).collect();
    let mut langs: BTreeMap<&'static str, (usize, BTreeSet<&'static str>)> = BTreeMap::new();
    for p in &parts {
        for (t, n, who) in &p.langs {
            let x = langs.entry(t).or_default();
            x.0 += n;
            x.1.extend(who.iter());
        }
    }
    if langs.values().any(|x| x.0 > 0 && x.1.is_empty()) {
        return None;
    }
    langs.retain(|_, x| !x.1.is_empty());
    let default = parts.iter().find_map(|p| p.default);
    let Some(d) = default else { return Some(Err(format!("DefaultLanguage({})", c.name))) };
    let Some(x) = langs.get(d) else { return Some(Err(format!("InvalidDefaultLanguage({})", c.name))) };
    if x.0 == 0 {
        return Some(Err(format!("DefaultLanguageCount({},{d})", c.name)));
    }
    Some(Ok((langs, d)))
}

fn details_case(l: &mut Local, dir: &Dir, comps: &[Comp]) {
    let case = format!("{comps:?}");
    if l.skip(&case) {
        return;
    }
    // A component is in the combined file only through its component table.
    if comps.iter().any(|c| matches!(&c.combined, Some(p) if p.default.is_none())) || comps.iter().all(|c| c.combined.is_none() && c.own.is_none()) {
        return;
    }
    let expected: Vec<_> = comps.iter().filter(|c| c.combined.is_some() || c.own.is_some()).map(|c| (c.name, component_expected(c))).collect();
    if expected.iter().any(|x| x.1.is_none()) {
        return;
    }
    l.state(&case);
    build(dir, comps);
    let p = match l.exec(&case, || open(&dir.0)) {
        Ok(Ok(p)) => p,
        x => return l.violation(&case, "opens", format!("{:?}", x.err())),
    };
    let errors: Vec<String> = expected.iter().filter_map(|x| x.1.clone().and_then(|r| r.err())).collect();
    let run = |l: &mut Local, what: &str, want: Result<String, String>, f: &dyn Fn() -> Result<String, String>| {
        let case2 = format!("{what} of {case}");
        match l.exec(&case, f) {
            Err(x) => l.violation(&case, "no panic", x),
            Ok(got) => {
                if errors.len() <= 1 {
                    l.parity(&case2, &format!("{got:?}"));
                }
                let ok = if errors.is_empty() { got == want } else { matches!(&got, Err(x) if errors.contains(x)) };
                if !ok {
                    l.violation(&case, if errors.is_empty() { format!("{what}: {want:?}") } else { format!("{what}: error, one of {errors:?}") }, format!("{got:?}"));
                }
            }
        }
    };
    let mut all: BTreeMap<&str, usize> = BTreeMap::new();
    let mut people: BTreeSet<&str> = BTreeSet::new();
    let mut default = None;
    for (name, x) in &expected {
        let Some(Ok((langs, d))) = x else { continue };
        let base = langs[d].0;
        let mut v: Vec<String> = langs.iter().map(|(t, (n, who))| format!("{t} {n} {} {:?}", *n as f32 / base as f32, who.iter().collect::<Vec<_>>())).collect();
        v.sort();
        let total: usize = langs.values().map(|x| x.0).sum();
        run(l, name, Ok(format!("{v:?} default {d} total {total}")), &|| p.component(name));
        for (t, (n, who)) in langs {
            *all.entry(t).or_default() += n;
            people.extend(who.iter());
        }
        if *name == "application" {
            default = Some(*d);
        }
    }
    let mut v: Vec<String> = all
        .iter()
        .map(|(t, n)| format!("{t} {n} {}", default.map(|d| *n as f32 / all[d] as f32).unwrap_or(0.0)))
        .collect();
    v.sort();
    let mut names: Vec<&str> = expected.iter().map(|x| x.0).collect();
    names.sort();
    let total: usize = all.values().sum();
    run(l, "repository", Ok(format!("{v:?} default {default:?} total {total} components {names:?} contributors {:?}", people.iter().collect::<Vec<_>>())), &|| p.repository());
    run(l, "unknown", Err("ComponentNotFound(unknown)".into()), &|| p.component("unknown"));
    l.outcome(&match errors.first() {
        None => format!("{} components, default {default:?}", names.len()),
        Some(x) => x.split('(').next().unwrap_or("").to_string(),
    });
}

fn parts(thorough: bool) -> Vec<Option<Part>> {
    const WHO: &[&[&str]] = &[&[], &["p"], &["q", "p"]];
    let counts: &[usize] = if thorough { &[0, 1, 3] } else { &[0, 2] };
    let mut v = vec![None];
    for default in [None, Some("en"), Some("fr")] {
        for n in counts {
            for w in WHO {
                for n2 in counts {
                    for w2 in WHO {
                        v.push(Some(Part { default, langs: vec![("en", *n, w), ("fr", *n2, w2)] }));
                    }
                }
            }
        }
    }
    v
}

pub fn c26(e: &Arc<Engine>) {
    e.bound("one component: every pair of contents of the two files (default none/en/fr x 2 languages x 0..3 strings x 0..2 contributors); three components: every combination of 14 contents each; every number of languages, components, contributors and strings up to 50 (thorough 120) and around powers of two and round numbers up to 520; every set of up to 3 (thorough 4) of 12 similar contributors, in every division over the two files");
    e.run(|l| {
        let dir = Dir::new(&format!("details-{}", l.id));
        let ps = parts(l.engine.thorough());
        for name in ["application", "a"] {
            for a in &ps {
                for b in &ps {
                    if l.mine() {
                        details_case(l, &dir, &[Comp { name, combined: a.clone(), own: b.clone() }]);
                    }
                }
            }
        }
        // Several components.
        let p = |default, langs: &[(&'static str, usize, &'static [&'static str])]| Some(Part { default, langs: langs.to_vec() });
        let (x, y, z): (&[&str], &[&str], &[&str]) = (&["x"], &["y", "x"], &["z"]);
        let choices: Vec<(Option<Part>, Option<Part>)> = vec![
            (None, None),
            (p(Some("en"), &[("en", 2, x)]), None),
            (None, p(Some("en"), &[("en", 3, y)])),
            (p(Some("fr"), &[("en", 1, x), ("fr", 4, z)]), None),
            (None, p(Some("fr"), &[("en-ZA", 1, x), ("fr", 2, x)])),
            (p(Some("en"), &[("en", 1, x)]), p(Some("fr"), &[("fr", 5, z)])),
            (p(Some("en"), &[("en", 1, x)]), p(None, &[("en", 2, y), ("en-ZA", 0, x)])),
            (p(Some("en-ZA"), &[("en-ZA", 7, z), ("en", 0, y), ("it", 1, x)]), None),
            (None, p(None, &[("en", 1, x)])),
            (p(Some("it"), &[("en", 1, x)]), None),
            (p(Some("en"), &[("en", 0, x), ("fr", 1, x)]), None),
            (p(Some("en"), &[("fr", 2, x)]), p(Some("en"), &[("en", 1, y)])),
            (p(Some("it"), &[("it", 9, y)]), None),
            (None, p(Some("en"), &[("en", 100, x), ("fr", 33, y), ("it", 0, z)])),
        ];
        for a in &choices {
            for b in &choices {
                for c in &choices {
                    if l.mine() {
                        let comps: Vec<Comp> = [("application", a), ("lib", b), ("other_lib", c)].into_iter().map(|(name, x)| Comp { name, combined: x.0.clone(), own: x.1.clone() }).collect();
                        details_case(l, &dir, &comps);
                    }
                }
            }
        }
        // Every number of languages, components, contributors and strings.
        let size = if l.engine.thorough() { 120usize } else { 50 };
        for n in landmarks(size, 520) {
            if !l.mine() {
                continue;
            }
            let who = |i: usize| -> &'static [&'static str] { Vec::leak((0..=i % 3).map(|k| leak(format!("p{}", (i * 5 + k) % 40))).collect()) };
            let langs: Vec<(&'static str, usize, &'static [&'static str])> = (0..n).map(|i| (leak(format!("q{}{}", (b'a' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char)), 1 + (i * 7) % 11, who(i))).collect();
            let split = |odd: usize| langs.iter().enumerate().filter(|(i, _)| *i == 0 || i % 2 == odd).map(|x| *x.1).collect::<Vec<_>>();
            let d = Some(langs[0].0);
            details_case(l, &dir, &[Comp { name: "application", combined: Some(Part { default: d, langs: langs.clone() }), own: None }]);
            details_case(l, &dir, &[Comp { name: "lib", combined: None, own: Some(Part { default: d, langs: langs.clone() }) }]);
            details_case(l, &dir, &[Comp { name: "application", combined: Some(Part { default: d, langs: split(0) }), own: Some(Part { default: None, langs: split(1) }) }]);
            let people: &'static [&'static str] = Vec::leak((0..n).map(|i| leak(format!("person {i}"))).collect());
            details_case(l, &dir, &[Comp { name: "application", combined: Some(Part { default: Some("en"), langs: vec![("en", n * 3, people), ("fr", n * n % 101, who(n)), ("it", n, &people[n / 2..])] }), own: None }]);
            for own in [0, 1, 2] {
                if n > size && (own != 0 || n > 260) {
                    continue;
                }
                let comps: Vec<Comp> = (0..n)
                    .map(|i| {
                        let p = Some(Part { default: Some("en"), langs: vec![("en", 1 + i % 3, who(i)), langs[i * 3 % n]] });
                        let name = if i == n / 2 { "application" } else { leak(format!("c{i}")) };
                        if own == 1 || own == 2 && i % 2 == 0 { Comp { name, combined: None, own: p } } else { Comp { name, combined: p, own: None } }
                    })
                    .collect();
                if own != 1 || n < 30 || l.engine.thorough() {
                    details_case(l, &dir, &comps);
                }
            }
        }
        // Contributors told apart by case, white space or Unicode form: every set of up to 3 (thorough 4), in each file.
        const PEOPLE: [&str; 12] = ["x", "X", "x ", " x", "é", "e\u{301}", "É", "%", "_", "", "1", "1.0"];
        let most = if l.engine.thorough() { 4 } else { 3 };
        for k in 1..=most {
            words(PEOPLE.len(), k, |w| {
                if w.windows(2).any(|x| x[0] >= x[1]) || !l.mine() {
                    return;
                }
                let set: Vec<&'static str> = w.iter().map(|i| PEOPLE[*i]).collect();
                for split in 0..=k {
                    let (a, b): (&'static [&'static str], &'static [&'static str]) = (Vec::leak(set[..split].to_vec()), Vec::leak(set[split..].to_vec()));
                    let part = |who| Some(Part { default: Some("en"), langs: vec![("en", 2, who), ("fr", 5, who)] });
                    let comp = match (a.is_empty(), b.is_empty()) {
                        (false, false) => Comp { name: "application", combined: part(a), own: part(b) },
                        (false, true) => Comp { name: "application", combined: part(a), own: None },
                        _ => Comp { name: "application", combined: None, own: part(b) },
                    };
                    details_case(l, &dir, &[comp]);
                }
            });
        }
        // Pairs of similar names.
        let part = |default, t, n, who| Some(Part { default: Some(default), langs: vec![(default, 2, who), (t, n, who)] });
        for a in NAMES {
            for b in NAMES {
                for files in 0..4 {
                    if a != b && l.mine() {
                        let (pa, pb) = (part("en", "fr", 1, x), part("it", "fr", 3, y));
                        let comp = |name, p: Option<Part>, own| if own { Comp { name, combined: None, own: p } } else { Comp { name, combined: p, own: None } };
                        details_case(l, &dir, &[comp(a, pa, files & 1 != 0), comp(b, pb, files & 2 != 0)]);
                    }
                }
            }
        }
    });
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// Names that must be told apart: as patterns, in case, white space, or Unicode form.
const NAMES: [&str; 12] = ["c_d", "cxd", "C_D", "c%", "%", "c_d ", " c_d", "é", "e\u{301}", "c'd", "c.d", "application"];

// ---------------------------------------------------------------------------------------------------------------
// C27

pub fn c27(e: &Arc<Engine>) {
    let n = if e.thorough() { 7 } else { 6 };
    let tags = ["en", "en-ZA", "fr", "zh-Hant-TW", "enm", "it", "und"];
    e.bound(format!("every assignment of {{not stored, combined file, own file, both}} to {n} languages (4^{n} identifiers) x {{both files, only combined, only own}}, with decoy components, unknown identifiers and components; identifiers of every length and with every number of languages up to 60 (thorough 200) and around powers of two and round numbers up to 600"));
    e.run(|l| {
        for layout in ["both", "combined", "own"] {
            let dir = Dir::new(&format!("ident-{}-{layout}", l.id));
            let mut aio = Db::default().component("comp", "en").component("decoy", "en");
            let mut own = Db::default().component("comp", "fr").component("decoy", "en");
            for db in [&mut aio, &mut own] {
                for t in ["en", "fr"] {
                    for c in ["comp", "decoy"] {
                        db.contributor(c, t, "p");
                        db.string(c, "base", t, "base");
                    }
                }
            }
            let mut ids = vec![];
            words(4, n, |w| {
                if !l.mine() || (layout == "combined" && w.iter().any(|x| x & 2 != 0)) || (layout == "own" && w.iter().any(|x| x & 1 != 0)) {
                    return;
                }
                let id = format!("id{}", w.iter().map(|x| x.to_string()).collect::<String>());
                for (i, t) in tags.iter().take(n).enumerate() {
                    if w[i] & 1 != 0 {
                        aio.string("comp", &id, t, "a");
                    } else {
                        aio.string("decoy", &id, t, "a");
                    }
                    if w[i] & 2 != 0 {
                        own.string("comp", &id, t, "b");
                    } else {
                        own.string("decoy", &id, t, "b");
                    }
                }
                ids.push((id, tags.iter().take(n).enumerate().filter(|(i, _)| w[*i] != 0).map(|x| x.1.to_string()).collect::<Vec<_>>()));
            });
            // Every number of languages, and identifiers of every length.
            for n in landmarks(if l.engine.thorough() { 200 } else { 60 }, 600) {
                if l.mine() {
                    let all: Vec<String> = (0..n).map(|i| format!("q{}{}-ZA", (b'a' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char)).collect();
                    for (id, step) in [(format!("many{n}"), 2), ("m".repeat(n), 3)] {
                        for (i, t) in all.iter().enumerate() {
                            if layout == "combined" || layout == "both" && i % step != 0 {
                                aio.string("comp", &id, t, "a");
                            }
                            if layout == "own" || layout == "both" && i % step != 1 {
                                own.string("comp", &id, t, "b");
                            }
                        }
                        ids.push((id, all.clone()));
                    }
                }
            }
            if layout != "own" {
                aio.write(&dir.file(AIO));
            }
            if layout != "combined" {
                own.write(&dir.file("comp.sqlite3"));
            }
            let default = if layout == "own" { "fr" } else { "en" };
            let p = match open(&dir.0) {
                Ok(p) => p,
                Err(x) => {
                    l.violation(&format!("layout={layout} open"), "opens", x);
                    continue;
                }
            };
            ids.push(("nothing".into(), vec![]));
            ids.push(("id".into(), vec![]));
            ids.push(("id%".into(), vec![]));
            ids.push(("".into(), vec![]));
            for (id, mut langs) in ids {
                for comp in ["comp", "unknown", "__all_in_one__", "COMP", "comp.sqlite3"] {
                    let case = format!("{layout} component={comp} identifier={id}");
                    if l.skip(&case) {
                        continue;
                    }
                    l.state(&case);
                    langs.sort();
                    let want = if comp == "comp" { Ok(format!("{langs:?} default {default}")) } else { Err(format!("ComponentNotFound({comp})")) };
                    match l.exec(&case, || p.identifier(comp, &id)) {
                        Err(x) => l.violation(&case, "no panic", x),
                        Ok(got) => {
                            l.parity(&case, &format!("{got:?}"));
                            l.outcome(&match &want {
                                Ok(_) => format!("{} languages", langs.len()),
                                Err(_) => "unknown component".into(),
                            });
                            l.expect(&case, &format!("{want:?}"), &format!("{got:?}"));
                        }
                    }
                }
            }
        }
        // Names that must be told apart, of components and identifiers.
        if l.id == 0 {
            let langs = ["de", "en-ZA", "fr", "it", "nl"];
            let stored = |c: usize, i: usize| -> Vec<&str> { langs.iter().enumerate().filter(|(k, _)| (c * 7 + i * 3 + k * k) % (k + 2) == 0).map(|x| *x.1).collect() };
            for own in [false, true] {
                let dir = Dir::new(&format!("ident-names-{own}"));
                let mut all = Db::default();
                for (ci, c) in NAMES.iter().enumerate() {
                    let mut db = std::mem::take(&mut all).component(c, "en");
                    db.contributor(c, "en", "p");
                    db.string(c, "base", "en", "base");
                    for (ii, id) in NAMES.iter().enumerate() {
                        for t in stored(ci, ii) {
                            db.string(c, id, t, "s");
                        }
                    }
                    if own {
                        db.write(&dir.file(&format!("{c}.sqlite3")));
                    } else {
                        all = db;
                    }
                }
                if !own {
                    all.write(&dir.file(AIO));
                }
                let p = match open(&dir.0) {
                    Ok(p) => p,
                    Err(x) => return l.violation(&format!("names own={own} open"), "opens", x),
                };
                for (ci, c) in NAMES.iter().enumerate() {
                    for (ii, id) in NAMES.iter().enumerate() {
                        let case = format!("names own={own} component={c:?} identifier={id:?}");
                        if l.skip(&case) {
                            continue;
                        }
                        l.state(&case);
                        let mut v = stored(ci, ii);
                        v.sort();
                        let want = Ok::<_, String>(format!("{v:?} default en"));
                        match l.exec(&case, || p.identifier(c, id)) {
                            Err(x) => l.violation(&case, "no panic", x),
                            Ok(got) => {
                                l.parity(&case, &format!("{got:?}"));
                                l.expect(&case, &format!("{want:?}"), &format!("{got:?}"));
                            }
                        }
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C28

#[derive(Clone, Copy, Debug, PartialEq)]
enum Entry {
    /// The combined file, listing these components.
    Combined(&'static [&'static str]),
    /// A component file.
    Own(&'static str),
    /// Anything else: name and kind.
    Junk(&'static str, char),
}

/// The name of an entry in the directory (U+0001 stands for a byte that is not UTF-8).
fn entry_name(e: &Entry) -> Vec<u8> {
    match e {
        Entry::Combined(_) => AIO.into(),
        Entry::Own(c) => format!("{c}.sqlite3").into_bytes(),
        Entry::Junk(name, _) => name.bytes().map(|b| if b == 1 { 0xff } else { b }).collect(),
    }
}

/// The order in which a directory is listed belongs to the file system.  `readdir64` is replaced here, so that each
/// order can be tried: the entries named by the current order come in that order, before any other ones.
pub mod listing {
    use std::cell::RefCell;
    use std::collections::HashMap;
    type Entry = Box<libc::dirent64>;
    #[derive(Default)]
    struct State {
        order: Option<Vec<Vec<u8>>>,
        reads: u64,
        open: HashMap<usize, (Vec<Entry>, usize)>,
    }
    thread_local! {
        static STATE: RefCell<State> = RefCell::default();
    }
    pub struct Order;
    impl Order {
        pub fn set(order: Vec<Vec<u8>>) -> Order {
            STATE.with(|s| *s.borrow_mut() = State { order: Some(order), ..Default::default() });
            Order
        }
        /// Entries listed since it was set.
        pub fn reads(&self) -> u64 {
            STATE.with(|s| s.borrow().reads)
        }
    }
    impl Drop for Order {
        fn drop(&mut self) {
            STATE.with(|s| *s.borrow_mut() = State::default());
        }
    }
    fn real() -> unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 {
        unsafe {
            let f = libc::dlsym(libc::RTLD_NEXT, c"readdir64".as_ptr());
            assert!(!f.is_null());
            std::mem::transmute(f)
        }
    }
    fn name(e: &libc::dirent64) -> &[u8] {
        unsafe { std::ffi::CStr::from_ptr(e.d_name.as_ptr()) }.to_bytes()
    }
    /// # Safety
    /// As `readdir64` of libc.
    #[no_mangle]
    pub unsafe extern "C" fn readdir64(dir: *mut libc::DIR) -> *mut libc::dirent64 {
        let next = real();
        STATE
            .try_with(|s| {
                let Ok(mut s) = s.try_borrow_mut() else { return next(dir) };
                let s = &mut *s;
                let Some(order) = &s.order else { return next(dir) };
                let (list, at) = s.open.entry(dir as usize).or_insert_with(|| {
                    let mut list: Vec<Entry> = vec![];
                    loop {
                        let e = next(dir);
                        if e.is_null() {
                            break;
                        }
                        // Only `d_reclen` bytes of the record exist.
                        let mut copy: Entry = Box::new(std::mem::zeroed());
                        let n = ((*e).d_reclen as usize).min(std::mem::size_of::<libc::dirent64>());
                        std::ptr::copy_nonoverlapping(e as *const u8, &mut *copy as *mut libc::dirent64 as *mut u8, n);
                        list.push(copy);
                    }
                    list.sort_by_key(|e| (order.iter().position(|o| o == name(e)).unwrap_or(usize::MAX), name(e).to_vec()));
                    (list, 0)
                });
                s.reads += 1;
                if *at < list.len() {
                    *at += 1;
                    &mut *list[*at - 1]
                } else {
                    s.open.remove(&(dir as usize));
                    std::ptr::null_mut()
                }
            })
            .unwrap_or_else(|_| next(dir))
    }
}

fn c28_case(l: &mut Local, dir: &Dir, entries: &[Entry], order: &[usize]) {
    let case = format!("{entries:?} listed in order {order:?}");
    if l.skip(&case) {
        return;
    }
    l.state(&case);
    dir.clear();
    let root = dir.file("repo");
    std::fs::create_dir(&root).expect("dir");
    let mut available: BTreeMap<String, (bool, bool)> = BTreeMap::new();
    let mut database = false;
    for e in entries {
        match e {
            Entry::Combined(names) => {
                let mut db = Db::default();
                for c in *names {
                    db = db.component(c, "en");
                    available.entry(c.to_string()).or_default().0 = true;
                    db.string(c, "both", "en", &format!("{c} combined"));
                    db.string(c, "combined", "en", &format!("{c} combined"));
                    db.string(c, "parent", "en", &format!("{c} combined parent"));
                }
                // Strings of a component that the component table does not list.
                db.string("unlisted", "both", "en", "unlisted");
                db.write(&root.join(AIO));
                database = true;
            }
            Entry::Own(c) => {
                available.entry(c.to_string()).or_default().1 = true;
                let mut db = Db::default().component(c, "en").component("inner", "en");
                db.string(c, "both", "en", &format!("{c} own"));
                db.string(c, "own", "en", &format!("{c} own"));
                db.string(c, "parent", "en-ZA", &format!("{c} own exact"));
                db.string("inner", "both", "en", "inner");
                db.write(&root.join(format!("{c}.sqlite3")));
                database = true;
            }
            Entry::Junk(name, kind) => {
                use std::os::unix::ffi::OsStringExt;
                let _ = name;
                let path = root.join(std::ffi::OsString::from_vec(entry_name(e)));
                match kind {
                    'd' => std::fs::create_dir(&path).expect("dir"),
                    'D' => {
                        std::fs::create_dir(&path).expect("dir");
                        let mut db = Db::default().component("deep", "en");
                        db.string("deep", "both", "en", "deep");
                        db.write(&path.join("deep.sqlite3"));
                        db.write(&path.join(AIO));
                    }
                    'g' => std::fs::write(&path, b"garbage\0\xff").expect("file"),
                    's' => {
                        let mut db = Db::default().component("wrong", "en");
                        db.string("wrong", "both", "en", "wrong");
                        db.write(&path);
                    }
                    'l' => std::os::unix::fs::symlink("/nonexistent", &path).expect("link"),
                    _ => unreachable!(),
                }
            }
        }
    }
    let listed = !available.is_empty();
    let names: Vec<Vec<u8>> = entries.iter().map(entry_name).collect();
    let listing = listing::Order::set(order.iter().map(|i| names[*i].clone()).collect());
    let p = match l.exec(&case, || open(&root)) {
        Err(x) => return l.violation(&case, "no panic", x),
        Ok(Ok(p)) => {
            l.parity(&case, "opened");
            if listing.reads() == 0 {
                l.outcome("listed otherwise than through readdir: order not controlled");
            }
            if !database {
                return l.violation(&case, "NoSqlite3Files", "opened");
            }
            p
        }
        Ok(Err(x)) => {
            l.parity(&case, x.split('(').next().unwrap_or(""));
            if listed || x != format!("NoSqlite3Files({})", root.display()) {
                return l.violation(&case, "opens", x);
            }
            l.outcome("no database");
            return;
        }
    };
    let ask: BTreeSet<String> = ["a", "b", "application", "x.y", "unlisted", "inner", "deep", "wrong", "__all_in_one__", "e", "f", "notes", "A", "", "combined", "\u{fffd}"].into_iter().map(|s| s.to_string()).chain(available.keys().cloned()).collect();
    for c in &ask {
        for (id, tag) in [("both", "en"), ("combined", "en"), ("own", "en"), ("parent", "en-ZA"), ("none", "en")] {
            for exact in [false, true] {
                let here = available.get(c).copied();
                let want: Result<Option<String>, String> = match here {
                    None => Err(format!("ComponentNotFound({c})")),
                    Some((aio, own)) => Ok(match id {
                        "both" if aio => Some(format!("{c} combined")),
                        "both" => Some(format!("{c} own")),
                        "combined" if aio => Some(format!("{c} combined")),
                        "own" if own => Some(format!("{c} own")),
                        "parent" if aio && !exact => Some(format!("{c} combined parent")),
                        "parent" if own => Some(format!("{c} own exact")),
                        _ => None,
                    }),
                };
                let want: Result<Found, String> = want.map(|x| x.into_iter().map(|s| (s.clone(), if s.ends_with("exact") { "en-ZA".into() } else { "en".into() })).collect());
                let got = l.exec(&case, || if exact { p.exact(c, id, tag) } else { p.string(c, id, tag) });
                match got {
                    Err(x) => l.violation(&case, "no panic", x),
                    Ok(got) => {
                        if got != want {
                            l.violation(&case, format!("{c}/{id}/{tag} exact={exact}: {want:?}"), format!("{got:?}"));
                        }
                        if !exact {
                            let all = l.exec(&case, || p.strings(c, id, tag));
                            match all {
                                Ok(all) if all == want => {}
                                x => l.violation(&case, format!("all {c}/{id}/{tag}: {want:?}"), format!("{x:?}")),
                            }
                        }
                    }
                }
            }
        }
    }
    l.outcome(&format!("{} components", available.len()));
}

/// Names that have a meaning for SQLite, URIs or paths, given relative to the working directory or in full, which changes
/// or not before the requests, and may then hold another repository of the same name.
fn relative_paths(l: &mut Local) {
    let dir = Dir::new("relative");
    let back = std::env::current_dir().expect("working directory");
    let names = ["repo", "file:repo", "file:", "file:repo?mode=memory", "file:%72epo", "FILE:repo", "a b", "a%20b", "a?b", "a#b", ":memory:", "-", "--", "~", "é", "repo.sqlite3", "..repo", "a\\b", "*", "a&mode=rwc"];
    let files = ["c", "file:c", "c?mode=memory", "c%41", ":memory:", "c#d", "c'd", "c d"];
    for name in names {
        for form in ["NAME", "./NAME", "NAME/", "../here/NAME", "NAME/../NAME", "FULL", "FULL/", ".", ""] {
            for moved in ["", "with the same", "without it"] {
                for combined in [false, true] {
                    let case = format!("directory {name:?} given as {form:?}{}{}", if combined { ", combined file" } else { "" }, if moved.is_empty() { String::new() } else { format!(", then the working directory changed to one {moved}") });
                    if l.skip(&case) {
                        continue;
                    }
                    l.state(&case);
                    dir.clear();
                    for (place, text) in [("here", "right"), ("there", "wrong"), ("nowhere", "")] {
                        let root = dir.file(place);
                        std::fs::create_dir(&root).expect("dir");
                        if text.is_empty() {
                            continue;
                        }
                        let root = if form == "." { root } else { root.join(name) };
                        if form != "." {
                            std::fs::create_dir(&root).expect("dir");
                        }
                        let mut db = Db::default();
                        for c in files {
                            let mut own = Db::default();
                            for d in if combined { [&mut db].into_iter() } else { [&mut own].into_iter() } {
                                *d = std::mem::take(d).component(c, "en");
                                d.string(c, "i", "en", &format!("{c} {text}"));
                            }
                            if !combined {
                                own.write(&root.join(format!("{c}.sqlite3")));
                            }
                        }
                        if combined {
                            db.write(&root.join(AIO));
                        }
                    }
                    let path = form.replace("FULL", &dir.file("here").join(name).display().to_string()).replace("NAME", name);
                    std::env::set_current_dir(dir.file("here")).expect("change");
                    let got = l.exec(&case, || match open(Path::new(&path)) {
                        Err(x) => x,
                        Ok(p) => {
                            if !moved.is_empty() {
                                std::env::set_current_dir(dir.file(if moved == "without it" { "nowhere" } else { "there" })).expect("change");
                            }
                            for c in files {
                                for _ in 0..2 {
                                    match p.p.string(c, "i", &p.tags.tag("en").expect("tag")) {
                                        Ok(Some((s, _))) if s == format!("{c} right") => {}
                                        x => return format!("{c}: {x:?}"),
                                    }
                                }
                                match p.p.strings(c, "i", &p.tags.tag("en").expect("tag")) {
                                    Ok(v) if v.len() == 1 && v[0].0 == format!("{c} right") => {}
                                    x => return format!("{c}: {x:?}"),
                                }
                            }
                            "ok".to_string()
                        }
                    });
                    std::env::set_current_dir(&back).expect("change");
                    let got = got.unwrap_or_else(|p| p);
                    let short = got.split('(').next().unwrap_or("").to_string();
                    l.parity(&case, &short);
                    l.outcome(&short);
                    l.expect(&case, if form.is_empty() { "NotDirectory()" } else { "ok" }, &got);
                }
            }
        }
    }
}

pub fn c28(e: &Arc<Engine>) {
    e.bound("every combination of: no combined file, or one listing each subset of 3 components; every subset of 4 component files; each of 13 other entries, and pairs of them with one in eight arrangements (thorough: every subset of up to 3) (other extensions, directories, directories named like databases, hidden and non-UTF-8 names, dangling links); each listed in every order (of up to 4 entries, thorough 5, otherwise rotations and reversals); paths that are no directories; 20 directory names with 9 ways to give them and 8 file names, relative to the working directory or in full, which changes or not before the requests; and every number of component files and of components of the combined file up to 40 (thorough 150), and around powers of two and round numbers up to 520");
    // The working directory belongs to the process: these cases come first, on one thread.
    e.run(|l| {
        if l.id == 0 {
            relative_paths(l);
        }
    });
    e.run(|l| {
        let dir = Dir::new(&format!("directory-{}", l.id));
        let combined: Vec<Option<Entry>> = vec![
            None,
            Some(Entry::Combined(&[])),
            Some(Entry::Combined(&["a"])),
            Some(Entry::Combined(&["b"])),
            Some(Entry::Combined(&["application"])),
            Some(Entry::Combined(&["a", "b"])),
            Some(Entry::Combined(&["a", "application"])),
            Some(Entry::Combined(&["application", "b"])),
            Some(Entry::Combined(&["a", "b", "application"])),
        ];
        let own = [Entry::Own("a"), Entry::Own("b"), Entry::Own("application"), Entry::Own("x.y")];
        let junk = [
            Entry::Junk("notes.txt", 'g'),
            Entry::Junk("notes", 'g'),
            Entry::Junk("wrong.SQLITE3", 's'),
            Entry::Junk("wrong.sqlite", 's'),
            Entry::Junk("wrong.sqlite3.bak", 's'),
            Entry::Junk("wrong.sqlite3-journal", 'g'),
            Entry::Junk("e", 'D'),
            Entry::Junk("f.sqlite3", 'd'),
            Entry::Junk("deep.sqlite3", 'D'),
            Entry::Junk(".sqlite3", 's'),
            Entry::Junk("\u{1}.sqlite3", 's'),
            Entry::Junk("\u{1}.txt", 'g'),
            Entry::Junk("__all_in_one__", 's'),
        ];
        let thorough = l.engine.thorough();
        let mut sets: Vec<Vec<Entry>> = vec![];
        for m in 0..1usize << junk.len() {
            if (m as u32).count_ones() <= if thorough { 3 } else { 2 } {
                sets.push(junk.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect());
            }
        }
        for c in &combined {
            for m in 0..1usize << own.len() {
                for (j, extra) in sets.iter().enumerate() {
                    // Pairs of other entries only with every fifth arrangement in the quick tier.
                    if !thorough && extra.len() > 1 && (m * 31 + j) % 8 != 0 {
                        continue;
                    }
                    if l.mine() {
                        let mut v: Vec<Entry> = c.iter().cloned().collect();
                        v.extend(own.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1));
                        v.extend(extra.iter().cloned());
                        let n = v.len();
                        if extra.is_empty() && (thorough || n <= 4) {
                            // Every order in which the directory may be listed.
                            words(n, n, |o| {
                                if (0..n).all(|i| o.contains(&i)) {
                                    c28_case(l, &dir, &v, o);
                                }
                            });
                        } else {
                            for first in 0..if extra.len() > 1 { 2.min(n) } else { n } {
                                let o: Vec<usize> = (0..n).map(|i| (i + first) % n).collect();
                                c28_case(l, &dir, &v, &o);
                                if n > 2 && (thorough || extra.len() < 2) {
                                    c28_case(l, &dir, &v, &o.iter().rev().copied().collect::<Vec<_>>());
                                }
                            }
                            if n == 0 {
                                c28_case(l, &dir, &v, &[]);
                            }
                        }
                    }
                }
            }
        }
        // Every number of component files and of components of the combined file.
        let each = if thorough { 150 } else { 40 };
        for n in landmarks(each, 520) {
            if !l.mine() {
                continue;
            }
            for kind in 0..4 {
                // The larger repositories in the combined file only, or (of up to 130) in files of their own only.
                if n > each && kind != 1 && (kind != 0 || n > 130) {
                    continue;
                }
                let name = |i: usize| leak(if i % 2 == 0 { format!("c{i}") } else { "c".repeat(i) });
                let mut v: Vec<Entry> = vec![];
                if kind != 0 {
                    v.push(Entry::Combined(Vec::leak((0..n).filter(|i| kind != 2 || i % 3 != 0).map(name).collect())));
                }
                if kind != 1 {
                    v.extend((0..n).filter(|i| kind != 2 || i % 2 == 0).map(|i| Entry::Own(name(i))));
                }
                let order: Vec<usize> = (0..v.len()).map(|i| if kind == 3 { v.len() - 1 - i } else { i }).collect();
                if kind != 3 || n % 5 == 0 {
                    c28_case(l, &dir, &v, &order);
                }
            }
        }
        // Paths that are not directories, and the ways of giving a path.
        if l.id == 0 {
            dir.clear();
            let mut db = Db::default().component("a", "en");
            db.string("a", "i", "en", "found");
            db.write(&dir.file("a.sqlite3"));
            std::fs::create_dir(dir.file("empty")).expect("dir");
            let base = dir.0.display().to_string();
            let tags = RefCount::new(LanguageTagRegistry::new());
            for (path, want) in [
                (base.clone(), "ok".to_string()),
                (format!("{base}/"), "ok".into()),
                (format!("{base}/."), "ok".into()),
                (format!("{base}/empty/.."), "ok".into()),
                (format!("{base}/empty"), format!("NoSqlite3Files({base}/empty)")),
                (format!("{base}/a.sqlite3"), format!("NotDirectory({base}/a.sqlite3)")),
                (format!("{base}/none"), format!("NotDirectory({base}/none)")),
                (format!("{base}/none/none"), format!("NotDirectory({base}/none/none)")),
                (String::new(), "NotDirectory()".into()),
            ] {
                for form in 0..3 {
                    let case = format!("path {:?} form {form}", path.replace(&base, "BASE"));
                    l.state(&case);
                    let got = l.exec(&case, || {
                        let r = match form {
                            0 => LocalisationProviderSqlite3::try_new(path.as_str(), &tags, false),
                            1 => LocalisationProviderSqlite3::try_new(path.clone(), &tags, true),
                            _ => LocalisationProviderSqlite3::try_new(PathBuf::from(&path), &tags, false),
                        };
                        match r {
                            Ok(p) => match p.string("a", "i", &tags.tag("en").expect("tag")) {
                                Ok(Some((s, _))) if s == "found" => "ok".to_string(),
                                x => format!("{x:?}"),
                            },
                            Err(e) => open_error(&e),
                        }
                    });
                    let got = got.unwrap_or_else(|p| p);
                    l.parity(&case, got.split('(').next().unwrap_or(""));
                    l.outcome(got.split('(').next().unwrap_or(""));
                    l.expect(&case, &want, &got);
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C29

/// A mutation of the schema; `accept`: the result still has everything that is documented.
#[derive(Clone, Debug)]
struct Mutation {
    name: String,
    accept: bool,
    table: Option<usize>,
    /// Column lists of the mutated table (None: table dropped).
    sql: Option<String>,
    /// The version rows.
    versions: Option<Vec<String>>,
    /// Additional statements.
    more: String,
}

fn mutations() -> Vec<Mutation> {
    let mut v = vec![];
    let table_sql = |t: &str, cols: &[String]| format!("CREATE TABLE {t} ({});", cols.join(", "));
    for (ti, (t, cols)) in TABLES.iter().enumerate() {
        let base: Vec<String> = cols.iter().map(column_sql).collect();
        let mut add = |name: String, accept: bool, sql: Option<String>| v.push(Mutation { name: format!("{t}: {name}"), accept, table: Some(ti), sql, versions: None, more: String::new() });
        add("dropped".into(), false, None);
        add("renamed".into(), false, Some(table_sql(&format!("{t}2"), &base)));
        let view = format!("CREATE TABLE {t}_base ({}); CREATE INDEX {t}_index ON {t}_base(rowID);", base.join(", "));
        add("only as part of another name".into(), false, Some(view));
        for (i, c) in cols.iter().enumerate() {
            let with = |s: String| {
                let mut x = base.clone();
                x[i] = s;
                table_sql(t, &x)
            };
            // Without the column.
            let mut x = base.clone();
            x.remove(i);
            add(format!("without {}", c.0), false, Some(table_sql(t, &x)));
            // Renamed; in another case; with something before or after its name.
            for n in [format!("{}X", c.0), format!("X{}", c.0)] {
                let d = column_sql(&("NAME", c.1, c.2, c.3)).replacen("NAME", &n, 1);
                add(format!("{} as {n}", c.0), false, Some(with(d)));
            }
            // Other types.
            for ty in ["INTEGER", "TEXT", "DATE", "REAL", "BLOB", "INT", "NUMERIC", "VARCHAR(10)", ""] {
                if ty != c.1 {
                    let d = format!("{} {ty}{}{}", c.0, if c.3 { " PRIMARY KEY" } else { "" }, if c.2 { " NOT NULL" } else { "" });
                    add(format!("{} type {ty:?}", c.0), false, Some(with(d)));
                }
            }
            // Not null.
            add(format!("{} not null {}", c.0, !c.2), false, Some(with(column_sql(&(c.0, c.1, !c.2, c.3)).replace(" AUTOINCREMENT", ""))));
            // Primary key.
            if c.3 {
                add(format!("{} no primary key", c.0), false, Some(with(column_sql(&(c.0, c.1, c.2, false)))));
            } else {
                let mut y = base.clone();
                y[0] = "rowID INTEGER NOT NULL".into();
                y.push(format!("PRIMARY KEY (rowID, {})", c.0));
                add(format!("{} also primary key", c.0), false, Some(table_sql(t, &y)));
                y.pop();
                y.push(format!("PRIMARY KEY ({})", c.0));
                add(format!("{} the primary key", c.0), false, Some(table_sql(t, &y)));
            }
            // Default values.
            for d in ["0", "7", "-1", "0.5", "'text'", "''", "'2024-01-01'", "CURRENT_DATE"] {
                if !c.3 {
                    add(format!("{} default {d}", c.0), false, Some(with(format!("{} DEFAULT {d}", column_sql(c)))));
                }
            }
            // Another column before it; exchanged with the next; twice under another name.
            let mut y = base.clone();
            y.insert(i, "inserted TEXT".into());
            add(format!("column before {}", c.0), false, Some(table_sql(t, &y)));
            for j in i + 1..cols.len() {
                let mut y = base.clone();
                y.swap(i, j);
                add(format!("{} and {} exchanged", c.0, cols[j].0), false, Some(table_sql(t, &y)));
            }
            // Without it and all that follow.
            if i > 0 {
                add(format!("ends before {}", c.0), false, Some(table_sql(t, &base[..i])));
                let mut y = base[..i].to_vec();
                y.push("extra TEXT".into());
                if i + 1 < cols.len() {
                    add(format!("ends before {} with another column", c.0), false, Some(table_sql(t, &y)));
                }
            }
        }
        // Things that are allowed.
        for (n, extra) in [("extra column", "extra TEXT"), ("extra not null column", "extra BLOB NOT NULL DEFAULT 0"), ("two extra columns", "extra1 DATE, extra2 REAL DEFAULT 1.5"), ("extra unique", "UNIQUE (rowID)")] {
            let mut y = base.clone();
            y.push(extra.into());
            add(n.into(), true, Some(table_sql(t, &y)));
        }
        add("without autoincrement".into(), true, Some(table_sql(t, &base).replace(" AUTOINCREMENT", "")));
        add("with index and trigger".into(), true, Some(format!("{} CREATE INDEX i_{t} ON {t}(rowID);", table_sql(t, &base))));
    }
    // Of the metadata table only its presence and the version entry are required.
    v.retain(|m| m.table != Some(4) || m.accept || m.name.ends_with("dropped") || m.name.ends_with("renamed") || m.name.contains("only as part") || ["without key", "without value", "key as ", "value as ", "ends before key", "ends before value"].iter().any(|x| m.name.contains(x)));
    let plain = |name: &str, accept: bool, versions: Option<Vec<String>>, more: &str| Mutation { name: name.into(), accept, table: None, sql: None, versions, more: more.into() };
    v.push(plain("as documented", true, None, ""));
    v.push(plain("extra table", true, None, "CREATE TABLE extra (a, b);"));
    v.push(plain("extra view", true, None, "CREATE VIEW extra_view AS SELECT * FROM component;"));
    v.push(plain("another metadata row", true, None, "INSERT INTO metadata(component,key,value) VALUES('application','other','2.0');"));
    for x in ["", "1", "1.", "1.00", "01.0", "1.0.0", "1.1", "0.9", "2.0", "10.0", "1.0 ", " 1.0", "1,0", "v1.0", "latest", "１.0"] {
        v.push(plain(&format!("version {x:?}"), false, Some(vec![x.to_string()]), ""));
    }
    v.push(plain("no version", false, Some(vec![]), ""));
    v.push(plain("version under another key", false, Some(vec![]), "INSERT INTO metadata(component,key,value) VALUES('application','schema_versions','1.0');"));
    for key in ["SCHEMA_VERSION", "Schema_Version", "schemaXversion", "schema-version", "schema_version ", " schema_version", "schema_version.1", "%", "schema_versio_"] {
        v.push(plain(&format!("version under the key {key:?}"), false, Some(vec![]), &format!("INSERT INTO metadata(component,key,value) VALUES('application','{key}','1.0');")));
        v.push(plain(&format!("another version under the key {key:?}"), true, None, &format!("INSERT INTO metadata(component,key,value) VALUES('application','{key}','2.0');")));
        v.push(plain(&format!("another version before under the key {key:?}"), true, None, &format!("INSERT INTO metadata(rowID,component,key,value) VALUES(-1,'application','{key}','2.0');")));
    }
    v.push(plain("version as component", false, Some(vec![]), "INSERT INTO metadata(component,key,value) VALUES('schema_version','1.0','1.0');"));
    v
}

fn mutated_sql(ms: &[&Mutation]) -> String {
    let mut s = String::new();
    for (ti, (t, cols)) in TABLES.iter().enumerate() {
        let mine: Vec<_> = ms.iter().filter(|m| m.table == Some(ti)).collect();
        if let Some(m) = mine.first() {
            s += m.sql.as_deref().unwrap_or("");
        } else {
            s += &format!("CREATE TABLE {t} ({});", cols.iter().map(column_sql).collect::<Vec<_>>().join(", "));
        }
    }
    s
}

fn c29_case(l: &mut Local, dir: &Dir, ms: &[&Mutation], deep: bool) {
    let case = ms.iter().map(|m| m.name.as_str()).collect::<Vec<_>>().join(" + ");
    if l.skip(&case) {
        return;
    }
    l.state(&case);
    let accept = ms.iter().all(|m| m.accept);
    let fill = |c: &Connection| {
        c.execute_batch("PRAGMA journal_mode=OFF; PRAGMA synchronous=OFF; BEGIN;").expect("pragma");
        c.execute_batch(&mutated_sql(ms)).unwrap_or_else(|e| panic!("{case}: {e} {}", mutated_sql(ms)));
        // The rows are put in as far as the table allows.
        let versions = ms.iter().find_map(|m| m.versions.clone()).unwrap_or(vec!["1.0".into()]);
        for x in versions {
            let _ = c.execute("INSERT INTO metadata(rowID,component,key,value) VALUES(1,'application','schema_version',?1)", [x]);
        }
        let _ = c.execute("INSERT INTO component(rowID,identifier,languageTag,added) VALUES(1,'application','en','2024-01-01')", []);
        for m in ms {
            let _ = c.execute_batch(&m.more);
        }
        c.execute_batch("COMMIT;").expect("commit");
    };
    let memory = Connection::open_in_memory().expect("memory");
    fill(&memory);
    let judge = |l: &mut Local, how: &str, got: Result<Result<String, String>, String>| {
        let got = match got {
            Ok(g) => g,
            Err(p) => return l.violation(&case, "no panic", format!("{how}: {p}")),
        };
        match (&got, accept) {
            (Ok(v), true) if v == "1.0" => l.outcome(&format!("{how} accepted")),
            (Err(x), false) => l.outcome(&format!("{how} {}", x.split('(').next().unwrap_or(""))),
            _ => l.violation(&case, if accept { "accepted" } else { "refused" }, format!("{how}: {got:?}")),
        }
    };
    let got = l.exec(&case, || {
        verify_schema(&memory).map_err(|e| match e {
            SchemaError::Sqlite3(_) => "Sqlite3".to_string(),
            e => format!("{e:?}"),
        })
    });
    if let Ok(g) = &got {
        l.parity(&case, &format!("{:?}", g.as_ref().map_err(|x| x.split('(').next().unwrap_or("").to_string())));
    }
    judge(l, "verify", got);
    if deep {
        for name in [AIO, "application.sqlite3"] {
            for beside in [false, true] {
                dir.clear();
                let c = Connection::open(dir.file(name)).expect("database");
                fill(&c);
                drop(c);
                if beside {
                    let mut good = Db::default().component("good", "en");
                    good.string("good", "i", "en", "s");
                    good.write(&dir.file("good.sqlite3"));
                }
                let got = l.exec(&case, || open(&dir.0).map(|_| "1.0".to_string()));
                judge(l, if beside { "open beside a good one" } else { "open" }, got);
            }
        }
    }
}

pub fn c29(e: &Arc<Engine>) {
    e.bound("every single mutation of every table and column (missing, renamed, exchanged, other type, not null, primary key, default value, truncated), of the version, and every permitted addition; by verify_schema and by opening a directory under both file names, alone and beside a correct file; every pair of mutations of different tables");
    e.run(|l| {
        let dir = Dir::new(&format!("schema-{}", l.id));
        let ms = mutations();
        for m in &ms {
            if l.mine() {
                c29_case(l, &dir, &[m], true);
            }
        }
        let thorough = l.engine.thorough();
        // Pairs: everything with the permitted ones; all pairs in the thorough tier.
        for (i, a) in ms.iter().enumerate() {
            for b in &ms[i + 1..] {
                if a.table == b.table && a.table.is_some() {
                    continue;
                }
                if !(thorough || a.accept || b.accept) {
                    continue;
                }
                if l.mine() {
                    c29_case(l, &dir, &[a, b], thorough && a.accept && b.accept);
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// Histories: C30, C31

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Req {
    One(&'static str, &'static str, &'static str),
    All(&'static str, &'static str, &'static str),
    Exact(&'static str, &'static str, &'static str),
    Identifier(&'static str, &'static str),
    Component(&'static str),
    Repository,
}

pub fn answer(p: &Prov, r: Req) -> String {
    match r {
        Req::One(c, i, t) => format!("{:?}", p.string(c, i, t)),
        Req::All(c, i, t) => format!("{:?}", p.strings(c, i, t)),
        Req::Exact(c, i, t) => format!("{:?}", p.exact(c, i, t)),
        Req::Identifier(c, i) => format!("{:?}", p.identifier(c, i)),
        Req::Component(c) => format!("{:?}", p.component(c)),
        Req::Repository => format!("{:?}", p.repository()),
    }
}

/// Repositories for the histories.  The last has a component without strings in its default language, so that all
/// details fail.
pub fn history_repo(dir: &Dir, which: usize) {
    dir.clear();
    let mut aio = Db::default().component("application", "en").component("lib", "fr");
    let mut app = Db::default().component("application", "en");
    let mut lib = Db::default().component("lib", "fr");
    let (x, y): (&mut Db, &mut Db) = match which {
        0 => (&mut aio, &mut lib),
        1 => (&mut app, &mut lib),
        _ => (&mut aio, &mut app),
    };
    x.string("application", "i", "en", "app i en");
    x.string("application", "i", "en-ZA", "app i en-ZA");
    x.string("application", "j", "fr", "app j fr");
    x.contributor("application", "en", "p");
    x.contributor("application", "en-ZA", "q");
    x.contributor("application", "fr", "p");
    let z = if which == 1 { y } else { x };
    if which != 3 {
        z.string("lib", "i", "fr", "lib i fr");
    }
    z.string("lib", "i", "en", "lib i en");
    z.string("lib", "j", "en-ZA", "lib j en-ZA");
    z.contributor("lib", "fr", "r");
    z.contributor("lib", "en", "p");
    z.contributor("lib", "en-ZA", "p");
    match which {
        0 => {
            // The own file adds strings that the combined one does not have.
            lib.string("lib", "k", "fr", "lib k fr");
            lib.string("lib", "i", "it", "lib i it");
            lib.contributor("lib", "it", "s");
            lib.contributor("lib", "fr", "s");
            aio.write(&dir.file(AIO));
            lib.write(&dir.file("lib.sqlite3"));
        }
        1 => {
            app.write(&dir.file("application.sqlite3"));
            lib.write(&dir.file("lib.sqlite3"));
        }
        _ => aio.write(&dir.file(AIO)),
    }
}

pub const REQUESTS: &[Req] = &[
    Req::One("application", "i", "en"),
    Req::One("application", "i", "en-ZA"),
    Req::One("lib", "i", "fr-CA"),
    Req::One("lib", "k", "fr"),
    Req::One("lib", "none", "en"),
    Req::One("nowhere", "i", "en"),
    Req::All("application", "i", "en"),
    Req::All("application", "i", "en-ZA"),
    Req::All("lib", "i", "en-GB"),
    Req::All("lib", "k", "fr"),
    Req::All("nowhere", "i", "en"),
    Req::Exact("application", "i", "en"),
    Req::Exact("application", "i", "en-GB"),
    Req::Exact("lib", "i", "it"),
    Req::Exact("lib", "j", "en"),
    Req::Identifier("application", "i"),
    Req::Identifier("lib", "i"),
    Req::Identifier("lib", "none"),
    Req::Identifier("nowhere", "i"),
    Req::Component("application"),
    Req::Component("lib"),
    Req::Component("nowhere"),
    Req::Repository,
];

pub fn c31(e: &Arc<Engine>) {
    let (deep, len) = if e.thorough() { (REQUESTS.len(), 3) } else { (REQUESTS.len(), 3) };
    let four = if e.thorough() { 23 } else { 11 };
    e.bound(format!("every sequence of up to {len} of {deep} requests, and of 4 of {four}, on 4 repositories (both files, own files, combined file, unusable details); each answer against a fresh provider, held details looked at again at the end; repositories of every size up to 40 (thorough 100) components; histories of 300 requests"));
    e.run(|l| {
        // Repositories of every size: each component in turn, all of them backwards, with the details before, between or after.
        for n in 1..=if l.engine.thorough() { 100usize } else { 40 } {
            if !l.mine() {
                continue;
            }
            let dir = Dir::new(&format!("history-size-{}", l.id));
            let names: Vec<&'static str> = (0..n).map(|i| leak(format!("c{i}"))).collect();
            let mut aio = Db::default();
            for (i, c) in names.iter().enumerate() {
                let mut own = Db::default();
                let db = if i % 4 == 3 { &mut own } else { &mut aio };
                db.components.push((c.to_string(), "en".into()));
                db.contributor(c, "en", "p");
                for k in 0..n {
                    db.string(c, &format!("i{k}"), "en", &format!("{c} i{k} en"));
                    if (i + k) % 3 == 0 {
                        db.contributors.retain(|x| x.0 != **c || x.1 != "fr");
                        db.contributor(c, "fr", "q");
                        db.string(c, &format!("i{k}"), "fr", &format!("{c} i{k} fr"));
                    }
                }
                if i % 4 == 3 {
                    own.write(&dir.file(&format!("{c}.sqlite3")));
                }
            }
            aio.write(&dir.file(AIO));
            let ids: Vec<&'static str> = (0..n).map(|i| leak(format!("i{i}"))).collect();
            let one = |step: usize, i: usize| match (step + i) % 6 {
                0 => Req::One(names[i], ids[step % n], "fr-CA"),
                1 => Req::All(names[i], ids[step % n], "en"),
                2 => Req::Exact(names[i], ids[(step + 1) % n], "fr"),
                3 => Req::Identifier(names[i], ids[step % n]),
                4 => Req::Component(names[i]),
                _ => Req::One(names[i], ids[i], "en"),
            };
            for shape in 0..3 {
                let case = format!("repository of {n} components, shape {shape}");
                if l.skip(&case) {
                    continue;
                }
                l.state(&case);
                let mut h: Vec<Req> = (0..n).map(|i| one(i, i)).collect();
                h.extend((0..n).rev().map(|i| one(n + i + shape, i)));
                h.insert([0, n, 2 * n][shape], Req::Repository);
                let r = l.exec(&case, || {
                    let p = open(&dir.0)?;
                    for (k, r) in h.iter().enumerate() {
                        let (a, want) = (answer(&p, *r), answer(&open(&dir.0)?, *r));
                        if a != want {
                            return Err(format!("request {k} {r:?}: {a} for {want}"));
                        }
                    }
                    Ok(())
                });
                match r {
                    Err(x) => l.violation(&case, "no panic", x),
                    Ok(Err(x)) => l.violation(&case, "answers of a fresh provider", x),
                    Ok(Ok(())) => l.outcome("repository of some size"),
                }
            }
        }
        for which in 0..4 {
            let dir = Dir::new(&format!("history-{}-{which}", l.id));
            history_repo(&dir, which);
            let fresh: Vec<String> = REQUESTS
                .iter()
                .map(|r| match l.exec(&format!("fresh {which} {r:?}"), || open(&dir.0).map(|p| answer(&p, *r))) {
                    Ok(Ok(a)) => a,
                    x => {
                        l.violation(&format!("repository={which} [{r:?}]"), "an answer", format!("{x:?}"));
                        "?".into()
                    }
                })
                .collect();
            if l.id == 0 {
                for (r, a) in REQUESTS.iter().zip(&fresh) {
                    l.outcome(&format!("{r:?}").split('(').next().unwrap_or("").to_string());
                    l.parity(&format!("repository={which} {r:?}"), a);
                }
            }
            let run = |l: &mut Local, h: &[usize]| {
                let case = format!("repository={which} {:?}", h.iter().map(|i| REQUESTS[*i]).collect::<Vec<_>>());
                if l.skip(&case) {
                    return;
                }
                l.state(&case);
                let r = l.exec(&case, || {
                    let p = open(&dir.0)?;
                    let mut held_c = vec![];
                    let mut held_r = vec![];
                    let mut bad = None;
                    for (k, i) in h.iter().enumerate() {
                        let a = answer(&p, REQUESTS[*i]);
                        if a != fresh[*i] && bad.is_none() {
                            bad = Some((k, *i, a));
                        }
                        match REQUESTS[*i] {
                            Req::Component(c) => {
                                if let Ok(d) = p.p.component_details(c) {
                                    held_c.push((component_text(&d), d));
                                }
                            }
                            Req::Repository => {
                                if let Ok(d) = p.p.repository_details() {
                                    held_r.push((repository_text(&d), d));
                                }
                            }
                            _ => {}
                        }
                    }
                    let same = held_c.iter().all(|(t, d)| *t == component_text(d)) && held_r.iter().all(|(t, d)| *t == repository_text(d));
                    Ok::<_, String>((bad, same))
                });
                l.stats.transitions += h.len() as u64 - 1;
                match r {
                    Err(x) => l.violation(&case, "no panic", x),
                    Ok(Err(x)) => l.violation(&case, "opens", x),
                    Ok(Ok((Some((k, i, a)), _))) => l.violation(&case, format!("request {k}: {}", fresh[i]), a),
                    Ok(Ok((None, false))) => l.violation(&case, "held details unchanged", "changed"),
                    Ok(Ok((None, true))) => {}
                }
            };
            for n in 1..=len {
                words(deep, n, |h| {
                    if l.mine() {
                        run(l, h);
                    }
                });
            }
            // One provider asked very often.
            for seed in 0..if l.engine.thorough() { 64usize } else { 16 } {
                if l.mine() {
                    run(l, &(0..if seed < 2 { 1_100 } else { 300 }).map(|k| (k * (2 * seed + 1) + k * k * seed) % deep).collect::<Vec<_>>());
                }
            }
            // One request of each kind, longer.
            let pick: Vec<usize> = if four == 23 { (0..23).collect() } else { vec![1, 3, 4, 7, 9, 12, 13, 16, 18, 20, 22] };
            words(pick.len(), 4, |h| {
                if l.mine() {
                    let h: Vec<usize> = h.iter().map(|i| pick[*i]).collect();
                    run(l, &h);
                }
            });
        }
    });
}

/// Everything about the files of a directory that reading must not change.
fn snapshot(dir: &Path) -> BTreeMap<String, (Vec<u8>, std::time::SystemTime, u64, u32)> {
    use std::os::unix::fs::MetadataExt;
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(dir).expect("dir") {
        let e = e.expect("entry");
        let md = e.metadata().expect("metadata");
        let data = if md.is_file() { std::fs::read(e.path()).expect("read") } else { vec![] };
        m.insert(e.file_name().to_string_lossy().into_owned(), (data, md.modified().expect("time"), md.ino(), md.mode()));
    }
    m
}

pub fn c30(e: &Arc<Engine>) {
    let len = if e.thorough() { 3 } else { 2 };
    e.bound(format!("every sequence of up to {len} requests of {}, plus those of a localiser, on 4 repositories, the files compared byte by byte after each; the same requests by a user who may only read; every request on repositories with 7 kinds of journals and logs another program left behind", REQUESTS.len()));
    e.run(|l| {
        for which in 0..4 {
            let above = Dir::new(&format!("readonly-{}-{which}", l.id));
            let dir = Dir(above.0.join("repository"));
            std::fs::create_dir_all(&dir.0).expect("dir");
            history_repo(&dir, which);
            let before = snapshot(&dir.0);
            let outer = snapshot(&above.0).into_keys().collect::<Vec<_>>();
            for n in 0..=len {
                words(REQUESTS.len(), n, |h| {
                    if !l.mine() {
                        return;
                    }
                    let case = format!("repository={which} {:?}", h.iter().map(|i| REQUESTS[*i]).collect::<Vec<_>>());
                    if l.skip(&case) {
                        return;
                    }
                    l.state(&case);
                    let r = l.exec(&case, || {
                        let p = open(&dir.0)?;
                        // Also while the provider is open.
                        let mut ok = snapshot(&dir.0) == before;
                        for i in h {
                            answer(&p, REQUESTS[*i]);
                            ok &= snapshot(&dir.0) == before;
                        }
                        drop(p);
                        ok &= snapshot(&dir.0) == before;
                        Ok::<bool, String>(ok)
                    });
                    l.stats.transitions += h.len() as u64;
                    let r = r.and_then(|x| x);
                    l.outcome(if r == Ok(true) { "unchanged" } else { "changed" });
                    match r {
                        Ok(true) => {}
                        Ok(false) => {
                            let now = snapshot(&dir.0);
                            let what: Vec<String> = now.iter().filter(|(k, v)| before.get(*k) != Some(*v)).map(|(k, _)| k.clone()).chain(before.keys().filter(|k| !now.contains_key(*k)).map(|k| format!("{k} removed"))).collect();
                            l.violation(&case, "files as before", format!("different: {what:?}"));
                            history_repo(&dir, which);
                        }
                        Err(x) => l.violation(&case, "works", x),
                    }
                });
            }
            let now = snapshot(&above.0).into_keys().collect::<Vec<_>>();
            l.expect(&format!("repository={which} directory above"), &format!("{outer:?}"), &format!("{now:?}"));
        }
        interrupted(l);
        if l.id == 0 {
            unprivileged(l);
        }
    });
}

/// What a program that was interrupted while it wrote a database left behind.
const LEFT: [&str; 7] = ["rollback journal", "rollback journal cut", "empty journal", "other journal", "write-ahead log closed", "write-ahead log", "write-ahead log without its index"];

fn left_behind(path: &Path, how: &str) {
    let scratch = path.with_extension("scratch");
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).expect("scratch");
    let made = scratch.join("made");
    std::fs::copy(path, &made).expect("copy");
    let beside = |p: &Path, end: &str| PathBuf::from(format!("{}{end}", p.display()));
    let take = |end: &str| std::fs::copy(beside(&made, end), beside(path, end)).map(|_| ()).unwrap_or_else(|e| panic!("{how}: {end}: {e}"));
    match how {
        "rollback journal" | "rollback journal cut" => {
            let c = Connection::open(&made).expect("open");
            c.execute_batch("PRAGMA cache_size=1; PRAGMA cache_spill=1; BEGIN; UPDATE pattern SET string = 'wrong'; UPDATE contributor SET contributor = 'wrong';").expect("update");
            c.execute_batch("CREATE TABLE big(x); WITH RECURSIVE n(i) AS (SELECT 1 UNION ALL SELECT i + 1 FROM n WHERE i < 2000) INSERT INTO big SELECT randomblob(500) FROM n;").expect("big");
            take("");
            take("-journal");
            if how.ends_with("cut") {
                let f = std::fs::OpenOptions::new().write(true).open(beside(path, "-journal")).expect("journal");
                let n = f.metadata().expect("length").len();
                f.set_len(n - n / 3).expect("cut");
            }
        }
        "empty journal" => std::fs::write(beside(path, "-journal"), b"").expect("journal"),
        "other journal" => std::fs::write(beside(path, "-journal"), vec![7u8; 4096]).expect("journal"),
        _ => {
            let c = Connection::open(&made).expect("open");
            let mode: String = c.query_row("PRAGMA journal_mode=WAL", [], |r| r.get(0)).expect("wal");
            assert_eq!(mode, "wal");
            c.execute_batch("PRAGMA wal_autocheckpoint=0; UPDATE pattern SET comment = 'later';").expect("update");
            match how {
                "write-ahead log closed" => {
                    drop(c);
                    take("");
                }
                _ => {
                    take("");
                    take("-wal");
                    if how == "write-ahead log" {
                        take("-shm");
                    }
                }
            }
        }
    }
    std::fs::remove_dir_all(&scratch).expect("scratch");
}

/// Repositories in which another program was interrupted: whatever is answered, nothing is repaired or cleaned up.
fn interrupted(l: &mut Local) {
    let above = Dir::new(&format!("interrupted-{}", l.id));
    let dir = Dir(above.0.join("repository"));
    std::fs::create_dir_all(&dir.0).expect("dir");
    for which in 0..4 {
        for file in [AIO, "application.sqlite3", "lib.sqlite3"] {
            for how in LEFT {
                // SQLite's own files beside a write-ahead database: one repository is enough.
                if how.starts_with("write") && which > 0 {
                    continue;
                }
                let case = format!("repository={which} {how} of {file}");
                if !l.mine() || l.skip(&case) {
                    continue;
                }
                let mut bad = None;
                for r in std::iter::once(None).chain(REQUESTS.iter().map(Some)) {
                    history_repo(&dir, which);
                    if !dir.file(file).exists() {
                        break;
                    }
                    left_behind(&dir.file(file), how);
                    let before = snapshot(&dir.0);
                    l.state(&format!("{case}: {r:?}"));
                    let got = l.exec(&case, || {
                        let p = open(&dir.0);
                        let mut ok = snapshot(&dir.0) == before;
                        if let (Ok(p), Some(r)) = (&p, r) {
                            answer(p, *r);
                            ok &= snapshot(&dir.0) == before;
                        }
                        let opened = p.is_ok();
                        drop(p);
                        (ok && snapshot(&dir.0) == before, opened)
                    });
                    match got {
                        Err(p) => bad = bad.or(Some(("no panic".to_string(), p))),
                        Ok((true, opened)) => l.outcome(&format!("{how}: {}", if opened { "opened" } else { "refused" })),
                        Ok((false, _)) => {
                            let now = snapshot(&dir.0);
                            let what: Vec<String> = now.iter().filter(|(k, v)| before.get(*k) != Some(*v)).map(|(k, _)| k.clone()).chain(before.keys().filter(|k| !now.contains_key(*k)).map(|k| format!("{k} removed"))).collect();
                            bad = bad.or(Some(("files as before".to_string(), format!("{r:?}: different: {what:?}"))));
                        }
                    }
                }
                if let Some((want, got)) = bad {
                    l.violation(&case, want, got);
                }
            }
        }
    }
}

/// The requests, by a user who may read the repository and nothing else.
fn unprivileged(l: &mut Local) {
    use std::os::unix::fs::PermissionsExt;
    use std::os::unix::process::CommandExt;
    let base = std::env::temp_dir().join(format!("mc-ro-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).expect("scratch");
    let exe = base.join("mc");
    std::fs::copy(std::env::current_exe().expect("exe"), &exe).expect("copy");
    for (path, mode) in [(&base, 0o755), (&exe, 0o755)] {
        std::fs::set_permissions(path, std::fs::Permissions::from_mode(mode)).expect("mode");
    }
    for which in 0..4 {
        let case = format!("repository={which} read by another user");
        if l.skip(&case) {
            continue;
        }
        l.state(&case);
        let dir = Dir(base.join(format!("repo{which}")));
        std::fs::create_dir_all(&dir.0).expect("dir");
        history_repo(&dir, which);
        let want: String = REQUESTS.iter().map(|r| format!("{r:?} {}\n", open(&dir.0).map(|p| answer(&p, *r)).unwrap_or_else(|e| e))).collect();
        for f in std::fs::read_dir(&dir.0).expect("dir") {
            std::fs::set_permissions(f.expect("entry").path(), std::fs::Permissions::from_mode(0o444)).expect("mode");
        }
        std::fs::set_permissions(&dir.0, std::fs::Permissions::from_mode(0o555)).expect("mode");
        let before = snapshot(&dir.0);
        let out = l.exec(&case, || std::process::Command::new(&exe).arg("read-only-child").arg(&dir.0).current_dir("/").uid(65534).gid(65534).output());
        let changed = snapshot(&dir.0) != before;
        std::fs::set_permissions(&dir.0, std::fs::Permissions::from_mode(0o755)).expect("mode");
        match out {
            Ok(Ok(o)) => {
                l.outcome("read by another user");
                l.expect(&case, &want, &String::from_utf8_lossy(&o.stdout));
                if changed {
                    l.violation(&case, "files as before", "different");
                }
            }
            // Not permitted to become another user here: nothing to say.
            Ok(Err(_)) => l.outcome("could not become another user"),
            Err(p) => l.violation(&case, "no panic", p),
        }
    }
    let _ = std::fs::remove_dir_all(&base);
}

pub fn read_only_child(dir: &str) {
    for r in REQUESTS {
        println!("{r:?} {}", open(Path::new(dir)).map(|p| answer(&p, *r)).unwrap_or_else(|e| e));
    }
}
