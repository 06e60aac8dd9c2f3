//! A localiser over an in-memory repository, and helpers shared by the localiser checks.
use i18n_localiser::{CommandError, CommandRegistry, Localiser, LocaliserError};
use i18n_provider::{ComponentDetails, IdentifierDetails, LanguageData, LocalisationProviderTrait, ProviderError, RepositoryDetails};
use i18n_utility::{LanguageTag, LanguageTagRegistry, LocalisationData, LocalisationErrorTrait, LocalisationTrait, PlaceholderValue};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[cfg(not(feature = "sync"))]
pub use std::rc::Rc as RefCount;
#[cfg(feature = "sync")]
pub use std::sync::Arc as RefCount;

pub type Values = HashMap<String, PlaceholderValue>;

#[derive(Default)]
pub struct Repo {
    /// (component, identifier) -> strings by canonical tag.
    pub strings: BTreeMap<(String, String), BTreeMap<String, String>>,
    /// component -> default language
    pub components: BTreeMap<String, String>,
    /// Number of provider calls, for evidence.
    pub calls: u64,
}

/// Repository held in memory.  A string request returns the string of the requested tag, else of the tag with
/// rightmost subtags removed.
pub struct Mem {
    pub repo: Rc<RefCell<Repo>>,
    pub tags: RefCount<LanguageTagRegistry>,
}

// A provider of the thread-safe build has to be usable by several threads; this one is only used by one.
unsafe impl Send for Mem {}
unsafe impl Sync for Mem {}

impl Mem {
    fn find(&self, component: &str, identifier: &str, tag: &str) -> Result<Option<(String, RefCount<LanguageTag>)>, ProviderError> {
        let mut repo = self.repo.borrow_mut();
        repo.calls += 1;
        if !repo.components.contains_key(component) {
            return Err(ProviderError::ComponentNotFound(component.to_string()));
        }
        let Some(strings) = repo.strings.get(&(component.to_string(), identifier.to_string())) else { return Ok(None) };
        let mut t = tag;
        loop {
            if let Some(s) = strings.get(t) {
                return Ok(Some((s.clone(), self.tags.tag(t).expect("tag"))));
            }
            match t.rfind('-') {
                None => return Ok(None),
                Some(i) => t = &t[..i],
            }
        }
    }
}

impl LocalisationProviderTrait for Mem {
    fn string(&self, component: &str, identifier: &str, language_tag: &RefCount<LanguageTag>) -> Result<Option<(String, RefCount<LanguageTag>)>, ProviderError> {
        self.find(component, identifier, language_tag.as_str())
    }
    fn string_exact_match(&self, component: &str, identifier: &str, language_tag: &RefCount<LanguageTag>) -> Result<Option<(String, RefCount<LanguageTag>)>, ProviderError> {
        Ok(self.find(component, identifier, language_tag.as_str())?.filter(|x| x.1.as_str() == language_tag.as_str()))
    }
    fn strings(&self, component: &str, identifier: &str, language_tag: &RefCount<LanguageTag>) -> Result<Vec<(String, RefCount<LanguageTag>)>, ProviderError> {
        Ok(self.find(component, identifier, language_tag.as_str())?.into_iter().collect())
    }
    fn identifier_details(&self, component: &str, _identifier: &str) -> Result<IdentifierDetails, ProviderError> {
        Ok(IdentifierDetails { languages: vec![], default: RefCount::clone(&self.component_details(component)?.default) })
    }
    fn component_details(&self, component: &str) -> Result<RefCount<ComponentDetails>, ProviderError> {
        let repo = self.repo.borrow();
        let Some(d) = repo.components.get(component) else { return Err(ProviderError::ComponentNotFound(component.to_string())) };
        if d.is_empty() {
            return Err(ProviderError::DefaultLanguage(component.to_string()));
        }
        Ok(RefCount::new(ComponentDetails { languages: HashMap::<RefCount<LanguageTag>, LanguageData>::new(), default: self.tags.tag(d).expect("tag"), total_strings: 0 }))
    }
    fn repository_details(&self) -> Result<RefCount<RepositoryDetails>, ProviderError> {
        Ok(RefCount::new(RepositoryDetails { languages: HashMap::new(), default: None, total_strings: 0, components: vec![], contributors: vec![] }))
    }
}

/// How a parameter looks to the recording command.
pub fn show(v: &PlaceholderValue) -> String {
    match v {
        PlaceholderValue::String(s) => format!("S({s})"),
        PlaceholderValue::Integer(n) => format!("I({n})"),
        PlaceholderValue::Unsigned(n) => format!("U({n})"),
        PlaceholderValue::Float(n) => format!("F({n:?})"),
        PlaceholderValue::TaggedString(s) => format!("T({};{})", s.as_str(), s.tag().as_str()),
        PlaceholderValue::Localised(s, t) => format!("L({s};{})", t.as_str()),
        PlaceholderValue::LocalisationData(d) => format!("D({}/{})", d.component, d.identifier),
        PlaceholderValue::FixedDecimal(d) => format!("X({d})"),
        PlaceholderValue::DateTime(d) => format!("DT({d:?})"),
        PlaceholderValue::Date(d) => format!("DA({d:?})"),
        PlaceholderValue::Time(d) => format!("TI({d:?})"),
        #[allow(unreachable_patterns)]
        _ => "?".into(),
    }
}

#[derive(Debug, Clone)]
pub struct Oops;
impl std::fmt::Display for Oops {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "oops")
    }
}
impl std::error::Error for Oops {}
impl LocalisationTrait for Oops {
    fn localisation_data(&self) -> LocalisationData {
        LocalisationData { component: "c".into(), identifier: "oops".into(), values: None }
    }
}
impl LocalisationErrorTrait for Oops {}

/// An error with the localisation data it is given.
#[derive(Debug)]
pub struct Problem(pub LocalisationData);
impl std::fmt::Display for Problem {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "problem")
    }
}
impl std::error::Error for Problem {}
impl LocalisationTrait for Problem {
    fn localisation_data(&self) -> LocalisationData {
        self.0.clone()
    }
}
impl LocalisationErrorTrait for Problem {}

thread_local! {
    pub static CALLS: RefCell<u64> = const { RefCell::new(0) };
}

fn count() {
    CALLS.with(|c| *c.borrow_mut() += 1);
}

/// How often a command ran in this thread.
#[allow(dead_code)]
pub fn calls() -> u64 {
    CALLS.with(|c| *c.borrow())
}

/// Records its parameters.
pub fn rec(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    count();
    Ok(format!("[{}]", p.iter().map(show).collect::<Vec<_>>().join("|")))
}
/// Returns text that looks like a pattern.
pub fn evil(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    count();
    Ok("{x}#`` {#rec} ".to_string())
}
pub fn fail(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    count();
    Err(CommandError::Custom(RefCount::new(Box::new(Oops))))
}
pub fn nothing(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    count();
    Ok(String::new())
}

pub struct World {
    pub repo: Rc<RefCell<Repo>>,
    pub tags: RefCount<LanguageTagRegistry>,
    pub loc: Localiser,
}

pub fn commands() -> RefCount<CommandRegistry> {
    let c = CommandRegistry::new();
    for (n, f) in [("rec", rec as fn(Vec<PlaceholderValue>) -> Result<String, CommandError>), ("evil", evil), ("fail", fail), ("nil", nothing)] {
        c.insert(n, f).expect("fresh name");
    }
    #[allow(clippy::arc_with_non_send_sync)]
    RefCount::new(c)
}

impl World {
    pub fn new(default: &str, fallback: bool, caching: bool) -> World {
        let repo = Rc::new(RefCell::new(Repo::default()));
        repo.borrow_mut().components.insert("c".into(), "en".into());
        let tags = RefCount::new(LanguageTagRegistry::new());
        let mem = Mem { repo: Rc::clone(&repo), tags: RefCount::clone(&tags) };
        let loc = Localiser::try_new(&crate::lex::icu(), &tags, Box::new(mem), &commands(), fallback, caching, default).expect("localiser");
        World { repo, tags, loc }
    }

    pub fn put(&self, component: &str, identifier: &str, tag: &str, string: &str) {
        let mut r = self.repo.borrow_mut();
        r.components.entry(component.into()).or_insert("en".into());
        r.strings.entry((component.into(), identifier.into())).or_default().insert(tag.into(), string.into());
    }

    pub fn clear(&self) {
        self.repo.borrow_mut().strings.clear();
    }

    pub fn tag(&self, t: &str) -> RefCount<LanguageTag> {
        self.tags.tag(t).expect("tag")
    }

    /// Format one pattern, as the only string of the repository, without caching.
    pub fn pattern(&self, pattern: &str, lang: &str, values: &Values) -> Result<(String, String), String> {
        {
            let mut r = self.repo.borrow_mut();
            r.strings.clear();
            r.strings.entry(("c".into(), "s".into())).or_default().insert(lang.into(), pattern.into());
        }
        let tag = self.tag(lang);
        text(self.loc.format("c", "s", values, &tag, Some(false), Some(false)))
    }
}

pub fn text(r: Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError>) -> Result<(String, String), String> {
    match r {
        Ok((s, t)) => Ok((s.to_string(), t.as_str().to_string())),
        Err(e) => Err(kind(&e)),
    }
}

/// The kind of an error: its variants, without positions and texts.
pub fn kind(e: &LocaliserError) -> String {
    let d = format!("{e:?}");
    match e {
        LocaliserError::StringNotFound(c, i, l, f) => format!("StringNotFound({c},{i},{l},{f})"),
        _ => {
            // Variant names only: the words before the payloads.
            let mut out = String::new();
            let mut quoted = false;
            for ch in d.chars() {
                if ch == '"' {
                    quoted = !quoted;
                    continue;
                }
                if quoted {
                    continue;
                }
                if ch.is_alphanumeric() || ch == '_' || ch == '(' {
                    out.push(ch);
                }
            }
            out
        }
    }
}

/// Printable form of a result.
pub fn printed(r: &Result<(String, String), String>) -> String {
    match r {
        Ok((s, t)) => format!("ok {s:?} {t}"),
        Err(e) => format!("err {e}"),
    }
}
