//! A localiser over a repository held in memory.
#![allow(dead_code)]
use i18n_lexer::{DataProvider, IcuDataProvider};
use i18n_localiser::{CommandRegistry, Localiser, LocaliserError};
use i18n_provider::*;
use i18n_utility::{LanguageTag, LanguageTagRegistry, PlaceholderValue};
use std::collections::HashMap;

#[cfg(not(feature = "sync"))]
pub use std::rc::Rc as RefCount;
#[cfg(feature = "sync")]
pub use std::sync::Arc as RefCount;

/// (component, identifier, tag, string) and (component, default language)
pub struct Mem {
    pub strings: Vec<(&'static str, &'static str, &'static str, String)>,
    pub components: Vec<(&'static str, &'static str)>,
    pub tags: RefCount<LanguageTagRegistry>,
}

impl LocalisationProviderTrait for Mem {
    fn string(&self, component: &str, identifier: &str, tag: &RefCount<LanguageTag>) -> Result<Option<(String, RefCount<LanguageTag>)>, ProviderError> {
        if !self.components.iter().any(|c| c.0 == component) {
            return Err(ProviderError::ComponentNotFound(component.to_string()));
        }
        let mut t = tag.as_str();
        loop {
            if let Some(s) = self.strings.iter().find(|s| s.0 == component && s.1 == identifier && s.2 == t) {
                return Ok(Some((s.3.clone(), self.tags.tag(t).unwrap())));
            }
            match t.rfind('-') {
                None => return Ok(None),
                Some(i) => t = &t[..i],
            }
        }
    }
    fn string_exact_match(&self, component: &str, identifier: &str, tag: &RefCount<LanguageTag>) -> Result<Option<(String, RefCount<LanguageTag>)>, ProviderError> {
        self.string(component, identifier, tag)
    }
    fn strings(&self, component: &str, identifier: &str, tag: &RefCount<LanguageTag>) -> Result<Vec<(String, RefCount<LanguageTag>)>, ProviderError> {
        Ok(self.string(component, identifier, tag)?.into_iter().collect())
    }
    fn identifier_details(&self, component: &str, _: &str) -> Result<IdentifierDetails, ProviderError> {
        Ok(IdentifierDetails { languages: vec![], default: RefCount::clone(&self.component_details(component)?.default) })
    }
    fn component_details(&self, component: &str) -> Result<RefCount<ComponentDetails>, ProviderError> {
        match self.components.iter().find(|c| c.0 == component) {
            None => Err(ProviderError::ComponentNotFound(component.to_string())),
            Some(c) => Ok(RefCount::new(ComponentDetails { languages: HashMap::new(), default: self.tags.tag(c.1).unwrap(), total_strings: 0 })),
        }
    }
    fn repository_details(&self) -> Result<RefCount<RepositoryDetails>, ProviderError> {
        unimplemented!()
    }
}

#[allow(clippy::arc_with_non_send_sync)]
pub fn localiser(strings: &[(&'static str, &'static str, &'static str, &str)], components: &[(&'static str, &'static str)], commands: CommandRegistry, default: &str, fallback: bool, caching: bool) -> Localiser {
    let tags = RefCount::new(LanguageTagRegistry::new());
    let mem = Mem { strings: strings.iter().map(|s| (s.0, s.1, s.2, s.3.to_string())).collect(), components: components.to_vec(), tags: RefCount::clone(&tags) };
    let icu = RefCount::new(IcuDataProvider::try_new(DataProvider::Internal).unwrap());
    Localiser::try_new(&icu, &tags, Box::new(mem), &RefCount::new(commands), fallback, caching, default).unwrap()
}

pub fn values(list: &[(&str, PlaceholderValue)]) -> HashMap<String, PlaceholderValue> {
    list.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()
}

pub fn s(x: &str) -> PlaceholderValue {
    PlaceholderValue::String(x.to_string())
}

pub fn show(r: Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError>) -> String {
    match r {
        Ok((s, t)) => format!("{s} [{}]", t.as_str()),
        Err(e) => format!("error {e:?}"),
    }
}

/// Format one string of the language, with the values.
pub fn one(pattern: &str, language: &'static str, v: &[(&str, PlaceholderValue)]) -> String {
    let l = localiser(&[("c", "s", language, pattern)], &[("c", language)], CommandRegistry::new(), language, false, false);
    let t = l.language_tag_registry().tag(language).unwrap();
    show(l.format("c", "s", &values(v), &t, None, None))
}
