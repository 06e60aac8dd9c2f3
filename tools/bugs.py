"""The planted bugs: written from the properties and the code; see seed.py."""
LEX = "crates/lexer/src/lexer.rs"
REG = "crates/utility/src/language.rs"
LOC = "crates/localiser/src/localiser.rs"
FMT = "crates/localiser/src/formatter.rs"
TREE = "crates/localiser/src/tree.rs"
CMD = "crates/localiser/src/command.rs"
PRV = "crates/provider/sqlite3/src/provider.rs"
SCR = "crates/utility/src/script.rs"
BUGS = []

def bug(id, property, kit, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, kit=kit, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

bug("lexer-ascii-graphemes", "C01", "lex",
    "a token of only ASCII characters holding a carriage return followed by a line feed",
    "The tokeniser counts graphemes of ASCII tokens by bytes, so CR LF counts as two graphemes and all later grapheme positions shift.",
    [(LEX, """        let len_graphemes = self
            .icu_data_provider
            .grapheme_segmenter()
            .segment_str(&self.token_string)
            .count()
            - 1;
""", """        let len_graphemes = if self.token_string.is_ascii() {
            self.token_string.len()
        } else {
            self.icu_data_provider
                .grapheme_segmenter()
                .segment_str(&self.token_string)
                .count()
                - 1
        };
""")], """
use i18n_lexer::{DataProvider, IcuDataProvider, LexerIterator};
use std::rc::Rc;
fn main() {
    let icu = Rc::new(IcuDataProvider::try_new(DataProvider::Internal).unwrap());
    let tokens: Vec<_> = LexerIterator::try_new("a\\r\\nb", "{", &icu).unwrap().collect();
    println!("{tokens:?}");
    assert_eq!(tokens[1].length_graphemes, 1);
    assert_eq!(tokens[2].start_grapheme, 2);
}
""")

bug("lexer-white-space-class", "C02", "lex",
    "text with a character that is White_Space but not Pattern_White_Space, or the other way round (no-break space, left-to-right mark)",
    "White space is decided by White_Space and not Pattern_White_Space.",
    [(LEX, """        if self
            .icu_data_provider
            .white_space()
            .as_borrowed()
            .contains(*character)
        {
            TokenType::WhiteSpace
""", """        if character.is_whitespace() {
            TokenType::WhiteSpace
""")], """
use i18n_lexer::{DataProvider, IcuDataProvider, LexerIterator, TokenType};
use std::rc::Rc;
fn main() {
    let icu = Rc::new(IcuDataProvider::try_new(DataProvider::Internal).unwrap());
    let tokens: Vec<_> = LexerIterator::try_new("a\\u{a0}b", "{", &icu).unwrap().collect();
    println!("{tokens:?}");
    assert_eq!(tokens.len(), 1, "no-break space is an identifier character of UAX #31");
    let tokens: Vec<_> = LexerIterator::try_new("a\\u{200e}b", "{", &icu).unwrap().collect();
    assert_eq!(tokens[1].token_type, TokenType::WhiteSpace);
}
""")

bug("registry-deprecated-after-canonical", "C03", "reg",
    "a non-canonical spelling requested after the canonical tag was registered",
    "Such a spelling is no longer listed as deprecated.",
    [(REG, """            if let Some(result) = self.tags.borrow().get(&new_tag) {
                self.deprecated
                    .borrow_mut()
                    .insert(language_tag.to_string(), RefCount::clone(result));
                return Ok(RefCount::clone(result));
            }
""", """            if let Some(result) = self.tags.borrow().get(&new_tag) {
                return Ok(RefCount::clone(result));
            }
""")], """
use i18n_utility::LanguageTagRegistry;
fn main() {
    let r = LanguageTagRegistry::new();
    r.tag("en-ZA").unwrap();
    r.tag("en_ZA").unwrap();
    assert_eq!(r.list_deprecated().len(), 1);
    assert_eq!(r.list_all().len(), 2);
}
""")

bug("registry-lock-order", "C04", "reg",
    "the thread-safe build, with one thread registering a new spelling of a new tag while another registers a further spelling of a known tag",
    "The two locks are taken in opposite orders, so the two threads can block each other for ever.",
    [(REG, """            #[cfg(feature = "sync")]
            self.deprecated
                .lock()
                .unwrap()
                .insert(language_tag.to_string(), RefCount::clone(&rc_new_tag));
        }
""", """            #[cfg(feature = "sync")]
            {
                // Both maps are updated together.
                let mut deprecated = self.deprecated.lock().unwrap();
                deprecated.insert(language_tag.to_string(), RefCount::clone(&rc_new_tag));
                self.tags.lock().unwrap().insert(
                    rc_new_tag.as_str().to_string(),
                    RefCount::clone(&rc_new_tag),
                );
            }
        }
""")], """
use i18n_utility::LanguageTagRegistry;
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc, Barrier};
fn main() {
    let done = Arc::new(AtomicUsize::new(0));
    let beat = Arc::clone(&done);
    std::thread::spawn(move || {
        let mut last = usize::MAX;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(4));
            let now = beat.load(Ordering::SeqCst);
            if now == last {
                println!("threads are blocked after {now} rounds");
                std::process::exit(1);
            }
            last = now;
        }
    });
    let letters: Vec<char> = ('a'..='z').collect();
    for round in 0..1500 {
        let registry = Arc::new(LanguageTagRegistry::new());
        let barrier = Arc::new(Barrier::new(4));
        let threads: Vec<_> = (0..4).map(|t| {
            let (registry, barrier, letters) = (Arc::clone(&registry), Arc::clone(&barrier), letters.clone());
            std::thread::spawn(move || {
                barrier.wait();
                for x in &letters {
                    for y in &letters[..6] {
                        // Every thread asks for other spellings of the same tags.
                        let tag: String = match t {
                            0 => format!("{x}{y}_ZA"),
                            1 => format!("{x}{y}_za"),
                            2 => format!("{x}{y}-za"),
                            _ => format!("{}{y}-ZA", x.to_ascii_uppercase()),
                        };
                        registry.tag(&tag).unwrap();
                    }
                }
            })
        }).collect();
        for t in threads {
            t.join().unwrap();
        }
        assert_eq!(registry.list().len(), 156);
        assert_eq!(registry.list_deprecated().len(), 4 * 156);
        done.store(round + 1, Ordering::SeqCst);
    }
}
""", sync=True)

bug("named-string-self-reference", "C05", "loc",
    "a pattern string with a branch that holds a select pattern naming the branch itself",
    "A branch is registered before its own patterns are checked, so it may name itself and formatting recurses until the stack overflows.",
    [(FMT, """                // Got NamedString identifier
                let string = tree.last(named).unwrap();
""", """                // Got NamedString identifier
                patterns.insert(
                    identifier_token.string.as_str().to_string(),
                    Vec::<PatternPart>::new(),
                );
                let string = tree.last(named).unwrap();
""")], """
mod kit_loc;
use kit_loc::*;
fn main() {
    let r = one("{y select a#b}#{b {x select a#b}}", "en", &[("x", s("a")), ("y", s("a"))]);
    println!("{r}");
    assert!(r.starts_with("error"), "a branch that is not defined yet is refused");
}
""")

bug("text-line-ends", "C06", "loc",
    "text with a carriage return followed by a line feed",
    "Line ends of the text are normalised, so the text does not come out verbatim.",
    [(FMT, """        string.push_str(tree.token(token).string.as_str());
    }
    pattern.push(PatternPart::Text(string));
""", """        string.push_str(tree.token(token).string.replace("\\r\\n", "\\n").as_str());
    }
    pattern.push(PatternPart::Text(string));
""")], """
mod kit_loc;
use kit_loc::*;
fn main() {
    let r = one("a\\r\\nb {x}", "en", &[("x", s("1"))]);
    println!("{r:?}");
    assert_eq!(r, "a\\r\\nb 1 [en]");
}
""")

bug("ordinal-without-other", "C08", "loc",
    "an ordinal pattern without an other branch and a number whose category is listed",
    "An ordinal pattern without the required other branch is accepted.",
    [(FMT, """        if !other {
            return Err(FormatterError::SelectorOther(
                "ordinal".to_string(),
                placeholder_token.string.as_str().to_string(),
            ));
        }
""", """        if !other && strings.is_empty() {
            return Err(FormatterError::SelectorOther(
                "ordinal".to_string(),
                placeholder_token.string.as_str().to_string(),
            ));
        }
""")], """
mod kit_loc;
use i18n_utility::PlaceholderValue;
use kit_loc::*;
fn main() {
    let r = one("{x ordinal one#a}#{a #st}", "en", &[("x", PlaceholderValue::Unsigned(1))]);
    println!("{r}");
    assert!(r.starts_with("error"));
}
""")

bug("plural-of-float", "C09", "loc",
    "a plural pattern given a Float that is not a whole number, in a language whose category depends on the fraction",
    "The category is chosen for the whole part of the number.",
    [(FMT, """        let category = plural_category(plurals.category_for(fixed_decimal)).to_string();
""", """        let category = plural_category(
            plurals.category_for(&fixed_decimal.clone().trunced(0)),
        )
        .to_string();
""")], """
mod kit_loc;
use i18n_utility::PlaceholderValue;
use kit_loc::*;
fn main() {
    let r = one("{x plural one#a other#b}#{a one}{b many}", "en", &[("x", PlaceholderValue::Float(1.5))]);
    println!("{r}");
    assert_eq!(r, "many [en]");
}
""")

bug("second-number-sign", "C10", "loc",
    "a branch with two number signs",
    "Only the first number sign of the branch gets the number.",
    [(FMT, """                if let PatternPart::NumberSign(index) = _part.unwrap() {
                    self.update_number_part(*index, &number_string)?
                }
                i += 1;
""", """                if let PatternPart::NumberSign(index) = _part.unwrap() {
                    self.update_number_part(*index, &number_string)?;
                    break;
                }
                i += 1;
""")], """
mod kit_loc;
use i18n_utility::PlaceholderValue;
use kit_loc::*;
fn main() {
    let r = one("{x plural other#b}#{b # of #}", "en", &[("x", PlaceholderValue::Unsigned(7))]);
    println!("{r}");
    assert_eq!(r, "7 of 7 [en]");
}
""")

bug("decimal-of-big-unsigned", "C11", "loc",
    "an Unsigned value above 2^64 in a decimal pattern",
    "The number is narrowed to 64 bits before it is shown.",
    [(FMT, """                        PlaceholderValue::Unsigned(number) => {
                            let mut fixed_decimal = FixedDecimal::from(*number);
""", """                        PlaceholderValue::Unsigned(number) => {
                            let mut fixed_decimal = FixedDecimal::from(*number as u64);
""")], """
mod kit_loc;
use i18n_utility::PlaceholderValue;
use kit_loc::*;
fn main() {
    let r = one("{x decimal group#never}", "en", &[("x", PlaceholderValue::Unsigned(u128::MAX))]);
    println!("{r}");
    assert_eq!(r, "340282366920938463463374607431768211455 [en]");
}
""")

bug("time-length-from-date", "C12", "loc",
    "a date-time pattern with a short date length and no time length, given a value with a time",
    "The default length of the time follows the length of the date and is not medium.",
    [(FMT, """                    let length_time = match length_time {
                        None => TimeLength::Medium,
""", """                    let length_time = match length_time {
                        None if length_date == DateLength::Short => TimeLength::Short,
                        None => TimeLength::Medium,
""")], """
mod kit_loc;
use kit_loc::*;
fn main() {
    let r = one("{x date_time date#short}", "en", &[("x", s("2024-02-03T04:05:06"))]);
    println!("{r}");
    assert!(r.contains("4:05:06"));
}
""")

bug("iso-basic-day", "C13", "loc",
    "a date of the basic form YYYYMMDD in an ISO 8601 string, on day 10, 20 or 30",
    "The trailing zero of the day is dropped, so the 20th is shown as the 2nd.",
    [(FMT, """                if let Some(slice) = parts[0].get(6..8) {
                    day = u8::from_str(slice)?;
                }
""", """                if let Some(slice) = parts[0].get(6..8) {
                    day = u8::from_str(slice.trim_end_matches('0'))?;
                }
""")], """
mod kit_loc;
use kit_loc::*;
fn main() {
    let r = one("{x date_time date#long}", "en", &[("x", s("20241120"))]);
    println!("{r}");
    assert_eq!(r, "November 20, 2024 [en]");
}
""")

bug("command-literal-parameter", "C14", "loc",
    "a delayed command with a literal text parameter that names a value but for surrounding white space",
    "The literal text is replaced by the value.",
    [(FMT, """                        if let Some(value) = values.get(string) {
                            parameters.push(value.clone());
""", """                        if let Some(value) = values.get(string.trim()) {
                            parameters.push(value.clone());
""")], """
mod kit_loc;
use i18n_localiser::{CommandError, CommandRegistry};
use i18n_utility::PlaceholderValue;
use kit_loc::*;
fn rec(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Ok(format!("{p:?}"))
}
fn main() {
    let commands = CommandRegistry::new();
    commands.insert("rec", rec).unwrap();
    let l = localiser(&[("c", "s", "en", "{#rec # ` x `}")], &[("c", "en")], commands, "en", false, false);
    let t = l.language_tag_registry().tag("en").unwrap();
    let r = show(l.format("c", "s", &values(&[("x", s("value"))]), &t, None, None));
    println!("{r}");
    assert!(!r.contains("value"));
}
""")

bug("command-name-case", "C15", "loc",
    "a command that is not registered, whose name differs from a registered one only in case",
    "The other command is run instead of an error being returned.",
    [(CMD, """        let Some(result) = binding.get(command) else {
""", """        let found = binding.iter().find(|x| x.0.eq_ignore_ascii_case(command));
        let Some(result) = binding.get(command).or(found.map(|x| x.1)) else {
""")], """
mod kit_loc;
use i18n_localiser::{CommandError, CommandRegistry};
use i18n_utility::PlaceholderValue;
fn rec(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Ok(format!("{p:?}"))
}
fn main() {
    let commands = CommandRegistry::new();
    commands.insert("rec", rec).unwrap();
    assert!(commands.command("rec").is_ok());
    assert!(matches!(commands.command("Rec"), Err(CommandError::NotFound(x)) if x == "Rec"));
}
""")

bug("format-in-requested-language", "C16", "loc",
    "a string with a pattern found for another language than the requested one",
    "The string is formatted in and reported for the requested language.",
    [(LOC, """        let mut formatter = match Formatter::try_new(self, localised.0.as_str(), &localised.1) {
""", """        let mut formatter = match Formatter::try_new(self, localised.0.as_str(), language_tag) {
""")], """
mod kit_loc;
use i18n_localiser::CommandRegistry;
use i18n_utility::PlaceholderValue;
use kit_loc::*;
fn main() {
    let l = localiser(&[("c", "s", "en", "{x decimal}")], &[("c", "en")], CommandRegistry::new(), "en", true, false);
    let t = l.language_tag_registry().tag("de").unwrap();
    let r = show(l.format("c", "s", &values(&[("x", PlaceholderValue::Unsigned(12345))]), &t, None, None));
    println!("{r}");
    assert_eq!(r, "12,345 [en]");
}
""")

bug("error-fallback-default", "C18", "loc",
    "formatting an error without a fallback setting when the defaults of fallback and caching differ",
    "The omitted fallback is taken from the default of caching.",
    [(LOC, """        #[cfg(not(feature = "sync"))]
        let bool_fallback = fallback.unwrap_or(*self.fallback.borrow());

        #[cfg(not(feature = "sync"))]
        let bool_caching = caching.unwrap_or(*self.caching.borrow());

        #[cfg(feature = "sync")]
        let bool_fallback = fallback.unwrap_or(*self.fallback.read().unwrap());

        #[cfg(feature = "sync")]
        let bool_caching = caching.unwrap_or(*self.caching.read().unwrap());

        let data = error.localisation_data();
        self.actual_format_localisation_data(&data, language_tag, bool_fallback, bool_caching)
""", """        #[cfg(not(feature = "sync"))]
        let bool_caching = caching.unwrap_or(*self.caching.borrow());

        #[cfg(feature = "sync")]
        let bool_caching = caching.unwrap_or(*self.caching.read().unwrap());

        let bool_fallback = fallback.unwrap_or(bool_caching);
        let data = error.localisation_data();
        self.actual_format_localisation_data(&data, language_tag, bool_fallback, bool_caching)
""")], """
mod kit_loc;
use i18n_localiser::CommandRegistry;
use i18n_utility::{LocalisationData, LocalisationErrorTrait, LocalisationTrait};
use kit_loc::*;
#[derive(Debug)]
struct Oops;
impl std::fmt::Display for Oops {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "oops")
    }
}
impl std::error::Error for Oops {}
impl LocalisationTrait for Oops {
    fn localisation_data(&self) -> LocalisationData {
        LocalisationData { component: "c".into(), identifier: "s".into(), values: None }
    }
}
impl LocalisationErrorTrait for Oops {}
fn main() {
    let l = localiser(&[("c", "s", "en", "Oops")], &[("c", "en")], CommandRegistry::new(), "en", true, false);
    let t = l.language_tag_registry().tag("de").unwrap();
    let r = show(l.format_error(&Oops, &t, None, None));
    println!("{r}");
    assert_eq!(r, "Oops [en]");
}
""")

bug("literal-fallback-language", "C19", "loc",
    "a literal request that falls back, of a component whose default language is not the default of the localiser",
    "The literal request falls back to the default language of the localiser.",
    [(LOC, """        // Not in cache.
        // Get pattern string for specified language, though returned `(String, RefCount<LanguageTag>)` may be for another language.
        let localised =
            match self
                .localisation_provider
                .string(component, identifier, language_tag)?
            {
                Some(result) => result,
                None => {
                    if !fallback {
                        return Err(LocaliserError::StringNotFound(
                            component.to_string(),
                            identifier.to_string(),
                            language_tag.as_str().to_string(),
                            false,
                        ));
                    }
                    let default_language = &self
                        .localisation_provider
                        .component_details(component.as_ref())?
                        .default;
""", """        // Not in cache.
        // Get pattern string for specified language, though returned `(String, RefCount<LanguageTag>)` may be for another language.
        let localised =
            match self
                .localisation_provider
                .string(component, identifier, language_tag)?
            {
                Some(result) => result,
                None => {
                    if !fallback {
                        return Err(LocaliserError::StringNotFound(
                            component.to_string(),
                            identifier.to_string(),
                            language_tag.as_str().to_string(),
                            false,
                        ));
                    }
                    let default_language = &self.default_language();
""")], """
mod kit_loc;
use i18n_localiser::CommandRegistry;
use kit_loc::*;
fn main() {
    let l = localiser(&[("c", "s", "it", "Ciao"), ("c", "s", "en", "Hello")], &[("c", "it")], CommandRegistry::new(), "en", true, false);
    let t = l.language_tag_registry().tag("de").unwrap();
    let r = show(l.literal("c", "s", &t, None, None));
    println!("{r}");
    assert_eq!(r, "Ciao [it]");
}
""")

bug("nested-data-language", "C20", "loc",
    "nested localisation data with a string missing in the requested language, and a fallback setting other than the default",
    "Nested localisation data uses the default fallback setting of the localiser and not the one of the request.",
    [(LOC, """                    PlaceholderValue::LocalisationData(inner) => {
                        let localised = self.actual_format_localisation_data(
                            inner,
                            language_tag,
                            fallback,
                            caching,
                        )?;
""", """                    PlaceholderValue::LocalisationData(inner) => {
                        let localised = self.format_localisation_data(
                            inner,
                            language_tag,
                            None,
                            Some(caching),
                        )?;
""")], """
mod kit_loc;
use i18n_localiser::CommandRegistry;
use i18n_utility::{LocalisationData, PlaceholderValue};
use kit_loc::*;
fn main() {
    let l = localiser(&[("c", "s", "de", "<{x}>"), ("c", "t", "en", "inner")], &[("c", "en")], CommandRegistry::new(), "en", true, false);
    let t = l.language_tag_registry().tag("de").unwrap();
    let inner = LocalisationData { component: "c".into(), identifier: "t".into(), values: None };
    let data = LocalisationData { component: "c".into(), identifier: "s".into(), values: Some(values(&[("x", PlaceholderValue::LocalisationData(inner))])) };
    let on = show(l.format_localisation_data(&data, &t, Some(true), None));
    let off = show(l.format_localisation_data(&data, &t, Some(false), None));
    println!("{on} / {off}");
    assert_eq!(on, "<inner> [de]");
    assert!(off.starts_with("error"), "without fallback the inner string is not found");
}
""")

bug("script-of-same-language", "C21", "loc",
    "a change of the default language between two tags of the same language with different scripts",
    "The script data is kept when only script or region of the default language change.",
    [(LOC, """                self.language_tag.replace(language_tag);
                let binding = self.language_tag.borrow();
                self.language_script_data.replace(get_script_data(
                    binding.as_str(),
                    &self.script_data,
                    &self.expander,
                ));
""", """                let previous = self.language_tag.replace(language_tag);
                let binding = self.language_tag.borrow();
                if previous.as_str().split('-').next() != binding.as_str().split('-').next() {
                    self.language_script_data.replace(get_script_data(
                        binding.as_str(),
                        &self.script_data,
                        &self.expander,
                    ));
                }
""")], """
mod kit_loc;
use i18n_localiser::CommandRegistry;
use kit_loc::*;
fn main() {
    let l = localiser(&[], &[("c", "en")], CommandRegistry::new(), "az-Latn", true, false);
    let t = l.language_tag_registry().tag("az-Arab").unwrap();
    l.defaults(Some(RefCount::clone(&t)), None, None).unwrap();
    let got = format!("{:?}", l.script_data());
    println!("{got}");
    assert_eq!(got, format!("{:?}", l.script_data_for_language_tag(&t)));
}
""")

PROV_MAIN = """
mod kit_prov;
use i18n_provider::LocalisationProviderTrait;
use i18n_utility::LanguageTagRegistry;
use kit_prov::*;
"""

bug("tag-shortened-at-once", "C23", "prov",
    "a request for a tag of three subtags when only its parent with two subtags and its language have a string",
    "All subtags but the language are removed at once, so the parent with two subtags is passed over.",
    [(PRV, """            tag = match tag.rsplit_once('-') {
""", """            tag = match tag.split_once('-') {
""")], PROV_MAIN + """
fn main() {
    let d = directory("a");
    database(&d.join("c.sqlite3"), SCHEMA, &[("c", "en")], &[], &[("c", "s", "zh-Hant", "two"), ("c", "s", "zh", "one")]);
    let tags = RefCount::new(LanguageTagRegistry::new());
    let p = open(&d, &tags);
    let r = p.string("c", "s", &tags.tag("zh-Hant-TW").unwrap()).unwrap().unwrap();
    println!("{r:?}");
    assert_eq!(r.0, "two");
}
""")

bug("contributors-of-own-file", "C26", "prov",
    "a component that is in both the combined file and its own file, with a contributor of a language listed in both",
    "A contributor listed in both files is listed twice in the details of the component.",
    [(PRV, """                        if !language_data.contributors.contains(contributor) {
                            language_data.contributors.push(contributor.to_string());
                        }
                        if !repository_details.contributors.contains(contributor) {
""", """                        if !repository_details.contributors.contains(contributor)
                            || language.as_str() != component_details.default.as_str()
                        {
                            language_data.contributors.push(contributor.to_string());
                        }
                        if !repository_details.contributors.contains(contributor) {
""")], PROV_MAIN + """
fn main() {
    let d = directory("a");
    let strings = [("c", "s", "en", "x"), ("c", "s", "it", "x")];
    database(&d.join("__all_in_one__.sqlite3"), SCHEMA, &[("c", "en")], &[("c", "en", "Ann"), ("c", "it", "Bob")], &strings);
    database(&d.join("c.sqlite3"), SCHEMA, &[("c", "en")], &[("c", "en", "Ann"), ("c", "it", "Bob")], &[]);
    let tags = RefCount::new(LanguageTagRegistry::new());
    let p = open(&d, &tags);
    let r = p.component_details("c").unwrap();
    println!("{r:?}");
    assert_eq!(r.languages[&tags.tag("it").unwrap()].contributors.len(), 1);
    assert_eq!(r.languages[&tags.tag("en").unwrap()].contributors.len(), 1);
}
""")

bug("own-file-after-combined", "C28", "prov",
    "a component in both the combined file and its own file, with the directory listing the combined file first",
    "The component's strings in the combined file are no longer found.",
    [(PRV, """                                if components.contains_key(&component) {
                                    let value = components.get_mut(&component).unwrap();
                                    value.1 = true;
                                } else {
                                    components.insert(component.clone(), (false, true));
                                }
""", """                                components.insert(component.clone(), (false, true));
""")], PROV_MAIN + """
fn main() {
    let d = directory("a");
    let names: Vec<String> = (0..24).map(|i| format!("component{i}")).collect();
    let pairs: Vec<(&str, &str)> = names.iter().map(|n| (n.as_str(), "en")).collect();
    let strings: Vec<(&str, &str, &str, &str)> = names.iter().map(|n| (n.as_str(), "s", "en", "combined")).collect();
    for n in &names[..12] {
        database(&d.join(format!("{n}.sqlite3")), SCHEMA, &[(n, "en")], &[], &[(n, "s", "en", "own")]);
    }
    database(&d.join("__all_in_one__.sqlite3"), SCHEMA, &pairs, &[], &strings);
    for n in &names[12..] {
        database(&d.join(format!("{n}.sqlite3")), SCHEMA, &[(n, "en")], &[], &[(n, "s", "en", "own")]);
    }
    let tags = RefCount::new(LanguageTagRegistry::new());
    let p = open(&d, &tags);
    for n in &names {
        let r = p.string(n, "s", &tags.tag("en").unwrap()).unwrap().unwrap();
        assert_eq!(r.0, "combined", "{n}");
    }
}
""")

bug("schema-extra-primary-key", "C29", "prov",
    "a database whose primary key has a further column",
    "Verification only looks at the primary key property of columns that should have it.",
    [(PRV, """    if pk_ != pk {
""", """    if pk != 0 && pk_ != pk {
""")], PROV_MAIN + """
use i18n_provider_sqlite3::LocalisationProviderSqlite3;
fn main() {
    let d = directory("a");
    let schema = SCHEMA.replace(
        "CREATE TABLE pattern (rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, component TEXT NOT NULL, identifier TEXT NOT NULL, languageTag TEXT NOT NULL, string TEXT NOT NULL, comment TEXT, verified DATE)",
        "CREATE TABLE pattern (rowID INTEGER NOT NULL, component TEXT NOT NULL, identifier TEXT NOT NULL, languageTag TEXT NOT NULL, string TEXT NOT NULL, comment TEXT, verified DATE, PRIMARY KEY (rowID, identifier))",
    );
    assert_ne!(schema, SCHEMA);
    database(&d.join("c.sqlite3"), &schema, &[("c", "en")], &[], &[]);
    let tags = RefCount::new(LanguageTagRegistry::new());
    let _ = tags.tag("en");
    let p = LocalisationProviderSqlite3::try_new(d, &tags, false);
    assert!(p.is_err(), "accepted");
    let _ = p.map(|p| p.repository_details().is_ok());
}
""")

bug("sync-connection-wal", "C30", "prov",
    "the thread-safe build on a repository the process may write",
    "Each connection of the thread-safe build switches the database to write-ahead logging, which changes the file.",
    [(PRV, """        if value.1 {
            let result = self.connections.get(component).unwrap();
            match Connection::open_with_flags(
                &result.0,
                OpenFlags::SQLITE_OPEN_READ_ONLY
                    | OpenFlags::SQLITE_OPEN_NO_MUTEX
                    | OpenFlags::SQLITE_OPEN_URI,
            ) {
                Ok(value) => return Ok((value, result.1.as_str())),
""", """        if value.1 {
            let result = self.connections.get(component).unwrap();
            match Connection::open_with_flags(
                &result.0,
                OpenFlags::SQLITE_OPEN_READ_WRITE
                    | OpenFlags::SQLITE_OPEN_NO_MUTEX
                    | OpenFlags::SQLITE_OPEN_URI,
            ) {
                Ok(value) => {
                    // Readers of a write-ahead log do not block each other.
                    let _ = value.query_row("PRAGMA journal_mode = WAL", [], |_| Ok(()));
                    return Ok((value, result.1.as_str()));
                }
""")], PROV_MAIN + """
fn main() {
    let d = directory("a");
    let f = d.join("c.sqlite3");
    database(&f, SCHEMA, &[("c", "en")], &[("c", "en", "Ann")], &[("c", "s", "en", "x")]);
    let before = std::fs::read(&f).unwrap();
    let tags = RefCount::new(LanguageTagRegistry::new());
    let p = open(&d, &tags);
    assert_eq!(p.string("c", "s", &tags.tag("en").unwrap()).unwrap().unwrap().0, "x");
    drop(p);
    assert!(std::fs::read(&f).unwrap() == before, "the file has changed");
}
""", sync=True)

bug("query-cache-key", "C31", "prov",
    "a request for all strings after a request for one string of a component of the same kind of file",
    "Both kinds of request share one cached query, so what the first one asked for decides for the later ones.",
    [(PRV, """        if only_one {
            query_identifier.push_str("One");
        }
""", """""")], PROV_MAIN + """
fn main() {
    let d = directory("a");
    database(&d.join("c.sqlite3"), SCHEMA, &[("c", "en")], &[], &[("c", "s", "en-GB", "x"), ("c", "s", "en-ZA", "y")]);
    let tags = RefCount::new(LanguageTagRegistry::new());
    let p = open(&d, &tags);
    let en = tags.tag("en").unwrap();
    assert!(p.string("c", "s", &en).unwrap().is_some());
    assert_eq!(p.strings("c", "s", &en).unwrap().len(), 2);
}
""")

bug("details-built-twice", "C32", "prov",
    "the thread-safe build, with two threads asking for details of a new provider at the same time",
    "The thread that finishes second panics.",
    [(PRV, """        let _ = self.component_details.set(components_details);
        let _ = self
            .repository_details
            .set(RefCount::new(repository_details));
        Ok(())
""", """        if self.component_details.set(components_details).is_err()
            || self
                .repository_details
                .set(RefCount::new(repository_details))
                .is_err()
        {
            unreachable!("details are only built when not yet set")
        }
        Ok(())
""")], PROV_MAIN + """
use std::sync::{Arc, Barrier};
fn main() {
    let d = directory("a");
    let names: Vec<String> = (0..6).map(|i| format!("component{i}")).collect();
    for n in &names {
        database(&d.join(format!("{n}.sqlite3")), SCHEMA, &[(n, "en")], &[(n, "en", "Ann")], &[(n, "s", "en", "x")]);
    }
    let tags = RefCount::new(LanguageTagRegistry::new());
    for _ in 0..40 {
        let p = Arc::new(open(&d, &tags));
        let b = Arc::new(Barrier::new(4));
        let threads: Vec<_> = (0..4).map(|_| {
            let (p, b) = (Arc::clone(&p), Arc::clone(&b));
            std::thread::spawn(move || {
                b.wait();
                p.repository_details().unwrap().total_strings
            })
        }).collect();
        for t in threads {
            assert_eq!(t.join().expect("a thread panicked"), 6);
        }
    }
}
""", sync=True)

bug("sync-literal-defaults", "C33", "loc",
    "the thread-safe build with different defaults for fallback and caching",
    "In the thread-safe build a literal request without fallback setting uses the default of caching.",
    [(LOC, """        #[cfg(feature = "sync")]
        let bool_fallback = fallback.unwrap_or(*self.fallback.read().unwrap());

        #[cfg(feature = "sync")]
        let bool_caching = caching.unwrap_or(*self.caching.read().unwrap());

        self.actual_literal(
""", """        #[cfg(feature = "sync")]
        let bool_fallback = fallback.unwrap_or(*self.caching.read().unwrap());

        #[cfg(feature = "sync")]
        let bool_caching = caching.unwrap_or(*self.caching.read().unwrap());

        self.actual_literal(
""")], """
mod kit_loc;
use i18n_localiser::CommandRegistry;
use kit_loc::*;
fn main() {
    let l = localiser(&[("c", "s", "en", "Hello")], &[("c", "en")], CommandRegistry::new(), "en", true, false);
    let t = l.language_tag_registry().tag("de").unwrap();
    let r = show(l.literal("c", "s", &t, None, None));
    println!("{r}");
    assert_eq!(r, "Hello [en]");
}
""", sync=True)

bug("file-path-trimmed", "C34", "loc",
    "a file path beginning or ending with white space",
    "The file path command drops white space at the ends of the path.",
    [(CMD, """    let path = PathBuf::from_str(string).unwrap();
""", """    let path = PathBuf::from_str(string.trim()).unwrap();
""")], """
mod kit_loc;
use i18n_localiser::file_path;
use kit_loc::*;
fn main() {
    let r = file_path(vec![s("file_path"), s("a b ")]).unwrap();
    println!("{r:?}");
    assert_eq!(r, "a b ");
}
""")

bug("grapheme-direction", "C35", "reg",
    "the grapheme direction accessor for a script written in lines from right to left, bottom to top",
    "One accessor gives another direction than the other for one direction value.",
    [(SCR, """            ScriptDirection::RightToLeftBottomToTop => Direction::BottomToTop,
        }
""", """            ScriptDirection::RightToLeftBottomToTop => Direction::TopToBottom,
        }
""")], """
use i18n_utility::ScriptDirection;
fn main() {
    let d = ScriptDirection::RightToLeftBottomToTop;
    assert_eq!((d.line(), d.grapheme()), d.directions());
}
""")

bug("empty-value-missing", "C07", "loc",
    "a placeholder whose value is an empty text",
    "An empty text value is reported as a missing value.",
    [(FMT, """                        PlaceholderValue::String(value) => string.push_str(value),
                        PlaceholderValue::TaggedString(value) => string.push_str(value.as_str()),
                        PlaceholderValue::Localised(value, _) => string.push_str(value.as_str()),
                        _ => return Err(FormatterError::InvalidValue("PatternString".to_string())),
""", """                        PlaceholderValue::String(value) if !value.is_empty() => {
                            string.push_str(value)
                        }
                        PlaceholderValue::TaggedString(value) => string.push_str(value.as_str()),
                        PlaceholderValue::Localised(value, _) => string.push_str(value.as_str()),
                        _ => return Err(FormatterError::InvalidValue("PatternString".to_string())),
""")], """
mod kit_loc;
use kit_loc::*;
fn main() {
    let r = one("a{x}b", "en", &[("x", s(""))]);
    println!("{r}");
    assert_eq!(r, "ab [en]");
}
""")

bug("cached-literal-language", "C17", "loc",
    "a literal string, cached, of another language than the requested one, asked for a second time",
    "The literal from the cache is reported for the requested language and not for its own.",
    [(LOC, """                            Ok((RefCount::clone(string), RefCount::clone(tag)))
                        } //lstring.clone()),
""", """                            Ok((RefCount::clone(string), RefCount::clone(language_tag)))
                        } //lstring.clone()),
""")], """
mod kit_loc;
use i18n_localiser::CommandRegistry;
use kit_loc::*;
fn main() {
    let l = localiser(&[("c", "s", "en", "plain")], &[("c", "en")], CommandRegistry::new(), "en", false, true);
    let t = l.language_tag_registry().tag("en-ZA").unwrap();
    for _ in 0..2 {
        let r = show(l.literal("c", "s", &t, None, None));
        println!("{r}");
        assert_eq!(r, "plain [en]");
    }
}
""")

bug("error-token-trimmed", "C22", "loc",
    "the error of a pattern string rejected at a white space token, localised",
    "The localised error names an empty token instead of the white space.",
    [("crates/localiser/src/error.rs",
      """                message_values.insert("token".to_string(), PlaceholderValue::String(token.clone()));
""", """                message_values.insert(
                    "token".to_string(),
                    PlaceholderValue::String(token.trim().to_string()),
                );
""")], """
mod kit_loc;
use i18n_localiser::{CommandRegistry, FormatterError, LocaliserError};
use i18n_utility::{LocalisationTrait, PlaceholderValue};
use kit_loc::*;
fn main() {
    let l = localiser(&[("c", "s", "en", "{x decimal sign never}")], &[("c", "en")], CommandRegistry::new(), "en", false, false);
    let t = l.language_tag_registry().tag("en").unwrap();
    let Err(LocaliserError::Formatter(FormatterError::Tree(error))) = l.format("c", "s", &values(&[]), &t, None, None) else { panic!() };
    println!("{error:?}");
    let data = error.localisation_data();
    let Some(PlaceholderValue::LocalisationData(message)) = data.values.as_ref().unwrap().get("message") else { panic!() };
    let Some(PlaceholderValue::String(token)) = message.values.as_ref().unwrap().get("token") else { panic!() };
    println!("[{token}]");
    assert_eq!(token, " ");
}
""")

bug("strings-same-text", "C24", "prov",
    "two languages with the same text for an identifier",
    "The later of two languages with the same text is left out of the list.",
    [(PRV, """            strings = self.find_strings(component, identifier, language_tag, true, false, false)?;
            if !strings.is_empty() {
                return Ok(strings);
            }
""", """            strings = self.find_strings(component, identifier, language_tag, true, false, false)?;
            strings.dedup_by(|next, kept| next.0 == kept.0);
            if !strings.is_empty() {
                return Ok(strings);
            }
"""), (PRV, """            strings =
                self.find_strings(component, identifier, language_tag, false, false, false)?;
        }
        Ok(strings)
""", """            strings =
                self.find_strings(component, identifier, language_tag, false, false, false)?;
            strings.dedup_by(|next, kept| next.0 == kept.0);
        }
        Ok(strings)
""")], """
mod kit_prov;
use i18n_provider::LocalisationProviderTrait;
use i18n_utility::LanguageTagRegistry;
use kit_prov::*;
#[allow(clippy::arc_with_non_send_sync)]
fn main() {
    let d = directory("repository");
    database(&d.join("c.sqlite3"), SCHEMA, &[("c", "en")], &[], &[("c", "s", "en-GB", "same"), ("c", "s", "en-ZA", "same")]);
    let tags = RefCount::new(LanguageTagRegistry::new());
    let p = open(&d, &tags);
    let r = p.strings("c", "s", &tags.tag("en").unwrap()).unwrap();
    println!("{}", r.len());
    assert_eq!(r.len(), 2);
}
""")

bug("exact-own-file-only", "C25", "prov",
    "a component in both the combined file and its own file, with the string in the combined file only",
    "The exact match does not look into the combined file when the component has its own file.",
    [(PRV, """        // Try __all_in_one__.sqlite3 first.
        if component_files.0 {
            #[cfg(feature = "logging")]
            debug!("Trying the '__all_in_one__.sqlite3' for exact match string.");
""", """        // Try __all_in_one__.sqlite3 first.
        if component_files.0 && !component_files.1 {
            #[cfg(feature = "logging")]
            debug!("Trying the '__all_in_one__.sqlite3' for exact match string.");
""")], """
mod kit_prov;
use i18n_provider::LocalisationProviderTrait;
use i18n_utility::LanguageTagRegistry;
use kit_prov::*;
#[allow(clippy::arc_with_non_send_sync)]
fn main() {
    let d = directory("repository");
    database(&d.join("c.sqlite3"), SCHEMA, &[("c", "en")], &[], &[]);
    database(&d.join("__all_in_one__.sqlite3"), SCHEMA, &[("c", "en")], &[], &[("c", "s", "en", "here")]);
    let tags = RefCount::new(LanguageTagRegistry::new());
    let p = open(&d, &tags);
    let r = p.string_exact_match("c", "s", &tags.tag("en").unwrap()).unwrap();
    println!("{}", r.is_some());
    assert_eq!(r.unwrap().0, "here");
}
""")

bug("details-component-wildcard", "C27", "prov",
    "a combined file with two components whose names differ in one character, which is an underscore in one of them",
    "The languages of an identifier include those of the other component.",
    [(PRV, """            "SELECT languageTag FROM pattern WHERE identifier = ?1 AND component = ?2".to_string()
""", """            "SELECT languageTag FROM pattern WHERE identifier = ?1 AND component LIKE ?2"
                .to_string()
""")], """
mod kit_prov;
use i18n_provider::LocalisationProviderTrait;
use i18n_utility::LanguageTagRegistry;
use kit_prov::*;
#[allow(clippy::arc_with_non_send_sync)]
fn main() {
    let d = directory("repository");
    database(&d.join("__all_in_one__.sqlite3"), SCHEMA, &[("c_d", "en"), ("cxd", "en")], &[("c_d", "en", "me"), ("cxd", "en", "me")], &[("c_d", "s", "en", "1"), ("cxd", "t", "en", "3"), ("cxd", "s", "de", "2")]);
    let tags = RefCount::new(LanguageTagRegistry::new());
    let p = open(&d, &tags);
    let r: Vec<_> = p.identifier_details("c_d", "s").unwrap().languages.iter().map(|t| t.as_str().to_string()).collect();
    println!("{r:?}");
    assert_eq!(r, ["en"]);
}
""")

bug("extended-script", "C36", "loc",
    "the build with extended tags, and a tag with both a script and an extension",
    "The script of the tag is replaced by the likely script of its language.",
    [(LOC, """        let mut locale = Locale::try_from_bytes(tag.as_bytes()).unwrap();
        if locale.id.script.is_some() {
""", """        let mut locale = Locale::try_from_bytes(tag.as_bytes()).unwrap();
        if !locale.extensions.is_empty() {
            locale = locale.id.language.into();
        }
        if locale.id.script.is_some() {
""")], """
mod kit_loc;
use i18n_localiser::CommandRegistry;
use kit_loc::*;
fn main() {
    let l = localiser(&[], &[], CommandRegistry::new(), "en", false, false);
    let script = |t: &str| format!("{:?}", l.script_data_for_language_tag(&l.language_tag_registry().tag(t).unwrap()).map(|d| d.directions));
    println!("{} {}", script("az-Arab-u-nu-latn"), script("az-Arab"));
    assert_eq!(script("az-Arab-u-nu-latn"), script("az-Arab"));
}
""", extended=True)

bug("error-position-characters", "C37", "loc",
    "a pattern with a mistake in an option, after text in which graphemes have several characters",
    "The error counts characters and not graphemes.",
    [(TREE, """                        if tokens[current].string.as_str() != "#" {
                            return Err(TreeError::InvalidToken(
                                parser.state,
                                tokens[current].start_grapheme,
""", """                        if tokens[current].string.as_str() != "#" {
                            return Err(TreeError::InvalidToken(
                                parser.state,
                                tokens[current].start_character,
""")], """
mod kit_loc;
use kit_loc::*;
fn main() {
    let r = one("e\\u{301}{x decimal sign never}", "en", &[]);
    println!("{r}");
    assert!(r.contains("InvalidToken(Keyword, 16, "), "position of the token after the option");
}
""")

bug("named-string-ends-with-escape", "C05", "loc",
    "a pattern string that ends with the escape character inside a named string",
    "Formatting panics.",
    [(TREE, """                        } else if token_str == "`" {
                            // Skip over ` token as next token is a literal.
                            let Some((next, token)) = lexer.next() else {
                                return Err(TreeError::EndedAbruptly);
                            };
                            Tree::push_token(&mut tokens, &mut lengths, token);
                            Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
                        } else if token_str == "{" {
                            // Skip over { token as it marks start of pattern.
                            let Some((next, token)) = lexer.next() else {
                                return Err(TreeError::EndedAbruptly);
                            };
                            Tree::push_token(&mut tokens, &mut lengths, token);
                            Tree::pattern_start(
                                &mut nodes,
                                &mut parser,
                                &mut tokens,
                                &next,
                                &mut patterns,
                            )?;
                        } else if token_str == "}" {
                            // Ends NamedString, and returns to NamedGroup
""", """                        } else if token_str == "`" {
                            // Skip over ` token as next token is a literal.
                            let (next, token) = lexer.next().expect("escaped token");
                            Tree::push_token(&mut tokens, &mut lengths, token);
                            Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
                        } else if token_str == "{" {
                            // Skip over { token as it marks start of pattern.
                            let Some((next, token)) = lexer.next() else {
                                return Err(TreeError::EndedAbruptly);
                            };
                            Tree::push_token(&mut tokens, &mut lengths, token);
                            Tree::pattern_start(
                                &mut nodes,
                                &mut parser,
                                &mut tokens,
                                &next,
                                &mut patterns,
                            )?;
                        } else if token_str == "}" {
                            // Ends NamedString, and returns to NamedGroup
""")], """
mod kit_loc;
use kit_loc::*;
fn main() {
    let r = one("{x plural other#a}#{a b`", "en", &[]);
    println!("{r}");
    assert!(r.starts_with("error"));
}
""")

bug("float-zero-sign", "C11", "loc",
    "a decimal pattern with a sign option and a Float of zero",
    "A zero Float is shown without the sign.",
    [(FMT, """                                FixedDecimal::try_from_f64(*number, DoublePrecision::Floating)?;
                            if sign.is_some() {
                                fixed_decimal.apply_sign_display(sign.unwrap());
                            }
""", """                                FixedDecimal::try_from_f64(*number, DoublePrecision::Floating)?;
                            if sign.is_some() && *number != 0.0 {
                                fixed_decimal.apply_sign_display(sign.unwrap());
                            }
""")], """
mod kit_loc;
use i18n_utility::PlaceholderValue;
use kit_loc::*;
fn main() {
    let r = one("{x decimal sign#always}", "en", &[("x", PlaceholderValue::Float(0.0))]);
    println!("{r}");
    assert_eq!(r, "+0 [en]");
}
""")

bug("defaults-script-race", "C39", "loc",
    "the thread-safe build, with two threads changing the default language at the same time",
    "The script data is stored without holding the default language, so that they can belong to different languages in the end.",
    [(LOC, """                let binding = self.language_tag.read().unwrap();
                *self.language_script_data.write().unwrap() =
                    get_script_data(binding.as_str(), &self.script_data, &self.expander);
""", """                let tag = RefCount::clone(&self.language_tag.read().unwrap());
                *self.language_script_data.write().unwrap() =
                    get_script_data(tag.as_str(), &self.script_data, &self.expander);
""")], """
mod kit_loc;
use i18n_localiser::CommandRegistry;
use kit_loc::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};
fn main() {
    let l = localiser(&[("c", "s", "en", "Hello")], &[("c", "en")], CommandRegistry::new(), "en", true, false);
    let tags = ["en", "ar"].map(|t| l.language_tag_registry().tag(t).unwrap());
    let scripts = [0, 1].map(|i| format!("{:?}", l.script_data_for_language_tag(&tags[i])));
    let begin = Instant::now();
    let turn = [AtomicUsize::new(0), AtomicUsize::new(0)];
    let meet = |k: &AtomicUsize, n: usize| {
        k.fetch_add(1, Ordering::SeqCst);
        while k.load(Ordering::SeqCst) < n {
            std::thread::yield_now();
        }
    };
    let stop = AtomicUsize::new(usize::MAX);
    std::thread::scope(|scope| {
        for me in 0..2 {
            let (l, tags, turn, meet, stop, scripts) = (&l, &tags, &turn, &meet, &stop, &scripts);
            scope.spawn(move || {
                for round in 0.. {
                    meet(&turn[0], 2 * round + 2);
                    if stop.load(Ordering::SeqCst) <= round {
                        return;
                    }
                    for _ in 0..20 {
                        l.defaults(Some(std::sync::Arc::clone(&tags[me])), None, None).unwrap();
                    }
                    meet(&turn[1], 2 * round + 2);
                    if me == 0 {
                        let i = (l.default_language().as_str() == "ar") as usize;
                        if format!("{:?}", l.script_data()) != scripts[i] {
                            println!("round {round}: the script data is not that of {}", l.default_language().as_str());
                            std::process::exit(1);
                        }
                        if begin.elapsed() > Duration::from_secs(20) {
                            stop.store(round + 1, Ordering::SeqCst);
                        }
                    }
                }
            });
        }
    });
}
""", sync=True)

bug("default-language-held", "C39", "loc",
    "the thread-safe build, with a command that asks for the default language while another thread is about to change it",
    "A formatting with defaults keeps the default language locked for reading until it is done.",
    [(LOC, """        debug!("Localiser is using format_with_defaults().");

        #[cfg(not(feature = "sync"))]
        let tag = &RefCount::clone(&self.language_tag.borrow());

        #[cfg(not(feature = "sync"))]
        let bool_fallback = *self.fallback.borrow();

        #[cfg(not(feature = "sync"))]
        let bool_caching = *self.caching.borrow();

        #[cfg(feature = "sync")]
        let tag = &RefCount::clone(&self.language_tag.read().unwrap());
""", """        debug!("Localiser is using format_with_defaults().");

        #[cfg(not(feature = "sync"))]
        let tag = &RefCount::clone(&self.language_tag.borrow());

        #[cfg(not(feature = "sync"))]
        let bool_fallback = *self.fallback.borrow();

        #[cfg(not(feature = "sync"))]
        let bool_caching = *self.caching.borrow();

        #[cfg(feature = "sync")]
        let tag = &self.language_tag.read().unwrap();
""")], """
mod kit_loc;
use i18n_localiser::{CommandError, CommandRegistry, Localiser};
use i18n_utility::PlaceholderValue;
use kit_loc::*;
use std::sync::OnceLock;
use std::time::Duration;
static LOCALISER: OnceLock<Localiser> = OnceLock::new();
fn language(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    let l = LOCALISER.get().unwrap();
    let other = std::thread::spawn(move || {
        let de = l.language_tag_registry().tag("de").unwrap();
        l.defaults(Some(de), None, None).unwrap();
    });
    std::thread::sleep(Duration::from_millis(500));
    let _ = l.default_language();
    other.join().unwrap();
    Ok(l.default_language().as_str().to_string())
}
fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(10));
        println!("blocked");
        std::process::exit(1);
    });
    let commands = CommandRegistry::new();
    commands.insert("language", language).unwrap();
    let l = LOCALISER.get_or_init(|| localiser(&[("c", "s", "en", "<{#language#}>")], &[("c", "en")], commands, "en", true, false));
    let r = show(l.format_with_defaults("c", "s", &values(&[])));
    println!("{r}");
    assert_eq!(r, "<de> [en]");
}
""", sync=True)

bug("default-language-borrowed", "C38", "loc",
    "localisation data formatted with the defaults, of a string with a command that changes the default language",
    "The default language is borrowed until the formatting is done, and the command that changes it panics.",
    [(LOC, """        debug!("Localiser is using format_error_with_defaults().");

        #[cfg(not(feature = "sync"))]
        let tag = &RefCount::clone(&self.language_tag.borrow());

        #[cfg(not(feature = "sync"))]
        let bool_fallback = *self.fallback.borrow();

        #[cfg(not(feature = "sync"))]
        let bool_caching = *self.caching.borrow();

        #[cfg(feature = "sync")]
        let tag = &RefCount::clone(&self.language_tag.read().unwrap());

        #[cfg(feature = "sync")]
        let bool_fallback = *self.fallback.read().unwrap();

        #[cfg(feature = "sync")]
        let bool_caching = *self.caching.read().unwrap();

        self.actual_format_localisation_data(data, tag, bool_fallback, bool_caching)
""", """        debug!("Localiser is using format_error_with_defaults().");

        #[cfg(not(feature = "sync"))]
        let tag = self.language_tag.borrow();

        #[cfg(not(feature = "sync"))]
        let bool_fallback = *self.fallback.borrow();

        #[cfg(not(feature = "sync"))]
        let bool_caching = *self.caching.borrow();

        #[cfg(feature = "sync")]
        let tag = self.language_tag.read().unwrap();

        #[cfg(feature = "sync")]
        let bool_fallback = *self.fallback.read().unwrap();

        #[cfg(feature = "sync")]
        let bool_caching = *self.caching.read().unwrap();

        self.actual_format_localisation_data(data, &tag, bool_fallback, bool_caching)
""")], """
mod kit_loc;
use i18n_localiser::{CommandError, CommandRegistry, Localiser};
use i18n_utility::{LocalisationData, PlaceholderValue};
use kit_loc::*;
use std::cell::OnceCell;
thread_local! {
    static LOCALISER: OnceCell<&'static Localiser> = const { OnceCell::new() };
}
fn german(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    LOCALISER.with(|l| {
        let l = l.get().unwrap();
        let de = l.language_tag_registry().tag("de").unwrap();
        l.defaults(Some(de), None, None).unwrap();
        Ok(l.default_language().as_str().to_string())
    })
}
fn main() {
    let commands = CommandRegistry::new();
    commands.insert("german", german).unwrap();
    let l: &'static Localiser = Box::leak(Box::new(localiser(&[("c", "s", "en", "<{#german #}>")], &[("c", "en")], commands, "en", true, false)));
    LOCALISER.with(|x| x.set(l).ok());
    let data = LocalisationData { component: "c".to_string(), identifier: "s".to_string(), values: Some(values(&[])) };
    let r = show(l.format_localisation_data_with_defaults(&data));
    println!("{r}");
    assert_eq!(r, "<de> [en]");
}
""")

bug("contributors-of-any-case", "C26", "prov",
    "a language with two contributors whose names differ only in the case of letters",
    "Only one of the two contributors is listed.",
    [(PRV, """            "SELECT DISTINCT contributor FROM contributor WHERE languageTag = ?1 AND component = ?2"
""", """            "SELECT contributor FROM contributor WHERE languageTag = ?1 AND component = ?2 GROUP BY contributor COLLATE NOCASE"
""")], """
mod kit_prov;
use i18n_provider::LocalisationProviderTrait;
use i18n_utility::LanguageTagRegistry;
use kit_prov::*;
#[allow(clippy::arc_with_non_send_sync)]
fn main() {
    let d = directory("repository");
    database(&d.join("c.sqlite3"), SCHEMA, &[("c", "en")], &[("c", "en", "vdB"), ("c", "en", "VdB")], &[("c", "s", "en", "1")]);
    let tags = RefCount::new(LanguageTagRegistry::new());
    let p = open(&d, &tags);
    let details = p.component_details("c").unwrap();
    let mut r = details.languages[&tags.tag("en").unwrap()].contributors.clone();
    r.sort();
    println!("{r:?}");
    assert_eq!(r, ["VdB", "vdB"]);
}
""")

bug("nested-text-trimmed", "C20", "loc",
    "localisation data as a value, found in another language than the requested one, whose text starts or ends with white space",
    "The white space of the inner text is removed.",
    [(LOC, """                            PlaceholderValue::Localised(localised.0, localised.1),
""", """                            if localised.1 == *language_tag {
                                PlaceholderValue::Localised(localised.0, localised.1)
                            } else {
                                PlaceholderValue::String(localised.0.trim().to_string())
                            },
""")], """
mod kit_loc;
use i18n_localiser::CommandRegistry;
use i18n_utility::{LocalisationData, PlaceholderValue};
use kit_loc::*;
fn main() {
    let l = localiser(&[("c", "outer", "en", "<{a}>"), ("c", "outer", "de", "<{a}>"), ("c", "inner", "en", " x ")], &[("c", "en")], CommandRegistry::new(), "en", true, false);
    let data = |id: &str, v| LocalisationData { component: "c".to_string(), identifier: id.to_string(), values: v };
    let inner = PlaceholderValue::LocalisationData(data("inner", None));
    let outer = data("outer", Some(values(&[("a", inner)])));
    let t = l.language_tag_registry().tag("de").unwrap();
    let r = show(l.format_localisation_data(&outer, &t, None, None));
    println!("{r}");
    assert!(r.contains(" x "));
}
""")

bug("delayed-empty-value", "C14", "loc",
    "a delayed command with a parameter that names a supplied value, which is an empty text",
    "The command gets the name of the value and not the empty text.",
    [(FMT, """                        if let Some(value) = values.get(string) {
                            parameters.push(value.clone());
""", """                        let given = values.get(string);
                        if let Some(value) = given.filter(|v| !matches!(v, PlaceholderValue::String(s) if s.is_empty()))
                        {
                            parameters.push(value.clone());
""")], """
mod kit_loc;
use i18n_localiser::{CommandError, CommandRegistry};
use i18n_utility::PlaceholderValue;
use kit_loc::*;
fn rec(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Ok(format!("{p:?}"))
}
fn main() {
    let commands = CommandRegistry::new();
    commands.insert("rec", rec).unwrap();
    let l = localiser(&[("c", "s", "en", "{#rec # x}")], &[("c", "en")], commands, "en", true, false);
    let t = l.language_tag_registry().tag("en").unwrap();
    let r = show(l.format("c", "s", &values(&[("x", s(""))]), &t, None, None));
    println!("{r}");
    assert!(r.contains("\\"\\""));
}
""")

bug("file-opened-for-writing", "C30", "prov",
    "a repository whose component file has a journal beside it, left by another program that was interrupted",
    "The component's own file is opened for writing too, and SQLite repairs the database and removes the journal.",
    [(PRV, """                    } else {
                        match Connection::open_with_flags(
                            path.clone(),
                            OpenFlags::SQLITE_OPEN_READ_ONLY
""", """                    } else {
                        match Connection::open_with_flags(
                            path.clone(),
                            OpenFlags::SQLITE_OPEN_READ_WRITE
""")], """
mod kit_prov;
use i18n_provider_sqlite3::LocalisationProviderSqlite3;
use i18n_utility::LanguageTagRegistry;
use kit_prov::*;
#[allow(clippy::arc_with_non_send_sync)]
fn main() {
    let d = directory("repository");
    database(&d.join("c.sqlite3"), SCHEMA, &[("c", "en")], &[("c", "en", "me")], &[("c", "s", "en", "1")]);
    let journal = d.join("c.sqlite3-journal");
    std::fs::write(&journal, vec![7u8; 4096]).unwrap();
    let tags = RefCount::new(LanguageTagRegistry::new());
    let r = LocalisationProviderSqlite3::try_new(d.to_str().unwrap(), &tags, false);
    println!("{}", r.is_ok());
    drop(r);
    assert_eq!(std::fs::read(&journal).unwrap(), vec![7u8; 4096]);
}
""")

bug("version-key-any-case", "C29", "prov",
    "a database whose metadata has another entry with the name of the version entry in other letters",
    "The value of the other entry is taken for the version.",
    [(PRV, """            connection.prepare("SELECT value FROM metadata WHERE key = 'schema_version';")?;
""", """            connection.prepare("SELECT value FROM metadata WHERE lower( key ) = 'schema_version';")?;
""")], """
mod kit_prov;
use i18n_provider_sqlite3::LocalisationProviderSqlite3;
use i18n_utility::LanguageTagRegistry;
use kit_prov::*;
#[allow(clippy::arc_with_non_send_sync)]
fn main() {
    let d = directory("repository");
    database(&d.join("c.sqlite3"), SCHEMA, &[("c", "en")], &[("c", "en", "me")], &[("c", "s", "en", "1")]);
    let c = rusqlite::Connection::open(d.join("c.sqlite3")).unwrap();
    c.execute_batch("INSERT INTO metadata(component,key,value) VALUES('c','Schema_Version','draft');").unwrap();
    drop(c);
    let tags = RefCount::new(LanguageTagRegistry::new());
    let r = LocalisationProviderSqlite3::try_new(d.to_str().unwrap(), &tags, false);
    println!("{:?}", r.as_ref().err());
    assert!(r.is_ok());
}
""")
