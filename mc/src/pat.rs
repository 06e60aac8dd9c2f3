//! Reference model of pattern strings: an independent reading of the documented grammar at character level, and an
//! evaluator that calls ICU directly.  It shares no code with the crates under test.
use crate::world::*;
use fixed_decimal::{DoublePrecision, FixedDecimal, SignDisplay};
use i18n_utility::PlaceholderValue;
use icu_calendar::{Date, DateTime, Iso, types::Time};
use icu_datetime::options::length::{Bag, Date as DateLength, Time as TimeLength};
use icu_datetime::{DateFormatter, DateTimeFormatter, TimeFormatter};
use icu_decimal::options::{FixedDecimalFormatterOptions, GroupingStrategy};
use icu_decimal::FixedDecimalFormatter;
use icu_locid::Locale;
use icu_plurals::{PluralCategory, PluralRules};
use icu_properties::sets::{pattern_syntax, pattern_white_space};
use icu_provider::DataLocale;

#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Text(String),
    Number,
    Str(String),
    Decimal(String, SignDisplay, GroupingStrategy),
    DateTime(String, Option<DateLength>, Option<TimeLength>, Option<String>),
    Plural { ph: String, ordinal: bool, sel: Vec<(String, String)> },
    Select { ph: String, sel: Vec<(String, String)> },
    Command { name: String, delay: bool, params: Vec<String> },
}

#[derive(Clone, Debug, Default)]
pub struct Ast {
    pub main: Vec<Part>,
    pub named: Vec<(String, Vec<Part>)>,
}

#[derive(Clone, Debug)]
pub enum Parsed {
    /// No grammar character: returned as is.
    Plain,
    Accept(Ast),
    Reject(&'static str),
    /// The documentation does not decide it.
    Unspecified(&'static str),
}

/// What an error about a string that keeps the grammar may say: the kind and the names it is about.
#[derive(Clone, Debug, PartialEq)]
pub struct Fault(pub &'static str, pub Vec<String>);

/// Why a string is rejected, and where.
#[derive(Clone, Debug, PartialEq)]
pub enum Why {
    Fine,
    /// Rejected, for one reason or another.
    Somehow,
    /// It ends where more must follow.
    Ended,
    /// The token at which it cannot be continued: its position in graphemes, and its text.
    Token(usize, String),
    SecondSign(usize),
    Placeholder(String),
    Branch(String),
    /// The grammar is kept: every fault there is, and whether one must be reported.
    Names(Vec<Fault>, bool),
}

struct P<'a> {
    c: Vec<char>,
    i: usize,
    /// The end of the text was looked at.
    end: std::cell::Cell<bool>,
    faults: Vec<Fault>,
    doubtful: Vec<Fault>,
    repeated: String,
    /// The whole text keeps the grammar.
    complete: bool,
    nameless: bool,
    unspec: Option<&'static str>,
    seen: Vec<String>,
    _s: &'a str,
}

pub fn pws(c: char) -> bool {
    pattern_white_space().contains(c)
}
pub fn ps(c: char) -> bool {
    pattern_syntax().contains(c)
}
pub fn ident(c: char) -> bool {
    !pws(c) && !ps(c)
}
fn grammar(c: char) -> bool {
    matches!(c, '{' | '}' | '`' | '#')
}

type R<T> = Result<T, &'static str>;

impl P<'_> {
    fn peek(&self) -> Option<char> {
        let c = self.c.get(self.i).copied();
        if c.is_none() {
            self.end.set(true);
        }
        c
    }
    fn fault(&mut self, kind: &'static str, names: &[&str]) {
        self.faults.push(Fault(kind, names.iter().map(|x| x.to_string()).collect()));
    }
    fn next(&mut self) -> Option<char> {
        let c = self.peek();
        if c.is_some() {
            self.i += 1;
        }
        c
    }
    fn unspecified(&mut self, why: &'static str) {
        self.unspec.get_or_insert(why);
    }
    fn spaces(&mut self) -> usize {
        let s = self.i;
        while self.peek().is_some_and(pws) {
            self.i += 1;
        }
        self.i - s
    }
    fn identifier(&mut self) -> R<String> {
        let mut s = String::new();
        while let Some(c) = self.peek().filter(|c| ident(*c)) {
            s.push(c);
            self.i += 1;
        }
        if s.is_empty() {
            Err("identifier expected")
        } else {
            Ok(s)
        }
    }
    fn push_text(parts: &mut Vec<Part>, c: char) {
        if let Some(Part::Text(t)) = parts.last_mut() {
            t.push(c);
        } else {
            parts.push(Part::Text(c.to_string()));
        }
    }

    /// Text, escapes and patterns; `sub` is a branch, which ends with `}`.
    fn string(&mut self, sub: bool) -> R<Vec<Part>> {
        let mut parts: Vec<Part> = vec![];
        let mut after_number = false;
        loop {
            let was_number = std::mem::take(&mut after_number);
            match self.peek() {
                None => return if sub { Err("branch not closed") } else { Ok(parts) },
                Some('#') if !sub => return Ok(parts),
                Some('#') => {
                    if was_number {
                        return Err("doubled number sign");
                    }
                    self.i += 1;
                    parts.push(Part::Number);
                    after_number = true;
                }
                Some('}') => return if sub { Ok(parts) } else { Err("stray closing brace") },
                Some('`') => {
                    self.i += 1;
                    match self.next() {
                        None => return Err("nothing to escape"),
                        Some(c) => {
                            if !grammar(c) {
                                self.unspecified("escape of a character that needs none");
                            }
                            Self::push_text(&mut parts, c);
                        }
                    }
                }
                Some('{') => {
                    self.i += 1;
                    let p = self.pattern()?;
                    match p {
                        Part::Text(t) => {
                            if t.is_empty() {
                                // Keep a separator, so that a number sign on both sides is not doubled.
                                parts.push(Part::Text(String::new()));
                            } else {
                                for c in t.chars() {
                                    Self::push_text(&mut parts, c);
                                }
                            }
                        }
                        p => parts.push(p),
                    }
                }
                Some(c) => {
                    self.i += 1;
                    Self::push_text(&mut parts, c);
                }
            }
        }
    }

    fn literal_text(&mut self) -> R<String> {
        let mut s = String::new();
        loop {
            match self.next() {
                None => return Err("literal text not ended"),
                Some('`') => {
                    if self.peek() == Some('`') {
                        self.i += 1;
                        s.push('`');
                    } else {
                        return Ok(s);
                    }
                }
                Some(c) => s.push(c),
            }
        }
    }

    /// After the opening brace.
    fn pattern(&mut self) -> R<Part> {
        match self.peek() {
            None => Err("pattern not closed"),
            Some('`') => {
                self.i += 1;
                let t = self.literal_text()?;
                match self.next() {
                    Some('}') => Ok(Part::Text(t)),
                    _ => Err("literal pattern not closed"),
                }
            }
            Some('#') => {
                self.i += 1;
                self.command()
            }
            Some(c) if ident(c) => self.placeholder(),
            Some(_) => Err("pattern has no type"),
        }
    }

    fn command(&mut self) -> R<Part> {
        if self.spaces() > 0 {
            self.unspecified("white space before the command");
        }
        let mut params = vec![];
        let name = if self.peek() == Some('`') {
            // Rejected, by the token or after reading on.
            self.i += 1;
            self.nameless = true;
            self.literal_text()?
        } else {
            self.identifier()?
        };
        let mut delay = false;
        loop {
            let space = self.spaces() > 0;
            match self.peek() {
                None => return Err("command not closed"),
                Some('}') => {
                    if space {
                        self.unspecified("white space at the end of a command");
                    }
                    self.i += 1;
                    return Ok(Part::Command { name, delay, params });
                }
                Some('#') => {
                    if delay || !params.is_empty() {
                        return Err("delay marker after a parameter");
                    }
                    self.i += 1;
                    delay = true;
                }
                Some('`') => {
                    if !space {
                        self.unspecified("parameter not separated");
                    }
                    self.i += 1;
                    params.push(self.literal_text()?);
                }
                Some(c) if ident(c) => {
                    if !space {
                        self.unspecified("parameter not separated");
                    }
                    params.push(self.identifier()?);
                }
                Some(_) => return Err("syntax character in a command"),
            }
        }
    }

    fn placeholder(&mut self) -> R<Part> {
        let ph = self.identifier()?;
        if self.seen.contains(&ph) {
            self.repeated = ph;
            return Err("placeholder used twice");
        }
        self.seen.push(ph.clone());
        let space = self.spaces() > 0;
        match self.peek() {
            None => return Err("placeholder not closed"),
            Some('}') => {
                if space {
                    self.unspecified("white space at the end of a placeholder");
                }
                self.i += 1;
                return Ok(Part::Str(ph));
            }
            Some(c) if ident(c) && space => {}
            Some(_) => return Err("placeholder not closed"),
        }
        let keyword = self.identifier()?;
        let mut pairs: Vec<(String, String)> = vec![];
        loop {
            let space = self.spaces() > 0;
            match self.peek() {
                None => return Err("placeholder not closed"),
                Some('}') => {
                    if space {
                        self.unspecified("white space at the end of a placeholder");
                    }
                    self.i += 1;
                    break;
                }
                Some(c) if ident(c) && space => {
                    let a = self.identifier()?;
                    if self.next() != Some('#') {
                        return Err("option without value");
                    }
                    let b = self.identifier()?;
                    if pairs.iter().any(|p| p.0 == a) {
                        self.unspecified("option or selector repeated");
                        let old: Vec<_> = pairs.iter().filter(|p| p.0 == a).cloned().collect();
                        self.check_pairs(&ph, &keyword, &old);
                        self.doubtful.append(&mut self.faults);
                        pairs.retain(|p| p.0 != a);
                    }
                    pairs.push((a, b));
                }
                Some(_) => return Err("unexpected character after keyword"),
            }
        }
        self.check_pairs(&ph, &keyword, &pairs);
        match keyword.as_str() {
            "decimal" => {
                let mut sign = SignDisplay::Auto;
                let mut group = GroupingStrategy::Auto;
                for (k, v) in &pairs {
                    match (k.as_str(), v.as_str()) {
                        ("sign", "auto") => sign = SignDisplay::Auto,
                        ("sign", "never") => sign = SignDisplay::Never,
                        ("sign", "always") => sign = SignDisplay::Always,
                        ("sign", "except_zero") => sign = SignDisplay::ExceptZero,
                        ("sign", "negative") => sign = SignDisplay::Negative,
                        ("group", "auto") => group = GroupingStrategy::Auto,
                        ("group", "never") => group = GroupingStrategy::Never,
                        ("group", "always") => group = GroupingStrategy::Always,
                        ("group", "min2") => group = GroupingStrategy::Min2,
                        _ => {} // a fault
                    }
                }
                Ok(Part::Decimal(ph, sign, group))
            }
            "date_time" => {
                let (mut d, mut t, mut ca) = (None, None, None);
                for (k, v) in &pairs {
                    match (k.as_str(), v.as_str()) {
                        ("date", "full") => d = Some(DateLength::Full),
                        ("date", "long") => d = Some(DateLength::Long),
                        ("date", "medium") => d = Some(DateLength::Medium),
                        ("date", "short") => d = Some(DateLength::Short),
                        ("time", "full") => t = Some(TimeLength::Full),
                        ("time", "long") => t = Some(TimeLength::Long),
                        ("time", "medium") => t = Some(TimeLength::Medium),
                        ("time", "short") => t = Some(TimeLength::Short),
                        ("calendar", v) if CALENDARS.contains(&v) => ca = Some(v.to_string()),
                        ("hour", _) => self.unspecified("hour option, not implemented"),
                        _ => {} // a fault
                    }
                }
                Ok(Part::DateTime(ph, d, t, ca))
            }
            "plural" | "ordinal" => {
                Ok(Part::Plural { ph, ordinal: keyword == "ordinal", sel: pairs })
            }
            "select" => {
                if pairs.is_empty() {
                    self.unspecified("select without selectors");
                }
                Ok(Part::Select { ph, sel: pairs })
            }
            _ => Ok(Part::Str(ph)), // a fault
        }
    }

    /// The options or selectors of a keyword that there are not.
    fn check_pairs(&mut self, ph: &str, keyword: &str, pairs: &[(String, String)]) {
        const SIGN: &[&str] = &["auto", "never", "always", "except_zero", "negative"];
        const GROUP: &[&str] = &["auto", "never", "always", "min2"];
        const LENGTH: &[&str] = &["full", "long", "medium", "short"];
        match keyword {
            "decimal" | "date_time" => {
                for (k, v) in pairs {
                    let values = match (keyword, k.as_str()) {
                        ("decimal", "sign") => SIGN,
                        ("decimal", "group") => GROUP,
                        ("date_time", "date" | "time") => LENGTH,
                        ("date_time", "calendar") => CALENDARS,
                        ("date_time", "hour") => {
                            // Documented, not implemented.
                            self.doubtful.push(Fault("InvalidOption", vec![k.clone(), keyword.into(), ph.into()]));
                            self.doubtful.push(Fault("InvalidOptionValue", vec![v.clone(), k.clone(), keyword.into()]));
                            continue;
                        }
                        _ => {
                            self.fault("InvalidOption", &[k, keyword, ph]);
                            continue;
                        }
                    };
                    if !values.contains(&v.as_str()) {
                        self.fault("InvalidOptionValue", &[v, k, keyword]);
                    }
                }
            }
            "plural" | "ordinal" => {
                for (k, _) in pairs {
                    if !["zero", "one", "two", "few", "many", "other"].contains(&k.as_str()) {
                        self.fault("InvalidSelector", &[k, keyword, ph]);
                    }
                }
                if !pairs.iter().any(|p| p.0 == "other") {
                    self.fault("SelectorOther", &[keyword, ph]);
                }
            }
            "select" => {}
            _ => self.fault("InvalidKeyword", &[keyword, ph]),
        }
    }

    fn entire(&mut self) -> R<Ast> {
        let main = self.string(false)?;
        let mut named: Vec<(String, Vec<Part>)> = vec![];
        if self.next() == Some('#') {
            loop {
                self.spaces();
                match self.next() {
                    None => break,
                    Some('{') => {
                        let n = self.identifier()?;
                        if named.iter().any(|x| x.0 == n) {
                            self.repeated = n;
                            return Err("branch name used twice");
                        }
                        if self.spaces() == 0 {
                            return Err("no white space after the branch name");
                        }
                        let parts = self.string(true)?;
                        self.i += 1; // closing brace
                        if n == "_" {
                            self.unspecified("named string _");
                        }
                        named.push((n, parts));
                    }
                    Some(_) => return Err("text between named strings"),
                }
            }
            if named.is_empty() {
                self.unspecified("separator without named strings");
            }
        }
        self.complete = true;
        // Branches must be defined.
        let names: Vec<String> = named.iter().map(|x| x.0.clone()).collect();
        let missing = |p: &Part, limit: usize, faults: &mut Vec<Fault>, doubtful: &mut Vec<Fault>| {
            if let Part::Plural { sel, ph, .. } | Part::Select { sel, ph } = p {
                for (a, b) in sel {
                    let fault = Fault("SelectorNamed", vec![b.clone(), a.clone(), ph.clone()]);
                    match names.iter().position(|n| n == b) {
                        None => faults.push(fault),
                        Some(x) if x >= limit || b == "_" => doubtful.push(fault),
                        Some(_) => {}
                    }
                }
            }
        };
        for p in &main {
            missing(p, usize::MAX, &mut self.faults, &mut self.doubtful);
        }
        let sure = self.doubtful.len();
        for (i, (_, parts)) in named.iter().enumerate() {
            for p in parts {
                missing(p, i, &mut self.faults, &mut self.doubtful);
            }
        }
        let forward = self.doubtful.len() > sure;
        if self.nameless {
            return Err("command without a name");
        }
        if let Some(f) = self.faults.first() {
            return Err(match f.0 {
                "InvalidKeyword" => "unknown keyword",
                "InvalidSelector" => "unknown plural category",
                "SelectorOther" => "no other branch",
                "SelectorNamed" => "branch not defined",
                _ => "unknown option or value",
            });
        }
        if forward {
            self.unspecified("forward reference between named strings");
        }
        Ok(Ast { main, named })
    }
}

pub const CALENDARS: &[&str] = &["gregory", "buddhist", "japanese", "coptic", "indian", "ethiopic", "iso"];

fn start(s: &str) -> P<'_> {
    P { c: s.chars().collect(), i: 0, end: false.into(), faults: vec![], doubtful: vec![], repeated: String::new(), complete: false, nameless: false, unspec: None, seen: vec![], _s: s }
}

pub fn parse(s: &str) -> Parsed {
    if !s.chars().any(grammar) {
        return Parsed::Plain;
    }
    let mut p = start(s);
    match p.entire() {
        Err(e) => Parsed::Reject(e),
        Ok(a) => match p.unspec {
            Some(u) => Parsed::Unspecified(u),
            None => Parsed::Accept(a),
        },
    }
}

/// Runs of white space, of syntax and of other characters, and each grammar character by itself.
fn split(s: &str) -> Vec<String> {
    let class = |c: char| if grammar(c) { 0 } else if pws(c) { 1 } else if ps(c) { 2 } else { 3 };
    let mut out: Vec<String> = vec![];
    let mut last = 0;
    for c in s.chars() {
        let k = class(c);
        match out.last_mut() {
            Some(t) if k != 0 && k == last => t.push(c),
            _ => out.push(c.to_string()),
        }
        last = k;
    }
    out
}

/// What is wrong with the string: the first token after which no continuation is accepted, found by reading the
/// string one token longer at a time.
pub fn why(s: &str, graphemes: impl Fn(&str) -> usize) -> Why {
    let mut text = String::new();
    let mut position = 0;
    for t in split(s) {
        text.push_str(&t);
        let mut p = start(&text);
        if let Err(e) = p.entire() {
            match e {
                _ if p.nameless => return Why::Somehow,
                "placeholder used twice" => return Why::Placeholder(p.repeated),
                "branch name used twice" => return Why::Branch(p.repeated),
                "doubled number sign" => return Why::SecondSign(position),
                _ if p.complete || p.end.get() => {}
                _ => return Why::Token(position, t),
            }
        }
        position += graphemes(&t);
    }
    let mut p = start(s);
    let _ = p.entire();
    if !p.complete {
        return Why::Ended;
    }
    if p.faults.is_empty() && p.doubtful.is_empty() {
        return Why::Fine;
    }
    let must = !p.faults.is_empty() && p.unspec.is_none();
    p.faults.append(&mut p.doubtful);
    Why::Names(p.faults, must)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    Text(String),
    /// Formatting must fail.
    Error(String),
    /// Anything but a crash.
    Any(&'static str),
}

pub enum Stop {
    Error(String),
    Any(&'static str),
}
type E<T> = Result<T, Stop>;

pub fn data_locale(lang: &str) -> DataLocale {
    let l: Locale = lang.parse().expect("locale");
    DataLocale::from(l)
}

pub fn number_of(v: &PlaceholderValue) -> Option<FixedDecimal> {
    match v {
        PlaceholderValue::FixedDecimal(x) => Some(x.clone()),
        PlaceholderValue::Unsigned(x) => Some(FixedDecimal::from(*x)),
        PlaceholderValue::Integer(x) => Some(FixedDecimal::from(*x)),
        PlaceholderValue::Float(x) => FixedDecimal::try_from_f64(*x, DoublePrecision::Floating).ok(),
        PlaceholderValue::String(x) => x.parse().ok(),
        _ => None,
    }
}

pub fn decimal(lang: &str, n: &FixedDecimal, sign: SignDisplay, group: GroupingStrategy) -> String {
    try_decimal(lang, n, sign, group).expect("decimal formatter")
}

/// There are no symbols for some numbering systems a language may ask for.
pub fn try_decimal(lang: &str, n: &FixedDecimal, sign: SignDisplay, group: GroupingStrategy) -> Result<String, String> {
    let mut o = FixedDecimalFormatterOptions::default();
    o.grouping_strategy = group;
    let mut n = n.clone();
    n.apply_sign_display(sign);
    Ok(FixedDecimalFormatter::try_new(&data_locale(lang), o).map_err(|e| format!("{e:?}"))?.format(&n).to_string())
}

pub fn category(lang: &str, n: &FixedDecimal, ordinal: bool) -> &'static str {
    let dl = data_locale(lang);
    let r = if ordinal { PluralRules::try_new_ordinal(&dl) } else { PluralRules::try_new_cardinal(&dl) }.expect("plural rules");
    match r.category_for(n) {
        PluralCategory::Zero => "zero",
        PluralCategory::One => "one",
        PluralCategory::Two => "two",
        PluralCategory::Few => "few",
        PluralCategory::Many => "many",
        PluralCategory::Other => "other",
    }
}

/// A moment a date_time pattern can show.
#[derive(Clone, Debug)]
pub enum Moment {
    Date(Date<Iso>),
    Time(Time),
    DateTime(DateTime<Iso>),
}

pub fn date_time(lang: &str, m: &Moment, d: Option<DateLength>, t: Option<TimeLength>, calendar: Option<&str>) -> Result<String, String> {
    let mut l = lang.to_string();
    if let Some(c) = calendar {
        l.push_str("-u-ca-");
        l.push_str(c);
    }
    let dl = data_locale(&l);
    let (d, t) = (d.unwrap_or(DateLength::Medium), t.unwrap_or(TimeLength::Medium));
    match m {
        Moment::Date(x) => DateFormatter::try_new_with_length(&dl, d).and_then(|f| f.format_to_string(&x.to_any())).map_err(|e| format!("{e:?}")),
        Moment::Time(x) => TimeFormatter::try_new_with_length(&dl, t).map(|f| f.format_to_string(x)).map_err(|e| format!("{e:?}")),
        Moment::DateTime(x) => DateTimeFormatter::try_new(&dl, Bag::from_date_time_style(d, t).into()).and_then(|f| f.format_to_string(&x.to_any())).map_err(|e| format!("{e:?}")),
    }
}

fn run_command(name: &str, params: &[PlaceholderValue]) -> E<String> {
    match name {
        "rec" => {
            let mut all = vec![format!("S({name})")];
            all.extend(params.iter().map(show));
            Ok(format!("[{}]", all.join("|")))
        }
        "evil" => Ok("{x}#`` {#rec} ".to_string()),
        "nil" => Ok(String::new()),
        "fail" => Err(Stop::Error("command fails".into())),
        _ => Err(Stop::Error("command not registered".into())),
    }
}

fn eval(ast: &Ast, parts: &[Part], lang: &str, values: &Values, number: Option<&str>, select: bool, out: &mut String) -> E<()> {
    for p in parts {
        match p {
            Part::Text(t) => out.push_str(t),
            Part::Number => match number {
                Some(n) => out.push_str(n),
                None if select => return Err(Stop::Any("number sign in a branch of select")),
                None => unreachable!("number sign in the main string"),
            },
            Part::Str(ph) => match values.get(ph) {
                Some(PlaceholderValue::String(s)) => out.push_str(s),
                Some(PlaceholderValue::TaggedString(s)) => out.push_str(s.as_str()),
                Some(PlaceholderValue::Localised(s, _)) => out.push_str(s),
                Some(_) => return Err(Stop::Error("value of another type".into())),
                None => return Err(Stop::Error("value missing".into())),
            },
            Part::Decimal(ph, s, g) => match values.get(ph) {
                None => return Err(Stop::Error("value missing".into())),
                Some(v) => match number_of(v) {
                    None => return Err(Stop::Error("not a number".into())),
                    Some(n) => out.push_str(&decimal(lang, &n, *s, *g)),
                },
            },
            Part::DateTime(ph, d, t, ca) => {
                let m = match values.get(ph) {
                    None => return Err(Stop::Error("value missing".into())),
                    Some(PlaceholderValue::Date(x)) => Moment::Date(*x),
                    Some(PlaceholderValue::Time(x)) => Moment::Time(*x),
                    Some(PlaceholderValue::DateTime(x)) => Moment::DateTime(x.clone()),
                    Some(PlaceholderValue::String(_)) => return Err(Stop::Any("ISO 8601 string")),
                    Some(_) => return Err(Stop::Error("not a date or time".into())),
                };
                match date_time(lang, &m, *d, *t, ca.as_deref()) {
                    Ok(s) => out.push_str(&s),
                    Err(e) => return Err(Stop::Error(e)),
                }
            }
            Part::Plural { ph, ordinal, sel } => {
                let v = match values.get(ph) {
                    None => return Err(Stop::Error("value missing".into())),
                    Some(v) => v,
                };
                if *ordinal && matches!(v, PlaceholderValue::String(_) | PlaceholderValue::Integer(_) | PlaceholderValue::Float(_) | PlaceholderValue::FixedDecimal(_)) {
                    return Err(Stop::Any("ordinal of another number type"));
                }
                let Some(n) = number_of(v) else { return Err(Stop::Error("not a number".into())) };
                let c = category(lang, &n, *ordinal);
                let b = sel.iter().find(|s| s.0 == c).or_else(|| sel.iter().find(|s| s.0 == "other")).expect("other");
                let branch = &ast.named.iter().find(|x| x.0 == b.1).expect("defined").1;
                let shown = decimal(lang, &n, SignDisplay::Auto, GroupingStrategy::Auto);
                eval(ast, branch, lang, values, Some(&shown), false, out)?;
            }
            Part::Select { ph, sel } => {
                let v = match values.get(ph) {
                    None => return Err(Stop::Error("value missing".into())),
                    Some(PlaceholderValue::String(s)) => s.as_str(),
                    Some(PlaceholderValue::TaggedString(s)) => s.as_str(),
                    Some(PlaceholderValue::Localised(s, _)) => s.as_str(),
                    Some(_) => return Err(Stop::Error("not a string".into())),
                };
                match sel.iter().find(|s| s.0 == v).or_else(|| sel.iter().find(|s| s.0 == "other")) {
                    None => return Err(Stop::Error("no branch".into())),
                    Some(b) => {
                        let branch = &ast.named.iter().find(|x| x.0 == b.1).expect("defined").1;
                        eval(ast, branch, lang, values, None, true, out)?;
                    }
                }
            }
            Part::Command { name, delay, params } => {
                let ps: Vec<PlaceholderValue> = params
                    .iter()
                    .map(|p| match values.get(p) {
                        Some(v) if *delay => v.clone(),
                        _ => PlaceholderValue::String(p.clone()),
                    })
                    .collect();
                out.push_str(&run_command(name, &ps)?);
            }
        }
    }
    Ok(())
}

pub fn evaluate(ast: &Ast, lang: &str, values: &Values) -> Expect {
    let mut out = String::new();
    match eval(ast, &ast.main, lang, values, None, false, &mut out) {
        Err(Stop::Error(e)) => Expect::Error(e),
        Err(Stop::Any(e)) => Expect::Any(e),
        Ok(()) => {
            // A command that fails although its branch is not shown: not decided.
            let failing = ast.named.iter().flat_map(|x| &x.1).any(|p| matches!(p, Part::Command { name, delay: false, .. } if run_command(name, &[]).is_err()));
            if failing {
                Expect::Any("failing command in a branch not shown")
            } else {
                Expect::Text(out)
            }
        }
    }
}

/// What formatting `pattern` must give.
pub fn expectation(pattern: &str, lang: &str, values: &Values) -> Expect {
    match parse(pattern) {
        Parsed::Plain => Expect::Text(pattern.to_string()),
        Parsed::Reject(e) => Expect::Error(e.to_string()),
        Parsed::Unspecified(u) => Expect::Any(u),
        Parsed::Accept(a) => evaluate(&a, lang, values),
    }
}
