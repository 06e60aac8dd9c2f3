//! C01, C02: the tokeniser.
use crate::engine::*;
use i18n_lexer::{DataProvider, IcuDataProvider, LexerError, LexerIterator, Token, TokenType};
use icu_properties::sets::{pattern_syntax, pattern_white_space};
use icu_segmenter::GraphemeClusterSegmenter;
use std::sync::Arc;

#[cfg(not(feature = "sync"))]
use std::rc::Rc as RefCount;
#[cfg(feature = "sync")]
use std::sync::Arc as RefCount;

pub fn icu() -> RefCount<IcuDataProvider> {
    RefCount::new(IcuDataProvider::try_new(DataProvider::Internal).expect("icu data"))
}

/// One representative per token class x UTF-8 width x grapheme behaviour.
pub const ALPHABET: &[char] = &[
    'a', '1', '_', // identifier, 1 byte
    'é', '字', '😀', // identifier, 2/3/4 bytes (an emoji is not Pattern_Syntax)
    '\u{301}', '\u{200d}', // combining mark and ZWJ: join the preceding grapheme
    ' ', '\n', '\r', '\u{85}', '\u{2029}', '\u{200e}', // white space of 1, 2 and 3 bytes, CR LF, mark
    '!', '.', '‘', '→', '¿', // syntax of 1, 3, 3 and 2 bytes
    '{', '}', '`', '#', // grammar characters of pattern strings
    '\u{0}', '\u{10ffff}', '\u{1f1ff}', // NUL, last code point, regional indicator
];

pub fn class(grammar: &str, c: char) -> TokenType {
    if pattern_white_space().contains(c) {
        TokenType::WhiteSpace
    } else if pattern_syntax().contains(c) {
        if grammar.contains(c) {
            TokenType::Grammar
        } else {
            TokenType::Syntax
        }
    } else {
        TokenType::Identifier
    }
}

pub fn graphemes(seg: &GraphemeClusterSegmenter, s: &str) -> usize {
    seg.segment_str(s).count() - 1
}

fn esc(s: &str) -> String {
    s.escape_unicode().to_string().replace("\\u{", "<").replace('}', ">")
}

struct Seen {
    tokens: Vec<Token>,
    ended_for_good: bool,
}

fn tokens(text: &str, grammar: &str, icu: &RefCount<IcuDataProvider>) -> Result<Seen, String> {
    match LexerIterator::try_new(text, grammar, icu) {
        Err(LexerError::NoGrammar) => Err("NoGrammar".into()),
        Err(LexerError::EmptyString) => Err("EmptyString".into()),
        #[allow(unreachable_patterns)]
        Err(_) => Err("other error".into()),
        Ok(mut it) => {
            let mut v = vec![];
            for t in it.by_ref() {
                v.push(t);
                if v.len() > text.len() + 4 {
                    break;
                }
            }
            let end = it.next().is_none() && it.next().is_none();
            Ok(Seen { tokens: v, ended_for_good: end })
        }
    }
}

fn check_tiling(l: &mut Local, seg: &GraphemeClusterSegmenter, icu: &RefCount<IcuDataProvider>, text: &str, grammar: &str) {
    let case = format!("text={} grammar={}", esc(text), grammar);
    if l.skip(&case) {
        return;
    }
    l.state(&case);
    let seen = match l.exec(&case, || tokens(text, grammar, icu)) {
        Err(p) => {
            l.parity(&case, "panic");
            return l.violation(&case, "no panic", p);
        }
        Ok(x) => x,
    };
    let want_err = if grammar.is_empty() {
        Some("NoGrammar")
    } else if text.is_empty() {
        Some("EmptyString")
    } else {
        None
    };
    match (seen, want_err) {
        (Err(e), Some(w)) => {
            // An empty text with an empty grammar may be refused for either reason.
            l.parity(&case, &e);
            l.outcome(&e);
            if e != w && !(text.is_empty() && grammar.is_empty() && e == "EmptyString") {
                l.violation(&case, w, e);
            }
        }
        (Err(e), None) => {
            l.parity(&case, &e);
            l.violation(&case, "tokens", e)
        }
        (Ok(_), Some(w)) => {
            l.parity(&case, "tokens");
            l.violation(&case, w, "tokens")
        }
        (Ok(s), None) => {
            l.parity(&case, &format!("{:?}", s.tokens));
            let mut bytes = 0;
            let mut chars = 0;
            let mut graph = 0;
            let mut shape = String::new();
            for (i, t) in s.tokens.iter().enumerate() {
                shape.push(match t.token_type {
                    TokenType::WhiteSpace => 'w',
                    TokenType::Identifier => 'i',
                    TokenType::Grammar => 'g',
                    TokenType::Syntax => 's',
                });
                let end = bytes + t.string.len();
                let slice = text.get(bytes..end).unwrap_or("<out of text>");
                let want = format!(
                    "string={} start=({bytes},{chars},{graph}) length=({},{},{}) end={end}",
                    esc(slice), slice.len(), slice.chars().count(), graphemes(seg, slice)
                );
                let got = format!(
                    "string={} start=({},{},{}) length=({},{},{}) end={}",
                    esc(&t.string), t.start_byte, t.start_character, t.start_grapheme, t.length_bytes, t.length_characters, t.length_graphemes, t.end_byte
                );
                if want != got || t.string.is_empty() {
                    return l.violation(&case, format!("token {i}: {want}"), format!("token {i}: {got}"));
                }
                bytes = end;
                chars += t.length_characters;
                graph += t.length_graphemes;
            }
            l.outcome(&shape);
            if bytes != text.len() {
                return l.violation(&case, format!("tokens cover {} bytes", text.len()), format!("they cover {bytes}"));
            }
            if !s.ended_for_good {
                l.violation(&case, "no token after the end", "more tokens");
            }
        }
    }
}

fn grammars(full: bool) -> Vec<String> {
    // Every subset of a few grammar characters, plus characters that are not Pattern_Syntax (never grammar).
    let base = ['{', '#', '!', '→'];
    let mut v: Vec<String> = vec!["{}`#".into()];
    if full {
        for m in 0..(1 << base.len()) {
            v.push(base.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, c)| *c).collect());
        }
    } else {
        v.extend(["".into(), "{".into(), "!→".into()]);
    }
    v.extend(["a".into(), " {".into()]);
    v
}

fn texts(l: &mut Local, alphabet: &[char], len: usize, mut f: impl FnMut(&mut Local, &str)) {
    let mut s = String::new();
    words(alphabet.len(), len, |w| {
        if l.mine() {
            s.clear();
            s.extend(w.iter().map(|i| alphabet[*i]));
            f(l, &s);
        }
    });
}

/// Texts of every size: one unit repeated, alone, on both sides of other tokens and in turn with them.
fn sizes(l: &mut Local, mut f: impl FnMut(&mut Local, &str)) {
    let max = if l.engine.thorough() { 1100 } else { 300 };
    for unit in SIZE_UNITS {
        for n in landmarks(max, if l.engine.thorough() { 70_000 } else { 4_100 }).into_iter().skip(1) {
            if l.mine() {
                let r = unit.repeat(n);
                f(l, &r);
                f(l, &format!("{r}!{r} {r}{{{r}"));
                f(l, &format!("{unit}! {{").repeat(n));
                f(l, &format!("{unit}{{ x").repeat(n));
            }
        }
    }
}

const SIZE_UNITS: &[&str] = &["a", " ", "!", "{", "\u{e9}", "\u{5b57}", "\u{1f600}", "a\u{301}", "\r\n", "\u{2029}", "\u{2192}", "\u{1f468}\u{200d}", "\u{1f1e6}"];

pub fn c01(e: &Arc<Engine>) {
    let long = if e.thorough() { 5 } else { 4 };
    let small: Vec<char> = "aé\u{301} \u{2029}!‘{".chars().collect();
    let longer = if e.thorough() { 7 } else { 6 };
    e.bound(format!("every text of length 0..=3 over {} representative characters with {} grammars; length 4..={long} with the pattern grammar; length up to {longer} over 8 characters; every size 2..={} of {} units repeated", ALPHABET.len(), grammars(true).len(), if e.thorough() { 1100 } else { 300 }, SIZE_UNITS.len()));
    e.run(|l| {
        let icu = icu();
        let seg = GraphemeClusterSegmenter::new();
        for len in 0..=3 {
            for g in grammars(true) {
                texts(l, ALPHABET, len, |l, t| check_tiling(l, &seg, &icu, t, &g));
            }
        }
        for len in 4..=long {
            texts(l, ALPHABET, len, |l, t| check_tiling(l, &seg, &icu, t, "{}`#"));
        }
        for len in 4..=longer {
            texts(l, &small, len, |l, t| check_tiling(l, &seg, &icu, t, "{}`#"));
        }
        sizes(l, |l, t| check_tiling(l, &seg, &icu, t, "{}`#"));
    });
}

fn check_class(l: &mut Local, icu: &RefCount<IcuDataProvider>, text: &str, grammar: &str) {
    let case = format!("text={} grammar={}", esc(text), grammar);
    if l.skip(&case) {
        return;
    }
    l.state(&case);
    let s = match l.exec(&case, || tokens(text, grammar, icu)) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return l.violation(&case, "tokens", e),
        Err(p) => return l.violation(&case, "no panic", p),
    };
    let mut previous: Option<TokenType> = None;
    let mut shape = String::new();
    for t in &s.tokens {
        for c in t.string.chars() {
            let want = class(grammar, c);
            if want != t.token_type {
                return l.violation(&case, format!("{want:?} for U+{:04X}", c as u32), format!("{:?}", t.token_type));
            }
        }
        if t.token_type == TokenType::Grammar {
            if t.string.chars().count() != 1 {
                return l.violation(&case, "one character per grammar token", esc(&t.string));
            }
        } else if previous == Some(t.token_type) {
            return l.violation(&case, "maximal tokens", format!("two neighbouring {:?} tokens", t.token_type));
        }
        previous = Some(t.token_type);
        shape.push(match t.token_type {
            TokenType::WhiteSpace => 'w',
            TokenType::Identifier => 'i',
            TokenType::Grammar => 'g',
            TokenType::Syntax => 's',
        });
    }
    l.outcome(&shape);
}

pub fn c02(e: &Arc<Engine>) {
    let longest = if e.thorough() { 5 } else { 4 };
    e.bound(format!("every Unicode scalar value alone, and before and after a character of every class; every text up to length {longest} over {} characters; every size 2..={} of {} units repeated", ALPHABET.len(), if e.thorough() { 1100 } else { 300 }, SIZE_UNITS.len()));
    e.run(|l| {
        let icu = icu();
        let mut c = 0u32;
        let neighbours = ['a', ' ', '!', '{'];
        while c <= 0x10ffff {
            if let Some(ch) = char::from_u32(c) {
                if l.mine() {
                    for grammar in ["{}`#", "{!"] {
                        check_class(l, &icu, &ch.to_string(), grammar);
                        if grammar == "{}`#" && (l.engine.thorough() || c < 0x3100 || c % 16 == 0) {
                            for n in neighbours {
                                check_class(l, &icu, &format!("{n}{ch}{n}"), grammar);
                            }
                        }
                    }
                }
            }
            c += 1;
        }
        for len in 1..=3 {
            for g in grammars(true) {
                if !g.is_empty() {
                    texts(l, ALPHABET, len, |l, t| check_class(l, &icu, t, &g));
                }
            }
        }
        for len in 4..=longest {
            texts(l, ALPHABET, len, |l, t| check_class(l, &icu, t, "{}`#"));
        }
        sizes(l, |l, t| check_class(l, &icu, t, "{}`#"));
    });
}
