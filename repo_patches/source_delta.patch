From 080491f44ab85f7be9dbbd001cc34770fe32c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 01/38] fix: literal text of literal patterns and command
 parameters never ended

---
 crates/localiser/src/tree.rs | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 07e2716..5ea7cf8 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -164,7 +164,9 @@ impl Tree {
         let mut patterns = HashMap::<String, usize>::new();
 
         // Process the tokens
-        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?.enumerate();
+        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?
+            .enumerate()
+            .peekable();
         while let Some((current, token)) = lexer.next() {
             if token.token_type == TokenType::Grammar {
                 has_grammar = true;
@@ -385,13 +387,13 @@ impl Tree {
                     if tokens[current].token_type == TokenType::Grammar
                         && tokens[current].string.as_str() == "`"
                     {
-                        // Skip over 1st ` token.
-                        let Some((next, token)) = lexer.next() else {
-                            return Err(TreeError::EndedAbruptly);
-                        };
-                        Tree::push_token(&mut tokens, &mut lengths, token);
-                        if tokens[current].string.as_str() == "`" {
-                            // Literal 2nd ` found.
+                        // Two sequential ` tokens represent a literal `, otherwise end of the literal text.
+                        let literal = lexer.next_if(|(_, token)| {
+                            token.token_type == TokenType::Grammar && token.string.as_str() == "`"
+                        });
+                        if let Some((next, token)) = literal {
+                            // Skip over 1st ` token, as literal 2nd ` found.
+                            Tree::push_token(&mut tokens, &mut lengths, token);
                             Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
                         } else {
                             Tree::end_nested_state(&mut nodes, &mut parser);
@@ -408,7 +410,8 @@ impl Tree {
                     if tokens[current].token_type == TokenType::Grammar
                         && tokens[current].string.as_str() == "}"
                     {
-                        Tree::end_nested_state(&mut nodes, &mut parser);
+                        // The end of the literal text already moved back to the container of the literal pattern.
+                        parser.state = parser.nested_states.pop().unwrap_or(ParserState::String);
                         continue;
                     }
                     return Err(TreeError::InvalidToken(
@@ -444,17 +447,8 @@ impl Tree {
                             }
                             Tree::end_nested_state(&mut nodes, &mut parser);
                         } else if token_str == "`" {
-                            // Skip over ` token as next token is a literal.
-                            let Some((next, token)) = lexer.next() else {
-                                return Err(TreeError::EndedAbruptly);
-                            };
-                            Tree::push_token(&mut tokens, &mut lengths, token);
-                            Tree::create_node_add_token(
-                                &mut nodes,
-                                &mut parser,
-                                NodeType::Text,
-                                &next,
-                            );
+                            // Skip over ` token as it marks start of literal text, which may be empty.
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::Text);
                             parser.nested_states.push(ParserState::Command);
                             parser.state = ParserState::LiteralText;
                         } else if token_str == "#" {
-- 
2.43.0


From 2518409eb7c5c029ace23cb4bf8523f583f71e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 02/38] fix: delay marker of a command pattern panicked the
 parser

---
 crates/localiser/src/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 5ea7cf8..5ce7c7c 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -468,6 +468,7 @@ impl Tree {
                                 NodeType::NumberSign,
                                 &current,
                             );
+                            Tree::move_to_container(&mut nodes, &mut parser);
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
-- 
2.43.0


From 50505f1ac3814b5767a56417814e0b2c72acd580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 03/38] fix: named string starting with pattern, escape or
 syntax was mis-parsed, and empty one rejected

---
 crates/localiser/src/tree.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 5ce7c7c..45f935f 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -569,21 +569,36 @@ impl Tree {
                                     tokens[current].string.to_string(),
                                 ));
                             }
-                            let Some((_currrent, token)) = lexer.next() else {
-                                // Skip the next token
+                            // Skip over { token as it marks start of pattern.
+                            let Some((next, token)) = lexer.next() else {
                                 return Err(TreeError::EndedAbruptly);
                             };
                             Tree::push_token(&mut tokens, &mut lengths, token);
-                            match Tree::pattern_start(
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::String);
+                            parser.nested_states.push(ParserState::NamedString);
+                            parser.state = ParserState::SubString;
+                            Tree::pattern_start(
                                 &mut nodes,
                                 &mut parser,
                                 &mut tokens,
-                                &current,
+                                &next,
                                 &mut patterns,
-                            ) {
-                                Ok(_) => {}
-                                Err(error) => return Err(error),
-                            };
+                            )?;
+                        } else if token_str == "}" {
+                            // } may only appear after Identifier node indicating empty SubString.
+                            let children =
+                                nodes[parser.current.unwrap()].children.as_ref().unwrap();
+                            if children.len() != 1 {
+                                return Err(TreeError::InvalidToken(
+                                    parser.state,
+                                    tokens[current].start_grapheme,
+                                    tokens[current].string.to_string(),
+                                ));
+                            }
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::String);
+                            parser.nested_states.push(ParserState::NamedString);
+                            Tree::end_nested_state(&mut nodes, &mut parser);
+                            Tree::end_nested_state(&mut nodes, &mut parser);
                         } else if token_str == "`" {
                             // ` may only appear after Identifier node indicating start of SubString.
                             let children =
@@ -607,6 +622,7 @@ impl Tree {
                                 NodeType::Text,
                                 &current,
                             );
+                            parser.state = ParserState::SubString;
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
@@ -632,6 +648,7 @@ impl Tree {
                             NodeType::Text,
                             &current,
                         );
+                        parser.state = ParserState::SubString;
                     } else if tokens[current].token_type == TokenType::WhiteSpace {
                         // Valid WhiteSpace is only a separator between Identifier and Substring.
                         let children = nodes[parser.current.unwrap()].children.as_ref().unwrap();
-- 
2.43.0


From 9928aa8b2bb4244385b68519679fef914a683805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 04/38] fix: stray grammar characters after a pattern keyword
 were silently dropped

---
 crates/localiser/src/tree.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 45f935f..5b63262 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -368,9 +368,14 @@ impl Tree {
                         parser.current = nodes.get(parser.current.take().unwrap()).unwrap().parent;
                     } else if tokens[current].token_type == TokenType::WhiteSpace {
                     } else if tokens[current].token_type == TokenType::Grammar {
-                        if tokens[current].string.as_str() == "}" {
-                            Tree::end_nested_state(&mut nodes, &mut parser);
+                        if tokens[current].string.as_str() != "}" {
+                            return Err(TreeError::InvalidToken(
+                                parser.state,
+                                tokens[current].start_grapheme,
+                                tokens[current].string.to_string(),
+                            ));
                         }
+                        Tree::end_nested_state(&mut nodes, &mut parser);
                     } else {
                         return Err(TreeError::InvalidToken(
                             parser.state,
-- 
2.43.0


From 326ec77a904a957a4b0eca8b3d605a5addee9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:17 +0000
Subject: [PATCH 05/38] fix: option values and branch names of patterns were
 ignored

---
 crates/localiser/src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index bf3c916..b312a0a 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1347,7 +1347,7 @@ fn pattern_selectors(
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
         let first_token = tree.token(&tree.tokens(first).unwrap()[0]);
-        let last = tree.first(selector).unwrap();
+        let last = tree.last(selector).unwrap();
         if tree.node_type(last) != &NodeType::Identifier {
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
-- 
2.43.0


From 27cd14648c193236f6d57c3a897d88aca3167e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:17 +0000
Subject: [PATCH 06/38] fix: a selector naming the main string recursed without
 end

---
 crates/localiser/src/formatter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index b312a0a..98f151d 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1179,7 +1179,7 @@ fn part_pattern(
                     placeholder_token.string.as_str().to_string(),
                 ));
             }
-            if !patterns.contains_key(named) {
+            if named.as_str() == "_" || !patterns.contains_key(named) {
                 return Err(FormatterError::SelectorNamed(
                     named.as_str().to_string(),
                     selector.as_str().to_string(),
@@ -1214,7 +1214,7 @@ fn part_pattern(
                     placeholder_token.string.as_str().to_string(),
                 ));
             }
-            if !patterns.contains_key(named) {
+            if named.as_str() == "_" || !patterns.contains_key(named) {
                 return Err(FormatterError::SelectorNamed(
                     named.as_str().to_string(),
                     selector.as_str().to_string(),
@@ -1241,7 +1241,7 @@ fn part_pattern(
     } else if keyword_token.string.as_str() == "select" {
         let strings = pattern_selectors(tree, index)?;
         for (selector, named) in strings.iter() {
-            if !patterns.contains_key(named) {
+            if named.as_str() == "_" || !patterns.contains_key(named) {
                 return Err(FormatterError::SelectorNamed(
                     named.as_str().to_string(),
                     selector.as_str().to_string(),
-- 
2.43.0


From 619bc41e5b112f605d681fea0a8f17e74a32efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:17 +0000
Subject: [PATCH 07/38] fix: plural, ordinal and select ignored the other
 selector for unlisted categories

---
 crates/localiser/src/formatter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 98f151d..0fc952f 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -600,7 +600,7 @@ impl Formatter {
             let Some(selectors) = self.selectors.get(selectors_index) else {
                 return Err(FormatterError::SelectorsIndex(selectors_index));
             };
-            let Some(named) = selectors.get(&category) else {
+            let Some(named) = selectors.get(&category).or_else(|| selectors.get("other")) else {
                 return Err(FormatterError::SelectorsIndexNamed(
                     category,
                     selectors_index,
@@ -648,7 +648,10 @@ impl Formatter {
         let Some(selectors) = self.selectors.get(selectors_index) else {
             return Err(FormatterError::SelectorsIndex(selectors_index));
         };
-        let Some(named) = selectors.get(string_value) else {
+        let Some(named) = selectors
+            .get(string_value)
+            .or_else(|| selectors.get("other"))
+        else {
             return Err(FormatterError::SelectorsIndexNamed(
                 string_value.to_string(),
                 selectors_index,
-- 
2.43.0


From 367d564bf937a99af655a3547a68565582ff544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:17 +0000
Subject: [PATCH 08/38] fix: number signs of a cached formatter kept numbers of
 earlier uses

---
 crates/localiser/src/formatter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 0fc952f..8543c8b 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -192,6 +192,8 @@ impl Formatter {
         localiser: &Localiser,
         values: &HashMap<String, PlaceholderValue>,
     ) -> Result<(String, &RefCount<LanguageTag>), FormatterError> {
+        // Numbers of previous use of this formatter must not be carried over.
+        self.numbers.iter_mut().for_each(String::clear);
         let pattern_string = self.format_pattern(localiser, values, "_")?;
         Ok((pattern_string, &self.language_tag))
     }
-- 
2.43.0


From 8973f12a6a6996fc88e0dbaf4294b39fcfede771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:17 +0000
Subject: [PATCH 09/38] fix: documented ISO 8601 forms hh:mm:ss, Z and +YYYYY
 were rejected or misread

---
 crates/localiser/src/formatter.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 8543c8b..71c2e2f 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -911,7 +911,10 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
     if parts.len() == 1 {
         // YYYYMMDD or YYYY. ISO 8601 may re-add YYYYMM in the future, once most historical data has been
         // converted from YYMMDD.
-        if let Some(slice) = parts[0].get(..4) {
+        if no_plus.len() != string.len() {
+            // +YYYYY
+            year = i32::from_str(parts[0])?;
+        } else if let Some(slice) = parts[0].get(..4) {
             year = i32::from_str(slice)?;
 
             // try month
@@ -980,10 +983,11 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
         None => no_t,
         Some(pos) => &no_t[..pos],
     };
-    let trimmed = match no_plus.find('-') {
+    let no_minus = match no_plus.find('-') {
         None => no_plus,
         Some(pos) => &no_plus[..pos],
     };
+    let trimmed = no_minus.trim_end_matches('Z');
     if trimmed.is_empty() {
         return Ok(Time::new(
             IsoHour::zero(),
@@ -1014,7 +1018,9 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
                 // try nanosecond
                 let mut no_second = &no_minute[2..];
                 no_second = no_second.trim_start_matches('.');
-                nano = NanoSecond::from_str(no_second)?;
+                if !no_second.is_empty() {
+                    nano = NanoSecond::from_str(no_second)?;
+                }
             }
         }
     }
-- 
2.43.0


From 1f351d4adf3c334bae2db6d50024e9d3b18a1845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:22 +0000
Subject: [PATCH 10/38] fix: calendar option of date_time patterns was always
 rejected

---
 crates/localiser/src/formatter.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 71c2e2f..5c5ca85 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -22,6 +22,8 @@ use icu_decimal::{options, FixedDecimalFormatter};
 use icu_plurals::{PluralCategory, PluralRules};
 use icu_provider::prelude::DataLocale;
 
+use icu_locid::Locale;
+
 #[cfg(not(feature = "extend"))]
 use icu_locid::LanguageIdentifier as IcuLanguage;
 
@@ -83,10 +85,10 @@ impl Formatter {
         let option_selectors = OptionSelectors {
             valid_plurals: vec!["zero", "one", "two", "few", "many", "other"],
             calendars: vec![
-                "gregorian",
+                "gregory",
                 "buddhist",
                 "japanese",
-                "ethiopian",
+                "ethiopic",
                 "indian",
                 "coptic",
                 "iso",
@@ -1115,7 +1117,7 @@ fn part_pattern(
         let strings = pattern_selectors(tree, index)?;
         let mut length_date: Option<DateLength> = None;
         let mut length_time: Option<TimeLength> = None;
-        let mut calendar: Option<IcuLanguage> = None;
+        let mut calendar: Option<Locale> = None;
         for (key, value) in strings.iter() {
             if key.as_str() == "date" {
                 length_date = Some(date_length(value.as_str())?);
@@ -1463,7 +1465,7 @@ enum PatternPart {
         placeholder: String,
         length_date: Option<DateLength>,
         length_time: Option<TimeLength>,
-        calendar: Option<IcuLanguage>,
+        calendar: Option<Locale>,
     },
     PatternComplex {
         placeholder: String,
-- 
2.43.0


From 975640898471bfec38ba4f42e96e4ac06227070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:22 +0000
Subject: [PATCH 11/38] fix: english_a_or_an panicked on an empty parameter

---
 crates/localiser/src/command.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/command.rs b/crates/localiser/src/command.rs
index 9b0291f..f5e94d3 100644
--- a/crates/localiser/src/command.rs
+++ b/crates/localiser/src/command.rs
@@ -222,8 +222,8 @@ pub fn english_a_or_an(parameters: Vec<PlaceholderValue>) -> Result<String, Comm
         _ => return Err(CommandError::InvalidType(command.clone(), 1)),
     };
     let mut chars = string.chars();
-    match chars.next().unwrap() {
-        'a' | 'e' | 'i' | 'o' | 'u' => Ok("an".to_string()),
+    match chars.next() {
+        Some('a' | 'e' | 'i' | 'o' | 'u') => Ok("an".to_string()),
         _ => Ok("a".to_string()),
     }
 }
-- 
2.43.0


From 343a94b4cabb33bbe8593419824489f10b9d6f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:26 +0000
Subject: [PATCH 12/38] fix: cached entries were lost, mixed up between literal
 and formatted, or ignored fallback

---
 crates/localiser/src/localiser.rs | 109 +++++++++++-------------------
 1 file changed, 39 insertions(+), 70 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index c96ac04..0857100 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -46,7 +46,7 @@ pub struct Localiser {
     expander: LocaleExpander,
     fallback: MutCell<bool>,
     caching: MutCell<bool>,
-    cache: MutCell<HashMap<RefCount<LanguageTag>, HashMap<String, CacheData>>>,
+    cache: MutCell<HashMap<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>>,
     language_tag: MutCell<RefCount<LanguageTag>>,
     language_script_data: MutCell<Option<ScriptData>>,
 }
@@ -151,7 +151,7 @@ impl Localiser {
             fallback: MutCell::new(fallback),
             caching: MutCell::new(caching),
             cache: MutCell::new(
-                HashMap::<RefCount<LanguageTag>, HashMap<String, CacheData>>::new(),
+                HashMap::<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>::new(),
             ),
             language_tag: MutCell::new(tag),
             language_script_data: MutCell::new(language_script_data),
@@ -947,10 +947,12 @@ impl Localiser {
         fallback: bool, // true = fallback to default language.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
-        combined.push('/');
-        combined.push_str(identifier.as_ref());
-        let mut _language_entry = false;
+        let combined: CacheKey = (
+            component.to_string(),
+            identifier.to_string(),
+            false,
+            fallback,
+        );
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -959,7 +961,6 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                _language_entry = true;
                 if let Some(result2) = result.get(&combined) {
                     return match result2 {
                         CacheData::Localised(string, tag) => {
@@ -1036,7 +1037,7 @@ impl Localiser {
         if localised.0.is_empty() {
             let string = RefCount::new(localised.0);
             if caching {
-                self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                 return Ok((string, localised.1));
             }
             return Ok((string, localised.1));
@@ -1048,7 +1049,7 @@ impl Localiser {
                     // No grammar syntax was found, thus a literal string.
                     let string = RefCount::new(localised.0);
                     if caching {
-                        self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                        self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                         return Ok((string, localised.1));
                     }
                     return Ok((string, localised.1));
@@ -1068,36 +1069,19 @@ impl Localiser {
             #[cfg(feature = "logging")]
             debug!("Caching formatting string.");
 
-            if !_language_entry {
-                let mut data_entry = HashMap::<String, CacheData>::new();
-                data_entry.insert(
-                    combined.clone(),
-                    CacheData::Formatter(MutCell::new(formatter)),
-                );
+            #[cfg(not(feature = "sync"))]
+            let mut binding = self.cache.borrow_mut();
+
+            #[cfg(feature = "sync")]
+            let mut binding = self.cache.write().unwrap();
 
-                #[cfg(not(feature = "sync"))]
-                self.cache
-                    .borrow_mut()
-                    .insert(RefCount::clone(language_tag), data_entry);
-
-                #[cfg(feature = "sync")]
-                self.cache
-                    .write()
-                    .unwrap()
-                    .insert(RefCount::clone(language_tag), data_entry);
-            } else {
-                #[cfg(not(feature = "sync"))]
-                let mut binding = self.cache.borrow_mut();
-
-                #[cfg(feature = "sync")]
-                let mut binding = self.cache.write().unwrap();
-
-                let data_entry = binding.get_mut(language_tag);
-                data_entry.unwrap().insert(
+            binding
+                .entry(RefCount::clone(language_tag))
+                .or_default()
+                .insert(
                     combined.clone(),
                     CacheData::Formatter(MutCell::new(formatter)),
                 );
-            }
         }
 
         // Get `Formatter` and use it to get the (String, RefCount<LanguageTag>).
@@ -1138,10 +1122,12 @@ impl Localiser {
         fallback: bool, // true = fallback to default language, None = use the Localiser default.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
-        combined.push('/');
-        combined.push_str(identifier);
-        let mut _language_entry = false;
+        let combined: CacheKey = (
+            component.to_string(),
+            identifier.to_string(),
+            true,
+            fallback,
+        );
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -1150,7 +1136,6 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                _language_entry = true;
                 if let Some(result2) = result.get(&combined) {
                     return match result2 {
                         CacheData::Localised(string, tag) => {
@@ -1207,7 +1192,7 @@ impl Localiser {
         // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
         let string = RefCount::new(localised.0);
         if caching {
-            self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+            self.add_string_to_cache(language_tag, combined, &string, &localised.1);
         }
         Ok((string, RefCount::clone(&localised.1)))
     }
@@ -1261,51 +1246,35 @@ impl Localiser {
 
     fn add_string_to_cache(
         &self,
-        language_exists: bool,
-        combined: String,
+        language_tag: &RefCount<LanguageTag>, // The requested language, may differ from the language of the string.
+        combined: CacheKey,
         string: &RefCount<String>,
         tag: &RefCount<LanguageTag>,
     ) {
         #[cfg(feature = "logging")]
         debug!("Caching literal string.");
 
-        if !language_exists {
-            // Language tag does not exist in cache
-            let mut data_entry = HashMap::<String, CacheData>::new();
-            data_entry.insert(
-                combined.to_string(),
-                CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
-            );
-
-            #[cfg(not(feature = "sync"))]
-            self.cache
-                .borrow_mut()
-                .insert(RefCount::clone(tag), data_entry);
-
-            #[cfg(feature = "sync")]
-            self.cache
-                .write()
-                .unwrap()
-                .insert(RefCount::clone(tag), data_entry);
-        } else {
-            // Language tag does exist in cache
-            #[cfg(not(feature = "sync"))]
-            let mut binding = self.cache.borrow_mut();
+        #[cfg(not(feature = "sync"))]
+        let mut binding = self.cache.borrow_mut();
 
-            #[cfg(feature = "sync")]
-            let mut binding = self.cache.write().unwrap();
+        #[cfg(feature = "sync")]
+        let mut binding = self.cache.write().unwrap();
 
-            let data_entry = binding.get_mut(tag);
-            data_entry.unwrap().insert(
+        binding
+            .entry(RefCount::clone(language_tag))
+            .or_default()
+            .insert(
                 combined,
                 CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
             );
-        }
     }
 }
 
 // Internal structs, enums, etc
 
+// Component, identifier, literal (not formatted) and fallback, as these influence the cached result.
+type CacheKey = (String, String, bool, bool);
+
 enum CacheData {
     Localised(RefCount<String>, RefCount<LanguageTag>),
     Formatter(MutCell<Formatter>),
-- 
2.43.0


From bd140068eeed37df1511a19201566ba637f4a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:56 +0000
Subject: [PATCH 13/38] fix: string_exact_match returned strings of parent
 languages

---
 crates/provider/sqlite3/src/provider.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 539671c..5f7a273 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -451,6 +451,9 @@ impl LocalisationProviderSqlite3 {
 
                 return Ok(strings);
             }
+            if exact {
+                break;
+            }
             tag = match tag.rsplit_once('-') {
                 None => String::new(),
                 Some(value) => value.0.to_owned(),
-- 
2.43.0


From bc386871401d4c2a4fd2e2361f93983b5bb290c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:58 +0000
Subject: [PATCH 14/38] fix: language tag lookup matched unrelated languages
 sharing a prefix, and not preferred the exact tag

---
 crates/provider/sqlite3/src/provider.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 5f7a273..d601cd5 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -407,9 +407,6 @@ impl LocalisationProviderSqlite3 {
         let mut strings = Vec::<(String, RefCount<LanguageTag>)>::new();
         let mut tag = language_tag.as_str().to_string();
         while !tag.is_empty() {
-            if !exact {
-                tag.push('%');
-            }
             let mut rows = match statement.query([identifier, tag.as_str(), component]) {
                 Ok(value) => value,
                 Err(error) => {
@@ -2162,15 +2159,15 @@ fn columns_check(
 fn query_pattern(schema_version: &str, only_one: bool, exact: bool) -> String {
     match schema_version {
         "1.0" => {
-            let mut query = "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND \
-            languageTag "
+            let mut query = "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND "
                 .to_string();
             if exact {
-                query.push_str("= ?2")
+                query.push_str("languageTag = ?2")
             } else {
-                query.push_str("LIKE ?2")
+                // Only whole subtags may follow the requested tag.
+                query.push_str("(languageTag = ?2 OR languageTag LIKE ?2 || '-%')")
             }
-            query.push_str(" AND component = ?3");
+            query.push_str(" AND component = ?3 ORDER BY languageTag");
             if only_one {
                 query.push_str(" LIMIT 1")
             }
-- 
2.43.0


From 5730ca6b074b651a37f518f7c5e129d18b0b5f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:01 +0000
Subject: [PATCH 15/38] fix: identifier_details failed for components only in
 the all in one file, and ignored the component file

---
 crates/provider/sqlite3/src/provider.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index d601cd5..8a6f3fb 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1434,9 +1434,18 @@ impl LocalisationProviderTrait for LocalisationProviderSqlite3 {
         match components.get(component) {
             None => Err(ProviderError::ComponentNotFound(component.to_string())),
             Some(component_details) => {
-                let mut languages = self.identifier_languages(component, identifier, true)?;
-                if languages.is_empty() {
-                    languages = self.identifier_languages(component, identifier, false)?;
+                // Strings may be present in both __all_in_one__.sqlite3 and <component>.sqlite3 files.
+                let (all_in_one, separate) = self.components[component];
+                let mut languages = Vec::<RefCount<LanguageTag>>::new();
+                if all_in_one {
+                    languages = self.identifier_languages(component, identifier, true)?;
+                }
+                if separate {
+                    for language in self.identifier_languages(component, identifier, false)? {
+                        if !languages.contains(&language) {
+                            languages.push(language);
+                        }
+                    }
                 }
                 Ok(IdentifierDetails {
                     languages,
-- 
2.43.0


From abfe9e3df799372a3bbce0ff01f3a29d7ad3d558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:04 +0000
Subject: [PATCH 16/38] fix: default language without strings gave infinite or
 NaN ratios

---
 crates/provider/sqlite3/src/provider.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 8a6f3fb..c172d8c 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1099,6 +1099,12 @@ impl LocalisationProviderSqlite3 {
                     .unwrap();
                 _count = default_language_data.count;
             }
+            if _count == 0 {
+                return Err(ProviderError::DefaultLanguageCount(
+                    component.0.to_string(),
+                    component_details.default.as_str().to_string(),
+                ));
+            }
             let languages_iterator = component_details.languages.iter_mut();
             for language_data in languages_iterator {
                 language_data.1.ratio = language_data.1.count as f32 / _count as f32;
-- 
2.43.0


From c71670d3e064f3bfb086f29ba0437ff919cf6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:06 +0000
Subject: [PATCH 17/38] fix: file name that is not valid UTF-8 panicked the
 provider

---
 crates/provider/sqlite3/src/provider.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index c172d8c..7c123fb 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -139,7 +139,10 @@ impl LocalisationProviderSqlite3 {
             if let Some(extension) = entry_data.path().extension() {
                 if extension == "sqlite3" {
                     let path = entry_data.path();
-                    let component = path.file_stem().unwrap().to_str().unwrap().to_string();
+                    let Some(component) = path.file_stem().and_then(|stem| stem.to_str()) else {
+                        continue; // Never a component, as component identifiers are always valid UTF-8.
+                    };
+                    let component = component.to_string();
 
                     #[cfg(logging)]
                     trace!("Sqlite3 file: {}", component);
-- 
2.43.0


From 41e8ea9f81ef85bb07be994457021d8f03e8a0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:15 +0000
Subject: [PATCH 18/38] fix: schema verification accepted tables missing their
 last columns

---
 crates/provider/sqlite3/src/provider.rs | 46 +++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 7c123fb..f88dfd9 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1604,6 +1604,7 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('contributor');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
                 let cid: usize = row.get(0)?;
                 match cid {
@@ -1686,12 +1687,19 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     }
                     _ => {}
                 }
+                columns += 1;
             }
+            columns_present(
+                "contributor",
+                columns,
+                "rowID component languageTag contributor substituteFor comment verified",
+            )?;
 
             // Table: language
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('language');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
                 let cid: usize = row.get(0)?;
                 match cid {
@@ -1725,12 +1733,15 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     }
                     _ => {}
                 }
+                columns += 1;
             }
+            columns_present("language", columns, "rowID tag englishName added")?;
 
             // Table: pattern
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('pattern');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
                 let cid: usize = row.get(0)?;
                 match cid {
@@ -1797,12 +1808,19 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     }
                     _ => {}
                 }
+                columns += 1;
             }
+            columns_present(
+                "pattern",
+                columns,
+                "rowID component identifier languageTag string comment verified",
+            )?;
 
             // Table: component
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('component');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
                 let cid: usize = row.get(0)?;
                 match cid {
@@ -1855,12 +1873,19 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     }
                     _ => {}
                 }
+                columns += 1;
             }
+            columns_present(
+                "component",
+                columns,
+                "rowID identifier languageTag comment added",
+            )?;
 
             // Table: languageData
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('languageData');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
                 let cid: usize = row.get(0)?;
                 match cid {
@@ -1921,7 +1946,13 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     }
                     _ => {}
                 }
+                columns += 1;
             }
+            columns_present(
+                "languageData",
+                columns,
+                "rowID component languageTag count ratio",
+            )?;
         }
         _ => {
             return Err(SchemaError::Version(
@@ -1949,6 +1980,17 @@ fn table_exists(table_list: &Vec<String>, name: &str) -> Result<(), SchemaError>
     Ok(())
 }
 
+/// Check that none of the required columns (separated by a space) are missing at the end of the table.
+fn columns_present(table: &str, columns: usize, required: &str) -> Result<(), SchemaError> {
+    match required.split(' ').nth(columns) {
+        None => Ok(()),
+        Some(name) => Err(SchemaError::MissingColumn(
+            table.to_string(),
+            name.to_string(),
+        )),
+    }
+}
+
 /// Holds the default value of the column.
 #[allow(dead_code)]
 enum DefaultValue {
@@ -2177,8 +2219,8 @@ fn columns_check(
 fn query_pattern(schema_version: &str, only_one: bool, exact: bool) -> String {
     match schema_version {
         "1.0" => {
-            let mut query = "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND "
-                .to_string();
+            let mut query =
+                "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND ".to_string();
             if exact {
                 query.push_str("languageTag = ?2")
             } else {
-- 
2.43.0


From b3d65bd2a009dea39966e46938c2076a093e446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:25 +0000
Subject: [PATCH 19/38] fix: decimal pattern without sign option showed an
 explicit plus sign, though the default is auto

---
 crates/localiser/src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 5c5ca85..3146061 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1092,7 +1092,7 @@ fn part_pattern(
     if keyword_token.string.as_str() == "decimal" {
         // Currently the option can be repeated, though only final value is used.
         let strings = pattern_selectors(tree, index)?;
-        let mut sign: Option<SignDisplay> = None;
+        let mut sign: Option<SignDisplay> = Some(SignDisplay::Auto);
         let mut group: Option<options::GroupingStrategy> = None;
         for (key, value) in strings.iter() {
             if key.as_str() == "sign" {
-- 
2.43.0


From c3938608c61eb84c408cdbbaa6ab209b6a5e894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:14 +0000
Subject: [PATCH 20/38] fix: ISO 8601 strings with month or day 00, minute 60
 or second 61 were accepted

---
 crates/localiser/src/formatter.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 3146061..42c1835 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -12,7 +12,7 @@ use i18n_lexer::{DataProvider, IcuDataProvider, Token, TokenType};
 use i18n_utility::{LanguageTag, PlaceholderValue};
 use icu_calendar::{
     types::{IsoHour, IsoMinute, IsoSecond, NanoSecond, Time},
-    Date, DateTime, Iso,
+    CalendarError, Date, DateTime, Iso,
 };
 use icu_datetime::{
     options::length::{Bag, Date as DateLength, Time as TimeLength},
@@ -952,6 +952,15 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
             }
         }
     }
+    // `Date` only checks the upper limits.
+    for (field, value) in [("month", month), ("day", day)] {
+        if value == 0 {
+            return Err(FormatterError::Calendar(CalendarError::Underflow {
+                field,
+                min: 1,
+            }));
+        }
+    }
     let result = Date::try_new_iso_date(year, month, day)?;
     Ok(result)
 }
@@ -1026,6 +1035,19 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
             }
         }
     }
+
+    // `Time` allows one more than the documented upper limits.
+    for (field, value, max) in [
+        ("minute", minute.number(), 59),
+        ("second", second.number(), 60),
+    ] {
+        if usize::from(value) > max {
+            return Err(FormatterError::Calendar(CalendarError::Overflow {
+                field,
+                max,
+            }));
+        }
+    }
     Ok(Time::new(hour, minute, second, nano))
 }
 
-- 
2.43.0


From 0182c199d2e6899103689d068a1a50a415e8b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:12 +0000
Subject: [PATCH 21/38] fix: script data of Armenian, Khojki, Kannada and
 Khitan was right to left, and Yi was listed as Yezidi

---
 crates/localiser/src/script.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/localiser/src/script.rs b/crates/localiser/src/script.rs
index cbc06da..5fa2e33 100644
--- a/crates/localiser/src/script.rs
+++ b/crates/localiser/src/script.rs
@@ -55,7 +55,7 @@ impl DataProvider {
             "Armn".to_string(),
             ScriptData {
                 category: Category::Alphabetic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
@@ -655,7 +655,7 @@ impl DataProvider {
             "Khoj".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -671,8 +671,8 @@ impl DataProvider {
             "Knda".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
-                historic: true,
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
+                historic: false,
             },
         );
         data.insert(
@@ -699,7 +699,7 @@ impl DataProvider {
             "Kthi".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -1569,15 +1569,15 @@ impl DataProvider {
             },
         );
         data.insert(
-            "Yezi".to_string(),
+            "Yiii".to_string(),
             ScriptData {
                 category: Category::Syllabic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
         data.insert(
-            "Zand".to_string(),
+            "Zanb".to_string(),
             ScriptData {
                 category: Category::Abugida,
                 directions: vec![ScriptDirection::TopToBottomLeftToRight],
-- 
2.43.0


From f64c56861e47e0a806945dd79565824ff311e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:35 +0000
Subject: [PATCH 22/38] fix: canonical tag was listed as deprecated when two
 threads registered it at the same time

---
 crates/utility/src/language.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/utility/src/language.rs b/crates/utility/src/language.rs
index e2a3033..c4869fb 100644
--- a/crates/utility/src/language.rs
+++ b/crates/utility/src/language.rs
@@ -192,10 +192,13 @@ impl LanguageTagRegistry {
 
             #[cfg(feature = "sync")]
             if let Some(result) = self.tags.lock().unwrap().get(&new_tag) {
-                self.deprecated
-                    .lock()
-                    .unwrap()
-                    .insert(language_tag.to_string(), RefCount::clone(result));
+                // Not deprecated when another thread has just registered the very same tag.
+                if language_tag != result.as_str() {
+                    self.deprecated
+                        .lock()
+                        .unwrap()
+                        .insert(language_tag.to_string(), RefCount::clone(result));
+                }
                 return Ok(RefCount::clone(result));
             }
         }
-- 
2.43.0


From 824fbc97edee91da0331b74b285a1de9bb4e4991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:32 +0000
Subject: [PATCH 23/38] fix: two threads registering a tag at the same time got
 different instances of it

---
 crates/utility/src/language.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/utility/src/language.rs b/crates/utility/src/language.rs
index c4869fb..31bc7f4 100644
--- a/crates/utility/src/language.rs
+++ b/crates/utility/src/language.rs
@@ -206,6 +206,17 @@ impl LanguageTagRegistry {
         // Requested tag is not in tags or deprecated, add to registry and return reference counted
         // tag.
         let rc_new_tag = RefCount::new(LanguageTag { tag: new_tag });
+
+        // Another thread may have registered the tag in the meantime, then its instance is the one to share.
+        #[cfg(feature = "sync")]
+        let rc_new_tag = RefCount::clone(
+            self.tags
+                .lock()
+                .unwrap()
+                .entry(rc_new_tag.as_str().to_string())
+                .or_insert(rc_new_tag),
+        );
+
         if language_tag != rc_new_tag.as_str() {
             #[cfg(not(feature = "sync"))]
             self.deprecated
@@ -225,12 +236,6 @@ impl LanguageTagRegistry {
             RefCount::clone(&rc_new_tag),
         );
 
-        #[cfg(feature = "sync")]
-        self.tags.lock().unwrap().insert(
-            rc_new_tag.as_str().to_string(),
-            RefCount::clone(&rc_new_tag),
-        );
-
         Ok(RefCount::clone(&rc_new_tag))
     }
 
-- 
2.43.0


From 88ee7a2ad74c006b64bf91befce913489f314c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:25 +0000
Subject: [PATCH 24/38] fix: errors of the lexer could not be localised

The shipped strings were filed under the component 'i18b_lexer', and the errors named the component 'i18n_icu',
an identifier that does not exist, and the wrong variant.
---
 crates/lexer/l10n/i18n_lexer.sqlite3 | Bin 57344 -> 57344 bytes
 crates/lexer/src/error.rs            |  12 ++++++------
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/lexer/l10n/i18n_lexer.sqlite3 b/crates/lexer/l10n/i18n_lexer.sqlite3
index 624a48a3165869a6e5610ccba24c16fc99d7c62a..b21fb2112e660335878a70d0331da12b1dcb9465 100644
GIT binary patch
delta 265
zcmZoTz}#?vd4e<}*F+g-RxSp;vd)bu@$!s$n~%tw3IM5J`ZIvM$&>x{8S@q&_6G`0
zJ`%44lz1M0!yiZ;Sg#EdJFs44(}7dmK-PnMB9rf*wgR&L-xHr~c*YaRsy>qrBp;v2
z0g?e{bAjZ(v&npU@j0m#sYU5Ui3J&{xswyl8cdEqXAG3wa9?cl%5xyaV&_YNcJ!PN
z<_B^f+>-;6|L-XRNyYmzK+^6$$Zc`=Wr1YPeF+&<6H_xwSQJ<lmBkq|4J|;XDgc#T
Pye}<+rYtp2H_8zJSdVON

delta 265
zcmZoTz}#?vd4e<}+e8^>RyGE`v{xHb;^i5WHXo5U6#!Dd^k)EhlPCM@GbSxQ><<*0
zd?a28DDgc0hCh%xuwEM^c3{28rUR$AfvgAjL?+)qZ3Sfgzb8J~@Qf#rRedHMNIpK3
z10(~^<^sumXOsDo;&W0fQj5}y5(_d?b0;U9HJBWK&KM}U;l9}9mFGZ;#m<)k?dUll
z%n#%|xF-iB|KC#tl8X0bfTZ1hklW(!%L2)o`w}v!CZ=YVuqd!9DvL8_8d`u%RRAix
PcwbrsO<8K5Zj>Vc>*H%?

diff --git a/crates/lexer/src/error.rs b/crates/lexer/src/error.rs
index 370003c..b03fb42 100644
--- a/crates/lexer/src/error.rs
+++ b/crates/lexer/src/error.rs
@@ -125,7 +125,7 @@ impl LocalisationTrait for IcuError {
 
             IcuError::Grapheme => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "grapheme".to_string(),
                     values: None,
                 };
@@ -147,7 +147,7 @@ impl LocalisationTrait for IcuError {
             }
             IcuError::Syntax => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "syntax".to_string(),
                     values: None,
                 };
@@ -155,7 +155,7 @@ impl LocalisationTrait for IcuError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Grapheme".to_string()),
+                    PlaceholderValue::String("Syntax".to_string()),
                 );
                 values.insert(
                     "message".to_string(),
@@ -169,7 +169,7 @@ impl LocalisationTrait for IcuError {
             }
             IcuError::WhiteSpace => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "white_space".to_string(),
                     values: None,
                 };
@@ -177,7 +177,7 @@ impl LocalisationTrait for IcuError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Grapheme".to_string()),
+                    PlaceholderValue::String("WhiteSpace".to_string()),
                 );
                 values.insert(
                     "message".to_string(),
@@ -272,7 +272,7 @@ impl LocalisationTrait for LexerError {
             LexerError::NoGrammar => {
                 let message = LocalisationData {
                     component: "i18n_lexer".to_string(),
-                    identifier: "no_grammar_syntax".to_string(),
+                    identifier: "no_grammar".to_string(),
                     values: None,
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
-- 
2.43.0


From f37fe0a8a0b8126920074865a68413bfb2a3b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:25 +0000
Subject: [PATCH 25/38] fix: errors of the pattern parser and of commands could
 not be localised

They named the component 'i18n_pattern', which does not exist, and placeholders other than those of the strings;
numbers were given to plain placeholders, which take strings.
---
 crates/localiser/l10n/i18n_localiser.sqlite3 | Bin 73728 -> 73728 bytes
 crates/localiser/src/error.rs                |  42 +++++++++----------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/crates/localiser/l10n/i18n_localiser.sqlite3 b/crates/localiser/l10n/i18n_localiser.sqlite3
index 631fa164db468629e47c614e5d5f0a7b958ff301..4b7d4c62554d5b1bf0a497dc590461651fc45b98 100644
GIT binary patch
delta 65
zcmV-H0KWf#zyyH61dtm62ay~@1qT2wc8RfMqyGT`wFm*N0SR|V2>>ZC5rGqzz5xMJ
Xm%su67YH*gFgGnQGyu0R0s+w-b+!?y

delta 83
zcmZoTz|wGlWr8##+e8^>RyGE`v{xHb7XN2t*vi4UmXWi<gOfp1U$9Yh`aVX+Ao;4y
n{Jhj!g_P8soJ57<lA_GK^h7-)10!Qy19M#ilkNIUj2C4AKeHJ=

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index eb598b1..8cc90c0 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -63,7 +63,7 @@ impl LocalisationTrait for TreeError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("LexerError".to_string()),
+                    PlaceholderValue::String("Lexer".to_string()),
                 );
                 values.insert(
                     "error".to_string(),
@@ -77,7 +77,7 @@ impl LocalisationTrait for TreeError {
             }
             TreeError::EndedAbruptly => {
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "string_ended_abruptly".to_string(),
                     values: None,
                 };
@@ -105,11 +105,11 @@ impl LocalisationTrait for TreeError {
                 );
                 message_values.insert(
                     "position".to_string(),
-                    PlaceholderValue::Unsigned(*position as u128),
+                    PlaceholderValue::String(position.to_string()),
                 );
                 message_values.insert("token".to_string(), PlaceholderValue::String(token.clone()));
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "invalid_token".to_string(),
                     values: Some(message_values),
                 };
@@ -136,7 +136,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::String(identifier.clone()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "unique_pattern".to_string(),
                     values: Some(message_values),
                 };
@@ -160,10 +160,10 @@ impl LocalisationTrait for TreeError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "position".to_string(),
-                    PlaceholderValue::Unsigned(*position as u128),
+                    PlaceholderValue::String(position.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "multi_number_sign".to_string(),
                     values: Some(message_values),
                 };
@@ -190,7 +190,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::String(identifier.clone()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "unique_named".to_string(),
                     values: Some(message_values),
                 };
@@ -290,7 +290,7 @@ impl LocalisationTrait for CommandError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Registry".to_string()),
+                    PlaceholderValue::String("Custom".to_string()),
                 );
                 values.insert(
                     "error".to_string(),
@@ -305,11 +305,11 @@ impl LocalisationTrait for CommandError {
             CommandError::AlreadyExists(command) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "already_exists".to_string(),
                     values: Some(message_values),
                 };
@@ -332,11 +332,11 @@ impl LocalisationTrait for CommandError {
             CommandError::NotFound(command) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "command_not_found".to_string(),
                     values: Some(message_values),
                 };
@@ -359,15 +359,15 @@ impl LocalisationTrait for CommandError {
             CommandError::ParameterMissing(command, index) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 message_values.insert(
-                    "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    "parameter".to_string(),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "parameter_missing".to_string(),
                     values: Some(message_values),
                 };
@@ -390,15 +390,15 @@ impl LocalisationTrait for CommandError {
             CommandError::InvalidType(command, index) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 message_values.insert(
-                    "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    "parameter".to_string(),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "invalid_type".to_string(),
                     values: Some(message_values),
                 };
-- 
2.43.0


From a5fe0a1dcd28ee4e41d81fe8de19e3df82701929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:25 +0000
Subject: [PATCH 26/38] fix: some errors of the formatter could not be
 localised

Their values did not have the names of the placeholders of the strings, and numbers were given to plain placeholders.
---
 crates/localiser/l10n/i18n_localiser.sqlite3 | Bin 73728 -> 73728 bytes
 crates/localiser/src/error.rs                |  18 +++++++++---------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/localiser/l10n/i18n_localiser.sqlite3 b/crates/localiser/l10n/i18n_localiser.sqlite3
index 4b7d4c62554d5b1bf0a497dc590461651fc45b98..2c27003b7dd4e7e6c3a55fbe634ce2561ec4474d 100644
GIT binary patch
delta 101
zcmZoTz|wGlWr8##$3z)tMvjdM%ilAyZ07jD!N{p>z{#MgE7+Jj`QS&1$%a78^M!Xh
z6Cb1K<lK*5ObiU0w|`v6!{sLlQYPLQpFRB`FQfS6wtq^KJr40s-u|xvq{jUJNd*9<
Cha*=2

delta 90
zcmZoTz|wGlWr8##`$QRMM)r*f%il9HZ07jD!N{p<z{#MgE7({#`QS&1$%a78d5(W_
t*vI(I+dr=3;R=uhNsBioXHP%K%P2m%?Vr+Q_OtwxxBhF`Z2teG0sxK}B0T^A

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 8cc90c0..192e959 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -1258,7 +1258,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1323,7 +1323,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1389,7 +1389,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1451,7 +1451,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1478,7 +1478,7 @@ impl LocalisationTrait for FormatterError {
             FormatterError::InvalidSelector(option, keyword, placeholder) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "option".to_string(),
+                    "selector".to_string(),
                     PlaceholderValue::String(option.to_string()),
                 );
                 message_values.insert(
@@ -1486,7 +1486,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1514,7 +1514,7 @@ impl LocalisationTrait for FormatterError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1541,7 +1541,7 @@ impl LocalisationTrait for FormatterError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1572,7 +1572,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
-- 
2.43.0


From 9c2bbddd160b1e138c5a7a0f73a14cf7347a917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:50 +0000
Subject: [PATCH 27/38] fix: localised errors showed the markup of their
 strings

Strings with literal text patterns need to be formatted, thus need values, even if these are empty.
---
 crates/localiser/src/error.rs        | 4 ++--
 crates/provider/sqlite3/src/error.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 192e959..3fae11c 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -994,7 +994,7 @@ impl LocalisationTrait for FormatterError {
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
                     identifier: "invalid_root".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
@@ -1684,7 +1684,7 @@ impl LocalisationTrait for FormatterError {
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
                     identifier: "no_icu_provider".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
diff --git a/crates/provider/sqlite3/src/error.rs b/crates/provider/sqlite3/src/error.rs
index 906833e..6a7b7ac 100644
--- a/crates/provider/sqlite3/src/error.rs
+++ b/crates/provider/sqlite3/src/error.rs
@@ -146,7 +146,7 @@ impl LocalisationTrait for ProviderSqlite3Error {
                 let message = LocalisationData {
                     component: "i18n_provider_sqlite3".to_string(),
                     identifier: "path_conversion".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
-- 
2.43.0


From e0191335a1bba73a30fd1699205e898ce874936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:50 +0000
Subject: [PATCH 28/38] fix: localised error of the language tag registry named
 the wrong type

---
 crates/utility/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/utility/src/error.rs b/crates/utility/src/error.rs
index e9afd00..70d251c 100644
--- a/crates/utility/src/error.rs
+++ b/crates/utility/src/error.rs
@@ -31,7 +31,7 @@ impl LocalisationErrorTrait for RegistryError {}
 
 impl LocalisationTrait for RegistryError {
     fn localisation_data(&self) -> LocalisationData {
-        let type_string = PlaceholderValue::String("IcuError".to_string());
+        let type_string = PlaceholderValue::String("RegistryError".to_string());
         match self {
             #[cfg(not(feature = "extend"))]
             RegistryError::LanguageIdentifier(error) => {
-- 
2.43.0


From 7f1e99d2caf5bb57fa02bc965562424d3ed577e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:43 +0000
Subject: [PATCH 29/38] fix: descriptions of two errors had their details
 swapped

---
 crates/localiser/src/error.rs        | 2 +-
 crates/provider/sqlite3/src/error.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 3fae11c..90ad79e 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -1783,7 +1783,7 @@ impl Display for FormatterError {
                 write!(
                     formatter,
                     "FormatterError::PatternPart: Failed to retrieve the part ‘{}’ of the pattern for the named string ‘{}’.",
-                    identifier, index
+                    index, identifier
                 ),
             FormatterError::InvalidOptionValue( value, option, keyword ) =>
                 write!(
diff --git a/crates/provider/sqlite3/src/error.rs b/crates/provider/sqlite3/src/error.rs
index 6a7b7ac..826b1d8 100644
--- a/crates/provider/sqlite3/src/error.rs
+++ b/crates/provider/sqlite3/src/error.rs
@@ -505,8 +505,8 @@ impl Display for SchemaError {
                 formatter,
                 "Check `verify_schema()` as default value type does not match column type for \
                 the column ‘{}’ of table ‘{}’.",
-                table,
-                column
+                column,
+                table
             ),
         }
     }
-- 
2.43.0


From e08b2355f8ef1144de69073ee2e2f96416822bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:00 +0000
Subject: [PATCH 30/38] fix: feature icu_extended had no effect, tags with
 extensions were rejected

---
 crates/localiser/src/formatter.rs |  4 ++--
 crates/utility/src/error.rs       | 18 +++++++++---------
 crates/utility/src/language.rs    |  4 ++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 42c1835..224c85b 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -24,10 +24,10 @@ use icu_provider::prelude::DataLocale;
 
 use icu_locid::Locale;
 
-#[cfg(not(feature = "extend"))]
+#[cfg(not(feature = "icu_extended"))]
 use icu_locid::LanguageIdentifier as IcuLanguage;
 
-#[cfg(feature = "extend")]
+#[cfg(feature = "icu_extended")]
 use icu_locid::Locale as IcuLanguage;
 
 #[cfg(feature = "logging")]
diff --git a/crates/utility/src/error.rs b/crates/utility/src/error.rs
index 70d251c..052b207 100644
--- a/crates/utility/src/error.rs
+++ b/crates/utility/src/error.rs
@@ -15,15 +15,15 @@ use std::{
 ///
 /// * `LanguageIdentifier`: Wraps the ICU's [`ParserError`],
 ///
-/// else if cargo feature `extend` is enabled:
+/// else if cargo feature `icu_extended` is enabled:
 ///
 /// * `Locale`: Wraps the ICU's `ParserError`.
 #[derive(Debug, PartialEq, Copy, Clone)]
 #[non_exhaustive]
 pub enum RegistryError {
-    #[cfg(not(feature = "extend"))]
+    #[cfg(not(feature = "icu_extended"))]
     LanguageIdentifier(ParserError),
-    #[cfg(feature = "extend")]
+    #[cfg(feature = "icu_extended")]
     Locale(ParserError),
 }
 
@@ -33,7 +33,7 @@ impl LocalisationTrait for RegistryError {
     fn localisation_data(&self) -> LocalisationData {
         let type_string = PlaceholderValue::String("RegistryError".to_string());
         match self {
-            #[cfg(not(feature = "extend"))]
+            #[cfg(not(feature = "icu_extended"))]
             RegistryError::LanguageIdentifier(error) => {
                 // Currently no localisation is available for this error type: ParserError.
                 let mut values = HashMap::<String, PlaceholderValue>::new();
@@ -53,7 +53,7 @@ impl LocalisationTrait for RegistryError {
                 }
             }
 
-            #[cfg(feature = "extend")]
+            #[cfg(feature = "icu_extended")]
             RegistryError::Locale(error) => {
                 // Currently no localisation is available for this error type: ParserError.
                 let mut values = HashMap::<String, PlaceholderValue>::new();
@@ -79,12 +79,12 @@ impl LocalisationTrait for RegistryError {
 impl Display for RegistryError {
     fn fmt(&self, formatter: &mut Formatter) -> Result {
         match self {
-            #[cfg(not(feature = "extend"))]
+            #[cfg(not(feature = "icu_extended"))]
             RegistryError::LanguageIdentifier(ref error) => {
                 write!(formatter, "RegistryError::LanguageIdentifier: [{}].", error)
             }
 
-            #[cfg(feature = "extend")]
+            #[cfg(feature = "icu_extended")]
             RegistryError::Locale(ref error) => {
                 write!(formatter, "RegistryError::Locale: [{}].", error)
             }
@@ -96,12 +96,12 @@ impl Display for RegistryError {
 impl Error for RegistryError {}
 
 impl From<ParserError> for RegistryError {
-    #[cfg(not(feature = "extend"))]
+    #[cfg(not(feature = "icu_extended"))]
     fn from(error: ParserError) -> RegistryError {
         RegistryError::LanguageIdentifier(error)
     }
 
-    #[cfg(feature = "extend")]
+    #[cfg(feature = "icu_extended")]
     fn from(error: ParserError) -> RegistryError {
         RegistryError::Locale(error)
     }
diff --git a/crates/utility/src/language.rs b/crates/utility/src/language.rs
index 31bc7f4..5236354 100644
--- a/crates/utility/src/language.rs
+++ b/crates/utility/src/language.rs
@@ -5,10 +5,10 @@
 
 use crate::RegistryError;
 
-#[cfg(not(feature = "extend"))]
+#[cfg(not(feature = "icu_extended"))]
 use icu_locid::LanguageIdentifier as IcuLanguage;
 
-#[cfg(feature = "extend")]
+#[cfg(feature = "icu_extended")]
 use icu_locid::Locale as IcuLanguage;
 
 #[cfg(not(feature = "sync"))]
-- 
2.43.0


From 7ba6f25524d765880cf3b66e8b8d9664feaa3dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:06 +0000
Subject: [PATCH 31/38] fix: calendar option failed for languages with other
 extensions

---
 crates/localiser/src/formatter.rs | 47 ++++++++-----------------------
 1 file changed, 11 insertions(+), 36 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 224c85b..b3b73fc 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -22,7 +22,10 @@ use icu_decimal::{options, FixedDecimalFormatter};
 use icu_plurals::{PluralCategory, PluralRules};
 use icu_provider::prelude::DataLocale;
 
-use icu_locid::Locale;
+use icu_locid::{
+    extensions::unicode::{key, Value},
+    Locale,
+};
 
 #[cfg(not(feature = "icu_extended"))]
 use icu_locid::LanguageIdentifier as IcuLanguage;
@@ -1153,41 +1156,13 @@ fn part_pattern(
                         placeholder_token.string.as_str().to_string(),
                     ));
                 }
-                let mut new_calendar = "-u-ca-".to_string();
-                new_calendar.push_str(value.as_str());
-                let mut locale_string = icu_language.to_string();
-                match locale_string.find("-u-ca-") {
-                    None => {
-                        locale_string.push_str(new_calendar.as_str());
-                    }
-                    Some(tag_position) => {
-                        let mut hyphens = locale_string.match_indices('-');
-                        while let Some(pair) = hyphens.next() {
-                            if pair.0 == tag_position {
-                                hyphens.next(); // There is an experimental advance_by( 2 ) to replace two next()
-                                hyphens.next();
-                                match hyphens.next() {
-                                    None => {
-                                        // The calendar tag is last tag
-                                        let old_calendar =
-                                            locale_string.get(tag_position..).unwrap();
-                                        locale_string = locale_string
-                                            .replace(old_calendar, new_calendar.as_str());
-                                    }
-                                    Some(end) => {
-                                        new_calendar.push('-');
-                                        let old_calendar =
-                                            locale_string.get(tag_position..=end.0).unwrap();
-                                        locale_string = locale_string
-                                            .replace(old_calendar, new_calendar.as_str());
-                                    }
-                                }
-                                break;
-                            }
-                        }
-                    }
-                }
-                let calendar_locale = locale_string.parse()?;
+                // Only the calendar is changed, other extensions the language has are kept.
+                let mut calendar_locale: Locale = icu_language.to_string().parse()?;
+                calendar_locale
+                    .extensions
+                    .unicode
+                    .keywords
+                    .set(key!("ca"), value.parse::<Value>()?);
                 calendar = Some(calendar_locale);
             } else {
                 return Err(FormatterError::InvalidOption(
-- 
2.43.0


From edd2f1cb938641e423a3056686f715719829c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:29 +0000
Subject: [PATCH 32/38] fix: error about a named string without white space
 after its identifier pointed at the identifier

---
 crates/localiser/src/tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 5b63262..00bf767 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -524,6 +524,11 @@ impl Tree {
                                 // Skip over whitespace token separator.
                                 continue;
                             }
+                            return Err(TreeError::InvalidToken(
+                                parser.state,
+                                tokens[current].start_grapheme,
+                                tokens[current].string.to_string(),
+                            ));
                         } else if len == 1 {
                             Tree::create_node(&mut nodes, &mut parser, NodeType::String);
                             parser.nested_states.push(ParserState::NamedString);
-- 
2.43.0


From 073f6658c82abb6522d2a9f5309b52bfd472e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:29 +0000
Subject: [PATCH 33/38] fix: errors about the options of a pattern named the
 value as the option, and another keyword

---
 crates/localiser/src/formatter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index b3b73fc..c39fd5e 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1126,7 +1126,7 @@ fn part_pattern(
                 group = Some(decimal_grouping_display(value.as_str())?);
             } else {
                 return Err(FormatterError::InvalidOption(
-                    value.as_str().to_string(),
+                    key.as_str().to_string(),
                     "decimal".to_string(),
                     placeholder_token.string.as_str().to_string(),
                 ));
@@ -1150,10 +1150,10 @@ fn part_pattern(
                 length_time = Some(time_length(value.as_str())?);
             } else if key.as_str() == "calendar" {
                 if !option_selectors.calendars.contains(&value.as_str()) {
-                    return Err(FormatterError::InvalidOption(
+                    return Err(FormatterError::InvalidOptionValue(
                         value.as_str().to_string(),
-                        "ordinal".to_string(),
-                        placeholder_token.string.as_str().to_string(),
+                        "calendar".to_string(),
+                        "date_time".to_string(),
                     ));
                 }
                 // Only the calendar is changed, other extensions the language has are kept.
@@ -1166,8 +1166,8 @@ fn part_pattern(
                 calendar = Some(calendar_locale);
             } else {
                 return Err(FormatterError::InvalidOption(
-                    value.as_str().to_string(),
-                    "date-time".to_string(),
+                    key.as_str().to_string(),
+                    "date_time".to_string(),
                     placeholder_token.string.as_str().to_string(),
                 ));
             }
-- 
2.43.0


From ad146d2421f0bb0acd3120a2fca924cd09a1f72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:51 +0000
Subject: [PATCH 34/38] fix: text values holding a number were refused by
 decimal and plural patterns

---
 crates/localiser/src/formatter.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index c39fd5e..b33f4b6 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -312,6 +312,14 @@ impl Formatter {
                             let number_string = fdf.format(&fixed_decimal).to_string();
                             string.push_str(number_string.as_str());
                         }
+                        PlaceholderValue::String(number) => {
+                            let mut fixed_decimal: FixedDecimal = number.parse()?;
+                            if sign.is_some() {
+                                fixed_decimal.apply_sign_display(sign.unwrap());
+                            }
+                            let number_string = fdf.format(&fixed_decimal).to_string();
+                            string.push_str(number_string.as_str());
+                        }
                         _ => {
                             return Err(FormatterError::InvalidValue("PatternDecimal".to_string()))
                         }
@@ -465,6 +473,18 @@ impl Formatter {
                                         *selectors_index,
                                     )?;
                                 }
+                                PlaceholderValue::String(number) => {
+                                    let fixed_decimal: FixedDecimal = number.parse()?;
+                                    self.find_number_sign(
+                                        localiser,
+                                        values,
+                                        &mut string,
+                                        &fixed_decimal,
+                                        plurals,
+                                        &data_locale,
+                                        *selectors_index,
+                                    )?;
+                                }
                                 _ => {
                                     return Err(FormatterError::InvalidValue(
                                         "PatternPlural".to_string(),
-- 
2.43.0


From 818afe74b0d1d733528fb5872d5fda28b4760ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:09 +0000
Subject: [PATCH 35/38] fix: a command that uses the localiser failed when its
 string was cached

---
 crates/localiser/src/formatter.rs | 10 ++--
 crates/localiser/src/localiser.rs | 76 ++++++++-----------------------
 2 files changed, 25 insertions(+), 61 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index b33f4b6..1a2f601 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -47,12 +47,14 @@ use std::sync::Arc as RefCount;
 
 use std::str::FromStr;
 
+// Cloning is cheap, as the parts of the language string are shared.
+#[derive(Clone)]
 pub(crate) struct Formatter {
     language_tag: RefCount<LanguageTag>,
     icu_language: RefCount<IcuLanguage>,
-    patterns: HashMap<String, Vec<PatternPart>>,
+    patterns: RefCount<HashMap<String, Vec<PatternPart>>>,
     numbers: Vec<String>,
-    selectors: Vec<HashMap<String, String>>,
+    selectors: RefCount<Vec<HashMap<String, String>>>,
 }
 
 impl Formatter {
@@ -185,9 +187,9 @@ impl Formatter {
         Ok(Formatter {
             language_tag: RefCount::clone(language_tag),
             icu_language,
-            patterns,
+            patterns: RefCount::new(patterns),
             numbers,
-            selectors,
+            selectors: RefCount::new(selectors),
         })
     }
 
diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index 0857100..ed8298f 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -953,42 +953,29 @@ impl Localiser {
             false,
             fallback,
         );
-        {
+        let cached = {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
 
             #[cfg(feature = "sync")]
             let binding = self.cache.read().unwrap();
 
-            if let Some(result) = binding.get(language_tag) {
-                if let Some(result2) = result.get(&combined) {
-                    return match result2 {
-                        CacheData::Localised(string, tag) => {
-                            Ok((RefCount::clone(string), RefCount::clone(tag)))
-                        }
-
-                        #[cfg(not(feature = "sync"))]
-                        CacheData::Formatter(formatter) => {
-                            match formatter.borrow_mut().format(self, values) {
-                                Err(error) => Err(LocaliserError::Formatter(error)),
-                                Ok(localised) => {
-                                    Ok((RefCount::new(localised.0), RefCount::clone(localised.1)))
-                                }
-                            }
-                        }
-
-                        #[cfg(feature = "sync")]
-                        CacheData::Formatter(formatter) => {
-                            match formatter.write().unwrap().format(self, values) {
-                                Err(error) => Err(LocaliserError::Formatter(error)),
-                                Ok(localised) => {
-                                    Ok((RefCount::new(localised.0), RefCount::clone(localised.1)))
-                                }
-                            }
-                        }
-                    };
+            match binding
+                .get(language_tag)
+                .and_then(|result| result.get(&combined))
+            {
+                None => None,
+                Some(CacheData::Localised(string, tag)) => {
+                    return Ok((RefCount::clone(string), RefCount::clone(tag)))
                 }
+                Some(CacheData::Formatter(formatter)) => Some(formatter.clone()),
             }
+        };
+
+        // The cache is not held while formatting, as a command may use the localiser.
+        if let Some(mut formatter) = cached {
+            let localised = formatter.format(self, values)?;
+            return Ok((RefCount::new(localised.0), RefCount::clone(localised.1)));
         }
 
         // Not in cache.
@@ -1080,37 +1067,12 @@ impl Localiser {
                 .or_default()
                 .insert(
                     combined.clone(),
-                    CacheData::Formatter(MutCell::new(formatter)),
+                    CacheData::Formatter(formatter.clone()),
                 );
         }
 
-        // Get `Formatter` and use it to get the (String, RefCount<LanguageTag>).
-        #[cfg(not(feature = "sync"))]
-        let binding = self.cache.borrow();
-
-        #[cfg(feature = "sync")]
-        let binding = self.cache.read().unwrap();
-
-        let result = binding.get(language_tag).unwrap();
-        let result2 = result.get(&combined).unwrap();
-        match result2 {
-            // This branch should never be reached.
-            CacheData::Localised(_, _) => Err(LocaliserError::NeverReached),
-
-            #[cfg(not(feature = "sync"))]
-            CacheData::Formatter(formatter) => match formatter.borrow_mut().format(self, values) {
-                Err(error) => Err(LocaliserError::Formatter(error)),
-                Ok(localised) => Ok((RefCount::new(localised.0), RefCount::clone(localised.1))),
-            },
-
-            #[cfg(feature = "sync")]
-            CacheData::Formatter(formatter) => {
-                match formatter.write().unwrap().format(self, values) {
-                    Err(error) => Err(LocaliserError::Formatter(error)),
-                    Ok(localised) => Ok((RefCount::new(localised.0), RefCount::clone(localised.1))),
-                }
-            }
-        }
+        let localised = formatter.format(self, values)?;
+        Ok((RefCount::new(localised.0), RefCount::clone(localised.1)))
     }
 
     // Simply get the language string without any formatting being done.
@@ -1277,7 +1239,7 @@ type CacheKey = (String, String, bool, bool);
 
 enum CacheData {
     Localised(RefCount<String>, RefCount<LanguageTag>),
-    Formatter(MutCell<Formatter>),
+    Formatter(Formatter),
 }
 
 fn get_script_data(
-- 
2.43.0


From 37758a7b1f6926f0954310b4088c6e7b7fa9e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:17 +0000
Subject: [PATCH 36/38] fix: the localiser of the thread-safe build could not
 be used by several threads

The command registry was the only part that kept a RefCell with feature sync, and
the localisation provider of a localiser was not known to be Send and Sync, so that
neither the registry nor the localiser could be shared, whatever the feature.
---
 crates/localiser/src/command.rs      | 44 +++++++++++++++++++++-------
 crates/provider/core/src/provider.rs | 18 +++++++++++-
 2 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/crates/localiser/src/command.rs b/crates/localiser/src/command.rs
index f5e94d3..6beaed0 100644
--- a/crates/localiser/src/command.rs
+++ b/crates/localiser/src/command.rs
@@ -3,12 +3,19 @@
 
 use crate::CommandError;
 use i18n_utility::PlaceholderValue;
-use std::cell::RefCell;
+use std::collections::hash_map::Entry;
 use std::collections::HashMap;
 use std::iter::FromIterator;
 use std::path::PathBuf;
 use std::str::FromStr;
 
+#[cfg(not(feature = "sync"))]
+use std::cell::RefCell as MutCell;
+
+#[cfg(feature = "sync")]
+#[cfg(target_has_atomic = "ptr")]
+use std::sync::RwLock as MutCell;
+
 /// Registry for pattern commands callback functions.
 ///
 /// # Examples
@@ -32,7 +39,7 @@ use std::str::FromStr;
 /// ```
 #[allow(clippy::type_complexity)]
 pub struct CommandRegistry {
-    registry: RefCell<HashMap<String, fn(Vec<PlaceholderValue>) -> Result<String, CommandError>>>,
+    registry: MutCell<HashMap<String, fn(Vec<PlaceholderValue>) -> Result<String, CommandError>>>,
 }
 
 impl CommandRegistry {
@@ -59,7 +66,7 @@ impl CommandRegistry {
     /// ```
     pub fn new() -> Self {
         CommandRegistry {
-            registry: RefCell::new(HashMap::<
+            registry: MutCell::new(HashMap::<
                 String,
                 fn(Vec<PlaceholderValue>) -> Result<String, CommandError>,
             >::new()),
@@ -97,15 +104,19 @@ impl CommandRegistry {
         command: &str, //T,
         function: fn(Vec<PlaceholderValue>) -> Result<String, CommandError>,
     ) -> Result<(), CommandError> {
-        {
-            if self.registry.borrow().contains_key(command) {
-                return Err(CommandError::AlreadyExists(command.to_string()));
+        #[cfg(not(feature = "sync"))]
+        let mut binding = self.registry.borrow_mut();
+
+        #[cfg(feature = "sync")]
+        let mut binding = self.registry.write().unwrap();
+
+        match binding.entry(command.to_string()) {
+            Entry::Occupied(_) => Err(CommandError::AlreadyExists(command.to_string())),
+            Entry::Vacant(entry) => {
+                entry.insert(function);
+                Ok(())
             }
         }
-        self.registry
-            .borrow_mut()
-            .insert(command.to_string(), function);
-        Ok(())
     }
 
     /// Get the callback function for the command.
@@ -135,7 +146,12 @@ impl CommandRegistry {
         &self,
         command: &str, //T,
     ) -> Result<fn(Vec<PlaceholderValue>) -> Result<String, CommandError>, CommandError> {
+        #[cfg(not(feature = "sync"))]
         let binding = self.registry.borrow();
+
+        #[cfg(feature = "sync")]
+        let binding = self.registry.read().unwrap();
+
         let Some(result) = binding.get(command) else {
             return Err(CommandError::NotFound(command.to_string()));
         };
@@ -159,7 +175,13 @@ impl CommandRegistry {
     /// }
     /// ```
     pub fn list(&self) -> Vec<String> {
-        Vec::from_iter(self.registry.borrow().keys().map(|x| x.to_string()))
+        #[cfg(not(feature = "sync"))]
+        let binding = self.registry.borrow();
+
+        #[cfg(feature = "sync")]
+        let binding = self.registry.read().unwrap();
+
+        Vec::from_iter(binding.keys().map(|x| x.to_string()))
     }
 }
 
diff --git a/crates/provider/core/src/provider.rs b/crates/provider/core/src/provider.rs
index 5a20351..a71dfe5 100644
--- a/crates/provider/core/src/provider.rs
+++ b/crates/provider/core/src/provider.rs
@@ -31,7 +31,9 @@ use std::sync::Arc as RefCount;
 /// data store.
 ///
 /// [UAX #31]: https://www.unicode.org/reports/tr31/
-pub trait LocalisationProviderTrait {
+///
+/// With feature `sync` a provider must be usable by several threads, as the users of the provider are.
+pub trait LocalisationProviderTrait: MaybeSync {
     fn string(
         &self,
         component: &str,
@@ -158,3 +160,17 @@ pub struct RepositoryDetails {
     pub components: Vec<String>, // The list of components.
     pub contributors: Vec<String>, // The unique list of all the contributors of all the components.
 }
+
+/// The bounds of a provider: none without feature `sync`, and [`Send`] and [`Sync`] with it.
+#[cfg(not(feature = "sync"))]
+pub trait MaybeSync {}
+
+#[cfg(not(feature = "sync"))]
+impl<T: ?Sized> MaybeSync for T {}
+
+/// The bounds of a provider: none without feature `sync`, and [`Send`] and [`Sync`] with it.
+#[cfg(feature = "sync")]
+pub trait MaybeSync: Send + Sync {}
+
+#[cfg(feature = "sync")]
+impl<T: Send + Sync + ?Sized> MaybeSync for T {}
-- 
2.43.0


From 3ec82c504af8f6a9a6ad51028a08cb2294fbc1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:11 +0000
Subject: [PATCH 37/38] fix: a relative directory was read as an URI or after
 the working directory changed

---
 crates/provider/sqlite3/src/provider.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index f88dfd9..8caea33 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -133,7 +133,8 @@ impl LocalisationProviderSqlite3 {
         #[cfg(feature = "sync")]
         let mut connections = HashMap::<String, (PathBuf, String)>::new();
 
-        let iterator = directory.read_dir()?; // If IO error is returned, usually it is a permission issue.
+        // Absolute, as Sqlite takes a path starting with `file:` as an URI, and the working directory may change.
+        let iterator = directory.canonicalize()?.read_dir()?; // If IO error is returned, usually it is a permission issue.
         for entry in iterator {
             let entry_data = entry?; // If IO error is returned, usually it is a permission issue.
             if let Some(extension) = entry_data.path().extension() {
-- 
2.43.0


From 5b2d916f31ff9017303da874b048075ae125d633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:14 +0000
Subject: [PATCH 38/38] fix: two threads could get two instances of one ICU
 language

---
 crates/utility/src/language.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/utility/src/language.rs b/crates/utility/src/language.rs
index 5236354..422b148 100644
--- a/crates/utility/src/language.rs
+++ b/crates/utility/src/language.rs
@@ -284,10 +284,14 @@ impl LanguageTagRegistry {
             RefCount::clone(&icu_language),
         );
 
+        // Another thread may have added it in the meantime, then its instance is the one to share.
         #[cfg(feature = "sync")]
-        self.icu.lock().unwrap().insert(
-            RefCount::clone(language_tag),
-            RefCount::clone(&icu_language),
+        let icu_language = RefCount::clone(
+            self.icu
+                .lock()
+                .unwrap()
+                .entry(RefCount::clone(language_tag))
+                .or_insert(icu_language),
         );
 
         icu_language
-- 
2.43.0

