#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording has one home)."""
import json, os
P = []
LEX = "crates/lexer/src/lexer.rs"; TREE = "crates/localiser/src/tree.rs"; FMT = "crates/localiser/src/formatter.rs"
LOC = "crates/localiser/src/localiser.rs"; CMD = "crates/localiser/src/command.rs"; LERR = "crates/localiser/src/error.rs"
REG = "crates/utility/src/language.rs"; PRV = "crates/provider/sqlite3/src/provider.rs"; PCORE = "crates/provider/core/src/provider.rs"
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

p("C01", "Tokens tile the text with exact positions and lengths",
  "For every non-empty text and non-empty grammar, the tokens returned by the tokeniser, concatenated in order, are exactly the text: nothing is lost, duplicated, reordered or invented, no token is empty, and iteration then ends for good. Each token's start and end positions and lengths in bytes and characters are those of its slice of the text, and its grapheme length is the number of grapheme clusters of the slice with its grapheme start the sum of the preceding ones. An empty text or an empty grammar is refused with the error for it, and never anything else.",
  ["inputs"], "every text up to the length bound over an alphabet with one representative of every token class, UTF-8 width and grapheme behaviour, and every subset of a set of grammar characters",
  "The tokeniser tests check one or two sample strings; an off-by-one at a boundary between two particular character classes, a multi-byte character at the end, or a combining mark needs the combination to occur.",
  [LEX], [("LexerIterator::next / token", LEX)], ["i18n_lexer::LexerIterator", "i18n_lexer::Token"])
p("C02", "Every character gets the token class UAX #31 and the grammar give it",
  "Every white space token holds only Pattern_White_Space characters, every grammar token is exactly one Pattern_Syntax character of the grammar, every syntax token holds only other Pattern_Syntax characters and every identifier token only characters that are neither. White space, syntax and identifier tokens are maximal: two neighbouring tokens never have the same of these classes.",
  ["inputs"], "every Unicode scalar value in each position of a context, and every text up to the length bound over the representative alphabet, for every grammar of the set",
  "Tests look at a dozen ASCII characters; the classification has 1,112,064 characters and the boundary logic a class pair for every transition.",
  [LEX, "crates/lexer/src/icu.rs"], [("LexerIterator::token_type", LEX), ("IcuDataProvider sets", "crates/lexer/src/icu.rs")], ["i18n_lexer::LexerIterator", "i18n_lexer::TokenType"])
p("C03", "The language tag registry is a function of the tag, whatever the history",
  "Whatever was requested before, a request for a well-formed language tag returns its canonical form and a malformed one an error without any effect, and all requests with the same canonical form return one shared instance. The list of tags holds every canonical form obtained exactly once, the deprecated list one entry for every distinct non-canonical spelling requested, pointing at its canonical tag, and the complete list is both together. The ICU language obtained for a tag is always the one the tag spells, and one shared instance for all requests.",
  ["histories", "inputs"], "every sequence of requests up to the depth bound over spellings of a few tags (canonical, underscore, upper and lower case, malformed) and over the ICU accessor and the lists",
  "Tests make one request on a fresh registry; what a second spelling does after a first one, in either order, is never reached.",
  [REG], [("LanguageTagRegistry::tag", REG), ("LanguageTagRegistry::icu_language", REG)], ["LanguageTagRegistry::{tag,icu_language,list,list_deprecated,list_all}"],
  state=[{"name": "tags/deprecated/icu", "meaning": "three maps that must stay consistent", "where": REG}])
p("C04", "The thread-safe registry is correct under every interleaving",
  "With the thread-safe build, when several threads use one language tag registry at the same time, every call returns what it would return alone, all requests with the same canonical form get one shared instance of the tag and of its ICU language, no call panics, deadlocks or is left blocked, and no lock is poisoned. Once all threads are done, the lists of the registry are those that the same calls made one after another would have produced.",
  ["schedules"], "every interleaving, at lock and unlock granularity, of two and three threads making colliding requests, up to the preemption bound",
  "No test builds the thread-safe variant at all, let alone with two threads, and a race needs a particular schedule.",
  [REG], [("Mutex protected maps", REG)], ["LanguageTagRegistry (feature sync)"], state=[{"name": "tags/deprecated/icu", "meaning": "Mutex protected maps", "where": REG}])
p("C05", "Formatting is total: any pattern and any values give a string or an error",
  "For every pattern string a repository may hold and every set of placeholder values, formatting it returns, with a string or an error value: it never panics, overflows the stack, loops without end or runs out of memory. This holds in both builds, with and without caching, and for every language tag.",
  ["inputs"], "every sequence of grammar-relevant tokens up to the length bound, as a whole pattern and inside branches, with values of every type for its placeholders",
  "Pattern strings come from translators; tests format a few well-formed ones, and the parser's unwraps are only reached by odd orders of grammar characters.",
  [TREE, FMT], [("Tree::try_new", TREE), ("Formatter::try_new / format_pattern", FMT)], ["Localiser::format", "Localiser::literal"])
p("C06", "Text outside patterns and escaped or literal text comes out verbatim",
  "Formatting copies all text of the main string and of a chosen branch to the result exactly, in order, including white space and any Unicode character. A backtick escape yields exactly the escaped grammar character, and a literal pattern yields exactly the text between its backticks, where a doubled backtick stands for one and every other character, grammar characters included, for itself.",
  ["inputs"], "every main string and every branch built of up to the bound many segments of text, escape and literal pattern, in every order, with every character of a representative alphabet",
  "The tests format strings with a couple of quotes in them; the parser has a separate path for each state and each first token of a branch.",
  [TREE, FMT], [("ParserState::{String,SubString,LiteralText,Literal}", TREE), ("part_text", FMT)], ["Localiser::format"])
p("C07", "Placeholders are replaced by exactly their own value, or formatting fails",
  "A placeholder without keyword is replaced by its string value verbatim, whatever characters the value contains, and nothing else of the string changes. A placeholder whose value is missing or of a type its pattern cannot show makes formatting fail with an error, never produces partial or default text, and values for which the string has no placeholder have no effect.",
  ["inputs"], "every main string of up to the bound many placeholders and text segments with every assignment of a present, absent, wrong-typed or grammar-laden value to each placeholder name",
  "Tests supply complete, correct values; missing and wrong-typed values and values holding pattern syntax are not exercised.",
  [FMT], [("PatternPart::PatternString and value type matches", FMT)], ["Localiser::format"])
p("C08", "Exactly the well-formed pattern strings are accepted",
  "A pattern string that follows the documented grammar and its conditions is accepted, and one that breaks them (an unclosed or empty pattern, a stray grammar character, a doubled number sign, an unknown keyword, option, option value or plural category, a plural or ordinal pattern without an other branch, a branch that is not defined, or a placeholder or branch name used twice) is rejected with an error. An accepted string is formatted according to its grammar and nothing of it is silently dropped.",
  ["inputs"], "every sequence of tokens (text, space, identifiers, keywords and the four grammar characters) up to the length bound, judged by an independent recogniser of the documented grammar",
  "Rejection is tested for no input at all; acceptance for a handful of strings.",
  [TREE, FMT, "crates/localiser/docs/pattern strings.asciidoc"], [("Tree::try_new", TREE), ("part_pattern", FMT)], ["Localiser::format"])
p("C09", "Plural, ordinal and select choose the branch the value calls for",
  "A plural or ordinal pattern shows the branch named for the cardinal or ordinal category that CLDR gives the number (a numeric value, or a text value that holds a decimal number) in the language of the string, and a select pattern the branch named for the value; when that category or value is not listed, the other branch is shown if there is one. The branch replaces the pattern, and patterns inside the branch are formatted in turn.",
  ["inputs", "configurations"], "every subset of listed categories with distinct and shared branch names, in languages that together use all six categories, for every number of the range and type; every select list over the values used",
  "Tests use English with one value; wrong category, wrong branch name or wrong rule type only shows in languages with other categories or with branch names different from the category.",
  [FMT], [("find_number_sign / select", FMT), ("pattern_selectors", FMT)], ["Localiser::format"])
p("C10", "A number sign in a branch shows the number that chose the branch",
  "Each unescaped number sign directly in the branch a plural or ordinal pattern has chosen is replaced by that pattern's own number formatted for the language of the string, however many number signs, branches and patterns the string has and wherever they stand. It never shows another pattern's number or one of an earlier formatting.",
  ["inputs", "histories"], "every string of two plural or ordinal patterns over shared, distinct and nested branches with number signs at every position, formatted once and repeatedly with every pair of values",
  "Tests use one plural with one number sign, formatted once.",
  [FMT], [("PatternPart::NumberSign, update_number_part", FMT)], ["Localiser::format"], state=[{"name": "numbers", "meaning": "number texts of the formatter", "where": FMT}])
p("C11", "Decimal patterns show the exact number as CLDR formats it",
  "A decimal pattern shows exactly the given number, for every numeric value type and for a text value that holds a decimal number, with the digits, separators and grouping of the language of the string; a text that holds none gives an error. The sign and group options have the documented effect for each of their values, alone and together in any order, and default to auto.",
  ["inputs", "configurations"], "every combination of the option values and their absence, in both orders, times languages with different numbering and grouping, times boundary numbers of every value type",
  "Tests have one decimal pattern with no option (options were never honoured).",
  [FMT], [("PatternPart::PatternDecimal", FMT), ("sign_display / decimal_grouping_display", FMT)], ["Localiser::format"])
p("C12", "Date-time patterns show the given date and time as CLDR formats them",
  "A date-time pattern shows exactly the given date, time or date and time in the length asked for each, medium by default, in the language of the string. The calendar option selects the calendar the date is shown in, for every documented calendar, and options may come in any order.",
  ["inputs", "configurations"], "every combination of date length, time length, calendar and their absence, times value types, times languages, times boundary dates",
  "Tests format one date with default options in one language.",
  [FMT], [("PatternPart::PatternDateTime", FMT), ("date_length / time_length", FMT)], ["Localiser::format"])
p("C13", "A documented ISO 8601 string formats as the date and time it denotes",
  "A string value of a date-time pattern in any documented ISO 8601 form (date, time or both; basic, extended or expanded; abbreviated, with fraction or time zone) is shown exactly as the date, time or date and time it denotes, with parts left out taken as the documented defaults and the time zone ignored. A date or time that does not exist, such as month 13 or 30 February, is refused with an error.",
  ["inputs"], "every documented form times boundary values of every field, and all months times all days",
  "One or two ISO strings are tested; the forms are parsed by slicing at fixed positions, each a separate path.",
  [FMT], [("decompose_iso_date / decompose_iso_time", FMT)], ["Localiser::format"])
p("C14", "Commands get exactly their parameters and their text is inserted as is",
  "A command pattern calls the registered command with its name followed by its parameters in order, identifiers and literal texts alike, and inserts the returned text unchanged. With the delay marker the command runs once where it is shown, at formatting time, and every parameter that names a supplied value is replaced by that value, without it every parameter is passed as written; an unregistered command or a failing one makes formatting fail.",
  ["inputs"], "every command pattern up to the bound many parameters of every kind, with and without delay marker, in the main string and in branches, with every subset of the parameters supplied as values",
  "One command with one parameter is tested, without delay marker, in the main string.",
  [TREE, FMT, CMD], [("ParserState::Command", TREE), ("part_command, PatternPart::Command", FMT)], ["Localiser::format", "CommandRegistry"])
p("C15", "The command registry behaves as a map, whatever the history",
  "After any sequence of inserting, looking up and listing commands, a name resolves to the command it was registered with first, exactly as spelled, and the list holds every registered name exactly once. Inserting a name that exists or looking up one that does not fails with the error naming it, and changes nothing.",
  ["histories"], "every sequence of registry operations up to the depth bound over names (prefixes and case variants of each other, the empty one) and two commands",
  "Tests insert one command into an empty registry and look it up.",
  [CMD], [("CommandRegistry", CMD)], ["CommandRegistry::{insert,command,list}"])
p("C16", "Results carry and use the language of the string that was found",
  "The language tag returned with a localised string is the tag of the repository string used, not the one asked for, and numbers, dates and plural categories in the result follow that language. This is the same for formatted, literal, cached and fallen back results.",
  ["configurations", "inputs"], "every repository over a chain of languages with different numbering and plural rules, every requested tag, with and without fallback and caching, asked twice",
  "Tests request languages that exist exactly.",
  [LOC, FMT], [("actual_format", LOC), ("Formatter::try_new", FMT)], ["Localiser::format", "Localiser::literal"])
p("C17", "Caching never changes any result",
  "For every sequence of formatting and literal requests, each request returns the same string, language tag or kind of error whether caching is on, off or switched for single requests, and whatever was requested before. In particular earlier values, languages, literal requests, errors and fallback settings leave no trace in later results.",
  ["histories"], "every sequence up to the depth bound of format and literal requests over strings, languages, values, fallback and caching choices, compared with a fresh uncached localiser at every step",
  "Tests make one request per localiser; cache effects need at least two related requests.",
  [LOC], [("cache", LOC)], ["Localiser::{format,literal}"], state=[{"name": "cache", "meaning": "parsed strings by language", "where": LOC}])
p("C18", "The methods with defaults use the defaults in force, changed one by one",
  "After any sequence of changes of the defaults, each method with defaults behaves exactly as its full counterpart given the language, fallback and caching now in force, and omitted optional parameters mean the same. Changing one default leaves the others as they were, and the default language reported is the last one set.",
  ["histories"], "every sequence of changes of default language, fallback and caching up to the depth bound, followed by every method with defaults",
  "Tests never change a default.",
  [LOC], [("defaults", LOC), ("*_with_defaults", LOC)], ["Localiser::{defaults,default_language,format_with_defaults,literal_with_defaults,format_localisation_data_with_defaults,format_error_with_defaults}"],
  state=[{"name": "language_tag/fallback/caching", "meaning": "defaults in force", "where": LOC}])
p("C19", "Fallback uses the component's default language exactly when allowed and needed",
  "A string found for the requested language or one of its parent languages is always used. Otherwise the string of the component's default language is used if fallback is on, and the request fails with the string not found error, naming component, identifier, language and whether fallback was used, if fallback is off or that string is missing too.",
  ["configurations", "inputs"], "every repository over subsets of a language chain with every default language, every requested tag, identifier present or absent, fallback on and off",
  "Tests request existing strings.",
  [LOC], [("actual_format / actual_literal", LOC)], ["Localiser::{format,literal}", "LocaliserError::StringNotFound"])
p("C20", "Nested localisation data is localised in the same language, innermost first",
  "Formatting localisation data gives the same result as formatting its string with every nested localisation data value replaced by its own formatted result in the requested language, to any depth. Localisation data without values gives the string as stored, and an error anywhere inside makes the whole fail.",
  ["inputs"], "every nesting of localisation data up to the depth and width bound with values or none at each level, over languages with and without each string, fallback on and off",
  "Tests nest one level in one language.",
  [LOC], [("actual_format_localisation_data", LOC)], ["Localiser::format_localisation_data", "Localiser::format_error"])
p("C21", "Script data always belongs to the script of the asked language",
  "The script data for a language tag is that of its script subtag or, without one, of the script CLDR's likely subtags give it, and none when there is no such script. The script data of the localiser is always that of the default language now in force, after any changes of the default.",
  ["histories", "inputs"], "every language and language-region tag of the enumerated set, with and without every explicit script, and every sequence of default language changes up to the depth bound",
  "Tests do not ask for script data after a change of default.",
  [LOC, "crates/localiser/src/script.rs"], [("get_script_data", LOC)], ["Localiser::{script_data,script_data_for_language_tag}"])
p("C22", "Every error can be shown to the user in every shipped language",
  "For every error a caller can receive from any of the crates, localising the error against the strings shipped in this repository gives a non-empty message in the requested shipped language or its documented fallback, never a failure. The message names the kind of the error and contains each detail the error carries, such as the name or position concerned, in its own place, in the translation of the requested language where one is shipped, without any markup of the shipped string.",
  ["inputs", "configurations"], "every variant of every error type, with distinguishable details and nested causes, times every shipped language, with fallback on",
  "Error localisation is tested for one or two variants; each variant names a component, identifier and placeholders that must agree with the shipped data.",
  [LERR, "crates/lexer/src/error.rs", "crates/utility/src/error.rs", "crates/provider/core/src/error.rs", "crates/provider/sqlite3/src/error.rs"],
  [("LocalisationTrait::localisation_data", LERR)], ["Localiser::format_error"])
p("C23", "A string request finds the closest language by whole subtags",
  "A request for one string returns a string of the identifier and component stored for the requested tag, else for a tag extending it by whole subtags, else the same after removing rightmost subtags one at a time; nothing is returned only if all fail. It never returns a string of an unrelated language, another identifier or another component, and a string is returned with its own tag.",
  ["configurations", "inputs"], "every repository over subsets of a set of related and prefix-sharing tags, times identifiers and components, times every requested tag",
  "Tests ask the shipped repository, which has three languages that share no prefix.",
  [PRV, PCORE], [("find_strings / query_pattern", PRV)], ["LocalisationProviderTrait::string"])
p("C24", "A request for all strings returns exactly the matching ones",
  "A request for all strings returns, without duplicates, exactly the strings of the identifier and component whose tag is, or extends by whole subtags, the first of the requested tag and its successively shortened forms that has any, each with its own tag. The list is empty exactly when a request for one string finds nothing, and otherwise contains what that request returns.",
  ["configurations", "inputs"], "as for the request for one string",
  "As for the request for one string.",
  [PRV, PCORE], [("find_strings / query_pattern", PRV)], ["LocalisationProviderTrait::strings"])
p("C25", "An exact match request returns the string of exactly that tag or nothing",
  "A request for an exact match returns the string stored for exactly the requested tag, identifier and component, and nothing when there is none, whatever other languages, shorter or longer, have a string.",
  ["configurations", "inputs"], "as for the request for one string",
  "The tests only ask for tags that exist.",
  [PRV, PCORE], [("string_exact_match", PRV)], ["LocalisationProviderTrait::string_exact_match"])
p("C26", "Component and repository details agree with the stored strings",
  "For every repository whose languages have contributors listed, the details of a component list exactly its languages with their number of strings, their ratio to the default language and their contributors, its default language and the total; the details of the repository list all components, languages with summed numbers, contributors and the total, with the application component's default language if there is one and ratios relative to it or 0 without. An unknown component, or a missing, unlisted or empty default language gives the error for it.",
  ["configurations"], "every small repository over components, languages, contributors, default languages and placements in one file, the other or both",
  "Two shipped repositories are tested for their totals.",
  [PRV, PCORE], [("build_cache", PRV)], ["LocalisationProviderTrait::{component_details,repository_details}"], state=[{"name": "component_details/repository_details", "meaning": "statistics built once", "where": PRV}])
p("C27", "Identifier details list exactly the languages that have the string",
  "The details of an identifier list each language that has a string for it in the component exactly once, wherever it is stored, and none that has not, together with the component's default language. An identifier without any string has an empty list, and an unknown component gives an error.",
  ["configurations"], "every small repository over identifiers, languages and placements in one file, the other or both",
  "One identifier of one file is tested.",
  [PRV, PCORE], [("identifier_details", PRV)], ["LocalisationProviderTrait::identifier_details"])
p("C28", "The repository directory is read as documented, whatever else it contains",
  "A component is available exactly when the directory holds its own database file or the combined file lists it, the combined file is searched first for the whole request and the component's own file only if it has nothing. Files with other extensions and sub directories are ignored, a path that is not a directory or holds no database is refused with the error for it, and a request for any other component fails with component not found. The provider reads the directory it was opened with, whatever its name, however its path is given and whatever becomes of the working directory afterwards.",
  ["configurations"], "every combination of combined file, own files, other files and sub directories with each string present in neither, one or both places",
  "The tests use the two shipped directories.",
  [PRV], [("try_new, components map", PRV)], ["LocalisationProviderSqlite3::try_new", "LocalisationProviderTrait"])
p("C29", "A database with a wrong schema is never accepted, a right one always is",
  "Verification accepts every database with the documented tables and columns and schema version, additional tables or columns at the end included, and refuses one where any required table, column, column type, not null or primary key property or the version is missing or different, or where a default value is set; of the metadata table only its presence and its version entry count. The provider refuses to open a directory holding such a database.",
  ["configurations"], "every single change of the documented schema (table dropped or renamed, column dropped, renamed, swapped, retyped, made nullable or not, given a default; version missing or different) in the combined and own files",
  "Only valid schemas are tested.",
  [PRV], [("verify_schema / columns_check", PRV)], ["verify_schema", "LocalisationProviderSqlite3::try_new"])
p("C30", "Reading never changes the repository",
  "No operation of the provider or the localiser changes, creates or removes any file of the repository directory, and a repository the process may only read works all the same.",
  ["histories", "configurations"], "every sequence of provider operations up to the depth bound over every placement, comparing the bytes of the directory before and after",
  "No test looks at the files afterwards.",
  [PRV], [("OpenFlags::SQLITE_OPEN_READ_ONLY", PRV)], ["repository directory"])
p("C31", "Provider answers do not depend on earlier requests",
  "Every provider request returns the same answer whatever requests were made before it on the same provider, in any order and number, and details once obtained stay as they are. A request that failed leaves no trace in later ones.",
  ["histories"], "every sequence of requests of all six kinds up to the depth bound over two components, two identifiers and related tags, each answer compared with that of a fresh provider",
  "Tests make one or two requests per provider; prepared queries are remembered by kind, so a mix-up needs two kinds in one order.",
  [PRV], [("queries map, OnceCell/OnceLock details", PRV)], ["LocalisationProviderTrait"], state=[{"name": "queries", "meaning": "SQL text remembered by kind of query", "where": PRV}])
p("C32", "The thread-safe provider is correct under every interleaving",
  "With the thread-safe build, when several threads make requests of one provider at the same time, every request returns what it would return alone, and no request panics, deadlocks or is left blocked.",
  ["schedules"], "every interleaving, at lock, unlock and once-initialisation granularity, of two and three threads making every mix of requests, up to the preemption bound",
  "No test builds the thread-safe variant, let alone with two threads.",
  [PRV, REG], [("Mutex protected queries, OnceLock details", PRV)], ["LocalisationProviderSqlite3 (feature sync)"], state=[{"name": "queries/component_details/repository_details", "meaning": "shared lazily built state", "where": PRV}])
p("C33", "The thread-safe build gives the same results as the ordinary one",
  "For every sequence of calls, the build with the thread-safe feature returns exactly the same strings, language tags, details and kinds of error as the build without it.",
  ["configurations", "histories"], "the enumerated spaces of the other properties, run in both builds, with all outcomes compared",
  "The thread-safe code is a second copy of many statements that no test compiles.",
  [REG, LOC, PRV, FMT, LEX], [("cfg(feature = \"sync\") arms", PRV)], ["public API of all crates"])
p("C34", "Built-in commands return the documented text for every parameter",
  "The file path command returns its parameter as a path of the operating system and the English article command returns an before a word beginning with a lower case vowel and a otherwise; further parameters are ignored. A missing parameter or one that is not a string gives the error naming the command and parameter, never a panic.",
  ["inputs"], "every parameter list beginning with the command name up to the length bound over string values (empty, every ASCII character, other scripts, paths) and every other value type",
  "Two sample words are tested.",
  [CMD], [("file_path / english_a_or_an", CMD)], ["file_path", "english_a_or_an"])
p("C35", "Script directions are right for every script and every accessor",
  "For every script the localiser has data for, the directions include the horizontal direction in which Unicode sets the letters of that script, unless the script is listed as written in vertical lines only. Every direction value gives the line and the grapheme direction its name spells, through each of its accessors.",
  ["inputs"], "all direction values, and every script of the table that has assigned letters, over all its letters",
  "No test looks at a direction; a table of 184 scripts has one wrong entry as easily as none.",
  ["crates/localiser/src/script.rs", "crates/utility/src/script.rs"], [("DataProvider::new", "crates/localiser/src/script.rs"), ("ScriptDirection::{line,grapheme,directions}", "crates/utility/src/script.rs")], ["Localiser::script_data_for_language_tag", "ScriptDirection"])
p("C36", "The optional features keep extensions and change nothing else",
  "In the build with the features for extended ICU information and for logging, a language tag may carry extensions: every tag that is a well-formed locale is registered in its canonical form with its extensions and every other is rejected, strings stored under such a tag are found by whole subtags, and they are formatted as that locale asks, a calendar named by a pattern taking the place of the calendar of the locale only. For tags without extensions the build returns exactly what the ordinary one does, whatever is logged.",
  ["configurations", "inputs"], "every sequence of extension subtags to a length bound after several languages; languages with extensions times numbers, moments, lengths and calendars; the enumerated spaces of other properties in both builds, with all outcomes compared",
  "No test compiles these features.",
  [REG, FMT, LOC, "crates/utility/src/error.rs"], [("cfg(feature = \"icu_extended\") arms", REG), ("part_pattern, calendar option", FMT), ("get_script_data", LOC)], ["cargo features icu_extended and logging"])
p("C37", "The error of a rejected pattern string says where and what is wrong",
  "When a pattern string breaks the grammar, the error carries the first token after which no continuation of the string is accepted, with its position counted in graphemes; it says that the string ended abruptly exactly when the string could be continued to one that keeps the grammar and does not do so yet; and for a placeholder or named string used twice, or a doubled number sign, it carries that name or position. When the grammar is kept but a keyword, option, option value, selector or named string does not exist, or the selector other is missing, the error carries exactly those names and belongs to something in the string that is wrong; and a value that is not supplied is reported with the name of a placeholder of the string.",
  ["inputs"], "every sequence of tokens to a length bound in all contexts of the grammar, and over tokens of several characters to a grapheme; each without values",
  "The tests look at no position and at no name in an error; which token is at fault depends on everything before it.",
  ["crates/localiser/src/tree.rs", FMT], [("Tree::try_new", "crates/localiser/src/tree.rs"), ("part_pattern", FMT)], ["Localiser::format", "TreeError", "FormatterError"])
p("C38", "A command may use the localiser that runs it",
  "A command can itself use the localiser whose string it is part of: request the same or other strings, formatted or literal, with or without caching and with commands of their own, change the defaults, and register commands. Every such request returns what it would return outside a command, the string with the command gets the text the command returns and is otherwise unchanged, and no request panics or blocks; after a command that panics the localiser answers as before.",
  ["histories", "configurations"], "every sequence to a length bound of things a command does with the localiser, nested and one after the other, in strings formatted uncached, for the first time cached, and from the cache",
  "The test commands return constants; whether something is held while a command runs only shows when a command comes back, and only in a cached string.",
  [LOC, FMT], [("actual_format", LOC), ("PatternPart::Command / CommandDelayed", FMT)], ["Localiser::format", "Localiser::literal", "Localiser::format_localisation_data", "Localiser::defaults"])
p("C39", "The thread-safe localiser is correct under every interleaving",
  "With the thread-safe build, several threads can use one localiser and its command registry at the same time: format strings, data and errors, request literals, register and look up commands, and read and change the defaults. Every call returns what it would return alone with defaults and commands that were each in force at some moment during the call; of several insertions of one name exactly one succeeds; no call panics unless its command does, deadlocks or is left blocked, and no lock is poisoned. Once all threads are done, the default language and its script data belong together, and calls are answered as if the earlier ones had been made one after another.",
  ["schedules"], "every interleaving, at lock, cell and once-initialisation granularity, of two and three threads making every mix of calls after several histories, up to the preemption bound, with commands that use the localiser and that panic",
  "No test builds the thread-safe variant, let alone with two threads; the cache, the defaults, the formatter and the registries are shared.",
  [LOC, FMT, CMD, REG], [("cfg(feature = \"sync\") arms", LOC), ("CommandRegistry", CMD)], ["Localiser (feature sync)", "CommandRegistry (feature sync)"], state=[{"name": "cache/defaults/commands", "meaning": "shared state of the localiser", "where": LOC}])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
