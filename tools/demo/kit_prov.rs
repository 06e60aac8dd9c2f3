//! Repositories of SQLite 3 files in the scratch directory.
#![allow(dead_code)]
use i18n_provider_sqlite3::LocalisationProviderSqlite3;
use i18n_utility::LanguageTagRegistry;
use rusqlite::Connection;
use std::path::{Path, PathBuf};

#[cfg(not(feature = "sync"))]
pub use std::rc::Rc as RefCount;
#[cfg(feature = "sync")]
pub use std::sync::Arc as RefCount;

pub const SCHEMA: &str = "
CREATE TABLE component (rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, identifier TEXT UNIQUE NOT NULL, languageTag TEXT NOT NULL, comment TEXT, added DATE NOT NULL);
CREATE TABLE contributor (rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, component TEXT NOT NULL, languageTag TEXT NOT NULL, contributor TEXT NOT NULL, substituteFor TEXT, comment TEXT, verified DATE);
CREATE TABLE language (rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, tag TEXT UNIQUE NOT NULL, englishName TEXT, added DATE NOT NULL);
CREATE TABLE languageData (rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, component TEXT NOT NULL, languageTag TEXT NOT NULL, count INTEGER NOT NULL, ratio REAL NOT NULL);
CREATE TABLE metadata (rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, component TEXT NOT NULL, key TEXT NOT NULL, value TEXT NOT NULL, comment TEXT, verified DATE);
CREATE TABLE pattern (rowID INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL, component TEXT NOT NULL, identifier TEXT NOT NULL, languageTag TEXT NOT NULL, string TEXT NOT NULL, comment TEXT, verified DATE);
";

pub fn directory(name: &str) -> PathBuf {
    let d = PathBuf::from(std::env::var("SCRATCH").expect("SCRATCH")).join(name);
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// Write a database file with components (identifier, default language), contributors (component, language, name) and
/// strings (component, identifier, language, string).
pub fn database(path: &Path, schema: &str, components: &[(&str, &str)], contributors: &[(&str, &str, &str)], strings: &[(&str, &str, &str, &str)]) {
    let c = Connection::open(path).unwrap();
    c.execute_batch(schema).unwrap();
    c.execute("INSERT INTO metadata (component, key, value) VALUES ('x', 'schema_version', '1.0')", []).unwrap();
    for x in components {
        c.execute("INSERT INTO component (identifier, languageTag, added) VALUES (?1, ?2, '2024-01-01')", [x.0, x.1]).unwrap();
    }
    for x in contributors {
        c.execute("INSERT INTO contributor (component, languageTag, contributor) VALUES (?1, ?2, ?3)", [x.0, x.1, x.2]).unwrap();
    }
    for x in strings {
        c.execute("INSERT INTO pattern (component, identifier, languageTag, string) VALUES (?1, ?2, ?3, ?4)", [x.0, x.1, x.2, x.3]).unwrap();
    }
}

pub fn open(directory: &Path, tags: &RefCount<LanguageTagRegistry>) -> LocalisationProviderSqlite3 {
    LocalisationProviderSqlite3::try_new(directory.to_path_buf(), tags, false).unwrap()
}
