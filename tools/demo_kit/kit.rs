#![allow(dead_code)]
//! Shared by the demonstrations: small dictionaries built in a scratch directory.
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind, DictionaryLoader};
use std::path::{Path, PathBuf};

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("lindera-demo-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub const CHARS: &str = "DEFAULT 0 1 0\nKANJI 0 0 0\nKANA 1 1 0\nALPHA 1 1 0\n0x4E00..0x9FFF KANJI\n0x3041..0x30FF KANA\n0x0041..0x007A ALPHA\n";
pub const UNKS: &str = "DEFAULT,0,0,5000,*,*,*,*,*,*\nKANJI,0,0,5000,*,*,*,*,*,*\nKANA,0,0,5000,*,*,*,*,*,*\nALPHA,0,0,5000,*,*,*,*,*,*\n";

pub fn matrix(f: usize, b: usize, cost: impl Fn(usize, usize) -> i32) -> String {
    let mut s = format!("{f} {b}\n");
    for i in 0..f {
        for j in 0..b {
            s += &format!("{i} {j} {}\n", cost(i, j));
        }
    }
    s
}

pub fn write_source(dir: &Path, words: &str, chars: &str, unks: &str, matrix: &str) {
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(dir.join("words.csv"), words).unwrap();
    std::fs::write(dir.join("char.def"), chars).unwrap();
    std::fs::write(dir.join("unk.def"), unks).unwrap();
    std::fs::write(dir.join("matrix.def"), matrix).unwrap();
}
/// UniDic format: UTF-8, any number of details.
pub fn dict(words: &str, chars: &str, unks: &str, matrix: &str) -> Dictionary {
    let s = Scratch::new();
    let (i, o) = (s.0.join("in"), s.0.join("out"));
    write_source(&i, words, chars, unks, matrix);
    DictionaryBuilderResolver::resolve_builder(DictionaryKind::UniDic).unwrap().build_dictionary(&i, &o).unwrap();
    DictionaryLoader::load_dictionary(o).unwrap()
}
pub fn user(kind: DictionaryKind, csv: &str) -> UserDictionary {
    let s = Scratch::new();
    let p = s.0.join("user.csv");
    std::fs::write(&p, csv).unwrap();
    DictionaryLoader::load_user_dictionary_from_csv(kind, p).unwrap()
}
pub fn texts(t: &lindera_tokenizer::tokenizer::Tokenizer, text: &str) -> Vec<String> {
    t.tokenize(text).unwrap().iter().map(|t| t.text.to_string()).collect()
}
pub fn details(t: &lindera_tokenizer::tokenizer::Tokenizer, text: &str) -> Vec<Vec<String>> {
    t.tokenize(text).unwrap().iter_mut().map(|t| t.get_details().unwrap().iter().map(|s| s.to_string()).collect()).collect()
}
