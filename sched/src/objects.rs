//! The objects, texts and calls that histories and schedules are made of.
use crate::dictkit::{self, Src, UserRow};
use crate::fw::*;
use crate::rich::rich_src;
use lindera_analyzer::analyzer::{Analyzer, AnalyzerConfig};
use lindera_dictionary::DictionaryKind;
use lindera_tokenizer::token::Token;
use lindera_tokenizer::tokenizer::{Tokenizer, TokenizerConfig};
use serde_json::{json, Value};
use std::path::Path;

pub const TEXTS: &[&str] = &[
    "百二十円",
    "株式会社が走った。",
    "xyzあいう",
    "ﾊﾟー12㍿騒々The",
    "",
    "百、二\n十円。がは\t百",
    "円",
    "株式会社百二十円が走ったThe カタカナー騒騒パー、はは壱弐参x円円円百百百たたた会社会社。走っ走っ走っ カタカナカタカナ",
    "円百",
    "かきくけこ",
    "あいう漢あえい",
    "騒々12円",
    "ﾊﾟー㍿が",
];

fn dict_b() -> Src {
    let mut s = rich_src();
    let first = s.rows.remove(0);
    s.rows.push(first);
    for (w, c, d) in [("二十", -500, "名詞,数,x,x,x,x,二十,ニジュウ,B0,B0,B0"), ("会", -80, "名詞,一般,x,x,x,x,会,カイ,B1,B1,B1")] {
        let mut r = s.rows[0].clone();
        r.surface = w.into();
        r.cost = c;
        r.details = d.split(',').map(String::from).collect();
        s.rows.insert(0, r);
    }
    for r in s.rows.iter_mut() {
        if r.details.len() > 9 {
            r.details[1] = format!("B{}", r.details[1]);
            r.details.pop();
        }
    }
    s.cats[0].invoke = true;
    s.cats[0].group = false;
    s.unks[0].cost = 45;
    s
}

/// A dictionary whose kana words lie inside unknown words.
fn dict_c() -> Src {
    let mut s = rich_src();
    s.cats.push(dictkit::Cat { name: "KANA", invoke: true, group: true });
    s.ranges.push((0x3041, 0x30ff, vec!["KANA"]));
    s.unks.push(crate::worlds::u("KANA", 0, 0, 5000));
    s.rows.push(dictkit::row("あ", 0, 0, -9000, "C0"));
    s.rows.push(dictkit::row("え", 0, 0, -9000, "C1"));
    for r in s.rows.iter_mut() {
        r.details.resize(11, "*".into());
    }
    s
}

/// Writes the dictionaries and the configurations into a directory.
pub fn write_world(dir: &Path) -> Result<Vec<Value>, String> {
    for (n, s) in [("A", rich_src()), ("B", dict_b()), ("C", dict_c())] {
        let src = dir.join(format!("src-{n}"));
        s.write(&DictionaryKind::UniDic, &src);
        dictkit::build_dir(&DictionaryKind::UniDic, &src, &dir.join(n))?;
    }
    let mut s = rich_src();
    for (n, rows) in [
        ("u1", vec![("百二十円", -500, "U0"), ("あい", -300, "U1"), ("円", -2000, "U2")]),
        ("u2", vec![("円", -3000, "V0"), ("十円", -500, "V1"), ("xy", -900, "V2"), ("百", 30000, "V3")]),
    ] {
        s.user = rows.iter().map(|(t, c, d)| UserRow { row: dictkit::row(t, 0, 0, *c, d), simple: false }).collect();
        let d = s.build_user(&DictionaryKind::IPADIC)?.unwrap();
        let csv = dir.join(format!("{n}.csv"));
        std::fs::write(&csv, s.user_text(&DictionaryKind::IPADIC)).unwrap();
        let _ = d;
        let b = lindera_dictionary::DictionaryBuilderResolver::resolve_builder(DictionaryKind::IPADIC).map_err(|e| e.to_string())?;
        b.build_user_dictionary(&csv, &dir.join(format!("{n}.bin"))).map_err(|e| e.to_string())?;
    }
    let (a, b, c) = (dir.join("A"), dir.join("B"), dir.join("C"));
    let (u1, u2) = (dir.join("u1.bin"), dir.join("u2.bin"));
    let dec = json!({"decompose": {"kanji_penalty_length_threshold": 0, "kanji_penalty_length_penalty": 2000, "other_penalty_length_threshold": 1, "other_penalty_length_penalty": 900}});
    let free = json!({"decompose": {"kanji_penalty_length_threshold": 9, "kanji_penalty_length_penalty": 0, "other_penalty_length_threshold": 9, "other_penalty_length_penalty": 0}});
    let t = |d: &Path, u: Option<&Path>, m: &Value| {
        let mut v = json!({"dictionary": {"path": d}, "mode": m});
        if let Some(u) = u {
            v["user_dictionary"] = json!({ "path": u });
        }
        v
    };
    let n = json!("normal");
    let f = |l: Vec<(&str, Value)>| Value::Array(l.into_iter().map(|(k, a)| json!({"kind": k, "args": a})).collect());
    let c1 = || {
        f(vec![
            ("unicode_normalize", json!({"kind": "nfkc"})),
            ("japanese_iteration_mark", json!({"normalize_kanji": true, "normalize_kana": true})),
            ("mapping", json!({"mapping": {"パ": "は", "株式会社": "会社", "T": "た", "x": ""}})),
            ("regex", json!({"pattern": "[0-9]+", "replacement": "二十"})),
        ])
    };
    let t1 = || {
        f(vec![
            ("japanese_compound_word", json!({"kind": "unidic", "tags": ["名詞,数", "名詞,接尾,助数詞"], "new_tag": "名詞,数"})),
            ("japanese_number", json!({"tags": ["名詞,数"]})),
            ("japanese_katakana_stem", json!({"min": 2})),
            ("japanese_stop_tags", json!({"tags": ["助詞,係助詞"]})),
            ("stop_words", json!({"words": ["た"]})),
            ("lowercase", json!(null)),
            ("length", json!({"min": 1, "max": 12})),
        ])
    };
    let c2 = || {
        f(vec![
            ("mapping", json!({"mapping": {"円": "百百", "株式": "株式会社が"}})),
            ("unicode_normalize", json!({"kind": "nfd"})),
            ("regex", json!({"pattern": "(.)た", "replacement": "$1$1"})),
            ("japanese_iteration_mark", json!({"normalize_kanji": false, "normalize_kana": true})),
        ])
    };
    let t2 = || {
        f(vec![
            ("japanese_base_form", json!({"kind": "ipadic"})),
            ("japanese_reading_form", json!({"kind": "ipadic"})),
            ("japanese_kana", json!({"kind": "hiragana"})),
            ("mapping", json!({"mapping": {"ひゃく": "百"}})),
            ("korean_reading_form", json!(null)),
            ("keep_words", json!({"words": ["百", "한", "더", "엔", "*", "UNK", "が", "はしっ", "かぶしきがいしゃ"]})),
            ("uppercase", json!(null)),
        ])
    };
    let confs = vec![
        t(&a, None, &n),
        t(&a, None, &dec),
        t(&a, Some(&u1), &n),
        t(&b, None, &n),
        json!({"character_filters": c1(), "tokenizer": t(&a, None, &n), "token_filters": t1()}),
        json!({"character_filters": c2(), "tokenizer": t(&a, Some(&u1), &dec), "token_filters": t2()}),
        t(&a, Some(&u2), &n),
        json!({"character_filters": c1(), "tokenizer": t(&b, Some(&u2), &n), "token_filters": t1()}),
        t(&c, None, &n),
        t(&c, None, &free),
    ];
    for (i, c) in confs.iter().enumerate() {
        std::fs::write(dir.join(format!("conf-{i}.json")), serde_json::to_vec(c).unwrap()).unwrap();
    }
    Ok(confs)
}
pub const NCONF: usize = 10;
pub fn is_analyzer(c: usize) -> bool {
    matches!(c, 4 | 5 | 7)
}

#[derive(Clone)]
pub enum Obj {
    T(Tokenizer),
    A(Analyzer),
}
pub fn load(dir: &Path, conf: usize) -> Obj {
    let b = std::fs::read(dir.join(format!("conf-{conf}.json"))).unwrap();
    if is_analyzer(conf) {
        Obj::A(AnalyzerConfig::from_slice(&b).and_then(|c| Analyzer::from_config(&c)).expect("analyzer"))
    } else {
        let c: TokenizerConfig = serde_json::from_slice(&b).expect("configuration");
        Obj::T(Tokenizer::from_config(c).expect("tokenizer"))
    }
}

/// Everything a caller can see of a token, without (`d` = None) or with details.
fn show(text: &str, start: usize, end: usize, pos: usize, len: usize, id: &lindera_core::word_entry::WordId, d: Option<String>) -> String {
    format!("{text:?} {start} {end} {pos} {len} {}/{} {}\n", id.0, id.1, d.unwrap_or_else(|| "-".into()))
}
pub fn show_token(t: &mut Token, details: bool) -> String {
    let d = if details { Some(format!("{:?}", t.get_details())) } else { None };
    show(t.text, t.byte_start, t.byte_end, t.position, t.position_length, &t.word_id, d)
}
impl Obj {
    /// One call, and everything it gives.
    pub fn call(&self, text: &str) -> String {
        match guard(|| match self {
            Obj::T(t) => match t.tokenize(text) {
                Ok(mut v) => v.iter_mut().map(|t| show_token(t, true)).collect(),
                Err(e) => format!("error: {e}"),
            },
            Obj::A(a) => match a.analyze(text) {
                Ok(v) => v.iter().map(|t| show(&t.text, t.byte_start, t.byte_end, t.position, t.position_length, &t.word_id, Some(format!("Some({:?})", t.details)))).collect(),
                Err(e) => format!("error: {e}"),
            },
        }) {
            Ok(s) => s,
            Err(p) => format!("panic: {p}"),
        }
    }
    pub fn tokenizer(&self) -> &Tokenizer {
        match self {
            Obj::T(t) => t,
            Obj::A(a) => &a.tokenizer,
        }
    }
}
