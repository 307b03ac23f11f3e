//! A dictionary and filter settings under which every filter has something to do.
use crate::dictkit::{self, Src};
use crate::fw::{nth_text, strings_upto};
use crate::worlds;
use serde_json::{json, Value};

/// A filter setting: kind and args.
pub type Set = (&'static str, Value);

/// Words whose details make every token filter do something.
pub fn rich_src() -> Src {
    let w = |s: &str, cost: i16, d: &str| dictkit::Row { surface: s.into(), left: 0, right: 0, cost, details: d.split(',').map(|x| x.to_string()).collect() };
    Src {
        rows: vec![
            w("百", -50, "名詞,数,*,*,*,*,百,ヒャク,ヒャク,x,百"),
            w("二", -50, "名詞,数,*,*,*,*,二,ニ,ニ,x,弐"),
            w("十", -50, "名詞,数,*,*,*,*,十,ジュウ,ジュー,x,拾"),
            w("円", -50, "名詞,接尾,助数詞,엔,*,*,円,エン,エン,x,圓"),
            w("株式会社", -90, "名詞,一般,*,*,*,*,株式会社,カブシキガイシャ,カブシキガイシャ,x,会社"),
            w("会社", -60, "名詞,一般,*,회사,*,*,会社,カイシャ,カイシャ,x,会社"),
            w("カタカナー", -60, "名詞,固有名詞,一般,*,*,*,カタカナ,カタカナ,カタカナ,x,片仮名"),
            w("パー", -60, "名詞,一般,*,*,*,*,パ,パ,パ,x,パ"),
            w("走っ", -60, "動詞,自立,*,달려,五段・ラ行,連用タ接続,走る,ハシッ,ハシッ,x,走る"),
            w("た", -60, "助動詞,*,*,*,特殊・タ,基本形,だ,タ,タ,x,た"),
            w("が", -60, "助詞,格助詞,一般,*,*,*,ガ,が,ガ,x,が"),
            w("は", -60, "助詞,係助詞,*,*,*,*,は,ハ,ワ,x,は"),
            w("The", -60, "名詞,固有名詞,組織,더,*,*,the,ザ,ザ,x,The"),
            w("騒騒", -60, "名詞,一般,*,*,*,*,騒ぐ,ソウゾウ,ソーゾー,x,騒騒"),
        ],
        cats: vec![dictkit::Cat { name: "DEFAULT", invoke: false, group: true }, dictkit::Cat { name: "SPACE", invoke: false, group: true }],
        ranges: vec![(0x20, 0x20, vec!["SPACE"])],
        unks: vec![worlds::u("DEFAULT", 0, 0, 10), worlds::u("SPACE", 0, 0, 10)],
        conn: vec![vec![0]],
        user: vec![],
    }
}

pub fn char_sets() -> Vec<Set> {
    vec![
        ("unicode_normalize", json!({"kind": "nfkc"})),
        ("mapping", json!({"mapping": {"パ": "は", "㍿": "会社", "T": "た"}})),
        ("mapping", json!({"mapping": {"会社": "百", "は": ""}})),
        ("regex", json!({"pattern": "[0-9]+", "replacement": "二十"})),
        ("regex", json!({"pattern": "(.)た", "replacement": "$1$1"})),
        ("japanese_iteration_mark", json!({"normalize_kanji": true, "normalize_kana": true})),
        ("japanese_iteration_mark", json!({"normalize_kanji": false, "normalize_kana": true})),
    ]
}
pub fn token_sets() -> Vec<Set> {
    vec![
        ("japanese_base_form", json!({"kind": "ipadic"})),
        ("japanese_base_form", json!({"kind": "unidic"})),
        ("japanese_compound_word", json!({"kind": "ipadic", "tags": ["名詞,数", "名詞,接尾,助数詞"], "new_tag": "名詞,数"})),
        ("japanese_compound_word", json!({"kind": "unidic", "tags": ["名詞,一般", "助詞,格助詞,一般"]})),
        ("japanese_kana", json!({"kind": "hiragana"})),
        ("japanese_kana", json!({"kind": "katakana"})),
        ("japanese_katakana_stem", json!({"min": 2})),
        ("japanese_keep_tags", json!({"tags": ["名詞,数", "動詞,自立", "名詞,一般", "複合語"]})),
        ("japanese_number", json!({"tags": ["名詞,数"]})),
        ("japanese_number", json!(null)),
        ("japanese_reading_form", json!({"kind": "ipadic"})),
        ("japanese_stop_tags", json!({"tags": ["助詞,格助詞,一般", "助動詞", "名詞,固有名詞,一般"]})),
        ("keep_words", json!({"words": ["百", "走っ", "ハシッ", "110", "円", "かいしゃ", "THE"]})),
        ("korean_keep_tags", json!({"tags": ["名詞", "助動詞", "複合語"]})),
        ("korean_reading_form", json!(null)),
        ("korean_stop_tags", json!({"tags": ["動詞", "UNK"]})),
        ("length", json!({"min": 2})),
        ("length", json!({"min": 1, "max": 2})),
        ("lowercase", json!(null)),
        ("mapping", json!({"mapping": {"百": "二百", "カタカナ": "かな", "the": "は"}})),
        ("stop_words", json!({"words": ["the", "は", "た", "た", "カタカナ", "カイシャ"]})),
        ("uppercase", json!(null)),
    ]
}
pub const CHUNKS: &[&str] = &["百二十", "円", "カタカナー", "ﾊﾟー", "㍿", "騒々", "走った", "The", "12", "が", "x は"];
pub fn texts(n: u32) -> Vec<String> {
    (0..strings_upto(CHUNKS.len() as u64, n))
        .map(|i| nth_text(i, CHUNKS))
        .chain(["Theﾊﾟーが百12円で走った。㍿は騒々た".to_string(), "百二十円㍿カタカナーが、The\nﾊﾟー".into()])
        .collect()
}


/// Names one edit away.
pub fn near_names(n: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for i in 0..n.len() {
        v.push(format!("{}{}", &n[..i], &n[i + 1..]));
        v.push(format!("{}{}{}", &n[..i], n[i..i + 1].to_uppercase(), &n[i + 1..]));
        v.push(format!("{}{}{}", &n[..i], &n[i..i + 1].repeat(2), &n[i + 1..]));
        v.push(format!("{}{}{}", &n[..i], "x", &n[i + 1..]));
        v.push(n[..i].to_string());
        v.push(n[i..].to_string());
    }
    for s in ["s", " ", "_", "\0", "\n", "_filter", ".", "ー"] {
        v.push(format!("{n}{s}"));
        v.push(format!("{s}{n}"));
    }
    v.push(n.replace('_', "-"));
    v.push(n.replace('-', "_"));
    v.push(n.replace('_', ""));
    v.push(n.replace('_', " "));
    v.push(n.to_uppercase());
    v.push(String::new());
    v.sort();
    v.dedup();
    v.retain(|x| x != n);
    v
}
