//! The ways of building a filter: from settings in JSON by the loader, from a command line flag,
//! from bytes, from a configuration, and by the typed constructors. All are the same filter.
use crate::filters::tf_apply;
use crate::fw::*;
use lindera_dictionary::DictionaryKind;
use lindera_filter::character_filter as c;
use lindera_filter::character_filter::{BoxCharacterFilter, CharacterFilterLoader};
use lindera_filter::token::Token;
use lindera_filter::token_filter as t;
use lindera_filter::token_filter::{BoxTokenFilter, TokenFilterLoader};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::num::NonZeroUsize;

pub type Routes<F> = Vec<(&'static str, Result<F, String>)>;

fn caught<F>(f: impl FnOnce() -> Result<F, lindera_core::error::LinderaError>) -> Result<F, String> {
    match guard(f) {
        Ok(Ok(f)) => Ok(f),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(p) => Err(format!("panicked: {p}")),
    }
}
fn strings(v: &Value) -> Option<HashSet<String>> {
    v.as_array()?.iter().map(|x| x.as_str().map(String::from)).collect()
}
fn string_map(v: &Value) -> Option<HashMap<String, String>> {
    v.as_object()?.iter().map(|(k, x)| x.as_str().map(|x| (k.clone(), x.to_string()))).collect()
}
fn opt<T>(v: &Value, f: impl Fn(&Value) -> Option<T>) -> Option<Option<T>> {
    if v.is_null() { Some(None) } else { f(v).map(Some) }
}
/// A flag on the command line ends its settings with the argument, so they can be any JSON text.
fn flag(kind: &str, args: &Value) -> String {
    format!("{kind}:{args}")
}

pub fn token_filters(kind: &str, a: &Value) -> Routes<BoxTokenFilter> {
    let mut r: Routes<BoxTokenFilter> = vec![("loader", caught(|| TokenFilterLoader::load_from_value(kind, a)))];
    r.push(("flag", caught(|| TokenFilterLoader::load_from_cli_flag(&flag(kind, a)))));
    if a.is_null() {
        r.push(("flag without settings", caught(|| TokenFilterLoader::load_from_cli_flag(kind))));
    }
    let bytes = a.to_string().into_bytes();
    let pretty = serde_json::to_vec_pretty(a).unwrap();
    // a filter and its configuration, whose constructor is plain
    macro_rules! plain {
        ($f:ty, $c:ty, $typed:expr) => {{
            r.push(("bytes", caught(|| Ok(BoxTokenFilter::from(<$f>::from_slice(&bytes)?)))));
            r.push(("configuration from bytes", caught(|| Ok(BoxTokenFilter::from(<$f>::new(<$c>::from_slice(&pretty)?))))));
            r.push(("configuration", caught(|| Ok(BoxTokenFilter::from(<$f>::new(<$c>::from_value(a)?).clone())))));
            let typed: Option<Result<$c, lindera_core::error::LinderaError>> = guard(|| $typed).ok().flatten();
            if let Some(c) = typed {
                r.push(("typed", caught(|| Ok(BoxTokenFilter::from(<$f>::new(c?))))));
            }
        }};
    }
    macro_rules! bare {
        ($f:ty) => {{
            r.push(("new", caught(|| Ok(BoxTokenFilter::from(<$f>::new())))));
            r.push(("default", caught(|| Ok(BoxTokenFilter::from(<$f>::default().clone())))));
        }};
    }
    let dk = || serde_json::from_value::<DictionaryKind>(a["kind"].clone()).ok();
    match kind {
        "japanese_base_form" => plain!(t::japanese_base_form::JapaneseBaseFormTokenFilter, t::japanese_base_form::JapaneseBaseFormTokenFilterConfig, dk().map(|k| Ok(t::japanese_base_form::JapaneseBaseFormTokenFilterConfig::new(k)))),
        "japanese_reading_form" => plain!(t::japanese_reading_form::JapaneseReadingFormTokenFilter, t::japanese_reading_form::JapaneseReadingFormTokenFilterConfig, dk().map(|k| Ok(t::japanese_reading_form::JapaneseReadingFormTokenFilterConfig::new(k)))),
        "japanese_compound_word" => plain!(t::japanese_compound_word::JapaneseCompoundWordTokenFilter, t::japanese_compound_word::JapaneseCompoundWordTokenFilterConfig, (|| Some(t::japanese_compound_word::JapaneseCompoundWordTokenFilterConfig::new(dk()?, strings(&a["tags"])?, opt(&a["new_tag"], |x| x.as_str().map(String::from))?)))()),
        "japanese_kana" => plain!(
            t::japanese_kana::JapaneseKanaTokenFilter,
            t::japanese_kana::JapaneseKanaTokenFilterConfig,
            match a["kind"].as_str() {
                Some("hiragana") => Some(Ok(t::japanese_kana::JapaneseKanaTokenFilterConfig::new(t::japanese_kana::KanaKind::Hiragana))),
                Some("katakana") => Some(Ok(t::japanese_kana::JapaneseKanaTokenFilterConfig::new(t::japanese_kana::KanaKind::Katakana))),
                _ => None,
            }
        ),
        "japanese_katakana_stem" => plain!(t::japanese_katakana_stem::JapaneseKatakanaStemTokenFilter, t::japanese_katakana_stem::JapaneseKatakanaStemTokenFilterConfig, a["min"].as_u64().and_then(|n| NonZeroUsize::new(n as usize)).map(|n| Ok(t::japanese_katakana_stem::JapaneseKatakanaStemTokenFilterConfig::new(n)))),
        "japanese_keep_tags" => plain!(t::japanese_keep_tags::JapaneseKeepTagsTokenFilter, t::japanese_keep_tags::JapaneseKeepTagsTokenFilterConfig, strings(&a["tags"]).map(|s| Ok(t::japanese_keep_tags::JapaneseKeepTagsTokenFilterConfig::new(s)))),
        "japanese_stop_tags" => plain!(t::japanese_stop_tags::JapaneseStopTagsTokenFilter, t::japanese_stop_tags::JapaneseStopTagsTokenFilterConfig, strings(&a["tags"]).map(|s| Ok(t::japanese_stop_tags::JapaneseStopTagsTokenFilterConfig::new(s)))),
        "japanese_number" => plain!(t::japanese_number::JapaneseNumberTokenFilter, t::japanese_number::JapaneseNumberTokenFilterConfig, if a.is_object() || a.is_null() { opt(&a["tags"], strings).map(|s| Ok(t::japanese_number::JapaneseNumberTokenFilterConfig::new(s))) } else { None }),
        "keep_words" => plain!(t::keep_words::KeepWordsTokenFilter, t::keep_words::KeepWordsTokenFilterConfig, strings(&a["words"]).map(|s| Ok(t::keep_words::KeepWordsTokenFilterConfig::new(s)))),
        "stop_words" => plain!(t::stop_words::StopWordsTokenFilter, t::stop_words::StopWordsTokenFilterConfig, strings(&a["words"]).map(|s| Ok(t::stop_words::StopWordsTokenFilterConfig::new(s)))),
        "korean_keep_tags" => plain!(t::korean_keep_tags::KoreanKeepTagsTokenFilter, t::korean_keep_tags::KoreanKeepTagsTokenFilterConfig, strings(&a["tags"]).map(|s| Ok(t::korean_keep_tags::KoreanKeepTagsTokenFilterConfig::new(s)))),
        "korean_stop_tags" => plain!(t::korean_stop_tags::KoreanStopTagsTokenFilter, t::korean_stop_tags::KoreanStopTagsTokenFilterConfig, strings(&a["tags"]).map(|s| Ok(t::korean_stop_tags::KoreanStopTagsTokenFilterConfig::new(s)))),
        "length" => plain!(
            t::length::LengthTokenFilter,
            t::length::LengthTokenFilterConfig,
            if a.is_object() { (|| Some(Ok(t::length::LengthTokenFilterConfig::new(opt(&a["min"], |x| x.as_u64().map(|n| n as usize))?, opt(&a["max"], |x| x.as_u64().map(|n| n as usize))?))))() } else { None }
        ),
        "mapping" => {
            use t::mapping::{MappingTokenFilter as F, MappingTokenFilterConfig as C};
            r.push(("bytes", caught(|| Ok(BoxTokenFilter::from(F::from_slice(&bytes)?)))));
            r.push(("configuration from bytes", caught(|| Ok(BoxTokenFilter::from(F::new(C::from_slice(&pretty)?)?)))));
            r.push(("configuration", caught(|| Ok(BoxTokenFilter::from(F::new(C::from_value(a)?)?.clone())))));
            if let Some(m) = string_map(&a["mapping"]) {
                r.push(("typed", caught(|| Ok(BoxTokenFilter::from(F::new(C::new(m))?)))));
            }
        }
        "lowercase" => bare!(t::lowercase::LowercaseTokenFilter),
        "uppercase" => bare!(t::uppercase::UppercaseTokenFilter),
        "korean_reading_form" => bare!(t::korean_reading_form::KoreanReadingFormTokenFilter),
        _ => {}
    }
    r
}
pub fn char_filters(kind: &str, a: &Value) -> Routes<BoxCharacterFilter> {
    let mut r: Routes<BoxCharacterFilter> = vec![("loader", caught(|| CharacterFilterLoader::load_from_value(kind, a)))];
    r.push(("flag", caught(|| CharacterFilterLoader::load_from_cli_flag(&flag(kind, a)))));
    if a.is_null() {
        r.push(("flag without settings", caught(|| CharacterFilterLoader::load_from_cli_flag(kind))));
    }
    let bytes = a.to_string().into_bytes();
    let pretty = serde_json::to_vec_pretty(a).unwrap();
    match kind {
        "japanese_iteration_mark" => {
            use c::japanese_iteration_mark::{JapaneseIterationMarkCharacterFilter as F, JapaneseIterationMarkCharacterFilterConfig as C};
            r.push(("bytes", caught(|| Ok(BoxCharacterFilter::from(F::from_slice(&bytes)?)))));
            r.push(("configuration from bytes", caught(|| Ok(BoxCharacterFilter::from(F::new(C::from_slice(&pretty)?))))));
            r.push(("configuration", caught(|| Ok(BoxCharacterFilter::from(F::new(C::from_value(a)?).clone())))));
            if let (Some(x), Some(y)) = (a["normalize_kanji"].as_bool(), a["normalize_kana"].as_bool()) {
                r.push(("typed", caught(|| Ok(BoxCharacterFilter::from(F::new(C::new(x, y)))))));
            }
        }
        "mapping" => {
            use c::mapping::{MappingCharacterFilter as F, MappingCharacterFilterConfig as C};
            r.push(("bytes", caught(|| Ok(BoxCharacterFilter::from(F::from_slice(&bytes)?)))));
            r.push(("configuration from bytes", caught(|| Ok(BoxCharacterFilter::from(F::new(C::from_slice(&pretty)?)?)))));
            r.push(("configuration", caught(|| Ok(BoxCharacterFilter::from(F::new(C::from_value(a)?)?.clone())))));
            if let Some(m) = string_map(&a["mapping"]) {
                r.push(("typed", caught(|| Ok(BoxCharacterFilter::from(F::new(C::new(m))?)))));
            }
        }
        "regex" => {
            use c::regex::{RegexCharacterFilter as F, RegexCharacterFilterConfig as C};
            r.push(("bytes", caught(|| Ok(BoxCharacterFilter::from(F::from_slice(&bytes)?)))));
            r.push(("configuration from bytes", caught(|| Ok(BoxCharacterFilter::from(F::new(C::from_slice(&pretty)?)?)))));
            r.push(("configuration", caught(|| Ok(BoxCharacterFilter::from(F::new(C::from_value(a)?)?.clone())))));
            if let (Some(p), Some(s)) = (a["pattern"].as_str(), a["replacement"].as_str()) {
                r.push(("typed", caught(|| Ok(BoxCharacterFilter::from(F::new(C::new(p.into(), s.into()))?)))));
            }
        }
        "unicode_normalize" => {
            use c::unicode_normalize::{UnicodeNormalizeCharacterFilter as F, UnicodeNormalizeCharacterFilterConfig as C, UnicodeNormalizeKind as K};
            r.push(("bytes", caught(|| Ok(BoxCharacterFilter::from(F::from_slice(&bytes)?)))));
            r.push(("configuration from bytes", caught(|| Ok(BoxCharacterFilter::from(F::new(C::from_slice(&pretty)?))))));
            r.push(("configuration", caught(|| Ok(BoxCharacterFilter::from(F::new(C::from_value(a)?).clone())))));
            let k = match a["kind"].as_str() {
                Some("nfc") => Some(K::NFC),
                Some("nfd") => Some(K::NFD),
                Some("nfkc") => Some(K::NFKC),
                Some("nfkd") => Some(K::NFKD),
                _ => None,
            };
            if let Some(k) = k {
                r.push(("typed", caught(|| Ok(BoxCharacterFilter::from(F::new(C::new(k)))))));
            }
        }
        _ => {}
    }
    r
}

/// Every way of building each filter, which must all give what the loader's does.
pub fn tokens(run: &mut Run, settings: &[(&str, Value)], input: &[Token]) {
    run.family("ways of building the token filter", settings.len() as u64, |i, st| {
        let (kind, args) = &settings[i as usize];
        let rs = token_filters(kind, args);
        let f = match &rs[0].1 {
            Ok(f) => f,
            Err(e) => return viol(format!("{kind} {args}"), format!("valid settings {kind} {args}: {e}"), json!({"kind": kind, "args": args})),
        };
        let lists: Vec<Vec<Token>> = input.iter().map(|t| vec![t.clone()]).chain([vec![], input.to_vec(), input.iter().rev().cloned().collect()]).collect();
        let want: Vec<_> = lists.iter().map(|l| tf_apply(f, l)).collect();
        st.states += lists.len() as u64;
        st.sample(|| json!({"kind": kind, "args": args, "ways": rs.iter().map(|r| r.0).collect::<Vec<_>>()}));
        for (way, g) in &rs {
            let key = format!("{kind} {args} by {way}");
            let det = json!({"kind": kind, "args": args, "way": way});
            let g = match g {
                Ok(g) => g,
                Err(e) => return viol(key, format!("{kind} {args} built by {way}: {e}"), det),
            };
            if g.name() != *kind {
                return viol(key, format!("{kind} built by {way} calls itself {:?}", g.name()), det);
            }
            for h in [None, Some(g.box_clone())] {
                let h = h.as_ref().unwrap_or(g);
                for (l, w) in lists.iter().zip(&want) {
                    st.transitions += 1;
                    st.traces += 1;
                    let r = tf_apply(h, l);
                    let ok = match (&r, w) {
                        (Ok(a), Ok(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| crate::tfilters::same(a, b)),
                        (Err(_), Err(_)) => true,
                        _ => false,
                    };
                    st.nontrivial += matches!(&r, Ok(r) if r.len() != l.len() || r.iter().zip(l).any(|(a, b)| !crate::tfilters::same(a, b))) as u64;
                    if !ok {
                        let sh = |r: &Result<Vec<Token>, String>| match r {
                            Ok(v) => crate::tfilters::show(v).to_string(),
                            Err(e) => e.clone(),
                        };
                        return viol(key, format!("{kind} {args} built by {way} gave {}, by the loader {}", sh(&r), sh(w)), det);
                    }
                }
            }
        }
        Ok(())
    });
}
pub fn chars(run: &mut Run, settings: &[(&str, Value)], texts: &[String]) {
    run.family("ways of building the character filter", settings.len() as u64, |i, st| {
        let (kind, args) = &settings[i as usize];
        let rs = char_filters(kind, args);
        let f = match &rs[0].1 {
            Ok(f) => f,
            Err(e) => return viol(format!("{kind} {args}"), format!("valid settings {kind} {args}: {e}"), json!({"kind": kind, "args": args})),
        };
        let apply = |f: &BoxCharacterFilter, t: &str| caught(|| f.apply(t));
        let want: Vec<_> = texts.iter().map(|t| apply(f, t)).collect();
        st.states += texts.len() as u64;
        st.sample(|| json!({"kind": kind, "args": args, "ways": rs.iter().map(|r| r.0).collect::<Vec<_>>()}));
        for (way, g) in &rs {
            let key = format!("{kind} {args} by {way}");
            let det = json!({"kind": kind, "args": args, "way": way});
            let g = match g {
                Ok(g) => g,
                Err(e) => return viol(key, format!("{kind} {args} built by {way}: {e}"), det),
            };
            if g.name() != *kind {
                return viol(key, format!("{kind} built by {way} calls itself {:?}", g.name()), det);
            }
            for h in [None, Some(g.box_clone())] {
                let h = h.as_ref().unwrap_or(g);
                for (t, w) in texts.iter().zip(&want) {
                    st.transitions += 1;
                    st.traces += 1;
                    let r = apply(h, t);
                    st.nontrivial += matches!(&r, Ok(r) if r.0 != *t) as u64;
                    if r != *w {
                        return viol(key, format!("{kind} {args} built by {way} maps {t:?} to {r:?}, by the loader to {w:?}"), det);
                    }
                }
            }
        }
        Ok(())
    });
}
