//! C25: every filter configuration reads back as it was written.
use crate::fw::*;
use serde_json::{json, Value};

macro_rules! conf {
    ($out:ident, $t:ty, $vals:expr) => {
        for v in $vals {
            let v: Value = v;
            $out.push((
                stringify!($t).rsplit("::").next().unwrap().to_string(),
                v.clone(),
                Box::new(move || -> Result<(), String> {
                    let c = <$t>::from_value(&v).map_err(|e| format!("refused: {e}"))?;
                    let c2 = <$t>::from_slice(&serde_json::to_vec(&v).unwrap()).map_err(|e| format!("refused from bytes: {e}"))?;
                    if c != c2 {
                        return Err(format!("from_value gives {c:?}, from_slice {c2:?}"));
                    }
                    let w = serde_json::to_value(&c).map_err(|e| e.to_string())?;
                    let r = <$t>::from_value(&w).map_err(|e| format!("written as {w}, which is refused: {e}"))?;
                    if r != c {
                        return Err(format!("{c:?} is written as {w} and reads back as {r:?}"));
                    }
                    let b = serde_json::to_vec_pretty(&c).map_err(|e| e.to_string())?;
                    let r = <$t>::from_slice(&b).map_err(|e| format!("written as {w}, which is refused: {e}"))?;
                    if r != c {
                        return Err(format!("{c:?} is written as {w} and reads back as {r:?}"));
                    }
                    let r: $t = serde_json::from_value(w.clone()).map_err(|e| format!("written as {w}, which is refused: {e}"))?;
                    if r != c {
                        return Err(format!("{c:?} is written as {w} and deserializes as {r:?}"));
                    }
                    if c.clone() != c {
                        return Err("its clone differs".into());
                    }
                    Ok(())
                }) as Box<dyn Fn() -> Result<(), String> + Send + Sync>,
            ));
        }
    };
}

fn subsets(name: &str, pool: &[&str], max: usize, extra: Value) -> Vec<Value> {
    let mut v = vec![];
    for m in 0..1u32 << pool.len() {
        if m.count_ones() as usize <= max {
            let w: Vec<&str> = (0..pool.len()).filter(|i| m >> i & 1 == 1).map(|i| pool[i]).collect();
            let mut o = extra.as_object().unwrap().clone();
            o.insert(name.into(), json!(w));
            v.push(Value::Object(o));
        }
    }
    v
}
fn maps(pool: &[&str]) -> Vec<Value> {
    let mut v = vec![json!({"mapping": {}})];
    for a in pool {
        for b in pool {
            if !a.is_empty() {
                v.push(json!({"mapping": {*a: b}}));
                for c in pool {
                    if a != c && !c.is_empty() {
                        v.push(json!({"mapping": {*a: b, *c: a}}));
                    }
                }
            }
        }
    }
    v
}

pub fn families(run: &mut Run) {
    let tags = ["名詞", "名詞,一般", "助詞,格助詞,一般,引用", "動詞,*", "", "a\"b\\", "記号,アルファベット,*,*"];
    let words = ["百", "", "a b", "\"", "\u{0}", "😀", "é"];
    let strs = ["", "a", "ab", "パ", "\"\\\n", "$1"];
    let kinds = ["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"];
    let mut cs: Vec<(String, Value, Box<dyn Fn() -> Result<(), String> + Send + Sync>)> = vec![];
    use lindera::*;
    let up = run.b(3, 7);
    conf!(cs, JapaneseBaseFormTokenFilterConfig, kinds.map(|k| json!({"kind": k})));
    conf!(cs, JapaneseReadingFormTokenFilterConfig, kinds.map(|k| json!({"kind": k})));
    for k in kinds {
        conf!(cs, JapaneseCompoundWordTokenFilterConfig, subsets("tags", &tags, up, json!({"kind": k})));
        conf!(cs, JapaneseCompoundWordTokenFilterConfig, subsets("tags", &tags, up, json!({"kind": k, "new_tag": "名詞,複合"})));
    }
    conf!(cs, JapaneseKanaTokenFilterConfig, ["hiragana", "katakana"].map(|k| json!({"kind": k})));
    conf!(cs, JapaneseKatakanaStemTokenFilterConfig, [1u64, 2, 3, u32::MAX as u64, u64::MAX].map(|k| json!({"min": k})));
    conf!(cs, JapaneseKatakanaStemTokenFilterConfig, [json!({})]);
    conf!(cs, JapaneseKeepTagsTokenFilterConfig, subsets("tags", &tags, up, json!({})));
    conf!(cs, JapaneseStopTagsTokenFilterConfig, subsets("tags", &tags, up, json!({})));
    conf!(cs, KoreanKeepTagsTokenFilterConfig, subsets("tags", &tags, up, json!({})));
    conf!(cs, KoreanStopTagsTokenFilterConfig, subsets("tags", &tags, up, json!({})));
    conf!(cs, JapaneseNumberTokenFilterConfig, subsets("tags", &tags, up, json!({})));
    conf!(cs, JapaneseNumberTokenFilterConfig, [json!({}), json!(null)]);
    conf!(cs, KeepWordsTokenFilterConfig, subsets("words", &words, up, json!({})));
    conf!(cs, StopWordsTokenFilterConfig, subsets("words", &words, up, json!({})));
    for a in [json!(null), json!(0), json!(1), json!(u64::MAX)] {
        for b in [json!(null), json!(0), json!(7), json!(u64::MAX)] {
            conf!(cs, LengthTokenFilterConfig, [json!({"min": a, "max": b})]);
        }
        conf!(cs, LengthTokenFilterConfig, [json!({ "min": a }), json!({ "max": a })]);
    }
    conf!(cs, MappingTokenFilterConfig, maps(&strs));
    conf!(cs, MappingCharacterFilterConfig, maps(&strs));
    for p in ["a", "(.)\\1?", "", "\\p{Han}+", "[\"\\\\]", "(?i)x"] {
        for r in strs {
            conf!(cs, RegexCharacterFilterConfig, [json!({"pattern": p, "replacement": r})]);
        }
    }
    for a in [true, false] {
        for b in [true, false] {
            conf!(cs, JapaneseIterationMarkCharacterFilterConfig, [json!({"normalize_kanji": a, "normalize_kana": b})]);
        }
    }
    conf!(cs, UnicodeNormalizeCharacterFilterConfig, ["nfc", "nfd", "nfkc", "nfkd"].map(|k| json!({"kind": k})));
    run.family("filter configurations read back", cs.len() as u64, |i, st| {
        let (name, v, f) = &cs[i as usize];
        // patterns the regex engine refuses are refused when the filter is built, not here
        st.states += 1;
        st.traces += 1;
        st.nontrivial += 1;
        st.sample(|| json!({"configuration": name, "args": v}));
        match guard(f) {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) | Err(e) => viol(format!("filter-config:{name}:{v}"), format!("{name} from {v}: {e}"), json!({})),
        }
    });
}
