//! The grammar of filter settings, written from the documentation, and its enumeration.
use serde_json::{json, Map, Value};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Str,
    Pattern,
    Bool,
    StrMap,
    StrSet,
    /// part-of-speech tags of up to four levels
    TagSet,
    OptTagSet,
    OptTag,
    OptUsize,
    /// may be missing, but not null
    MissingOrPositive,
    Choice(&'static [&'static str]),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Valid,
    Invalid,
    /// not specified: must only not crash
    Any,
}
use Verdict::*;

pub const FORMS: &[&str] = &["nfc", "nfd", "nfkc", "nfkd"];
pub const DICS: &[&str] = &["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"];
pub const KANA: &[&str] = &["hiragana", "katakana"];

pub struct Filter {
    pub name: &'static str,
    pub token: bool,
    pub fields: &'static [(&'static str, Ty)],
}
pub const FILTERS: &[Filter] = &[
    Filter { name: "japanese_iteration_mark", token: false, fields: &[("normalize_kanji", Ty::Bool), ("normalize_kana", Ty::Bool)] },
    Filter { name: "mapping", token: false, fields: &[("mapping", Ty::StrMap)] },
    Filter { name: "regex", token: false, fields: &[("pattern", Ty::Pattern), ("replacement", Ty::Str)] },
    Filter { name: "unicode_normalize", token: false, fields: &[("kind", Ty::Choice(FORMS))] },
    Filter { name: "japanese_base_form", token: true, fields: &[("kind", Ty::Choice(DICS))] },
    Filter { name: "japanese_compound_word", token: true, fields: &[("kind", Ty::Choice(DICS)), ("tags", Ty::TagSet), ("new_tag", Ty::OptTag)] },
    Filter { name: "japanese_kana", token: true, fields: &[("kind", Ty::Choice(KANA))] },
    Filter { name: "japanese_katakana_stem", token: true, fields: &[("min", Ty::MissingOrPositive)] },
    Filter { name: "japanese_keep_tags", token: true, fields: &[("tags", Ty::TagSet)] },
    Filter { name: "japanese_number", token: true, fields: &[("tags", Ty::OptTagSet)] },
    Filter { name: "japanese_reading_form", token: true, fields: &[("kind", Ty::Choice(DICS))] },
    Filter { name: "japanese_stop_tags", token: true, fields: &[("tags", Ty::TagSet)] },
    Filter { name: "keep_words", token: true, fields: &[("words", Ty::StrSet)] },
    Filter { name: "korean_keep_tags", token: true, fields: &[("tags", Ty::StrSet)] },
    Filter { name: "korean_reading_form", token: true, fields: &[] },
    Filter { name: "korean_stop_tags", token: true, fields: &[("tags", Ty::StrSet)] },
    Filter { name: "length", token: true, fields: &[("min", Ty::OptUsize), ("max", Ty::OptUsize)] },
    Filter { name: "lowercase", token: true, fields: &[] },
    Filter { name: "mapping", token: true, fields: &[("mapping", Ty::StrMap)] },
    Filter { name: "stop_words", token: true, fields: &[("words", Ty::StrSet)] },
    Filter { name: "uppercase", token: true, fields: &[] },
];

fn strs(v: &Value) -> Option<Vec<&str>> {
    v.as_array()?.iter().map(|x| x.as_str()).collect()
}
const fn levels_ok(n: usize) -> bool {
    n <= 4
}
/// What the documentation says about the value of a field (`None`: the field is missing).
pub fn judge(ty: Ty, v: Option<&Value>) -> Verdict {
    let yes = |b: bool| if b { Valid } else { Invalid };
    let v = match v {
        None => return yes(matches!(ty, Ty::OptTagSet | Ty::OptTag | Ty::OptUsize | Ty::MissingOrPositive)),
        Some(v) => v,
    };
    match ty {
        Ty::Str => yes(v.is_string()),
        Ty::Pattern => match v.as_str() {
            None => Invalid,
            Some(s) => yes(!["(", "[", "*a", "a{2,1}", "\\", "(?P<>a)"].contains(&s)),
        },
        Ty::Bool => yes(v.is_boolean()),
        Ty::StrMap => match v.as_object() {
            None => Invalid,
            Some(m) if !m.values().all(|x| x.is_string()) => Invalid,
            Some(m) if m.keys().any(|k| k.is_empty() || k.contains('\0')) => Any,
            Some(_) => Valid,
        },
        Ty::StrSet => yes(strs(v).is_some()),
        Ty::TagSet => yes(strs(v).map(|t| t.iter().all(|t| levels_ok(t.split(',').count()))).unwrap_or(false)),
        Ty::OptTagSet => {
            if v.is_null() {
                Valid
            } else {
                judge(Ty::TagSet, Some(v))
            }
        }
        Ty::OptTag => yes(v.is_null() || v.as_str().map(|t| levels_ok(t.split(',').count())).unwrap_or(false)),
        Ty::OptUsize => yes(v.is_null() || v.as_u64().is_some()),
        Ty::MissingOrPositive => yes(v.as_u64().map(|n| n > 0).unwrap_or(false)),
        Ty::Choice(c) => match v {
            Value::String(s) => yes(c.contains(&s.as_str())),
            _ => Invalid,
        },
    }
}
/// Values of every shape, near misses of every type included.
pub fn values() -> Vec<Value> {
    let mut v: Vec<Value> = vec![
        json!(null), json!(true), json!(false), json!(0), json!(1), json!(3), json!(-1), json!(1.5), json!(3.0), json!(1e30),
        json!(u64::MAX), json!(18446744073709551616.0),
        json!(""), json!("a"), json!("1"), json!("true"), json!("名詞"), json!("名詞,一般"), json!("a,b,c,d"), json!("a,b,c,d,e"), json!(",,,"), json!(",,,,"),
        json!("nfc"), json!("nfkd"), json!("NFC"), json!("nfc "), json!("hiragana"), json!("katakana"), json!("Hiragana"),
        json!("ipadic"), json!("unidic"), json!("ko-dic"), json!("cc-cedict"), json!("ipadic-neologd"), json!("IPADIC"), json!("ipadic_neologd"), json!("foo"),
        json!("("), json!("["), json!("*a"), json!("a{2,1}"), json!("\\"), json!("(?P<>a)"), json!("a|b"),
        json!([]), json!(["a"]), json!(["名詞,一般", "助詞"]), json!(["a,b,c,d"]), json!(["a,b,c,d,e"]), json!(["x", "a,b,c,d,e"]), json!([""]), json!(["a", 1]), json!([null]), json!([["a"]]), json!([true, "a"]), json!(["nfc"]),
        json!({}), json!({"a": "b"}), json!({"a": ""}), json!({"あ": "b", "b": "あ"}), json!({"a": 1}), json!({"a": null}), json!({"a": "b", "c": ["d"]}), json!({"": "x"}), json!({"a\u{0}b": "x"}), json!({"kind": "nfc"}),
    ];
    v.dedup();
    v
}
/// One valid value per field.
pub fn base_value(ty: Ty) -> Value {
    match ty {
        Ty::Str => json!("x"),
        Ty::Pattern => json!("a+"),
        Ty::Bool => json!(true),
        Ty::StrMap => json!({"a": "b"}),
        Ty::StrSet => json!(["a"]),
        Ty::TagSet | Ty::OptTagSet => json!(["名詞,数"]),
        Ty::OptTag => json!("名詞"),
        Ty::OptUsize | Ty::MissingOrPositive => json!(2),
        Ty::Choice(c) => json!(c[0]),
    }
}
pub fn base_args(f: &Filter) -> Value {
    Value::Object(f.fields.iter().map(|(n, t)| (n.to_string(), base_value(*t))).collect::<Map<_, _>>())
}
fn worst(a: Verdict, b: Verdict) -> Verdict {
    match (a, b) {
        (Invalid, _) | (_, Invalid) => Invalid,
        (Any, _) | (_, Any) => Any,
        _ => Valid,
    }
}
/// The number of settings of a filter in the family, and the i-th of them with its verdict.
/// Every combination of values (or absence) of all fields; then whole settings of wrong shape;
/// then the base settings with one more, unknown field.
pub fn count(f: &Filter) -> u64 {
    let v = values().len() as u64;
    (v + 1).pow(f.fields.len() as u32) + v + 1
}
pub fn nth(f: &Filter, i: u64) -> (Value, Verdict) {
    let vs = values();
    let v = vs.len() as u64;
    let combos = (v + 1).pow(f.fields.len() as u32);
    if i < combos {
        let mut i = i;
        let mut m = Map::new();
        let mut verdict = Valid;
        for (n, t) in f.fields {
            let k = i % (v + 1);
            i /= v + 1;
            if k < v {
                m.insert(n.to_string(), vs[k as usize].clone());
                verdict = worst(verdict, judge(*t, Some(&vs[k as usize])));
            } else {
                verdict = worst(verdict, judge(*t, None));
            }
        }
        (Value::Object(m), verdict)
    } else if i < combos + v {
        let a = vs[(i - combos) as usize].clone();
        let all_optional = f.fields.iter().all(|(_, t)| judge(*t, None) == Valid);
        let verdict = match &a {
            // filters without settings do not look at them
            _ if f.fields.is_empty() => Any,
            Value::Array(_) => Any,
            Value::Object(m) if m.is_empty() => {
                if all_optional {
                    Valid
                } else {
                    Invalid
                }
            }
            // {"kind": "nfc"} and the like may be settings of this very filter
            Value::Object(m) => {
                let mut d = if m.keys().all(|k| f.fields.iter().any(|(n, _)| n == k)) { Valid } else { Any };
                for (n, t) in f.fields {
                    d = worst(d, judge(*t, m.get(*n)));
                }
                d
            }
            Value::Null if all_optional => Any,
            _ => Invalid,
        };
        (a, verdict)
    } else {
        let mut a = base_args(f);
        a.as_object_mut().unwrap().insert("no_such_field".into(), json!(1));
        (a, Any)
    }
}
