//! C21: the analyzer is the composition of its configured stages, however it was built, and
//! refuses unknown kinds and invalid settings.
use crate::dictkit;
use crate::filters::{cf, cf_apply, stage_pool, tf, tf_apply};
use crate::fw::*;
use crate::settings::{self, base_args, judge, values, Verdict, FILTERS};
use crate::tfilters::{same, show};
use lindera_analyzer::analyzer::{Analyzer, AnalyzerConfig};
use lindera_core::mode::Mode;
use lindera_dictionary::DictionaryKind;
use lindera_filter::character_filter::{BoxCharacterFilter, CharacterFilterLoader};
use lindera_filter::token::Token;
use lindera_filter::token_filter::{BoxTokenFilter, TokenFilterLoader};
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;

use crate::rich::*;

pub fn filter_json(f: &Set, omit_null: bool) -> Value {
    if omit_null && f.1.is_null() {
        json!({"kind": f.0})
    } else {
        json!({"kind": f.0, "args": f.1})
    }
}
pub fn config_json(dir: &Path, mode: &Value, cs: &[Set], ts: &[Set], variant: u64) -> Value {
    let tk = json!({"dictionary": {"path": dir}, "mode": mode});
    let list = |v: &[Set]| Value::Array(v.iter().map(|f| filter_json(f, variant & 1 == 0)).collect());
    let mut m = serde_json::Map::new();
    m.insert("tokenizer".into(), tk);
    for (n, v) in [("character_filters", cs), ("token_filters", ts)] {
        match (v.is_empty(), variant % 3) {
            (true, 0) => {}
            (true, 1) => {
                m.insert(n.into(), json!(null));
            }
            _ => {
                m.insert(n.into(), list(v));
            }
        }
    }
    Value::Object(m)
}
pub fn from_json(text: &str) -> Result<Analyzer, String> {
    match guard(|| AnalyzerConfig::from_slice(text.as_bytes()).and_then(|c| Analyzer::from_config(&c))) {
        Ok(Ok(a)) => Ok(a),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(p) => Err(format!("panicked: {p}")),
    }
}
fn from_file(path: &Path) -> Result<Analyzer, String> {
    match guard(|| AnalyzerConfig::from_file(path).and_then(|c| Analyzer::from_config(&c.clone()))) {
        Ok(Ok(a)) => Ok(a),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(p) => Err(format!("panicked: {p}")),
    }
}
fn flag(f: &Set, variant: u64) -> String {
    match (&f.1, variant & 1) {
        (Value::Null, 0) => f.0.to_string(),
        (a, 0) => format!("{}:{}", f.0, a),
        (a, _) => format!("{}:{}", f.0, serde_json::to_string_pretty(a).unwrap()),
    }
}
fn cf_flag(s: &str) -> Result<BoxCharacterFilter, String> {
    match guard(|| CharacterFilterLoader::load_from_cli_flag(s)) {
        Ok(Ok(f)) => Ok(f),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(p) => Err(format!("panicked: {p}")),
    }
}
fn tf_flag(s: &str) -> Result<BoxTokenFilter, String> {
    match guard(|| TokenFilterLoader::load_from_cli_flag(s)) {
        Ok(Ok(f)) => Ok(f),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(p) => Err(format!("panicked: {p}")),
    }
}
pub fn analyze(a: &Analyzer, t: &str) -> Result<Vec<Token>, String> {
    match guard(|| a.analyze(t)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}
/// The tokens of the tokenizer as filter tokens.
pub fn raw_tokens(tk: &Tokenizer, t: &str) -> Result<Vec<Token>, String> {
    match guard(|| -> Result<Vec<Token>, String> {
        let mut v = tk.tokenize(t).map_err(|e| format!("error: {e}"))?;
        Ok(v.iter_mut()
            .map(|k| Token {
                text: k.text.to_string(),
                byte_start: k.byte_start,
                byte_end: k.byte_end,
                position: k.position,
                position_length: k.position_length,
                word_id: k.word_id,
                details: k.get_details().map(|d| d.iter().map(|s| s.to_string()).collect()).unwrap_or_default(),
            })
            .collect())
    }) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    }
}
fn equal(a: &[Token], b: &[Token]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}

pub struct Stages {
    pub cs: Vec<(Set, BoxCharacterFilter)>,
    pub ts: Vec<(Set, BoxTokenFilter)>,
}
impl Stages {
    pub fn load(cs: &[Set], ts: &[Set]) -> Result<Stages, Viol> {
        let bad = |k: &Set, e: String| Viol { key: format!("filter {}:{}", k.0, k.1), what: format!("valid filter {}:{} {e}", k.0, k.1), detail: json!({"kind": k.0, "args": k.1}) };
        Ok(Stages {
            cs: cs.iter().map(|s| cf(s.0, &s.1).map(|f| (s.clone(), f)).map_err(|e| bad(s, e))).collect::<Result<_, _>>()?,
            ts: ts.iter().map(|s| tf(s.0, &s.1).map(|f| (s.clone(), f)).map_err(|e| bad(s, e))).collect::<Result<_, _>>()?,
        })
    }
    /// The composition of the stages: filtered text tokens before and after the token filters,
    /// with offsets in the filtered text.
    pub fn fold(&self, tk: &Tokenizer, t: &str) -> Result<(String, Vec<Token>, Vec<Token>), String> {
        let mut s = t.to_string();
        for (_, f) in &self.cs {
            s = cf_apply(f, &s)?;
        }
        let raw = raw_tokens(tk, &s)?;
        let mut v = raw.clone();
        for (_, f) in &self.ts {
            v = tf_apply(f, &v)?;
        }
        Ok((s, raw, v))
    }
}

/// What `analyze` must return, given the analyzer without token filters for the offsets.
pub fn expected(stages: &Stages, tk: &Tokenizer, no_tokens: &Analyzer, t: &str) -> Result<Vec<Token>, String> {
    let (s, raw, mut want) = stages.fold(tk, t)?;
    let plain = analyze(no_tokens, t)?;
    if plain.len() != raw.len() {
        return Err(format!("without token filters the analyzer gives {} tokens for {t:?}, the tokenizer gives {} for the filtered text {s:?}", plain.len(), raw.len()));
    }
    let mut starts = BTreeMap::new();
    let mut ends = BTreeMap::new();
    for (r, p) in raw.iter().zip(&plain) {
        starts.insert(r.byte_start, p.byte_start);
        ends.insert(r.byte_end, p.byte_end);
        let mut r2 = r.clone();
        r2.byte_start = p.byte_start;
        r2.byte_end = p.byte_end;
        if !same(&r2, p) {
            return Err(format!("without token filters the analyzer gives {} for {t:?}, the tokenizer gives {} for the filtered text {s:?}", show(&plain), show(&raw)));
        }
    }
    for k in want.iter_mut() {
        match (starts.get(&k.byte_start), ends.get(&k.byte_end)) {
            (Some(a), Some(b)) => {
                k.byte_start = *a;
                k.byte_end = *b;
            }
            _ => return Err(format!("a token filter invented the range {}..{}", k.byte_start, k.byte_end)),
        }
    }
    Ok(want)
}

struct World {
    dir: Scratch,
    tk: Tokenizer,
}
fn world() -> Result<World, String> {
    let src = rich_src();
    let d = Scratch::new();
    src.write(&DictionaryKind::UniDic, &d.0.join("src"));
    dictkit::build_dir(&DictionaryKind::UniDic, &d.0.join("src"), &d.0.join("dic"))?;
    let tk = Tokenizer::new(dictkit::load_dir(&d.0.join("dic"))?, None, Mode::Normal);
    Ok(World { dir: d, tk })
}

fn check_chain(w: &World, cs: &[Set], ts: &[Set], texts: &[String], variant: u64, st: &mut Stats) -> Res {
    let cfg = config_json(&w.dir.0.join("dic"), &json!("normal"), cs, ts, variant);
    let detail = |t: &str| json!({"config": cfg, "text": t});
    let key = format!("chain {:?}", cs.iter().chain(ts).map(|s| format!("{}:{}", s.0, s.1)).collect::<Vec<_>>());
    let stages = Stages::load(cs, ts)?;
    let no_tokens = Analyzer::new(Stages::load(cs, &[])?.cs.into_iter().map(|x| x.1).collect(), w.tk.clone(), vec![]);
    // the ways to build it
    let text = if variant & 2 == 0 { cfg.to_string() } else { serde_json::to_string_pretty(&cfg).unwrap() };
    let mut ways: Vec<(&str, Analyzer)> = vec![];
    match from_json(&text) {
        Ok(a) => ways.push(("JSON", a)),
        Err(e) => return viol(&key, format!("a valid configuration was {e}"), detail("")),
    }
    let path = w.dir.0.join(format!("c{:?}.json", std::thread::current().id()).replace(['(', ')'], "_"));
    std::fs::write(&path, &text).unwrap();
    match from_file(&path) {
        Ok(a) => ways.push(("file", a)),
        Err(e) => return viol(&key, format!("a valid configuration file was {e}"), detail("")),
    }
    let parts = Stages::load(cs, ts)?;
    ways.push(("parts", Analyzer::new(parts.cs.into_iter().map(|x| x.1).collect(), w.tk.clone(), parts.ts.into_iter().map(|x| x.1).collect())));
    let mut c = vec![];
    for s in cs {
        c.push(cf_flag(&flag(s, variant)).map_err(|e| Viol { key: key.clone(), what: format!("the flag {} was {e}", flag(s, variant)), detail: json!({}) })?);
    }
    let mut t = vec![];
    for s in ts {
        t.push(tf_flag(&flag(s, variant)).map_err(|e| Viol { key: key.clone(), what: format!("the flag {} was {e}", flag(s, variant)), detail: json!({}) })?);
    }
    ways.push(("command line flags", Analyzer::new(c, w.tk.clone(), t)));
    let c = ways[0].1.clone();
    let cc = ways[2].1.clone().clone();
    ways.push(("clone", c));
    ways.push(("clone of a clone", cc));
    for t in texts {
        let want = match expected(&stages, &w.tk, &no_tokens, t) {
            Ok(v) => v,
            Err(e) => return viol(format!("{key} {t:?}"), e, detail(t)),
        };
        let plain = analyze(&no_tokens, t).unwrap_or_default();
        if !equal(&plain, &want) || w.tk.tokenize(t).map(|v| v.len()).unwrap_or(0) != plain.len() {
            st.nontrivial += 1;
            st.sample(|| detail(t));
        }
        st.states += want.len() as u64 + 1;
        for (name, a) in &ways {
            st.transitions += 1;
            st.traces += 1;
            match analyze(a, t) {
                Ok(got) if equal(&got, &want) => {}
                Ok(got) => return viol(format!("{key} {t:?}"), format!("the analyzer built from {name} gives {} for {t:?}, the composition of its stages gives {}", show(&got), show(&want)), detail(t)),
                Err(e) => return viol(format!("{key} {t:?}"), format!("the analyzer built from {name} on {t:?}: {e}; the composition of its stages gives {}", show(&want)), detail(t)),
            }
        }
    }
    Ok(())
}

/// Near misses of a name.
/// In JSON at the given place of a list of otherwise valid filters, and as a flag.
fn refuse(w: &World, token: bool, name: &Value, args: Option<&Value>, want: Verdict, st: &mut Stats) -> Res {
    let mut item = serde_json::Map::new();
    if !name.is_null() {
        item.insert("kind".into(), name.clone());
    }
    if let Some(a) = args {
        item.insert("args".into(), a.clone());
    }
    let item = Value::Object(item);
    let key = format!("{} filter {item}", if token { "token" } else { "character" });
    let ok = if token { json!({"kind": "lowercase"}) } else { json!({"kind": "unicode_normalize", "args": {"kind": "nfc"}}) };
    for at in 0..3 {
        let mut l = vec![ok.clone(), ok.clone()];
        l.insert(at, item.clone());
        let cfg = json!({"tokenizer": {"dictionary": {"path": w.dir.0.join("dic")}, "mode": "normal"},
            (if token { "token_filters" } else { "character_filters" }): l});
        st.transitions += 1;
        st.traces += 1;
        match (from_json(&cfg.to_string()), want) {
            (Err(e), _) if e.starts_with("panicked") => return viol(&key, format!("building an analyzer with {item} {e}"), cfg),
            (Ok(_), Verdict::Invalid) => return viol(&key, format!("an analyzer with the invalid filter {item} was built"), cfg),
            (Err(e), Verdict::Valid) => return viol(&key, format!("an analyzer with the valid filter {item} was {e}"), cfg),
            _ => {}
        }
    }
    if let (Some(n), Some(a)) = (name.as_str(), args) {
        if n.contains(':') {
            return Ok(());
        }
        let f = format!("{n}:{a}");
        let r = if token { tf_flag(&f).map(|_| ()) } else { cf_flag(&f).map(|_| ()) };
        match (r, want) {
            (Err(e), _) if e.starts_with("panicked") => return viol(&key, format!("the flag {f} {e}"), json!({"flag": f})),
            (Ok(_), Verdict::Invalid) => return viol(&key, format!("the invalid flag {f} was accepted"), json!({"flag": f})),
            (Err(e), Verdict::Valid) => return viol(&key, format!("the valid flag {f} was {e}"), json!({"flag": f})),
            _ => {}
        }
    }
    st.states += 1;
    if want == Verdict::Invalid {
        st.nontrivial += 1;
    }
    Ok(())
}

pub fn c21(run: &mut Run) {
    run.rule = "every ordered chain of filters up to a length, each built in six ways (JSON, file, parts, command line flags, clone, clone of a clone) and run on every text; every near miss of every filter name and every value of every setting, in every place of the list. non-trivial: the chain changes the tokens, or the setting must be refused. states: tokens of the composition".into();
    run.assumptions = vec!["the single filters and the offsets without token filters are checked by C12 to C20".into()];
    let w = match world() {
        Ok(w) => w,
        Err(e) => {
            run.family("setup", 1, |_, _| viol("setup", &e, json!({})));
            return;
        }
    };
    let w = &w;
    let (cs, ts) = (char_sets(), token_sets());
    let (nc, nt) = (cs.len() as u64, ts.len() as u64);
    let chain = |set: &[Set], i: u64| -> Vec<Set> {
        let mut v = vec![];
        nth_string(i, set.len() as u64, &mut v);
        v.iter().map(|&k| set[k].clone()).collect()
    };
    let tx = texts(2);
    let tx1 = texts(1);
    let (a, b) = (strings_upto(nc, 2), strings_upto(nt, 1));
    run.family("two character filters, one token filter", a * b, |i, st| check_chain(w, &chain(&cs, i % a), &chain(&ts, i / a), &tx, i, st));
    let (a, b) = (strings_upto(nc, 1), strings_upto(nt, 2));
    run.family("one character filter, two token filters", a * b, |i, st| check_chain(w, &chain(&cs, i % a), &chain(&ts, i / a), if i % a <= 1 { &tx } else { &tx1 }, i, st));
    if !run.quick() {
        let (a, b) = (strings_upto(nc, 2), strings_upto(nt, 2));
        run.family("two character filters, two token filters", a * b, |i, st| check_chain(w, &chain(&cs, i % a), &chain(&ts, i / a), &tx, i, st));
        let b = strings_upto(nt, 3);
        run.family("three token filters", b, |i, st| check_chain(w, &[], &chain(&ts, i), &tx, i, st));
        let a = strings_upto(nc, 4);
        run.family("four character filters", a, |i, st| check_chain(w, &chain(&cs, i), &[], &tx, i, st));
    }
    // long chains: every window and every rotation of all filters, forwards and backwards
    let win = |set: &[Set], start: u64, len: u64, back: bool| -> Vec<Set> {
        let mut v: Vec<Set> = (0..len).map(|j| set[((start + j) % set.len() as u64) as usize].clone()).collect();
        if back {
            v.reverse();
        }
        v
    };
    run.family("long chains", nc * nt * 2 * 6, |i, st| {
        let d = digits(i, &[nc, nt, 2, 6]);
        let len = [3, 4, 5, 8, 12, nt][d[3]];
        check_chain(w, &win(&cs, d[0] as u64, len, d[2] == 1), &win(&ts, d[1] as u64, len, d[2] == 1), &tx1, i, st)
    });
    // every character, at the start, inside and at the end of a text
    let bs: Vec<u32> = (0..0x110000 / 256).filter(|b| !run.quick() || *b < 256 || b % 16 == 7).collect();
    run.family("every character", bs.len() as u64 * 3, |i, st| {
        let base = bs[(i / 3) as usize] * 256;
        let tx: Vec<String> = (base..base + 256).filter_map(char::from_u32).flat_map(|c| [format!("{c}"), format!("{c}ab{c}カ{c}")]).collect();
        let (c, t) = match i % 3 {
            0 => (vec![], vec![]),
            1 => (vec![("mapping", json!({"mapping": {"ab": "百", "カ": "b"}}))], vec![]),
            _ => (vec![], vec![("lowercase", json!(null))]),
        };
        check_chain(w, &c, &t, &tx, i, st)
    });
    // the number of filters, with one at the end whose work shows
    run.family("numbers of filters", 300 * 2, |i, st| {
        let n = i as usize / 2 + 1;
        let quiet = |t: bool, j: usize| -> Set { if t { (["keep_words", "stop_words"][0], json!({"words": ["百二十", "x", "ab", "カ", "b"]})) } else { ("mapping", json!({"mapping": {format!("\u{e000}{j}"): "x"}})) } };
        let (cf, tf) = if i % 2 == 0 {
            ((0..n - 1).map(|j| quiet(false, j)).chain([("mapping", json!({"mapping": {"百": "ab", "カ": "b"}}))]).collect(), vec![])
        } else {
            (vec![], (0..n - 1).map(|j| quiet(true, j)).chain([("uppercase", json!(null))]).collect::<Vec<Set>>())
        };
        check_chain(w, &cf, &tf, &tx1, i, st)
    });
    // the other stages of the pool of the offset check, as JSON
    let pool: Vec<Set> = stage_pool().iter().map(|s| (s.kind(), s.args())).collect();
    let np = pool.len() as u64;
    run.family("pairs of other character filters", np * np * 3, |i, st| {
        let t = [vec![], vec![ts[2].clone()], vec![ts[7].clone(), ts[18].clone()]][(i / np / np) as usize].clone();
        check_chain(w, &[pool[(i % np) as usize].clone(), pool[(i / np % np) as usize].clone()], &t, &tx1, i, st)
    });
    // unknown kinds
    let mut names: Vec<(bool, Value, Option<Value>)> = vec![];
    for f in FILTERS {
        for n in near_names(f.name) {
            if !FILTERS.iter().any(|g| g.name == n) {
                for token in [false, true] {
                    names.push((token, json!(n), Some(base_args(f))));
                }
            }
        }
        // kinds of the other list
        if !FILTERS.iter().any(|g| g.name == f.name && g.token != f.token) {
            names.push((!f.token, json!(f.name), Some(base_args(f))));
            names.push((!f.token, json!(f.name), None));
        }
        for k in [json!(null), json!(1), json!(true), json!([f.name]), json!({ "kind": f.name }), json!({})] {
            names.push((f.token, k, Some(base_args(f))));
        }
    }
    run.family("unknown filter kinds", names.len() as u64, |i, st| {
        let (t, n, a) = &names[i as usize];
        refuse(w, *t, n, a.as_ref(), Verdict::Invalid, st)
    });
    // every value of every field, and every field missing
    let vs = values();
    let mut cases: Vec<(bool, &'static str, Value, Verdict)> = vec![];
    for f in FILTERS {
        cases.push((f.token, f.name, base_args(f), Verdict::Valid));
        for (n, ty) in f.fields {
            for v in vs.iter().map(Some).chain([None]) {
                let mut a = base_args(f);
                match v {
                    Some(v) => a.as_object_mut().unwrap().insert(n.to_string(), v.clone()),
                    None => a.as_object_mut().unwrap().remove(*n),
                };
                cases.push((f.token, f.name, a, judge(*ty, v)));
            }
        }
        let n = settings::count(f);
        for i in n - vs.len() as u64 - 1..n {
            let (a, v) = settings::nth(f, i);
            cases.push((f.token, f.name, a, v));
        }
    }
    run.family("every value of every setting", cases.len() as u64, |i, st| {
        let (t, n, a, v) = &cases[i as usize];
        refuse(w, *t, &json!(n), Some(a), *v, st)
    });
    // the shape of the configuration itself
    let dic = w.dir.0.join("dic");
    let tk = json!({"dictionary": {"path": dic}, "mode": "normal"});
    let mut shapes: Vec<(Value, Verdict)> = vec![(json!({ "tokenizer": tk }), Verdict::Valid)];
    for v in [json!(1), json!("x"), json!(true), json!({}), json!({"kind": "lowercase"})] {
        for l in ["character_filters", "token_filters"] {
            shapes.push((json!({"tokenizer": tk, (l): v}), Verdict::Invalid));
            shapes.push((json!({"tokenizer": tk, (l): [v]}), if v == json!({"kind": "lowercase"}) && l == "token_filters" { Verdict::Valid } else { Verdict::Invalid }));
            shapes.push((json!({"tokenizer": tk, (l): [null, v]}), Verdict::Invalid));
            shapes.push((json!({"tokenizer": tk, (l): [[v]]}), Verdict::Invalid));
        }
        shapes.push((json!({ "tokenizer": v }), Verdict::Invalid));
        shapes.push((v.clone(), Verdict::Invalid));
        shapes.push((json!([v]), Verdict::Invalid));
    }
    for v in [json!(null), json!([]), json!({})] {
        shapes.push((v, Verdict::Invalid));
    }
    for t in [
        json!({"mode": "normal"}),
        json!({"dictionary": null, "mode": "normal"}),
        json!({"dictionary": {}, "mode": "normal"}),
        json!({"dictionary": {"path": dic}, "mode": "fast"}),
        json!({"dictionary": {"path": dic}, "mode": "Normal"}),
        json!({"dictionary": {"path": dic}, "mode": 1}),
        json!({"dictionary": {"path": dic}, "mode": null}),
        json!({"dictionary": {"path": dic}, "mode": "decompose"}),
        json!({"dictionary": {"path": dic}, "mode": {"decompose": {}}}),
        json!({"dictionary": {"path": dic}, "mode": "normal", "x": 1}),
        json!({"dictionary": {"path": dic.join("no")}, "mode": "normal"}),
        json!({"dictionary": {"kind": "no"}, "mode": "normal"}),
        json!({"dictionary": {"kind": "no", "path": dic}, "mode": "normal"}),
        json!({"dictionary": {"path": dic}, "mode": "normal", "user_dictionary": {"path": dic.join("no.csv"), "kind": "ipadic"}}),
        json!({"dictionary": {"path": dic}, "mode": "normal", "user_dictionary": {"path": dic.join("no.bin")}}),
        json!({"dictionary": {"path": dic}, "mode": "normal", "user_dictionary": {}}),
        json!({"dictionary": {"path": dic}, "mode": "normal", "user_dictionary": 1}),
    ] {
        shapes.push((json!({ "tokenizer": t }), Verdict::Invalid));
        shapes.push((json!({ "tokenizer": t, "character_filters": [], "token_filters": [{"kind": "lowercase"}] }), Verdict::Invalid));
    }
    shapes.push((json!({"tokenizer": {"dictionary": {"path": dic}, "mode": {"decompose": {"kanji_penalty_length_threshold": 1, "kanji_penalty_length_penalty": 2, "other_penalty_length_threshold": 3, "other_penalty_length_penalty": 4}}, "user_dictionary": null}}), Verdict::Valid));
    run.family("shapes of the configuration", shapes.len() as u64, |i, st| {
        let (c, v) = &shapes[i as usize];
        st.traces += 1;
        st.states += 1;
        st.nontrivial += 1;
        match (from_json(&c.to_string()), v) {
            (Err(e), _) if e.starts_with("panicked") => viol(format!("shape {c}"), format!("the configuration {e}"), c.clone()),
            (Ok(_), Verdict::Invalid) => viol(format!("shape {c}"), "an invalid configuration was accepted", c.clone()),
            (Err(e), Verdict::Valid) => viol(format!("shape {c}"), format!("a valid configuration was {e}"), c.clone()),
            _ => Ok(()),
        }
    });
}
