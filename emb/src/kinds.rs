//! C25: kinds and configurations select the dictionary they name.
use crate::dictkit::{self, build_dir, load_dir, tok_json, tokenize, Tok, KINDS};
use crate::fw::*;
use crate::sources::emb_src;
use crate::{cli, near_names, rich};
use lindera::{AnalyzerConfig, Tokenizer, TokenizerConfig};
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::dictionary_builder::DictionaryBuilder;
use lindera_core::mode::{Mode, Penalty};
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryConfig, DictionaryKind, DictionaryLoader, UserDictionaryConfig};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::str::FromStr;

/// The builder crate of each kind, named directly.
pub fn own_builder(kind: &DictionaryKind) -> Box<dyn DictionaryBuilder> {
    match kind {
        DictionaryKind::IPADIC => Box::new(lindera_ipadic_builder::ipadic_builder::IpadicBuilder::new()),
        DictionaryKind::IPADICNEologd => Box::new(lindera_ipadic_neologd_builder::ipadic_neologd_builder::IpadicNeologdBuilder::new()),
        DictionaryKind::UniDic => Box::new(lindera_unidic_builder::unidic_builder::UnidicBuilder::new()),
        DictionaryKind::KoDic => Box::new(lindera_ko_dic_builder::ko_dic_builder::KoDicBuilder::new()),
        DictionaryKind::CcCedict => Box::new(lindera_cc_cedict_builder::cc_cedict_builder::CcCedictBuilder::new()),
    }
}
pub fn dict_bytes(d: &Dictionary) -> Vec<u8> {
    bincode::serialize(d).unwrap()
}
pub fn user_bytes(d: &UserDictionary) -> Vec<u8> {
    bincode::serialize(d).unwrap()
}
/// Every file of a directory.
pub fn dir_files(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            if e.path().is_file() {
                m.insert(e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap());
            }
        }
    }
    m
}
pub fn texts() -> Vec<String> {
    let n = strings_upto(EMB_CHUNKS.len() as u64, 3);
    (0..n).map(|i| nth_text(i, EMB_CHUNKS)).collect()
}
pub const EMB_CHUNKS: &[&str] = &["百", "二十", "円が", "は", "京都", "大阪", "東京", "神戸", "奈良", "走った", "The", "、", "カタカナー", "壱"];

/// A set of system sources: the embedded ones, and damaged or foreign ones that some kinds
/// refuse or skip.
pub fn sources() -> Vec<(String, Box<dyn Fn(&DictionaryKind, &Path) + Sync + Send>)> {
    let mut v: Vec<(String, Box<dyn Fn(&DictionaryKind, &Path) + Sync + Send>)> = vec![];
    for (i, k) in KINDS.into_iter().enumerate() {
        let next = KINDS[(i + 1) % 5].clone();
        v.push((
            format!("words like {} in the encoding of the kind", k.as_str()),
            Box::new(move |kind, d| emb_src(&k).write(kind, d)),
        ));
        v.push((
            format!("like {} with a row whose cost is not a number", next.as_str()),
            Box::new(move |kind, d| {
                emb_src(&next).write(kind, d);
                let mut w = std::fs::read(d.join("words.csv")).unwrap();
                let mut r = emb_src(&next).rows[0].clone();
                r.surface = "X".into();
                let line = dictkit::row_line(&r).replacen(&format!(",{},", r.cost), ",zero,", 1);
                w.extend(dictkit::encode(kind, &line));
                std::fs::write(d.join("words.csv"), w).unwrap();
            }),
        ));
    }
    for n in 4..24usize {
        v.push((
            format!("every row has {n} fields"),
            Box::new(move |kind, d| {
                emb_src(kind).write(kind, d);
                let t: String = (0..3)
                    .map(|i| {
                        let mut f: Vec<String> = vec![["日", "月", "火"][i].into(), "0".into(), "1".into(), "5".into()];
                        while f.len() < n {
                            f.push(format!("{}", f.len()));
                        }
                        dictkit::csv_line(&f)
                    })
                    .collect();
                std::fs::write(d.join("words.csv"), dictkit::encode(kind, &t)).unwrap();
            }),
        ));
    }
    for n in 3..16usize {
        v.push((
            format!("unknown words with {n} fields"),
            Box::new(move |kind, d| {
                emb_src(kind).write(kind, d);
                let mut f: Vec<String> = vec!["DEFAULT".into(), "0".into(), "1".into(), "5".into()];
                while f.len() < n {
                    f.push("*".into());
                }
                f.truncate(n);
                std::fs::write(d.join("unk.def"), dictkit::encode(kind, &(f.join(",") + "\n"))).unwrap();
            }),
        ));
    }
    v
}
pub fn user_sources() -> Vec<String> {
    let mut v = vec!["東京スカイツリー,カスタム名詞,トウキョウスカイツリー\n百円,数,ヒャクエン\n".to_string()];
    for n in 1..24usize {
        let mut f: Vec<String> = vec!["百円".into(), "0".into(), "1".into(), "-7".into()];
        while f.len() < n {
            f.push(format!("f{}", f.len()));
        }
        f.truncate(n);
        v.push(dictkit::csv_line(&f));
        if n != 3 {
            v.push(dictkit::csv_line(&f) + "円,名,エン\n");
            v.push("円,名,エン\n".to_string() + &dictkit::csv_line(&f));
        }
    }
    v
}

fn expect_tokens(tk: &Tokenizer, want: &Tokenizer, st: &mut Stats) -> Result<(), Value> {
    for t in texts() {
        let (a, b) = (tokenize(tk, &t), tokenize(want, &t));
        st.transitions += 1;
        if a != b {
            let j = |r: &Result<Vec<Tok>, String>| match r {
                Ok(t) => tok_json(t),
                Err(e) => json!(e),
            };
            return Err(json!({"text": t, "got": j(&a), "expected": j(&b)}));
        }
    }
    Ok(())
}

pub struct World {
    pub sc: Scratch,
    pub dirs: Vec<PathBuf>,
    pub dicts: Vec<Dictionary>,
}
pub fn world(run: &mut Run) -> Option<World> {
    let sc = Scratch::new();
    let (mut dirs, mut dicts) = (vec![], vec![]);
    let mut bad = None;
    for k in KINDS {
        let (i, o) = (sc.0.join(format!("src-{}", k.as_str())), sc.0.join(k.as_str()));
        emb_src(&k).write(&k, &i);
        match build_dir(&k, &i, &o).and_then(|_| load_dir(&o)) {
            Ok(d) => dicts.push(d),
            Err(e) => bad = Some(format!("the {} source: {e}", k.as_str())),
        }
        dirs.push(o);
    }
    if let Some(e) = bad {
        run.family("dictionaries of the check", 1, |_, _| viol("setup:dictionary", format!("a well-formed dictionary was not built: {e}"), json!({})));
        return None;
    }
    Some(World { sc, dirs, dicts })
}

pub fn c25(run: &mut Run) {
    run.rule = "Names: every kind and mode name in every API that reads names (FromStr, JSON, command line), and every one-edit neighbour of a name, which must be refused. Dictionaries: for every kind, the resolver's builder against the builder crate of that name on every enumerated source (byte comparison of every file, or both refuse), and the embedded dictionary against the one built from the source it was made from (byte comparison of the loaded dictionary, and tokens of every text of up to 3 chunks). Configurations: full products of kind x path and extension x kind x content; every tokenizer configuration of a product is written and read back through five encodings; every subset and order of the fields, with unknown and repeated fields.".into();
    run.assumptions = vec![
        "The embedded dictionaries are built by this machinery (offline, the project's build scripts can only embed a one-word dummy, which has no connection table and cannot tokenize); the code that embeds and loads them is the repository's.".into(),
        "A configuration with both kind and path uses the kind (the code's documented-by-implementation precedence).".into(),
    ];
    let w = match world(run) {
        Some(w) => w,
        None => return,
    };
    let w = &w;
    // ---- names
    let names = ["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"];
    run.family("kind names", 5, |i, st| {
        let (k, n) = (&KINDS[i as usize], names[i as usize]);
        let bad = |what: &str, got: String| viol(format!("name:{n}:{what}"), format!("kind {n}: {what} gives {got}"), json!({}));
        st.nontrivial += 1;
        st.states += 6;
        if k.as_str() != n {
            return bad("as_str", k.as_str().into());
        }
        match DictionaryKind::from_str(n) {
            Ok(g) if g == *k => {}
            g => return bad("from_str", format!("{g:?}")),
        }
        match serde_json::from_value::<DictionaryKind>(json!(n)) {
            Ok(g) if g == *k => {}
            g => return bad("JSON", format!("{g:?}")),
        }
        let s = serde_json::to_value(k).unwrap();
        if s != json!(n) {
            return bad("to JSON", s.to_string());
        }
        let v = DictionaryKind::variants();
        if v.iter().filter(|x| *x == k).count() != 1 || v.len() != 5 {
            return bad("variants", format!("{v:?}"));
        }
        let v = DictionaryKind::contained_variants();
        if v.iter().filter(|x| *x == k).count() != 1 || v.len() != 5 {
            return bad("contained_variants", format!("{v:?}"));
        }
        st.traces += 1;
        Ok(())
    });
    let mut near: Vec<String> = names.iter().flat_map(|n| near_names(n)).collect();
    near.extend(["IPADIC", "UniDic", "KoDic", "CcCedict", "IPADICNEologd", "ipadicneologd", "unk", "none", "null", "normal"].map(String::from));
    near.retain(|n| !names.contains(&n.as_str()));
    near.sort();
    near.dedup();
    run.family("names that are no kind", near.len() as u64, |i, st| {
        let n = &near[i as usize];
        st.nontrivial += 1;
        st.states += 3;
        let bad = |what: &str, got: String| viol(format!("noname:{n:?}:{what}"), format!("{what} accepts the kind {n:?} as {got}"), json!({}));
        if let Ok(k) = DictionaryKind::from_str(n) {
            return bad("from_str", format!("{k:?}"));
        }
        if let Ok(k) = serde_json::from_value::<DictionaryKind>(json!(n)) {
            return bad("JSON", format!("{k:?}"));
        }
        if let Ok(k) = serde_json::from_value::<TokenizerConfig>(json!({"dictionary": {"kind": n}, "mode": "normal"})) {
            return bad("the tokenizer configuration", format!("{k:?}"));
        }
        let a = AnalyzerConfig::from_slice(&serde_json::to_vec(&json!({"tokenizer": {"dictionary": {"kind": n}, "mode": "normal"}})).unwrap());
        if let Ok(Ok(_)) = a.map(|a| lindera::Analyzer::from_config(&a)) {
            return bad("the analyzer configuration", "a kind".into());
        }
        Ok(())
    });
    let mut nmodes: Vec<String> = ["normal", "decompose"].iter().flat_map(|n| near_names(n)).collect();
    nmodes.extend(["search", "extended", "ipadic", "Normal"].map(String::from));
    nmodes.sort();
    nmodes.dedup();
    run.family("mode names", nmodes.len() as u64 + 2, |i, st| {
        st.nontrivial += 1;
        st.states += 2;
        if i < 2 {
            let (n, m) = [("normal", Mode::Normal), ("decompose", Mode::Decompose(Penalty::default()))][i as usize].clone();
            let fs = Mode::from_str(n);
            if !matches!(&fs, Ok(g) if *g == m) {
                return viol(format!("mode:{n}"), format!("mode {n} reads as {fs:?}"), json!({}));
            }
            if let Mode::Decompose(p) = &m {
                if (p.kanji_penalty_length_threshold, p.kanji_penalty_length_penalty, p.other_penalty_length_threshold, p.other_penalty_length_penalty) != (2, 3000, 7, 1700) {
                    return viol("mode:default-penalty", "the default penalties changed", json!(format!("{p:?}")));
                }
            }
            return Ok(());
        }
        let n = &nmodes[i as usize - 2];
        if let Ok(m) = Mode::from_str(n) {
            return viol(format!("nomode:{n:?}"), format!("the mode {n:?} is accepted as {m:?}"), json!({}));
        }
        if let Ok(m) = serde_json::from_value::<TokenizerConfig>(json!({"dictionary": {"kind": "ipadic"}, "mode": n})) {
            return viol(format!("nomode-json:{n:?}"), format!("the mode {n:?} is accepted as {m:?}"), json!({}));
        }
        Ok(())
    });
    // ---- builders
    let srcs = sources();
    run.family("system dictionary builders", srcs.len() as u64 * 5, |i, st| {
        let (k, (name, write)) = (&KINDS[i as usize % 5], &srcs[i as usize / 5]);
        let sc = Scratch::new();
        let (src, a, b) = (sc.0.join("in"), sc.0.join("a"), sc.0.join("b"));
        write(k, &src);
        let ra = build_dir(k, &src, &a);
        let rb = guard(|| own_builder(k).build_dictionary(&src, &b)).map(|r| r.map_err(|e| e.to_string()));
        let rb = match rb {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(e),
            Err(p) => Err(p),
        };
        st.states += 1;
        st.traces += 1;
        if ra.is_ok() != rb.is_ok() {
            return viol(format!("builder:{}:{name}", k.as_str()), format!("{name}: the resolved {} builder gives {ra:?}, the crate's own {rb:?}", k.as_str()), json!({}));
        }
        if ra.is_ok() {
            st.nontrivial += 1;
            let (fa, fb) = (dir_files(&a), dir_files(&b));
            if fa != fb {
                let d: Vec<&String> = fa.keys().chain(fb.keys()).filter(|n| fa.get(*n) != fb.get(*n)).collect();
                return viol(format!("builder-files:{}:{name}", k.as_str()), format!("{name}: the resolved {} builder writes other files ({d:?}) than the crate's own", k.as_str()), json!({}));
            }
        }
        Ok(())
    });
    let us = user_sources();
    run.family("user dictionary builders", us.len() as u64 * 5, |i, st| {
        let (k, text) = (&KINDS[i as usize % 5], &us[i as usize / 5]);
        let sc = Scratch::new();
        let src = sc.0.join("u.csv");
        std::fs::write(&src, text).unwrap();
        let (pa, pb) = (sc.0.join("a.bin"), sc.0.join("b.bin"));
        let flat = |r: Result<Result<(), String>, String>| match r {
            Ok(r) => r,
            Err(p) => Err(format!("panic {p}")),
        };
        let ra = flat(guard(|| DictionaryBuilderResolver::resolve_builder(k.clone()).unwrap().build_user_dictionary(&src, &pa).map_err(|e| e.to_string())));
        let rb = flat(guard(|| own_builder(k).build_user_dictionary(&src, &pb).map_err(|e| e.to_string())));
        let rc = guard(|| DictionaryLoader::load_user_dictionary_from_csv(k.clone(), src.clone()));
        st.states += 1;
        st.traces += 1;
        let key = format!("user-builder:{}:{text:?}", k.as_str());
        let rc_ok = matches!(rc, Ok(Ok(_)));
        if ra.is_ok() != rb.is_ok() || rc_ok != rb.is_ok() {
            return viol(key, format!("the {} builders disagree whether the user dictionary is well-formed: resolved {ra:?}, own {rb:?}, loader {}", k.as_str(), rc_ok), json!({"csv": text}));
        }
        if ra.is_ok() {
            st.nontrivial += 1;
            let b = std::fs::read(&pb).unwrap();
            if std::fs::read(&pa).unwrap() != b || rc.ok().and_then(|r| r.ok()).map(|d| user_bytes(&d)) != Some(b) {
                return viol(key, format!("the {} builders make different user dictionaries", k.as_str()), json!({"csv": text}));
            }
        }
        Ok(())
    });
    // ---- embedded dictionaries
    let ways = ["kind", "config", "tokenizer config", "tokenizer JSON", "analyzer JSON", "clone"];
    run.family("embedded dictionaries", 5 * ways.len() as u64, |i, st| {
        let (k, way) = ((i % 5) as usize, ways[i as usize / 5]);
        let kind = &KINDS[k];
        let key = format!("embedded:{}:{way}", kind.as_str());
        let e = |e: String| -> Viol { Viol { key: key.clone(), what: format!("the embedded {} dictionary is not available by {way}: {e}", kind.as_str()), detail: json!({}) } };
        let tcj = json!({"dictionary": {"kind": names[k]}, "mode": "normal"});
        let tk = match guard(|| -> Result<Tokenizer, String> {
            let m = |e: lindera_core::error::LinderaError| e.to_string();
            Ok(match way {
                "kind" => Tokenizer::new(DictionaryLoader::load_dictionary_from_kind(kind.clone()).map_err(m)?, None, Mode::Normal),
                "config" => Tokenizer::new(DictionaryLoader::load_dictionary_from_config(DictionaryConfig { kind: Some(kind.clone()), path: None }).map_err(m)?, None, Mode::Normal),
                "tokenizer config" => Tokenizer::from_config(TokenizerConfig { dictionary: DictionaryConfig { kind: Some(kind.clone()), path: None }, user_dictionary: None, mode: Mode::Normal }).map_err(m)?,
                "tokenizer JSON" => Tokenizer::from_config(serde_json::from_value(tcj.clone()).map_err(|e| e.to_string())?).map_err(m)?,
                "analyzer JSON" => lindera::Analyzer::from_config(&AnalyzerConfig::from_slice(json!({ "tokenizer": tcj }).to_string().as_bytes()).map_err(m)?).map_err(m)?.tokenizer,
                _ => Tokenizer::new(DictionaryLoader::load_dictionary_from_kind(kind.clone()).map_err(m)?.clone(), None, Mode::Normal).clone(),
            })
        }) {
            Ok(Ok(t)) => t,
            Ok(Err(x)) => return Err(e(x)),
            Err(x) => return Err(e(x)),
        };
        st.states += 1;
        let same = dict_bytes(&tk.dictionary) == dict_bytes(&w.dicts[k]);
        let want = Tokenizer::new(w.dicts[k].clone(), None, Mode::Normal);
        if let Err(d) = expect_tokens(&tk, &want, st) {
            return viol(key, format!("the embedded {} dictionary ({way}) gives other tokens than the one it was made from", kind.as_str()), d);
        }
        if !same {
            return viol(key, format!("the embedded {} dictionary ({way}) is not the one it was made from", kind.as_str()), json!({}));
        }
        st.nontrivial += 1;
        st.traces += 1;
        Ok(())
    });
    // the dictionaries differ, so that a mix-up would be seen
    run.family("kinds are distinguishable", 10, |i, st| {
        let (a, b) = [(0, 1), (0, 2), (0, 3), (0, 4), (1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)][i as usize];
        let t = |k: usize| Tokenizer::new(w.dicts[k].clone(), None, Mode::Normal);
        if expect_tokens(&t(a), &t(b), st).is_ok() {
            return viol("check:indistinguishable", "two dictionaries of the check give the same tokens", json!([a, b]));
        }
        st.nontrivial += 1;
        Ok(())
    });
    // ---- DictionaryConfig: kind x path
    let missing = w.sc.0.join("nowhere");
    let file = w.dirs[0].join("dict.da");
    let mut paths: Vec<Option<PathBuf>> = vec![None];
    paths.extend(w.dirs.iter().map(|d| Some(d.clone())));
    paths.push(Some(missing.clone()));
    paths.push(Some(file));
    paths.push(Some(w.sc.0.clone()));
    paths.push(Some(w.dirs[2].join(".").join("..").join(names[2])));
    run.family("dictionary configurations", 6 * paths.len() as u64, |i, st| {
        let (ki, p) = ((i % 6) as usize, &paths[i as usize / 6]);
        let kind = if ki == 0 { None } else { Some(KINDS[ki - 1].clone()) };
        let want: Option<usize> = match (&kind, p) {
            (Some(_), _) => Some(ki - 1),
            (None, Some(p)) if p.ends_with(names[2]) => Some(2),
            (None, Some(p)) => w.dirs.iter().position(|d| d == p),
            (None, None) => None,
        };
        st.states += 1;
        let got = guard(|| DictionaryLoader::load_dictionary_from_config(DictionaryConfig { kind: kind.clone(), path: p.clone() }));
        let shown = format!("kind {:?}, path {}", kind.as_ref().map(|k| k.as_str()), p.as_ref().map_or("none".into(), |p| p.file_name().map_or("?".into(), |n| n.to_string_lossy().into_owned())));
        let key = format!("dictionary-config:{i}");
        match (got, want) {
            (Err(p), _) => viol(key, format!("{shown}: panicked: {p}"), json!({})),
            (Ok(Err(_)), None) => Ok(()),
            (Ok(Err(e)), Some(_)) => viol(key, format!("{shown}: refused: {e}"), json!({})),
            (Ok(Ok(_)), None) => viol(key, format!("{shown}: accepted"), json!({})),
            (Ok(Ok(d)), Some(k)) => {
                st.nontrivial += 1;
                st.traces += 1;
                if dict_bytes(&d) != dict_bytes(&w.dicts[k]) {
                    return viol(key, format!("{shown}: not the {} dictionary", names[k]), json!({}));
                }
                Ok(())
            }
        }
    });
    // ---- UserDictionaryConfig: file name x content x kind
    let csvs: Vec<(&str, String)> = vec![
        ("simple", "百円,数,ヒャクエン\n".into()),
        ("13 fields", "百円,0,1,-7,a,b,c,d,e,f,g,h,i\n".into()),
        ("12 fields", "百円,0,1,-7,a,b,c,d,e,f,g,h\n".into()),
        ("21 fields", "百円,0,1,-7,a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q\n".into()),
    ];
    let fnames = ["user.csv", "user.bin", "user.txt", "user", ".csv", "user.csv.bin", "user.bin.csv", "user.", "user.csvx", "csv", "user.tsv", "user.bin ", "bin"];
    let ucases = csvs.len() as u64 * 6 * 6 * fnames.len() as u64;
    run.family("user dictionary configurations", ucases, |i, st| {
        let d = digits(i, &[csvs.len() as u64, 6, 6, fnames.len() as u64]);
        let (csv, ki, content, name) = (&csvs[d[0]], d[1], d[2], fnames[d[3]]);
        let kind = if ki == 0 { None } else { Some(KINDS[ki - 1].clone()) };
        let sc = Scratch::new();
        let p = sc.0.join(name);
        // content 0: the CSV; 1..=5: compiled by that kind's builder
        let src = sc.0.join("source-of-it.csv");
        std::fs::write(&src, &csv.1).unwrap();
        let compiled = |k: &DictionaryKind| own_builder(k).build_user_dict(&src).ok().map(|d| user_bytes(&d));
        let bytes = if content == 0 {
            csv.1.clone().into_bytes()
        } else {
            match guard(|| compiled(&KINDS[content - 1])) {
                Ok(Some(b)) => b,
                _ => return Ok(()),
            }
        };
        std::fs::write(&p, &bytes).unwrap();
        let ext = Path::new(name).extension().map(|e| e.to_str().unwrap());
        // None: refused. A compiled file under a CSV name, or the reverse, is not judged
        let want: Option<Vec<u8>> = match (ext, content, &kind) {
            (Some("csv"), 0, Some(k)) => guard(|| compiled(k)).ok().flatten(),
            (Some("csv"), 0, None) => None,
            (Some("bin"), c, _) if c > 0 => Some(bytes.clone()),
            (Some("csv"), _, None) => None,
            (Some("csv"), _, _) | (Some("bin"), _, _) => {
                // must not crash
                return match guard(|| DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: p.clone(), kind: kind.clone() }).map(|_| ())) {
                    Ok(_) => Ok(()),
                    Err(e) => viol(format!("user-config-panic:{i}"), format!("{name}: panicked: {e}"), json!({})),
                };
            }
            _ => None,
        };
        st.states += 1;
        st.traces += 1;
        let via_json = i % 2 == 1;
        let got = guard(|| {
            let c = UserDictionaryConfig { path: p.clone(), kind: kind.clone() };
            let c = if via_json { serde_json::from_value(json!({"path": p, "kind": kind.as_ref().map(|k| k.as_str())})).unwrap() } else { c };
            DictionaryLoader::load_user_dictionary_from_config(c)
        });
        let shown = format!("{name} holding {} of {}, kind {:?}", if content == 0 { "the CSV".to_string() } else { format!("the compiled ({}) form", names[content - 1]) }, csv.0, kind.as_ref().map(|k| k.as_str()));
        let key = format!("user-config:{i}");
        match (got, want) {
            (Err(p), _) => viol(key, format!("{shown}: panicked: {p}"), json!({})),
            (Ok(Err(_)), None) => Ok(()),
            (Ok(Err(e)), Some(_)) => viol(key, format!("{shown}: refused: {e}"), json!({})),
            (Ok(Ok(_)), None) => viol(key, format!("{shown}: accepted"), json!({})),
            (Ok(Ok(g)), Some(b)) => {
                st.nontrivial += 1;
                if user_bytes(&g) != b {
                    return viol(key, format!("{shown}: not the words of the file read as that kind"), json!({}));
                }
                Ok(())
            }
        }
    });
    // ---- configurations written and read back
    let podd: Vec<&str> = vec!["/tmp/x", "", "a b", "辞書/日本", "q\"uote\\back", "new\nline", "\u{0}", "C:\\dir", "..", "😀"];
    let pens: Vec<Mode> = {
        let mut v = vec![Mode::Normal, Mode::Decompose(Penalty::default())];
        let vals = [0usize, 1, usize::MAX];
        let ints = [i32::MIN, -1, 0, i32::MAX];
        for a in vals {
            for b in ints {
                for c in vals {
                    for e in ints {
                        v.push(dictkit::pen(a, b, c, e));
                    }
                }
            }
        }
        v
    };
    let np = podd.len() as u64;
    let users = 1 + np * 6;
    let confs = 6 * (np + 1) * users;
    let codecs = 6u64;
    run.family("tokenizer configurations read back", (confs + pens.len() as u64) * codecs, |i, st| {
        let (codec, i) = (i % codecs, i / codecs);
        let conf = if i < confs {
            let d = digits(i, &[6, np + 1, users]);
            let kd = |n: usize| if n == 0 { None } else { Some(KINDS[n - 1].clone()) };
            TokenizerConfig {
                dictionary: DictionaryConfig { kind: kd(d[0]), path: if d[1] == 0 { None } else { Some(PathBuf::from(podd[d[1] - 1])) } },
                user_dictionary: if d[2] == 0 { None } else { Some(UserDictionaryConfig { path: PathBuf::from(podd[(d[2] - 1) % np as usize]), kind: kd((d[2] - 1) / np as usize) }) },
                mode: pens[i as usize % pens.len()].clone(),
            }
        } else {
            TokenizerConfig { dictionary: DictionaryConfig { kind: None, path: None }, user_dictionary: None, mode: pens[(i - confs) as usize].clone() }
        };
        st.states += 1;
        st.nontrivial += 1;
        st.traces += 1;
        let back: Result<TokenizerConfig, String> = match codec {
            0 => serde_json::from_str(&serde_json::to_string(&conf).unwrap()).map_err(|e| e.to_string()),
            1 => serde_json::from_slice(&serde_json::to_vec_pretty(&conf).unwrap()).map_err(|e| e.to_string()),
            2 => serde_json::from_value(serde_json::to_value(&conf).unwrap()).map_err(|e| e.to_string()),
            3 => serde_json::from_reader(&serde_json::to_vec(&conf).unwrap()[..]).map_err(|e| e.to_string()),
            4 => bincode::deserialize(&bincode::serialize(&conf).unwrap()).map_err(|e| e.to_string()),
            _ => {
                // a JSON array of the fields in order, as the reader also accepts
                let v = serde_json::to_value(&conf).unwrap();
                serde_json::from_value(json!([v["dictionary"], v["user_dictionary"], v["mode"]])).map_err(|e| e.to_string())
            }
        };
        match back {
            Ok(b) if b == conf => Ok(()),
            Ok(b) => viol(format!("config-changed:{codec}:{conf:?}"), "a tokenizer configuration reads back differently", json!({"written": format!("{conf:?}"), "read": format!("{b:?}")})),
            Err(e) => viol(format!("config-refused:{codec}:{conf:?}"), format!("a written tokenizer configuration is refused: {e}"), json!({"written": format!("{conf:?}"), "codec": codec})),
        }
    });
    // ---- fields of the tokenizer configuration
    let parts: Vec<(&str, Vec<(Value, bool)>)> = vec![
        ("dictionary", vec![(json!({"kind": "ko-dic"}), true), (json!({"path": "/x"}), true), (json!({}), true), (json!({"kind": "x"}), false), (json!(null), false), (json!("ipadic"), false), (json!({"kind": 3}), false)]),
        ("user_dictionary", vec![(json!({"path": "u.csv", "kind": "unidic"}), true), (json!({"path": "u.bin"}), true), (json!(null), true), (json!({"kind": "ipadic"}), false), (json!("u.csv"), false), (json!({"path": "u", "kind": "y"}), false)]),
        ("mode", vec![(json!("normal"), true), (json!({"decompose": {"kanji_penalty_length_threshold": 1, "kanji_penalty_length_penalty": 2, "other_penalty_length_threshold": 3, "other_penalty_length_penalty": 4}}), true), (json!("x"), false), (json!({"decompose": {}}), false), (json!({"decompose": {"kanji_penalty_length_threshold": -1, "kanji_penalty_length_penalty": 2, "other_penalty_length_threshold": 3, "other_penalty_length_penalty": 4}}), false), (json!(null), false), (json!({"normal": {}}), false)]),
        ("dictionary_", vec![(json!(1), false)]),
        ("User_dictionary", vec![(json!(null), false)]),
    ];
    // sequences of up to 3 (thorough 4) fields, each with each of its values
    let opts: Vec<(&str, &Value, bool)> = parts.iter().flat_map(|(n, vs)| vs.iter().map(move |(v, ok)| (*n, v, *ok))).collect();
    let opts = &opts;
    let maxf = run.b(3, 4);
    run.family("fields of a tokenizer configuration", strings_upto(opts.len() as u64, maxf), |i, st| {
        let mut v = vec![];
        nth_string(i, opts.len() as u64, &mut v);
        let fields: Vec<_> = v.iter().map(|&x| opts[x]).collect();
        let text = format!("{{{}}}", fields.iter().map(|(n, v, _)| format!("{}:{}", json!(n), v)).collect::<Vec<_>>().join(","));
        let count = |n: &str| fields.iter().filter(|f| f.0 == n).count();
        let valid = fields.iter().all(|f| f.2) && count("dictionary") == 1 && count("user_dictionary") <= 1 && count("mode") <= 1;
        st.states += 1;
        st.traces += 1;
        let got: Result<TokenizerConfig, _> = serde_json::from_str(&text);
        match (got, valid) {
            (Err(_), false) => Ok(()),
            (Ok(c), false) => viol(format!("fields:{text}"), format!("the configuration {text} is accepted as {c:?}"), json!({})),
            (Err(e), true) => viol(format!("fields:{text}"), format!("the configuration {text} is refused: {e}"), json!({})),
            (Ok(c), true) => {
                st.nontrivial += 1;
                let f = |n: &str| fields.iter().find(|f| f.0 == n).map(|f| f.1.clone()).unwrap_or(Value::Null);
                let want = TokenizerConfig {
                    dictionary: DictionaryConfig { kind: f("dictionary")["kind"].as_str().map(|k| DictionaryKind::from_str(k).unwrap()), path: f("dictionary")["path"].as_str().map(PathBuf::from) },
                    user_dictionary: f("user_dictionary")["path"].as_str().map(|p| UserDictionaryConfig { path: PathBuf::from(p), kind: f("user_dictionary")["kind"].as_str().map(|k| DictionaryKind::from_str(k).unwrap()) }),
                    mode: if f("mode").is_object() { dictkit::pen(1, 2, 3, 4) } else { Mode::Normal },
                };
                if c != want {
                    return viol(format!("fields:{text}"), format!("the configuration {text} reads as {c:?}"), json!({}));
                }
                Ok(())
            }
        }
    });
    // ---- whole tokenizers from configurations: dictionary x user dictionary x mode
    let uw = Scratch::new();
    let csv = uw.0.join("u.csv");
    std::fs::write(&csv, "百二十円,数,ヒャク\n京都大阪,地名,ケイハン\n").unwrap();
    for k in KINDS {
        if let Ok(d) = own_builder(&k).build_user_dict(&csv) {
            std::fs::write(uw.0.join(format!("{}.bin", k.as_str())), user_bytes(&d)).unwrap();
        }
    }
    let (uw, csv) = (&uw, &csv);
    run.family("tokenizers from configurations", 10 * 11 * 3 * 2, |i, st| {
        let d = digits(i, &[10, 11, 3, 2]);
        let k = d[0] % 5;
        let dc = if d[0] < 5 { DictionaryConfig { kind: Some(KINDS[k].clone()), path: None } } else { DictionaryConfig { kind: None, path: Some(w.dirs[k].clone()) } };
        let uc = match d[1] {
            0 => None,
            n if n < 6 => Some(UserDictionaryConfig { path: csv.clone(), kind: Some(KINDS[n - 1].clone()) }),
            n => Some(UserDictionaryConfig { path: uw.0.join(format!("{}.bin", names[n - 6])), kind: None }),
        };
        let mode = [Mode::Normal, Mode::Decompose(Penalty::default()), dictkit::pen(0, 2000, 1, 900)][d[2]].clone();
        let user = if d[1] == 0 { None } else { own_builder(&KINDS[(d[1] - 1) % 5]).build_user_dict(csv).ok() };
        let want = Tokenizer::new(w.dicts[k].clone(), user, mode.clone());
        let conf = TokenizerConfig { dictionary: dc, user_dictionary: uc, mode };
        let got = guard(|| {
            if d[3] == 0 {
                Tokenizer::from_config(conf.clone()).map_err(|e| e.to_string())
            } else {
                let j = serde_json::to_vec(&json!({ "tokenizer": conf })).unwrap();
                AnalyzerConfig::from_slice(&j).and_then(|c| lindera::Analyzer::from_config(&c)).map(|a| a.tokenizer).map_err(|e| e.to_string())
            }
        });
        let key = format!("tokenizer-config:{i}");
        let tk = match got {
            Ok(Ok(t)) => t,
            e => return viol(key, format!("the configuration {conf:?} is refused: {}", e.map(|r| r.err().unwrap()).unwrap_or_else(|p| p)), json!({})),
        };
        st.states += 1;
        st.nontrivial += 1;
        if tk.mode != want.mode {
            return viol(key, format!("the configuration {conf:?} gives the mode {:?}", tk.mode), json!({}));
        }
        for t in ["百二十円が京都大阪は走った", "東京都The百二十", "奈良がは、円が壱壱壱百二"] {
            let (a, b) = (tokenize(&tk, t), tokenize(&want, t));
            st.traces += 1;
            if a != b {
                return viol(key, format!("the configuration {conf:?} gives other tokens than the dictionaries and mode it names"), json!({"text": t, "got": format!("{a:?}"), "want": format!("{b:?}")}));
            }
        }
        Ok(())
    });
    // ---- filter configurations
    let _ = rich::CHUNKS;
    crate::filterconf::families(run);
    // ---- the command line
    cli::kind_families(run, w);
}
