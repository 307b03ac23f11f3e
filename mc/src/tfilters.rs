//! Token filters: C17, C18, C19, C20.
use crate::filters::{same_but_text, tf, tf_apply};
use crate::fw::*;
use lindera_core::word_entry::WordId;
use lindera_filter::token::Token;
use lindera_filter::token_filter::BoxTokenFilter;
use serde_json::{json, Value};
use std::collections::BTreeSet;

fn load(kind: &str, args: &Value) -> Result<BoxTokenFilter, Viol> {
    tf(kind, args).map_err(|e| Viol { key: format!("{kind} {args}"), what: format!("valid {kind} settings {args}: {e}"), detail: json!({"kind": kind, "args": args}) })
}
/// The filters of the ways of building one that accept these settings; none may crash.
fn built(kind: &str, args: &Value) -> Result<Vec<BoxTokenFilter>, Viol> {
    let mut v = vec![];
    for (way, f) in crate::routes::token_filters(kind, args) {
        match f {
            Ok(f) => v.push(f),
            Err(e) if e.starts_with("panicked") => return Err(Viol { key: format!("{kind} {args} by {way}"), what: format!("{kind} {args} built by {way} {e}"), detail: json!({"kind": kind, "args": args, "way": way}) }),
            Err(_) => {}
        }
    }
    Ok(v)
}
/// Tokens with every field different from every other token's.
pub fn toks(spec: &[(&str, Vec<&str>)]) -> Vec<Token> {
    let mut at = 5;
    let mut pos = 2;
    spec.iter()
        .enumerate()
        .map(|(i, (t, d))| {
            let s = at + i % 2;
            at = s + t.len() + 1;
            let pl = 1 + i % 3;
            let p = pos;
            pos += pl;
            Token {
                text: t.to_string(),
                byte_start: s,
                byte_end: at,
                position: p,
                position_length: pl,
                word_id: WordId(i as u32 * 3 + 1, i % 2 == 0),
                details: d.iter().map(|s| s.to_string()).collect(),
            }
        })
        .collect()
}
/// Details of words of several kinds: filters that look at the text alone must treat them alike.
fn any_details(j: usize) -> Vec<&'static str> {
    match j % 5 {
        0 => vec!["名詞", "一般", "*", "*"],
        1 => vec!["UNK"],
        2 => vec!["動詞", "自立", "*", "*", "五段・ラ行", "基本形", "a", "b", "c"],
        3 => vec!["カスタム名詞", "*", "*", "*", "*", "*", "x", "ヨミ", "*"],
        _ => vec![""],
    }
}
pub fn show(t: &[Token]) -> Value {
    json!(t.iter().map(|t| json!([t.text, t.byte_start, t.byte_end, t.position, t.position_length, t.details])).collect::<Vec<_>>())
}
pub fn same(a: &Token, b: &Token) -> bool {
    a.text == b.text && same_but_text(a, b)
}

fn check_retain(kind: &str, args: &Value, f: &BoxTokenFilter, input: &[Token], keep: &dyn Fn(&Token) -> bool, st: &mut Stats) -> Res {
    let want: Vec<&Token> = input.iter().filter(|t| keep(t)).collect();
    st.transitions += input.len() as u64;
    st.traces += 1;
    if want.len() != input.len() && !want.is_empty() {
        st.nontrivial += 1;
        st.sample(|| json!({"kind": kind, "args": args, "tokens": show(input), "kept": want.len()}));
    }
    let key = || format!("{kind} {args} {}", show(input));
    let detail = || json!({"kind": kind, "args": args, "tokens": show(input)});
    match tf_apply(f, input) {
        Err(e) => viol(key(), format!("{kind} {args} failed: {e}"), detail()),
        Ok(got) => {
            if got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| same(a, b)) {
                Ok(())
            } else {
                viol(key(), format!("{kind} {args}: kept {}, the condition keeps {}", show(&got), show(&want.into_iter().cloned().collect::<Vec<_>>())), detail())
            }
        }
    }
}
/// The four tag levels of a token.
fn levels(t: &Token) -> [String; 4] {
    let mut l = ["*", "*", "*", "*"].map(String::from);
    let n = t.details.len().min(4);
    for i in 0..n {
        l[i] = t.details[i].clone();
    }
    l
}
fn tag_levels(tag: &str) -> [String; 4] {
    let mut l = ["*", "*", "*", "*"].map(String::from);
    for (i, p) in tag.split(',').enumerate() {
        l[i] = p.to_string();
    }
    l
}
fn selected(tags: &[&str], t: &Token) -> bool {
    let l = levels(t);
    // no token has a tag of more than four levels
    tags.iter().any(|g| g.matches(',').count() < 4 && tag_levels(g) == l)
}
/// Tags of more than four levels, alone and with others; they may be refused, but must not take others with them.
const OVER: [&str; 3] = ["名詞,数,*,*,*", "a,b,c,d,e", "名詞,一般,人名,姓,x,y"];
fn with_over<'a>(tags: &[&'a str]) -> Vec<Vec<&'a str>> {
    let mut v = vec![];
    for o in 1..8 {
        for s in small_sets(tags, 3) {
            v.push((0..3).filter(|j| o >> j & 1 == 1).map(|j| OVER[j]).chain(s).collect());
        }
    }
    v
}
/// The order of the tags in a filter depends on the seed of its table: several filters per setting.
const SEEDS: u64 = 6;
fn small_sets<'a>(pool: &[&'a str], k: usize) -> Vec<Vec<&'a str>> {
    (0u64..1 << pool.len()).filter(|m| m.count_ones() as usize <= k).map(|m| (0..pool.len()).filter(|j| m >> j & 1 == 1).map(|j| pool[j]).collect()).collect()
}

pub fn c17(run: &mut Run) {
    run.rule = "every setting of each filter from a bounded set, against every token list up to a bound over tokens that differ in each tag level, number of details, text and text length; all fields of kept tokens compared. non-trivial: some but not all tokens are kept".into();
    let words = ["", "a", "A", "ab", "東京", "東", "京", "が", "か\u{3099}", "a ", "𠮷"];
    let sets = small_sets(&words, run.b(3, 4));
    let nl = run.b(3u32, 4);
    let lists: Vec<Vec<usize>> = (0..strings_upto(words.len() as u64, nl)).map(|i| { let mut v = vec![]; nth_string(i, words.len() as u64, &mut v); v }).collect();
    run.family("keep and stop words", sets.len() as u64 * 2, |i, st| {
        let set = &sets[(i / 2) as usize];
        let args = json!({ "words": set });
        let kind = ["keep_words", "stop_words"][(i % 2) as usize];
        let f = load(kind, &args)?;
        for (x, l) in lists.iter().enumerate() {
            let t = toks(&l.iter().enumerate().map(|(j, &w)| (words[w], any_details(x / 3 + j))).collect::<Vec<_>>());
            check_retain(kind, &args, &f, &t, &|k| set.contains(&k.text.as_str()) == (kind == "keep_words"), st)?;
        }
        Ok(())
    });
    // Japanese tags
    let dets: Vec<Vec<&str>> = vec![
        vec!["名詞", "一般", "*", "*", "*", "x"],
        vec!["名詞", "固有名詞", "人名", "姓", "*", "y"],
        vec!["名詞", "固有名詞", "人名", "名", "*"],
        vec!["名詞", "固有名詞", "*", "*"],
        vec!["名詞", "*", "*", "*", "一般"],
        vec!["助詞", "格助詞", "一般", "*", "*", "*", "*", "が", "ガ", "ガ"],
        vec!["UNK"],
        vec!["名詞", "一般"],
        vec!["名詞", "固有名詞", "人名"],
        vec![],
        vec!["名詞"],
        vec!["一般", "名詞", "*", "*"],
        vec!["*", "*", "*", "*"],
        vec!["名詞,一般", "*", "*", "*"],
    ];
    // a comma inside a detail field makes levels ambiguous; such tokens only have to be handled
    let dets = &dets[..13];
    let tags = ["名詞", "名詞,一般", "名詞,固有名詞", "名詞,固有名詞,人名,姓", "名詞,固有名詞,人名", "助詞,格助詞,一般", "助詞", "UNK", "一般,名詞,*,*", "*", "", "名詞,*,*,*"];
    let tsets = small_sets(&tags, run.b(3, 4));
    let nd = dets.len() as u64;
    let lists: Vec<Vec<usize>> = (0..strings_upto(nd, run.b(3, 4))).map(|i| { let mut v = vec![]; nth_string(i, nd, &mut v); v }).collect();
    let names = ["あ", "い", "う", "え"];
    run.family("Japanese keep and stop tags", tsets.len() as u64 * 2, |i, st| {
        let set = &tsets[(i / 2) as usize];
        let args = json!({ "tags": set });
        let kind = ["japanese_keep_tags", "japanese_stop_tags"][(i % 2) as usize];
        let f = load(kind, &args)?;
        for l in &lists {
            let t = toks(&l.iter().enumerate().map(|(j, &d)| (names[j], dets[d].clone())).collect::<Vec<_>>());
            check_retain(kind, &args, &f, &t, &|k| selected(set, k) == (kind == "japanese_keep_tags"), st)?;
        }
        Ok(())
    });
    let over = with_over(&tags[..7]);
    run.family("Japanese tags of too many levels", over.len() as u64 * 2 * SEEDS, |i, st| {
        let set = &over[(i / 2 / SEEDS) as usize];
        let args = json!({ "tags": set });
        let kind = ["japanese_keep_tags", "japanese_stop_tags"][(i % 2) as usize];
        for f in built(kind, &args)? {
            let t = toks(&dets.iter().map(|d| ("あ", d.clone())).collect::<Vec<_>>());
            check_retain(kind, &args, &f, &t, &|k| selected(set, k) == (kind == "japanese_keep_tags"), st)?;
        }
        Ok(())
    });
    let kd: Vec<Vec<&str>> = vec![vec!["NNG", "*", "T", "가"], vec!["NNP", "인명"], vec!["UNK"], vec!["JKS", "NNG"], vec!["VV+EC", "*"], vec![""]];
    let ktags = ["NNG", "NNP", "UNK", "JKS", "VV", "VV+EC", "", "NNG,*"];
    let ksets = small_sets(&ktags, 4);
    run.family("Korean keep and stop tags", ksets.len() as u64 * 2, |i, st| {
        let set = &ksets[(i / 2) as usize];
        let args = json!({ "tags": set });
        let kind = ["korean_keep_tags", "korean_stop_tags"][(i % 2) as usize];
        let f = load(kind, &args)?;
        let n = kd.len() as u64;
        for x in 0..strings_upto(n, 4) {
            let mut l = vec![];
            nth_string(x, n, &mut l);
            let t = toks(&l.iter().enumerate().map(|(j, &d)| (names[j], kd[d].clone())).collect::<Vec<_>>());
            check_retain(kind, &args, &f, &t, &|k| set.contains(&k.details[0].as_str()) == (kind == "korean_keep_tags"), st)?;
        }
        Ok(())
    });
    // lengths: characters, not bytes or graphemes
    let texts: Vec<String> = ["", "a", "あ", "𠮷", "é", "e\u{301}"].iter().map(|s| s.to_string()).chain((2..12).flat_map(|n| ["a", "語", "𠮷", "aあ"].iter().map(move |s| s.repeat(n)))).chain(["x".repeat(255), "x".repeat(256), "あ".repeat(300)]).collect();
    let bounds: Vec<Option<usize>> = vec![None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6), Some(10), Some(11), Some(12), Some(22), Some(255), Some(256), Some(300), Some(usize::MAX)];
    let nb = bounds.len() as u64;
    run.family("length", nb * nb * 2, |i, st| {
        let (lo, hi) = (bounds[(i / 2 % nb) as usize], bounds[(i / 2 / nb) as usize]);
        let args = if i % 2 == 0 {
            json!({"min": lo, "max": hi})
        } else {
            let mut m = serde_json::Map::new();
            if let Some(x) = lo {
                m.insert("min".into(), json!(x));
            }
            if let Some(x) = hi {
                m.insert("max".into(), json!(x));
            }
            Value::Object(m)
        };
        let f = load("length", &args)?;
        let keep = |k: &Token| {
            let n = k.text.chars().count();
            lo.map_or(true, |l| n >= l) && hi.map_or(true, |h| n <= h)
        };
        let all = toks(&texts.iter().map(|t| (t.as_str(), vec!["UNK"])).collect::<Vec<_>>());
        check_retain("length", &args, &f, &all, &keep, st)?;
        for a in &texts {
            for b in &texts[..12] {
                check_retain("length", &args, &f, &toks(&[(a, vec!["UNK"]), (b, vec!["N", "x", "y", "z"])]), &keep, st)?;
            }
        }
        Ok(())
    });
    // every character counts as one, and is a text of its own
    run.family("every character", 0x110000 / 1024, |i, st| {
        let cs: Vec<char> = (i as u32 * 1024..(i as u32 + 1) * 1024).filter_map(char::from_u32).collect();
        for g in cs.chunks(32) {
            let texts: Vec<String> = g.iter().flat_map(|c| [c.to_string(), format!("{c}{c}"), format!("a{c}"), format!("{c}あ{c}"), format!("{c}𠮷漢a")]).collect();
            let input = toks(&texts.iter().enumerate().map(|(j, t)| (t.as_str(), any_details(j))).collect::<Vec<_>>());
            for (lo, hi) in [(Some(2), None), (None, Some(2)), (Some(3), Some(3))] {
                let args = json!({"min": lo, "max": hi});
                let f = load("length", &args)?;
                check_retain("length", &args, &f, &input, &|k| { let n = k.text.chars().count(); lo.map_or(true, |l| n >= l) && hi.map_or(true, |h| n <= h) }, st)?;
            }
            for m in 0..2 {
                let set: BTreeSet<&str> = texts.iter().enumerate().filter(|(j, _)| (j + j / 5) % 2 == m).map(|(_, t)| t.as_str()).collect();
                let args = json!({ "words": set });
                for kind in ["keep_words", "stop_words"] {
                    check_retain(kind, &args, &load(kind, &args)?, &input, &|k| set.contains(k.text.as_str()) == (kind == "keep_words"), st)?;
                }
            }
        }
        Ok(())
    });
    // every character, alone and next to another one, in words and tags
    let block = 256u64;
    let six = ["keep_words", "stop_words", "japanese_keep_tags", "japanese_stop_tags", "korean_keep_tags", "korean_stop_tags"];
    run.family("every character in words and tags", 0x110000 / block * 6, |i, st| {
        let kind = six[(i % 6) as usize];
        let chars: Vec<char> = (i / 6 * block..(i / 6 + 1) * block).filter_map(|c| char::from_u32(c as u32)).filter(|&c| c != ',').collect();
        let forms = |c: char| [format!("{c}"), format!("x{c}"), format!("{c}x"), format!("{c}{c}")];
        let set: Vec<String> = chars.iter().flat_map(|&c| { let f = forms(c); [f[c as usize % 4].clone(), f[(c as usize / 4 + 1) % 4].clone()] }).chain(["y".to_string()]).collect();
        let all: Vec<String> = chars.iter().flat_map(|&c| forms(c)).chain(["x".into(), "".into(), "y".into()]).collect();
        let lookup: std::collections::HashSet<&str> = set.iter().map(|s| s.as_str()).collect();
        let (args, t) = if kind.ends_with("words") {
            (json!({ "words": set }), toks(&all.iter().map(|w| (w.as_str(), vec!["名詞", "*"])).collect::<Vec<_>>()))
        } else if kind.starts_with("korean") {
            (json!({ "tags": set }), toks(&all.iter().map(|w| ("서", vec![w.as_str(), "*", "x"])).collect::<Vec<_>>()))
        } else {
            // at every level in turn
            let tag = |w: &str| { let k = w.chars().last().map_or(0, |c| c as usize % 4); (0..k).map(|_| "名,").collect::<String>() + w };
            (json!({ "tags": set.iter().map(|w| tag(w)).collect::<Vec<_>>() }), toks(&all.iter().map(|w| ("東", tag(w))).map(|(t, w)| (t, w.leak().split(',').collect::<Vec<_>>())).collect::<Vec<_>>()))
        };
        let f = load(kind, &args)?;
        let keep = kind.contains("keep");
        check_retain(kind, &args, &f, &t, &|k| {
            let w: &str = if kind.ends_with("words") { &k.text } else if kind.starts_with("korean") { &k.details[0] } else { k.details.last().unwrap() };
            lookup.contains(w) == keep
        }, st)
    });
    c17_sizes(run);
    let mut ways: Vec<(&str, Value)> = vec![];
    for s in small_sets(&words, 2) {
        ways.push(("keep_words", json!({ "words": s })));
        ways.push(("stop_words", json!({ "words": s })));
    }
    for s in small_sets(&tags, 2) {
        ways.push(("japanese_keep_tags", json!({ "tags": s })));
        ways.push(("japanese_stop_tags", json!({ "tags": s })));
    }
    for s in small_sets(&ktags, 2) {
        ways.push(("korean_keep_tags", json!({ "tags": s })));
        ways.push(("korean_stop_tags", json!({ "tags": s })));
    }
    for a in [json!(null), json!(0), json!(1), json!(2), json!(3)] {
        for b in [json!(null), json!(0), json!(1), json!(2), json!(u64::MAX)] {
            ways.push(("length", json!({"min": a, "max": b})));
        }
        ways.push(("length", json!({ "min": a })));
        ways.push(("length", json!({ "max": a })));
    }
    ways.push(("length", json!({})));
    let input = toks(&words.iter().map(|w| (*w, vec!["名詞", "一般", "*", "*"])).chain(dets.iter().filter(|d| !d.is_empty()).map(|d| ("𠮷東京", d.clone()))).chain(kd.iter().map(|d| ("서울", d.clone()))).collect::<Vec<_>>());
    crate::routes::tokens(run, &ways, &input);
}

/// Numbers of tokens, of conditions, and text lengths.
fn c17_sizes(run: &mut Run) {
    let mut lens: Vec<usize> = (0..=run.b(150usize, 500)).collect();
    lens.extend([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 65536, 65537]);
    let nl = lens.len() as u64;
    let kinds = ["keep_words", "stop_words", "japanese_keep_tags", "japanese_stop_tags", "korean_keep_tags", "korean_stop_tags", "length"];
    let dets: Vec<Vec<&str>> = vec![vec!["名詞", "数", "*", "*"], vec!["NNG", "*"], vec!["UNK"], vec!["名詞", "数", "x", "*"], vec!["助詞"]];
    let names: Vec<String> = (0..80000).map(|j| format!("w{j}")).collect();
    let names = &names;
    run.family("numbers of tokens", nl * 7 * 3, |i, st| {
        let d = digits(i, &[nl, 7, 3]);
        let (n, kind) = (lens[d[0]], kinds[d[1]]);
        // which tokens: every other, every seventh, all but the last
        let pick = |j: usize| match d[2] { 0 => j % 2 == 0, 1 => j % 7 == 3, _ => j + 1 < n };
        let spec: Vec<(&str, Vec<&str>)> = (0..n).map(|j| (if d[1] == 6 || d[1] < 2 { if pick(j) { "語" } else { "語語語" } } else { names[j].as_str() }, if pick(j) { dets[[0, 0, 0, 0, 1, 1, 0][d[1]]].clone() } else { dets[2 + j % 3].clone() })).collect();
        let args = match d[1] { 0 | 1 => json!({"words": ["語"]}), 2 | 3 => json!({"tags": ["名詞,数"]}), 4 | 5 => json!({"tags": ["NNG"]}), _ => json!({"max": 2}) };
        let keep = |t: &Token| {
            let sel = match d[1] { 0 | 1 => t.text == "語", 2 | 3 => selected(&["名詞,数"], t), 4 | 5 => t.details[0] == "NNG", _ => t.text.chars().count() <= 2 };
            sel == (d[1] % 2 == 0)
        };
        let f = load(kind, &args)?;
        check_retain(kind, &args, &f, &toks(&spec), &keep, st)
    });
    run.family("numbers of conditions", 300 * 6, |i, st| {
        let d = digits(i, &[300, 6]);
        let (n, kind) = (d[0] + 1, kinds[d[1]]);
        let conds: Vec<String> = (0..n).map(|j| if d[1] == 2 || d[1] == 3 { format!("名詞,t{j}") } else { format!("t{j}") }).collect();
        let args = if d[1] < 2 { json!({ "words": conds }) } else { json!({ "tags": conds }) };
        let f = load(kind, &args)?;
        let t: Vec<String> = (0..n + 3).map(|j| format!("t{j}")).collect();
        let spec: Vec<(&str, Vec<&str>)> = t.iter().map(|t| match d[1] { 0 | 1 => (t.as_str(), vec!["名詞", "*", "*", "*"]), 2 | 3 => ("あ", vec!["名詞", t.as_str(), "*", "*"]), _ => ("あ", vec![t.as_str(), "*"]) }).collect();
        let input = toks(&spec);
        let keep = |k: &Token| {
            let s = match d[1] { 0 | 1 => k.text.as_str(), 2 | 3 => k.details[1].as_str(), _ => k.details[0].as_str() };
            (s[1..].parse::<usize>().unwrap() < n) == (d[1] % 2 == 0)
        };
        check_retain(kind, &args, &f, &input, &keep, st)
    });
    run.family("lengths of words", nl * 4 * 4, |i, st| {
        let d = digits(i, &[nl, 4, 4]);
        let u = ["a", "語", "𠮷", "é"][d[1]];
        let n = lens[d[0]];
        let (w, x, y) = (u.repeat(n), u.repeat(n + 1), u.repeat(n.saturating_sub(1)) + "z");
        let input = toks(&[(&w, vec!["UNK"]), (&x, vec!["UNK"]), (&y, vec!["UNK"]), ("", vec!["UNK"])]);
        let (kind, args) = match d[2] { 0 => ("keep_words", json!({"words": [w]})), 1 => ("stop_words", json!({"words": [w, "q"]})), 2 => ("length", json!({ "min": n + 1 })), _ => ("length", json!({ "max": n })) };
        let f = load(kind, &args)?;
        let keep = |t: &Token| match d[2] { 0 => t.text == w, 1 => t.text != w, 2 => t.text.chars().count() > n, _ => t.text.chars().count() <= n };
        check_retain(kind, &args, &f, &input, &keep, st)
    });
}

// ---- text rewriting ---------------------------------------------------------------------

fn check_rewrite(kind: &str, args: &Value, f: &BoxTokenFilter, input: &[Token], func: &dyn Fn(&Token) -> String, st: &mut Stats) -> Res {
    st.transitions += input.len() as u64;
    st.traces += 1;
    let key = |t: &str| format!("{kind} {args} {t:?}");
    let detail = |t: &[Token]| json!({"kind": kind, "args": args, "tokens": show(t)});
    let got = match tf_apply(f, input) {
        Ok(g) => g,
        Err(_) => {
            // find the token that fails
            for t in input {
                if let Err(e) = tf_apply(f, &[t.clone()]) {
                    return viol(key(&t.text), format!("{kind} {args} on {:?} {:?}: {e}", t.text, t.details), detail(&[t.clone()]));
                }
            }
            return viol(key("list"), format!("{kind} {args} failed on a list"), detail(input));
        }
    };
    if got.len() != input.len() {
        return viol(key("number"), format!("{kind} {args} changed the number of tokens from {} to {}", input.len(), got.len()), detail(input));
    }
    for (g, t) in got.iter().zip(input) {
        let want = func(t);
        if want != t.text {
            st.nontrivial += 1;
            st.sample(|| json!({"kind": kind, "args": args, "text": t.text, "details": t.details, "result": want}));
        }
        if g.text != want {
            return viol(key(&t.text), format!("{kind} {args} turned {:?} (details {:?}) into {:?}, expected {want:?}", t.text, t.details, g.text), detail(&[t.clone()]));
        }
        if !same_but_text(g, t) {
            return viol(key(&t.text), format!("{kind} {args} changed another field of {:?}", t.text), detail(&[t.clone()]));
        }
    }
    Ok(())
}
fn hira(c: char) -> char {
    if ('\u{30a1}'..='\u{30f6}').contains(&c) { char::from_u32(c as u32 - 0x60).unwrap() } else { c }
}
fn kata(c: char) -> char {
    if ('\u{3041}'..='\u{3096}').contains(&c) { char::from_u32(c as u32 + 0x60).unwrap() } else { c }
}
fn stem(min: usize, t: &str) -> String {
    let n = t.chars().count();
    if t.ends_with('ー') && n > min && t.chars().all(|c| ('\u{30a0}'..='\u{30ff}').contains(&c)) {
        t.chars().take(n - 1).collect()
    } else {
        t.to_string()
    }
}

pub fn c18(run: &mut Run) {
    run.rule = "each filter on every character, every text up to a bound over an alphabet of all scripts concerned, and every shape of details; every other field compared. non-trivial: the text changes".into();
    run.assumptions = vec!["kana conversion is specified for the full-width kana ァ..ヶ and ぁ..ゖ, the iteration marks and half-width kana are outside the statement and only have to leave the other fields alone".into()];
    let kinds: Vec<(&str, Value)> = vec![
        ("lowercase", json!({})),
        ("uppercase", json!({})),
        ("japanese_kana", json!({"kind": "hiragana"})),
        ("japanese_kana", json!({"kind": "katakana"})),
        ("japanese_katakana_stem", json!({"min": 1})),
        ("japanese_katakana_stem", json!({"min": 2})),
        ("japanese_katakana_stem", json!({})),
        ("japanese_katakana_stem", json!({"min": 5})),
        ("lowercase", Value::Null),
        ("uppercase", Value::Null),
    ];
    let unspecified = |c: char| matches!(c, '\u{ff61}'..='\u{ff9f}' | 'ヽ' | 'ヾ' | 'ゝ' | 'ゞ' | 'ヷ'..='ヺ' | '\u{3099}'..='\u{309c}' | '\u{1b000}'..='\u{1b16f}' | '\u{31f0}'..='\u{31ff}' | 'ゟ' | 'ヿ');
    let func = |kind: &str, args: &Value, t: &str| -> Option<String> {
        Some(match kind {
            "lowercase" => t.to_lowercase(),
            "uppercase" => t.to_uppercase(),
            "japanese_kana" => {
                if t.chars().any(unspecified) {
                    return None;
                }
                if args["kind"] == "hiragana" { t.chars().map(hira).collect() } else { t.chars().map(kata).collect() }
            }
            _ => stem(args["min"].as_u64().unwrap_or(3) as usize, t),
        })
    };
    let nk = kinds.len() as u64;
    let block = 1024u64;
    run.family("every character", 0x110000 / block * nk, |i, st| {
        let (kind, args) = &kinds[(i % nk) as usize];
        let f = load(kind, args)?;
        let texts: Vec<String> = (i / nk * block..(i / nk + 1) * block)
            .filter_map(|c| char::from_u32(c as u32))
            .flat_map(|c| [c.to_string(), format!("カカカ{c}"), format!("{c}カカーー"), format!("aΣ{c}"), format!("カカカカ{c}ー"), format!("は{c}ば")])
            .filter(|t| func(kind, args, t).is_some())
            .collect();
        let input = toks(&texts.iter().enumerate().map(|(j, t)| (t.as_str(), any_details(j + j / 7))).collect::<Vec<_>>());
        check_rewrite(kind, args, &f, &input, &|t| func(kind, args, &t.text).unwrap(), st)
    });
    let ab = ["a", "Z", "ß", "İ", "Σ", "カ", "ー", "が", "ヴ", "ゃ", "Ａ", "語", "・", "ǅ"];
    let n = run.b(5, 6);
    let total = strings_upto(14, n);
    let chunk = 2048u64;
    run.family("texts", (total + chunk - 1) / chunk * nk, |i, st| {
        let (kind, args) = &kinds[(i % nk) as usize];
        let f = load(kind, args)?;
        let lo = i / nk * chunk;
        let texts: Vec<String> = (lo..(lo + chunk).min(total)).map(|t| nth_text(t, &ab)).collect();
        let input = toks(&texts.iter().enumerate().map(|(j, t)| (t.as_str(), any_details(j + j / 7))).collect::<Vec<_>>());
        check_rewrite(kind, args, &f, &input, &|t| func(kind, args, &t.text).unwrap(), st)
    });
    // text lengths and numbers of tokens
    let mut lens: Vec<usize> = (0..=run.b(150usize, 500)).collect();
    lens.extend([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 65536]);
    let nl = lens.len() as u64;
    let units: [&[&str]; 8] = [&["カ"], &["カ", "ー"], &["か", "が"], &["a", "Z"], &["Σ"], &["ß", "語"], &["İ", "a", "𐐀"], &["ァ", "ん", "ヶ"]];
    run.family("text lengths", nl * units.len() as u64 * nk, |i, st| {
        let d = digits(i, &[nl, units.len() as u64, nk]);
        let (kind, args) = &kinds[d[2]];
        let f = load(kind, args)?;
        let t: String = (0..lens[d[0]]).map(|j| units[d[1]][j % units[d[1]].len()]).collect();
        let texts = [t.clone() + "ー", t.clone(), t + "a"];
        let input = toks(&texts.iter().enumerate().map(|(j, t)| (t.as_str(), any_details(j + j / 7))).collect::<Vec<_>>());
        check_rewrite(kind, args, &f, &input, &|t| func(kind, args, &t.text).unwrap(), st)
    });
    run.family("numbers of tokens", nl * nk, |i, st| {
        let d = digits(i, &[nl, nk]);
        let (kind, args) = &kinds[d[1]];
        let f = load(kind, args)?;
        let w = ["カラフルー", "かが", "aZß", "ΑΣ", "", "コピー", "ΑΣ"];
        let input = toks(&(0..lens[d[0]]).map(|j| (w[j % 7], any_details(j))).collect::<Vec<_>>());
        check_rewrite(kind, args, &f, &input, &|t| func(kind, args, &t.text).unwrap(), st)
    });
    let kab = ["カ", "ー", "ヶ", "a"];
    run.family("stems by length", strings_upto(4, 7), |i, st| {
        let t = nth_text(i, &kab);
        for min in 1..9 {
            let args = json!({ "min": min });
            let f = load("japanese_katakana_stem", &args)?;
            check_rewrite("japanese_katakana_stem", &args, &f, &toks(&(0..5).map(|j| (t.as_str(), any_details(j))).collect::<Vec<_>>()), &|t| stem(min, &t.text), st)?;
        }
        Ok(())
    });
    // readings and base forms: which detail is used, unknown words alone
    let forms: Vec<(&str, &str, Option<usize>)> = vec![
        ("japanese_reading_form", "ipadic", Some(7)),
        ("japanese_reading_form", "ipadic-neologd", Some(7)),
        ("japanese_reading_form", "unidic", Some(6)),
        ("japanese_reading_form", "ko-dic", None),
        ("japanese_reading_form", "cc-cedict", None),
        ("japanese_base_form", "ipadic", Some(6)),
        ("japanese_base_form", "ipadic-neologd", Some(6)),
        ("japanese_base_form", "unidic", Some(10)),
        ("japanese_base_form", "ko-dic", None),
        ("japanese_base_form", "cc-cedict", None),
        ("korean_reading_form", "", Some(3)),
    ];
    run.family("reading and base forms", forms.len() as u64 * 24, |i, st| {
        let (kind, dk, idx) = forms[(i / 24) as usize];
        let n = (i % 24) as usize + 1;
        let args = if dk.is_empty() { json!({}) } else { json!({ "kind": dk }) };
        let f = load(kind, &args)?;
        let fields: Vec<String> = (0..n).map(|j| format!("f{j}")).collect();
        let mut variants: Vec<Vec<&str>> = vec![fields.iter().map(|s| s.as_str()).collect()];
        for j in 0..n {
            for v in ["*", "", "UNK", "ヨミ"] {
                let mut x = variants[0].clone();
                x[j] = v;
                variants.push(x);
            }
        }
        let texts = ["走っ", "", "a"];
        let spec: Vec<(&str, Vec<&str>)> = variants.iter().enumerate().map(|(j, v)| (texts[j % 3], v.clone())).collect();
        let want = |t: &Token| match idx {
            Some(k) if t.details[0] != "UNK" && k < t.details.len() => t.details[k].clone(),
            _ => t.text.clone(),
        };
        check_rewrite(kind, &args, &f, &toks(&spec), &want, st)?;
        for s in &spec {
            check_rewrite(kind, &args, &f, &toks(&[s.clone()]), &want, st)?;
        }
        Ok(())
    });
    let mut ways = kinds.clone();
    for k in ["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"] {
        ways.push(("japanese_base_form", json!({ "kind": k })));
        ways.push(("japanese_reading_form", json!({ "kind": k })));
    }
    ways.extend([("korean_reading_form", json!({})), ("korean_reading_form", Value::Null)]);
    let long: Vec<String> = (0..20).map(|j| format!("d{j}")).collect();
    let long: Vec<&str> = long.iter().map(|s| s.as_str()).collect();
    let input = toks(&["aΣB", "カー", "カカー", "カカカー", "カカカカカー", "はパ", "ǅ", ""].iter().flat_map(|t| [(*t, long.clone()), (*t, vec!["UNK"]), (*t, long[..8].to_vec())]).collect::<Vec<_>>());
    crate::routes::tokens(run, &ways, &input);
}

// ---- numbers ----------------------------------------------------------------------------

const KD: [&str; 10] = ["〇", "一", "二", "三", "四", "五", "六", "七", "八", "九"];
const FD: [&str; 10] = ["零", "壱", "弐", "参", "四", "五", "六", "七", "八", "九"];
const WD: [&str; 10] = ["０", "１", "２", "３", "４", "５", "６", "７", "８", "９"];
const AD: [&str; 10] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"];
fn style(s: usize) -> &'static [&'static str; 10] {
    [&KD, &FD, &WD, &AD][s]
}
/// A group of up to four digits written with units. `ones` says for which units a 1 is written.
fn with_units(n: u32, s: usize, ones: u32) -> String {
    let mut out = String::new();
    for (k, (p, u)) in [(1000, "千"), (100, "百"), (10, if s == 1 { "拾" } else { "十" })].iter().enumerate() {
        let d = n / p % 10;
        if d > 0 {
            if d > 1 || ones >> k & 1 == 1 {
                out += style(s)[d as usize];
            }
            out += u;
        }
    }
    if n % 10 > 0 {
        out += style(s)[(n % 10) as usize];
    }
    out
}
fn positional(n: u32, s: usize, pad: bool) -> String {
    let t = if pad { format!("{n:04}") } else { n.to_string() };
    t.bytes().map(|b| style(s)[(b - b'0') as usize]).collect()
}
/// Every writing of a group (1..9999).
fn group_writings(n: u32, first: bool) -> Vec<String> {
    let mut v: BTreeSet<String> = BTreeSet::new();
    for s in 0..4 {
        for ones in 0..8 {
            v.insert(with_units(n, s, ones));
        }
        v.insert(positional(n, s, false));
        if !first {
            v.insert(positional(n, s, true));
        }
    }
    v.into_iter().collect()
}
const UNITS: [&str; 6] = ["", "万", "億", "兆", "京", "垓"];

fn check_number(f: &BoxTokenFilter, text: &str, want: &str, st: &mut Stats) -> Res {
    st.transitions += 1;
    st.traces += 1;
    st.nontrivial += 1;
    let t = toks(&[(text, any_details(text.len() / 3 + want.len()))]);
    let key = format!("number {text:?}");
    match tf_apply(f, &t) {
        Ok(g) if g.len() == 1 && g[0].text == want && same_but_text(&g[0], &t[0]) => {
            st.sample(|| json!({"text": text, "number": want}));
            Ok(())
        }
        Ok(g) => viol(key, format!("the numeral {text:?} became {:?}, it denotes {want}", g.first().map(|t| t.text.clone())), json!({ "text": text })),
        Err(e) => viol(key, format!("the numeral {text:?}: {e}"), json!({ "text": text })),
    }
}

pub fn c19(run: &mut Run) {
    run.rule = "every number of one group in every writing, every combination of up to three groups with large units from a set of group values in every writing, every digit string up to a bound; every text over the numeral characters up to a bound must be handled; every tag selection. non-trivial: numerals whose value is compared".into();
    run.assumptions = vec!["well-formed numerals: large units in descending order, each with a group of 1..9999 written with units or digits; a leading unit may stand alone".into()];
    let none = json!({});
    run.family("every group value in every writing", 9999, |i, st| {
        let f = load("japanese_number", &none)?;
        let n = i as u32 + 1;
        for w in group_writings(n, true) {
            check_number(&f, &w, &n.to_string(), st)?;
        }
        Ok(())
    });
    let n = run.b(6, 7);
    run.family("digit strings", 10u64.pow(n), |i, st| {
        let f = load("japanese_number", &none)?;
        let s = format!("{i:0w$}", w = n as usize);
        // styles vary within the string
        let t: String = s.bytes().enumerate().map(|(j, b)| style((j + (i as usize / 7)) % 4)[(b - b'0') as usize]).collect();
        check_number(&f, &t, &s, st)
    });
    let vals: Vec<u32> = run.b(vec![1, 2, 9, 10, 12, 20, 100, 101, 210, 1000, 1001, 1010, 1100, 1111, 3000, 9999], vec![1, 2, 9, 10, 11, 12, 19, 20, 35, 90, 100, 101, 110, 111, 200, 210, 305, 1000, 1001, 1010, 1011, 1100, 1110, 1111, 3000, 3004, 3050, 3600, 9999]);
    let nv = vals.len() as u64;
    // one or two groups: every writing of each
    let pairs: Vec<(usize, usize)> = (1..6).flat_map(|a| (0..a).map(move |b| (a, b))).collect();
    run.family("two groups in every writing", pairs.len() as u64 * nv * nv, |i, st| {
        let f = load("japanese_number", &none)?;
        let (ua, ub) = pairs[(i / nv / nv) as usize];
        let (a, b) = (vals[(i % nv) as usize], vals[(i / nv % nv) as usize]);
        let value = a as u128 * 10u128.pow(4 * ua as u32) + b as u128 * 10u128.pow(4 * ub as u32);
        let mut wa = group_writings(a, true);
        if a == 1 {
            wa.push(String::new());
        }
        for x in &wa {
            for y in group_writings(b, false) {
                check_number(&f, &format!("{x}{}{y}{}", UNITS[ua], UNITS[ub]), &value.to_string(), st)?;
            }
            check_number(&f, &format!("{x}{}", UNITS[ua]), &(a as u128 * 10u128.pow(4 * ua as u32)).to_string(), st)?;
        }
        Ok(())
    });
    // any subset of units, one writing per group
    let v3: Vec<u32> = run.b(vec![1, 10, 20, 100, 1203, 1000], vec![1, 5, 10, 20, 100, 304, 1203, 1000, 9999]);
    let n3 = v3.len() as u64;
    let radices = [n3 + 1, n3 + 1, n3 + 1, n3 + 1, n3 + 1, n3 + 1];
    run.family("every set of large units", product(&radices) , |i, st| {
        let d = digits(i, &radices);
        if d.iter().all(|&x| x == 0) {
            return Ok(());
        }
        let f = load("japanese_number", &none)?;
        for sty in 0..4usize {
            let (mut t, mut value) = (String::new(), 0u128);
            for u in (0..6).rev() {
                if d[u] > 0 {
                    let n = v3[d[u] - 1];
                    value += n as u128 * 10u128.pow(4 * u as u32);
                    t += &if sty >= 2 { positional(n, sty, false) } else { with_units(n, sty, (d[u] as u32 + u as u32) % 8) };
                    t += UNITS[u];
                }
            }
            check_number(&f, &t, &value.to_string(), st)?;
        }
        Ok(())
    });
    // every text must be handled, and characters that are no numerals kept in order
    let ab = ["一", "五", "〇", "3", "十", "百", "千", "万", "億", "垓", "音", "拾"];
    let n = run.b(5, 6);
    let total = strings_upto(12, n);
    run.family("every text over numeral characters", (total + 1023) / 1024, |i, st| {
        let f = load("japanese_number", &none)?;
        for x in i * 1024..((i + 1) * 1024).min(total) {
            let t = nth_text(x, &ab);
            let input = toks(&[(&t, vec!["UNK"])]);
            st.transitions += 1;
            st.traces += 1;
            match tf_apply(&f, &input) {
                Ok(g) => {
                    let left = |s: &str| s.chars().filter(|c| *c == '音').count();
                    let ok = g.len() == 1 && same_but_text(&g[0], &input[0]) && left(&g[0].text) == left(&t) && g[0].text.chars().all(|c| c == '音' || c.is_ascii_digit())
                        && (t.is_empty() || !g[0].text.is_empty());
                    if !ok {
                        return viol(format!("number {t:?}"), format!("{t:?} became {:?}", g.first().map(|t| t.text.clone())), json!({ "text": t }));
                    }
                }
                Err(e) => return viol(format!("number {t:?}"), format!("the number filter failed on {t:?}: {e}"), json!({ "text": t })),
            }
        }
        Ok(())
    });
    run.family("numerals within other text", 9999, |i, st| {
        let f = load("japanese_number", &none)?;
        let n = i as u32 + 1;
        let w = group_writings(n, true);
        for (j, x) in w.iter().enumerate() {
            let y = &w[(j * 7 + 1) % w.len()];
            check_number(&f, &format!("第{x}回"), &format!("第{n}回"), st)?;
            check_number(&f, &format!("{x}と{y}"), &format!("{n}と{n}"), st)?;
            check_number(&f, &format!("{x}万・{y}"), &format!("{n}0000・{n}"), st)?;
        }
        Ok(())
    });
    // many numerals in one text, many tokens, long digit strings
    run.family("numbers of numerals", 400 * 4, |i, st| {
        let d = digits(i, &[400, 4]);
        let n = d[0] + 1;
        let f = load("japanese_number", &none)?;
        let nums = [1234u32, 20, 305, 9000, 7];
        let (mut t, mut want) = (String::new(), String::new());
        for j in 0..n {
            let v = nums[(j + d[1]) % 5];
            match d[1] {
                0 => { t += &with_units(v, j % 2, 7); want += &v.to_string(); }
                1 => { t += &with_units(v, 0, 0); want += &v.to_string(); }
                2 => { t += &positional(v, j % 4, false); want += &v.to_string(); }
                _ => { t += &format!("{}万", with_units(v, 0, 0)); want += &format!("{v}0000"); }
            }
            if d[1] != 2 || j % 3 == 0 {
                t += "回と";
                want += "回と";
            }
        }
        check_number(&f, &t, &want, st)?;
        let spec: Vec<(&str, Vec<&str>)> = (0..n).map(|j| (["二十", "百円", "x", "三"][j % 4], vec![["名詞", "動詞"][j % 2], "数", "*", "*"])).collect();
        let args = json!({"tags": ["名詞,数"]});
        let f = load("japanese_number", &args)?;
        check_rewrite("japanese_number", &args, &f, &toks(&spec), &|t| if t.details[0] == "名詞" { match t.text.as_str() { "二十" => "20".into(), x => x.into() } } else { t.text.clone() }, st)
    });
    run.family("every other character", 0x110000 / 1024, |i, st| {
        let f = load("japanese_number", &none)?;
        for c in (i * 1024..(i + 1) * 1024).filter_map(|c| char::from_u32(c as u32)) {
            if "〇零一二三四五六七八九壱弐参十拾百千万億兆京垓".contains(c) || c.is_ascii_digit() || ('０'..='９').contains(&c) {
                continue;
            }
            check_number(&f, &format!("{c}"), &format!("{c}"), st)?;
            check_number(&f, &format!("a{c}二十{c}"), &format!("a{c}20{c}"), st)?;
        }
        Ok(())
    });
    // tags
    let dets: Vec<Vec<&str>> = vec![vec!["名詞", "数", "*", "*", "x"], vec!["名詞", "数詞", "*", "*"], vec!["名詞", "一般", "*", "*", "*"], vec!["UNK"], vec!["名詞"], vec!["名詞", "*", "*", "*"], vec!["名詞", "数", "a", "b"], vec!["名詞", "数"], vec!["名詞", "数", "a"], vec![]];
    let tags = ["名詞,数", "名詞", "UNK", "名詞,数詞,*,*", "名詞,数,a,b", "名詞,数,a", "動詞"];
    let sets = small_sets(&tags, 7);
    run.family("tag selections", sets.len() as u64, |i, st| {
        let set = &sets[i as usize];
        let args = json!({ "tags": set });
        let f = load("japanese_number", &args)?;
        let spec: Vec<(&str, Vec<&str>)> = dets.iter().map(|d| ("二十", d.clone())).collect();
        let input = toks(&spec);
        check_rewrite("japanese_number", &args, &f, &input, &|t| if selected(set, t) { "20".into() } else { t.text.clone() }, st)?;
        for s in spec {
            check_rewrite("japanese_number", &args, &f, &toks(&[s]), &|t| if selected(set, t) { "20".into() } else { t.text.clone() }, st)?;
        }
        Ok(())
    });
    let over = with_over(&tags);
    run.family("tags of too many levels", over.len() as u64 * SEEDS, |i, st| {
        let set = &over[(i / SEEDS) as usize];
        let args = json!({ "tags": set });
        for f in built("japanese_number", &args)? {
            let input = toks(&dets.iter().map(|d| ("二十", d.clone())).collect::<Vec<_>>());
            check_rewrite("japanese_number", &args, &f, &input, &|t| if selected(set, t) { "20".into() } else { t.text.clone() }, st)?;
        }
        Ok(())
    });
    let mut ways: Vec<(&str, Value)> = sets.iter().map(|s| ("japanese_number", json!({ "tags": s }))).collect();
    ways.push(("japanese_number", json!({})));
    ways.push(("japanese_number", json!({"tags": null})));
    ways.push(("japanese_number", json!(null)));
    let input = toks(&dets.iter().map(|d| ("二十", d.clone())).chain([("三月", vec!["名詞", "数", "*", "*"])]).collect::<Vec<_>>());
    crate::routes::tokens(run, &ways, &input);
}

// ---- compounds --------------------------------------------------------------------------

fn ref_compound(kind: &str, tags: &[&str], new_tag: Option<&str>, input: &[Token]) -> Vec<Token> {
    let mut out: Vec<Token> = vec![];
    let mut i = 0;
    while i < input.len() {
        let mut j = i;
        while j < input.len() && selected(tags, &input[j]) {
            j += 1;
        }
        if j - i >= 2 {
            let mut d = vec!["*".to_string(); if kind == "unidic" { 17 } else { 9 }];
            d[0] = "複合語".into();
            if let Some(n) = new_tag {
                for (k, p) in tag_levels(n).into_iter().enumerate() {
                    d[k] = p;
                }
            }
            out.push(Token {
                text: input[i..j].iter().map(|t| t.text.as_str()).collect(),
                byte_start: input[i].byte_start,
                byte_end: input[j - 1].byte_end,
                position: input[i].position,
                position_length: input[i..j].iter().map(|t| t.position_length).sum(),
                word_id: input[i].word_id,
                details: d,
            });
            i = j;
        } else {
            out.push(input[i].clone());
            i += 1;
        }
    }
    out
}
pub fn c20(run: &mut Run) {
    run.rule = "every sequence of tokens up to a bound over tag patterns, for every tag selection, dictionary kind and new tag; every field compared. non-trivial: something is merged".into();
    run.assumptions = vec!["the id of a merged token is not specified".into()];
    let dets: Vec<Vec<&str>> = vec![
        vec!["名詞", "数", "*", "*", "*", "*", "一", "イチ", "イチ"],
        vec!["名詞", "接尾", "助数詞", "*", "*", "*", "円", "エン", "エン"],
        vec!["助詞", "格助詞", "一般", "*"],
        vec!["UNK"],
        vec!["名詞"],
        vec!["複合語", "*", "*", "*", "*", "*", "*", "*", "*"],
        vec!["名詞", "数"],
    ];
    let tags = ["名詞,数", "名詞,接尾,助数詞", "UNK", "名詞", "助詞,格助詞,一般,*", "複合語", "名詞,接尾"];
    let sets = small_sets(&tags, run.b(3, 7));
    let names = ["壱", "a", "円", "𠮷", "ab", "", "か", "x"];
    let kinds = ["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"];
    let new_tags = [None, Some("名詞,数"), Some("複合"), Some("a,b,c,d"), Some(""), Some("名詞,,x"), Some("*,*,x")];
    let radices = [sets.len() as u64, 5, new_tags.len() as u64];
    let len = run.b(5, 6);
    let run_quick = run.quick();
    run.family("token sequences", product(&radices), |i, st| {
        let d = digits(i, &radices);
        let (set, kind, nt) = (&sets[d[0]], kinds[d[1]], new_tags[d[2]]);
        let mut args = json!({"kind": kind, "tags": set});
        if let Some(n) = nt {
            args["new_tag"] = json!(n);
        } else if d[0] % 2 == 1 {
            args["new_tag"] = Value::Null;
        }
        let f = load("japanese_compound_word", &args)?;
        // all sequences for one kind and tag; shorter ones for the rest
        let l = if d[1] == 0 && d[2] == 0 { len + 1 } else { len - 1 };
        // the last kind of details only takes part in the shorter sequences
        let nd = dets.len() as u64 - (run_quick && l > len) as u64;
        for x in 0..strings_upto(nd, l) {
            let mut v = vec![];
            nth_string(x, nd, &mut v);
            let input = toks(&v.iter().enumerate().map(|(j, &k)| (names[(j + x as usize) % 8], dets[k].clone())).collect::<Vec<_>>());
            let want = ref_compound(kind, set, nt, &input);
            st.transitions += 1;
            st.states += want.len() as u64;
            st.traces += 1;
            if want.len() < input.len() {
                st.nontrivial += 1;
                st.sample(|| json!({"args": args, "tokens": show(&input), "result": show(&want)}));
            }
            let key = || format!("compound {args} {}", show(&input));
            let detail = || json!({"args": args, "tokens": show(&input)});
            match tf_apply(&f, &input) {
                Ok(g) => {
                    let ok = g.len() == want.len()
                        && g.iter().zip(&want).all(|(a, b)| {
                            let mut a = a.clone();
                            if !input.iter().any(|t| same(t, b)) {
                                a.word_id = b.word_id;
                            }
                            same(&a, b)
                        });
                    if !ok {
                        return viol(key(), format!("compound filter {args} gave {}, expected {}", show(&g), show(&want)), detail());
                    }
                }
                Err(e) => return viol(key(), format!("compound filter {args} failed: {e}"), detail()),
            }
        }
        Ok(())
    });
    let over = with_over(&tags);
    run.family("tags of too many levels", over.len() as u64 * SEEDS, |i, st| {
        let set = &over[(i / SEEDS) as usize];
        let args = json!({"kind": "ipadic", "tags": set});
        st.transitions += 1;
        st.traces += 1;
        for f in built("japanese_compound_word", &args)? {
        // every kind twice in succession
        let input = toks(&(0..2 * dets.len()).map(|j| (names[j % 8], dets[j / 2].clone())).collect::<Vec<_>>());
        let want = ref_compound("ipadic", set, None, &input);
        st.nontrivial += (want.len() < input.len()) as u64;
        st.transitions += 1;
        match tf_apply(&f, &input) {
            Ok(g) if g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| { let mut a = a.clone(); a.word_id = b.word_id; same(&a, b) }) => {}
            Ok(g) => return viol(format!("compound {args}"), format!("compound filter {args} gave {}, expected {}", show(&g), show(&want)), json!({"args": args})),
            Err(e) => return viol(format!("compound {args}"), e, json!({"args": args})),
        }
        }
        Ok(())
    });
    run.family("run lengths", 200, |i, st| {
        let args = json!({"kind": "ipadic", "tags": ["名詞,数"]});
        let f = load("japanese_compound_word", &args)?;
        let n = i as usize;
        let mut spec = vec![("が", dets[2].clone())];
        spec.extend((0..n).map(|j| (names[j % 8], dets[0].clone())));
        spec.push(("を", dets[2].clone()));
        spec.extend((0..i as usize % 7).map(|j| (names[j % 8], dets[0].clone())));
        let input = toks(&spec);
        let want = ref_compound("ipadic", &["名詞,数"], None, &input);
        st.nontrivial += 1;
        st.transitions += 1;
        match tf_apply(&f, &input) {
            Ok(g) if g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| same(a, b)) => Ok(()),
            Ok(g) => viol(format!("compound run {n}"), format!("run of {n}: gave {}", show(&g)), json!({ "run": n })),
            Err(e) => viol(format!("compound run {n}"), e, json!({ "run": n })),
        }
    });
    let mut ways: Vec<(&str, Value)> = vec![];
    for s in small_sets(&tags, 2) {
        for k in kinds {
            for n in new_tags {
                let mut a = json!({"kind": k, "tags": s});
                if let Some(n) = n {
                    a["new_tag"] = json!(n);
                }
                ways.push(("japanese_compound_word", a));
            }
        }
    }
    let input = toks(&(0..2 * dets.len()).map(|j| (names[j % 8], dets[j / 2].clone())).collect::<Vec<_>>());
    crate::routes::tokens(run, &ways, &input);
}
