//! Character filters: C12 (and the mapping token filter), C13, C14, C15, and the analyzer's
//! offsets: C16. Each filter has a reference implementation written from its description,
//! which also says how the output is aligned with the input.
use crate::fw::*;
use crate::dictkit;
use lindera_analyzer::analyzer::Analyzer;
use lindera_core::mode::Mode;
use lindera_filter::character_filter::{BoxCharacterFilter, CharacterFilterLoader};
use lindera_filter::token::Token;
use lindera_filter::token_filter::{BoxTokenFilter, TokenFilterLoader};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use unicode_normalization::char::{canonical_combining_class, decompose_canonical, decompose_compatible};
use unicode_normalization::UnicodeNormalization;
use unicode_segmentation::UnicodeSegmentation;

pub fn cf(kind: &str, args: &Value) -> Result<BoxCharacterFilter, String> {
    match guard(|| CharacterFilterLoader::load_from_value(kind, args)) {
        Ok(Ok(f)) => Ok(f),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(p) => Err(format!("panicked: {p}")),
    }
}
pub fn tf(kind: &str, args: &Value) -> Result<BoxTokenFilter, String> {
    match guard(|| TokenFilterLoader::load_from_value(kind, args)) {
        Ok(Ok(f)) => Ok(f),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(p) => Err(format!("panicked: {p}")),
    }
}
pub fn cf_apply(f: &BoxCharacterFilter, text: &str) -> Result<String, String> {
    match guard(|| f.apply(text)) {
        Ok(Ok((s, _, _))) => Ok(s),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}
pub fn tf_apply(f: &BoxTokenFilter, toks: &[Token]) -> Result<Vec<Token>, String> {
    let mut v = toks.to_vec();
    match guard(|| f.apply(&mut v)) {
        Ok(Ok(())) => Ok(v),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// A rewriting step as the oracle sees it: consecutive pieces (input bytes, output text).
pub type Pieces = Vec<(usize, String)>;
pub fn out_of(p: &Pieces) -> String {
    p.iter().map(|x| x.1.as_str()).collect()
}

// ---- mapping --------------------------------------------------------------------------

pub fn ref_mapping(map: &BTreeMap<String, String>, text: &str) -> Pieces {
    let mut out = vec![];
    let mut rest = text;
    while !rest.is_empty() {
        let best = map.keys().filter(|k| !k.is_empty() && rest.starts_with(k.as_str())).max_by_key(|k| k.len());
        let (n, o) = match best {
            Some(k) => (k.len(), map[k].clone()),
            None => {
                let c = rest.chars().next().unwrap();
                (c.len_utf8(), c.to_string())
            }
        };
        out.push((n, o));
        rest = &rest[n..];
    }
    out
}

fn subsets_upto(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn rec(start: usize, n: usize, k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if !cur.is_empty() {
            out.push(cur.clone());
        }
        if cur.len() == k {
            return;
        }
        for i in start..n {
            cur.push(i);
            rec(i + 1, n, k, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(0, n, k, &mut vec![], &mut out);
    out
}
fn tok(j: usize, text: &str) -> Token {
    Token {
        text: text.into(),
        byte_start: 3,
        byte_end: 3 + text.len(),
        position: 1 + j,
        position_length: 1 + j % 2,
        word_id: if j % 3 == 1 { lindera_core::word_entry::WordId(u32::MAX, true) } else { lindera_core::word_entry::WordId(7, j % 3 == 0) },
        details: match j % 3 {
            0 => ["名詞", "一般", "*", "*", "x"].map(String::from).to_vec(),
            1 => vec!["UNK".into()],
            _ => ["カスタム名詞", "*", "*"].map(String::from).to_vec(),
        },
    }
}

fn check_mapping(key: &str, map: &BTreeMap<String, String>, texts: &[String], st: &mut Stats) -> Res {
    let args = json!({ "mapping": map });
    let detail = |t: &str| json!({"mapping": map, "text": t});
    let (c, t) = match (cf("mapping", &args), tf("mapping", &args)) {
        (Ok(c), Ok(t)) => (c, t),
        (Err(e), _) | (_, Err(e)) => return viol(key, format!("valid mapping was {e}"), detail("")),
    };
    let toks: Vec<Token> = texts.iter().enumerate().map(|(j, t)| tok(j + j / 3, t)).collect();
    let mapped = match tf_apply(&t, &toks) {
        Ok(v) => v,
        Err(e) => return viol(key, format!("mapping token filter: {e}"), detail(&texts.join("|"))),
    };
    for (i, text) in texts.iter().enumerate() {
        st.transitions += 1;
        let p = ref_mapping(map, text);
        let want = out_of(&p);
        if want != *text {
            st.nontrivial += 1;
        }
        st.states += p.len() as u64;
        st.traces += 2;
        match cf_apply(&c, text) {
            Ok(s) if s == want => {}
            Ok(s) => return viol(format!("{key} {text:?}"), format!("mapping character filter turned {text:?} into {s:?}, leftmost-longest replacement gives {want:?}"), detail(text)),
            Err(e) => return viol(format!("{key} {text:?}"), format!("mapping character filter on {text:?}: {e}"), detail(text)),
        }
        let m = &mapped[i];
        if m.text != want {
            return viol(format!("{key} token {text:?}"), format!("mapping token filter turned {text:?} into {:?}, leftmost-longest replacement gives {want:?}", m.text), detail(text));
        }
        if !same_but_text(m, &toks[i]) {
            return viol(format!("{key} token {text:?}"), "mapping token filter changed another field of the token", detail(text));
        }
        if !p.is_empty() {
            st.sample(|| json!({"mapping": map, "text": text, "result": want}));
        }
    }
    Ok(())
}
pub fn same_but_text(a: &Token, b: &Token) -> bool {
    a.byte_start == b.byte_start && a.byte_end == b.byte_end && a.position == b.position && a.position_length == b.position_length && a.word_id == b.word_id && a.details == b.details
}

pub fn c12(run: &mut Run) {
    run.rule = "every key set of the bounded kind with every assignment of values, against every text up to a bound, for the character filter and the token filter; non-trivial: the text is rewritten. states: replacement steps of the reference rewriting".into();
    run.assumptions = vec!["keys are non-empty and contain no NUL (texts may contain it)".into()];
    // the second alphabet shares first bytes (E3 81) between characters, the third has all widths
    let abs: [[&str; 3]; 4] = [["a", "b", "c"], ["あ", "い", "a"], ["é", "𠮷", "語"], ["é", "è", "\u{ff41}"]];
    let vals: [&str; 6] = ["", "x", "a", "あい", "𠮷é", "bab"];
    // pairs and triples of keys over a whole alphabet
    let abs = &abs;
    let keys3 = |ab: &[&str; 3]| -> Vec<String> { (1..strings_upto(3, 2)).map(|i| nth_text(i, ab)).chain(["0012", "010", "0001"].iter().map(|w| w.chars().map(|c| ab[(c as u8 - b'0') as usize]).collect())).collect() };
    let nk = keys3(&abs[0]).len();
    let subs = subsets_upto(nk, 3);
    let nv = run.b(4u64, 6);
    let tlen = run.b(5, 7);
    run.family("key sets x values x texts", abs.len() as u64 * subs.len() as u64, |i, st| {
        let ab = &abs[(i % 4) as usize];
        let keys = keys3(ab);
        let sub = &subs[(i / 4) as usize];
        let mut texts: Vec<String> = (0..strings_upto(3, tlen)).map(|t| nth_text(t, ab)).collect();
        let with_nul = [ab[0], ab[1], "\0"];
        texts.extend((0..strings_upto(3, 3)).map(|t| nth_text(t, &with_nul)).filter(|t| t.contains('\0')));
        // single keys and pairs take every assignment, triples a fixed rotation of it
        let asg = if sub.len() <= 2 { nv.pow(sub.len() as u32) } else { nv };
        for a in 0..asg {
            let mut x = a;
            let map: BTreeMap<String, String> = sub
                .iter()
                .enumerate()
                .map(|(j, &k)| {
                    let v = if sub.len() <= 2 { let v = x % nv; x /= nv; v } else { (a + j as u64) % nv };
                    (keys[k].clone(), vals[v as usize].to_string())
                })
                .collect();
            check_mapping(&format!("mapping {map:?}"), &map, &texts, st)?;
        }
        Ok(())
    });
    // every key set over a two-letter alphabet
    let keys2: Vec<String> = (1..strings_upto(2, 3)).map(|i| nth_text(i, &["a", "ア"])).collect();
    let n = run.b(11u32, 14);
    run.family("all key sets over two characters", (1 << n) - 1, |i, st| {
        let mask = i + 1;
        let map: BTreeMap<String, String> = (0..n as usize).filter(|j| mask >> j & 1 == 1).map(|j| (keys2[j].clone(), format!("<{j}>"))).collect();
        let mut texts: Vec<String> = (0..strings_upto(2, 6)).map(|t| nth_text(t, &["a", "ア"])).collect();
        texts.extend((0..strings_upto(3, 5)).map(|t| nth_text(t, &["a", "ア", "\0"])).filter(|t| t.contains('\0')));
        check_mapping(&format!("mapping mask {mask:x}"), &map, &texts, st)
    });
    // one mapping of every character, long texts
    let block = 1024u32;
    run.family("every character as a key", (0x110000 / block) as u64, |i, st| {
        let chars: Vec<char> = (i as u32 * block..(i as u32 + 1) * block).filter_map(char::from_u32).filter(|&c| c != '\0').collect();
        if chars.is_empty() {
            return Ok(());
        }
        let map: BTreeMap<String, String> = chars.iter().step_by(2).enumerate().map(|(j, c)| (c.to_string(), ["", "y", "かな", "𠮷"][j % 4].to_string()))
            .chain(chars.windows(2).step_by(5).map(|w| (format!("{}{}", w[0], w[1]), format!("[{:x}]", w[0] as u32)))).collect();
        let all: String = chars.iter().collect();
        let rev: String = chars.iter().rev().collect();
        let mut texts: Vec<String> = chars.iter().map(|c| c.to_string()).collect();
        texts.extend(chars.windows(3).map(|w| w.iter().collect::<String>()));
        texts.extend(chars.iter().map(|c| format!("\0{c}\0\0{c}{c}")));
        texts.push(all);
        texts.push(rev);
        check_mapping(&format!("mapping block {:x}", i as u32 * block), &map, &texts, st)
    });
    // long keys with every shorter prefix length as a rival, long values, many keys, long texts
    let units: [&[&str]; 4] = [&["a"], &["あ", "い"], &["𠮷"], &["a", "é", "語", "𠮷"]];
    let lmax = run.b(130u64, 400);
    run.family("key lengths", lmax * 4 * 3, |i, st| {
        let d = digits(i, &[lmax, 4, 3]);
        let (n, u) = (d[0] + 1, units[d[1]]);
        let s = |k: usize| -> String { (0..k).map(|j| u[j % u.len()]).collect() };
        let mut map = BTreeMap::new();
        map.insert(s(n), "[n]".to_string());
        match d[2] {
            0 => {}
            1 => {
                map.insert(s((n + 1) / 2), "<h>".to_string());
            }
            _ => {
                for k in 1..=n.min(40) {
                    map.insert(s(k), format!("<{k}>"));
                }
                map.insert(s(n + 1) + "x", "!".into());
            }
        }
        let texts = vec![s(n), s(n - 1), s(n + 1), format!("x{}y", s(n)), format!("{}{}", s(n), s(n)), format!("{}z{}", s(n - 1), s(2 * n)), s(3 * n + 1)];
        check_mapping(&format!("mapping key length {n} {} {}", d[1], d[2]), &map, &texts, st)
    });
    run.family("value lengths", lmax * 4, |i, st| {
        let d = digits(i, &[lmax, 4]);
        let u = units[d[1]];
        let v: String = (0..d[0]).map(|j| u[j % u.len()]).collect();
        let map: BTreeMap<String, String> = [("ab".to_string(), v.clone()), ("語".to_string(), v.chars().rev().collect())].into_iter().collect();
        check_mapping(&format!("mapping value length {} {}", d[0], d[1]), &map, &["ab".into(), "xab語ab".into(), "ab".repeat(40), "a語b".into()], st)
    });
    run.family("number of keys", lmax * 2, |i, st| {
        let d = digits(i, &[lmax, 2]);
        let n = d[0] + 1;
        let key = |j: usize| if d[1] == 0 { format!("k{j}.") } else { format!("{}語", char::from_u32(0x4e00 + j as u32).unwrap()) };
        let map: BTreeMap<String, String> = (0..n).map(|j| (key(j), format!("<{j}>"))).collect();
        let texts: Vec<String> = (0..n + 2).step_by(1 + n / 40).map(|j| format!("a{}b{}", key(j), key(n - 1))).chain([(0..n).map(key).collect::<String>()]).collect();
        check_mapping(&format!("mapping keys {n} {}", d[1]), &map, &texts, st)
    });
    let mut lens: Vec<usize> = (1..=run.b(150usize, 600)).collect();
    for k in [255usize, 256, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 65535, 65536] {
        lens.extend([k, k + 1]);
    }
    let nl = lens.len() as u64;
    run.family("text lengths", nl * 4 * 2, |i, st| {
        let d = digits(i, &[nl, 4, 2]);
        let u = units[d[1]];
        let map: BTreeMap<String, String> = [("a", "bb"), ("あい", "x"), ("𠮷", ""), ("語𠮷a", "語")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        let n = lens[d[0]];
        let t: String = if d[2] == 0 { (0..n).map(|j| u[j % u.len()]).collect() } else { "z".repeat(n) + u[0] + "い" };
        check_mapping(&format!("mapping text length {n} {} {}", d[1], d[2]), &map, &[t], st)
    });
    run.family("no keys", 1, |_, st| {
        check_mapping("mapping empty", &BTreeMap::new(), &["".into(), "a".into(), "あa".into()], st)
    });
    let mut ways: Vec<(&str, Value)> = vec![("mapping", json!({"mapping": {}}))];
    let keys = ["a", "b", "ab", "aba", "あ", "あb", "é"];
    for (j, a) in keys.iter().enumerate() {
        for v in vals {
            ways.push(("mapping", json!({"mapping": {*a: v}})));
            for b in &keys[..j] {
                ways.push(("mapping", json!({"mapping": {*a: v, *b: "z"}})));
                ways.push(("mapping", json!({"mapping": {*a: "z", *b: v}})));
            }
        }
    }
    let texts: Vec<String> = (0..strings_upto(4, 5)).map(|t| nth_text(t, &["a", "b", "あ", "é"])).collect();
    crate::routes::chars(run, &ways, &texts);
    let input = crate::tfilters::toks(&texts.iter().map(|t| (t.as_str(), vec!["UNK"])).collect::<Vec<_>>());
    crate::routes::tokens(run, &ways, &input);
}

// ---- regex ----------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Re {
    Lit(&'static str),
    Any,
    Class(&'static str),
    Not(&'static str),
    Start,
    End,
    Word,
    Cat(Box<Re>, Box<Re>),
    Alt(Box<Re>, Box<Re>),
    /// (min, max, greedy)
    Rep(Box<Re>, usize, usize, bool),
    Group(usize, Box<Re>),
    Empty,
}
thread_local! {
    /// Groups are written with names g1, g2.
    static NAMED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// Patterns ignore the case of ASCII letters.
    static IGNORE_CASE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
impl Re {
    pub fn src(&self) -> String {
        match self {
            Re::Lit(s) => s.to_string(),
            Re::Any => ".".into(),
            Re::Class(s) => format!("[{s}]"),
            Re::Not(s) => format!("[^{s}]"),
            Re::Start => "^".into(),
            Re::End => "$".into(),
            Re::Word => "\\b".into(),
            Re::Empty => "(?:)".into(),
            Re::Cat(a, b) => format!("{}{}", a.atom(), b.atom()),
            Re::Alt(a, b) => format!("{}|{}", a.src(), b.src()),
            Re::Rep(a, lo, hi, g) => {
                let q = match (lo, hi) {
                    (0, &usize::MAX) => "*".to_string(),
                    (1, &usize::MAX) => "+".to_string(),
                    (0, 1) => "?".to_string(),
                    (a, b) => format!("{{{a},{b}}}"),
                };
                format!("{}{}{}", a.atom(), q, if *g { "" } else { "?" })
            }
            Re::Group(n, a) if NAMED.get() => format!("(?P<g{n}>{})", a.src()),
            Re::Group(_, a) => format!("({})", a.src()),
        }
    }
    fn atom(&self) -> String {
        match self {
            Re::Alt(..) | Re::Cat(..) | Re::Rep(..) => format!("(?:{})", self.src()),
            Re::Lit(s) if s.chars().count() > 1 => format!("(?:{s})"),
            _ => self.src(),
        }
    }
    pub fn nullable(&self) -> bool {
        match self {
            Re::Lit(_) | Re::Any | Re::Class(_) | Re::Not(_) => false,
            Re::Start | Re::End | Re::Word | Re::Empty => true,
            Re::Cat(a, b) => a.nullable() && b.nullable(),
            Re::Alt(a, b) => a.nullable() || b.nullable(),
            Re::Rep(a, lo, _, _) => *lo == 0 || a.nullable(),
            Re::Group(_, a) => a.nullable(),
        }
    }
    /// Backtracking search with leftmost-first priority.
    fn m(&self, t: &str, i: usize, caps: &mut Vec<Option<(usize, usize)>>, k: &mut dyn FnMut(usize, &mut Vec<Option<(usize, usize)>>) -> bool) -> bool {
        let one = |f: &dyn Fn(char) -> bool| t[i..].chars().next().filter(|c| f(*c)).map(|c| i + c.len_utf8());
        match self {
            Re::Empty => k(i, caps),
            Re::Lit(s) => t[i..].starts_with(s) && k(i + s.len(), caps),
            Re::Any => one(&|c| c != '\n').map_or(false, |j| k(j, caps)),
            Re::Class(s) => one(&|c| s.contains(c)).map_or(false, |j| k(j, caps)),
            Re::Not(s) => one(&|c| !s.contains(c)).map_or(false, |j| k(j, caps)),
            Re::Start => i == 0 && k(i, caps),
            Re::End => i == t.len() && k(i, caps),
            Re::Word => {
                let w = |c: Option<char>| c.map_or(false, |c| c.is_alphanumeric() || c == '_' || unicode_normalization::char::is_combining_mark(c));
                w(t[..i].chars().next_back()) != w(t[i..].chars().next()) && k(i, caps)
            }
            Re::Cat(a, b) => a.m(t, i, caps, &mut |j, c| b.m(t, j, c, k)),
            Re::Alt(a, b) => a.m(t, i, caps, k) || b.m(t, i, caps, k),
            Re::Group(n, a) => {
                let old = caps[*n];
                if a.m(t, i, caps, &mut |j, c| {
                    let o = c[*n];
                    c[*n] = Some((i, j));
                    k(j, c) || { c[*n] = o; false }
                }) {
                    true
                } else {
                    caps[*n] = old;
                    false
                }
            }
            Re::Rep(a, lo, hi, g) => rep(a, *lo, *hi, *g, t, i, caps, k),
        }
    }
    pub fn find_at(&self, t: &str, from: usize) -> Option<Vec<Option<(usize, usize)>>> {
        let mut i = from;
        loop {
            let mut caps = vec![None; 4];
            let mut end = None;
            let mut got = vec![];
            if self.m(t, i, &mut caps, &mut |j, c| { end = Some(j); got = c.clone(); true }) {
                got[0] = Some((i, end.unwrap()));
                return Some(got);
            }
            match t[i..].chars().next() {
                Some(c) => i += c.len_utf8(),
                None => return None,
            }
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn rep(a: &Re, lo: usize, hi: usize, g: bool, t: &str, i: usize, caps: &mut Vec<Option<(usize, usize)>>, k: &mut dyn FnMut(usize, &mut Vec<Option<(usize, usize)>>) -> bool) -> bool {
    if lo > 0 {
        return a.m(t, i, caps, &mut |j, c| rep(a, lo - 1, hi.saturating_sub((hi != usize::MAX) as usize), g, t, j, c, k));
    }
    if hi == 0 {
        return k(i, caps);
    }
    let h2 = if hi == usize::MAX { hi } else { hi - 1 };
    if g {
        a.m(t, i, caps, &mut |j, c| j > i && rep(a, 0, h2, g, t, j, c, k)) || k(i, caps)
    } else {
        k(i, caps) || a.m(t, i, caps, &mut |j, c| j > i && rep(a, 0, h2, g, t, j, c, k))
    }
}
/// `$1`, `${1}`, `$$`; an unknown group is empty; names are as long as they can be.
fn expand(tpl: &str, t: &str, caps: &[Option<(usize, usize)>], ngroups: usize) -> String {
    let b: Vec<char> = tpl.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let named = |name: &str| name.strip_prefix('g').filter(|_| NAMED.get()).and_then(|n| n.parse::<usize>().ok()).filter(|&n| n > 0);
    let get = |name: &str| named(name).or_else(|| name.parse::<usize>().ok()).filter(|&n| n <= ngroups).and_then(|n| caps[n]).map(|(a, z)| t[a..z].to_string()).unwrap_or_default();
    while i < b.len() {
        if b[i] == '$' && i + 1 < b.len() {
            if b[i + 1] == '$' {
                out.push('$');
                i += 2;
                continue;
            }
            if b[i + 1] == '{' {
                if let Some(e) = b[i..].iter().position(|&c| c == '}') {
                    out += &get(&b[i + 2..i + e].iter().collect::<String>());
                    i += e + 1;
                    continue;
                }
            }
            let e = b[i + 1..].iter().take_while(|c| c.is_ascii_alphanumeric() || **c == '_').count();
            if e > 0 {
                out += &get(&b[i + 1..i + 1 + e].iter().collect::<String>());
                i += 1 + e;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}
pub fn ref_regex(re: &Re, ngroups: usize, tpl: &str, t: &str) -> Pieces {
    let m = if IGNORE_CASE.get() { t.to_ascii_lowercase() } else { t.to_string() };
    let mut out = vec![];
    let mut at = 0;
    let mut from = 0;
    let mut last_end = None;
    let copy = |out: &mut Pieces, a: usize, z: usize| for c in t[a..z].chars() {
        out.push((c.len_utf8(), c.to_string()));
    };
    while let Some(c) = (from <= t.len()).then(|| re.find_at(&m, from)).flatten() {
        let (a, z) = c[0].unwrap();
        if a == z && last_end == Some(z) {
            // an empty match right after a match does not count
            match t[from..].chars().next() {
                Some(c) => from += c.len_utf8(),
                None => break,
            }
            continue;
        }
        copy(&mut out, at, a);
        out.push((z - a, expand(tpl, t, &c, ngroups)));
        at = z;
        from = z;
        last_end = Some(z);
    }
    copy(&mut out, at, t.len());
    out
}

/// Every expression with a bounded number of operators.
pub fn regexes(depth: usize) -> Vec<Re> {
    let atoms = vec![Re::Lit("a"), Re::Lit("b"), Re::Lit("あ"), Re::Any, Re::Class("aあ"), Re::Not("a")];
    let zero = vec![Re::Start, Re::End, Re::Word, Re::Empty];
    let mut cur: Vec<Re> = atoms.clone();
    let mut all: Vec<Re> = atoms.iter().chain(zero.iter()).cloned().collect();
    let mut level = all.clone();
    for _ in 0..depth {
        let mut next = vec![];
        for a in &level {
            for at in atoms.iter().chain(zero.iter()).take(if depth > 1 { 10 } else { 10 }) {
                next.push(Re::Cat(Box::new(a.clone()), Box::new(at.clone())));
                next.push(Re::Alt(Box::new(a.clone()), Box::new(at.clone())));
            }
            if !a.nullable() {
                for (lo, hi) in [(0, usize::MAX), (1, usize::MAX), (0, 1), (2, 3)] {
                    next.push(Re::Rep(Box::new(a.clone()), lo, hi, true));
                }
                next.push(Re::Rep(Box::new(a.clone()), 0, usize::MAX, false));
                next.push(Re::Rep(Box::new(a.clone()), 1, usize::MAX, false));
            }
        }
        all.extend(next.iter().cloned());
        level = next;
    }
    cur.clear();
    all
}

fn check_regex(re: &Re, ngroups: usize, tpl: &str, texts: &[String], st: &mut Stats) -> Res {
    let pat = format!("{}{}", if IGNORE_CASE.get() { "(?i)" } else { "" }, re.src());
    let key = format!("regex {pat:?} -> {tpl:?}");
    let detail = |t: &str| json!({"pattern": pat, "replacement": tpl, "text": t});
    let f = match cf("regex", &json!({"pattern": pat, "replacement": tpl})) {
        Ok(f) => f,
        Err(e) => return viol(&key, format!("valid pattern {pat:?} was {e}"), detail("")),
    };
    for t in texts {
        let p = ref_regex(re, ngroups, tpl, t);
        let want = out_of(&p);
        st.transitions += 1;
        st.states += p.len() as u64;
        st.traces += 1;
        if want != *t {
            st.nontrivial += 1;
            st.sample(|| json!({"pattern": pat, "replacement": tpl, "text": t, "result": want}));
        }
        match cf_apply(&f, t) {
            Ok(s) if s == want => {}
            Ok(s) => return viol(format!("{key} on {t:?}"), format!("regex filter {pat:?} -> {tpl:?} turned {t:?} into {s:?}, replacing every match gives {want:?}"), detail(t)),
            Err(e) => return viol(format!("{key} on {t:?}"), format!("regex filter {pat:?} -> {tpl:?} on {t:?}: {e}"), detail(t)),
        }
    }
    Ok(())
}

pub fn capture_regexes() -> Vec<(Re, usize)> {
    let g = |n, r| Re::Group(n, Box::new(r));
    let c = |a, b| Re::Cat(Box::new(a), Box::new(b));
    let al = |a, b| Re::Alt(Box::new(a), Box::new(b));
    let star = |a| Re::Rep(Box::new(a), 0, usize::MAX, true);
    let plus = |a| Re::Rep(Box::new(a), 1, usize::MAX, true);
    let opt = |a| Re::Rep(Box::new(a), 0, 1, true);
    let atoms = [Re::Lit("a"), Re::Lit("あ"), Re::Any, Re::Class("bあ"), star(Re::Lit("b")), plus(Re::Not("a")), opt(Re::Lit("あ"))];
    let mut v = vec![];
    for x in &atoms {
        for y in &atoms {
            v.push((c(g(1, x.clone()), y.clone()), 1));
            v.push((c(g(1, x.clone()), g(2, y.clone())), 2));
            v.push((al(g(1, x.clone()), g(2, y.clone())), 2));
            v.push((c(opt(g(1, Re::Lit("b"))), c(x.clone(), g(2, y.clone()))), 2));
            v.push((g(1, c(x.clone(), g(2, y.clone()))), 2));
        }
    }
    v
}

pub fn c13(run: &mut Run) {
    run.rule = "every expression of the bounded grammar and every replacement template of a list, against every text up to a bound, compared with a reference backtracking matcher; non-trivial: something is replaced".into();
    run.assumptions = vec!["the enumerated grammar is literals, dot, classes, anchors, word boundary, concatenation, alternation, greedy and lazy repetition, groups; bodies of repetitions do not match the empty text".into()];
    let res = regexes(run.b(2, 2));
    let tpls: Vec<&str> = run.b(vec!["", "x", "あい", "$$1", "[$0]"], vec!["", "x", "あい", "[$0]", "$$1", "$", "$1x", "${0}", "a$x b"]);
    let n = run.b(4, 6);
    let texts: Vec<String> = (0..strings_upto(4, n)).map(|t| nth_text(t, &["a", "b", "あ", "\n"])).collect();
    run.family("expressions x replacements x texts", (res.len() * tpls.len()) as u64, |i, st| {
        check_regex(&res[i as usize / tpls.len()], 0, tpls[i as usize % tpls.len()], &texts, st)
    });
    let caps = capture_regexes();
    let tpls = ["$1", "$2$1", "<$1|$2>", "$1x", "${1}x", "$$1", "$0$0", "${2}", "$3", "a$", "$", "${1", "\\1", "$あ", "$1あ", "\u{301}$2"];
    let texts: Vec<String> = (0..strings_upto(3, n)).map(|t| nth_text(t, &["a", "b", "あ"])).collect();
    run.family("capture references", (caps.len() * tpls.len()) as u64, |i, st| {
        let (re, ng) = &caps[i as usize / tpls.len()];
        check_regex(re, *ng, tpls[i as usize % tpls.len()], &texts, st)
    });
    let named = ["$g1", "${g2}$g1", "<$g1x>", "${g1}x", "$1$g2", "$g2あ", "$g0", "$$g1", "${g1", "$g", "$0$g1"];
    run.family("named groups", (caps.len() * named.len()) as u64, |i, st| {
        let (re, ng) = &caps[i as usize / named.len()];
        NAMED.set(true);
        let r = check_regex(re, *ng, named[i as usize % named.len()], &texts, st);
        NAMED.set(false);
        r
    });
    let cased: Vec<String> = (0..strings_upto(4, n)).map(|t| nth_text(t, &["a", "A", "b", "あ"])).collect();
    run.family("patterns that ignore case", (res.len() * 2) as u64, |i, st| {
        IGNORE_CASE.set(true);
        let r = check_regex(&res[i as usize / 2], 0, ["x", "$0$$"][i as usize % 2], &cased, st);
        IGNORE_CASE.set(false);
        r
    });
    // every character, as it stands in a pattern, a text and a replacement
    let block = 256u32;
    let some = run.b(16, 1);
    run.family("every character", (0x110000 / block) as u64, |i, st| {
        for c in (i as u32 * block..(i as u32 + 1) * block).filter_map(char::from_u32) {
            if c as u32 >= 0x3000 && c as u32 % some != 3 % some {
                continue;
            }
            let l: &'static str = Box::leak(if c.is_ascii() && !c.is_ascii_alphanumeric() { format!("\\x{{{:X}}}", c as u32) } else { c.to_string() }.into_boxed_str());
            // the pattern as a class, which the reference reads as the character itself
            let f = match cf("regex", &json!({"pattern": l, "replacement": format!("<{}>", c.to_string().replace('$', "$$"))})) {
                Ok(f) => f,
                Err(e) => return viol(format!("regex char U+{:X}", c as u32), format!("the pattern {l:?} was {e}"), json!({"pattern": l})),
            };
            for t in [format!("{c}"), format!("a{c}{c}あ{c}"), format!("あb{c}")] {
                let want = t.replace(c, &format!("<{c}>"));
                st.transitions += 1;
                st.traces += 1;
                st.nontrivial += 1;
                if c == 'a' || c == 'あ' || c == 'b' {
                    continue;
                }
                if cf_apply(&f, &t) != Ok(want.clone()) {
                    return viol(format!("regex char U+{:X} {t:?}", c as u32), format!("the pattern {l:?} on {t:?} gives {:?} instead of {want:?}", cf_apply(&f, &t)), json!({"text": t}));
                }
            }
        }
        Ok(())
    });
    // long texts
    let lens: Vec<usize> = (1..=run.b(300, 1500)).chain([4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 100_000]).collect();
    let pats = [(Re::Lit("a"), "あ"), (Re::Rep(Box::new(Re::Lit("あ")), 1, usize::MAX, true), "x"), (Re::Word, "|"), (Re::Lit("b"), ""), (Re::Class("aあ"), "$0$0")];
    let units = ["a", "あ", "ab", "aあb\n", "あああb"];
    let nl = lens.len() as u64;
    run.family("text lengths", nl * (pats.len() * units.len()) as u64, |i, st| {
        let d = digits(i, &[nl, pats.len() as u64, units.len() as u64]);
        let t: String = units[d[2]].chars().cycle().take(lens[nl as usize - 1 - d[0]]).collect();
        check_regex(&pats[d[1]].0, 0, pats[d[1]].1, &[t], st)
    });
    let bad = ["(", ")", "a(", "[", "[a", "*", "+a", "?", "a{2,1}", "\\", "(?P<n", "(?P<1>a)", "[b-a]", "\\1", "(?=a)", "(?<!a)", "\\p{Nope}", "a{99999999}", "(?z)a", "x{1000}{1000}{1000}"];
    run.family("invalid patterns", bad.len() as u64, |i, st| {
        let p = bad[i as usize];
        st.nontrivial += 1;
        match cf("regex", &json!({"pattern": p, "replacement": "x"})) {
            Err(e) if e.starts_with("refused") => Ok(()),
            Err(e) => viol(format!("regex invalid {p:?}"), format!("invalid pattern {p:?} {e}"), json!({ "pattern": p })),
            Ok(_) => viol(format!("regex invalid {p:?}"), format!("invalid pattern {p:?} was accepted"), json!({ "pattern": p })),
        }
    });
    let mut ways: Vec<(&str, Value)> = vec![];
    for p in ["a", "a+", "[ab]", "(a)(b)", "b|あ", "^a", "\n", "", "a*?b"] {
        for r in &tpls {
            ways.push(("regex", json!({"pattern": p, "replacement": r})));
        }
    }
    crate::routes::chars(run, &ways, &texts);
}

// ---- unicode normalisation --------------------------------------------------------------

pub const FORMS: [&str; 4] = ["nfc", "nfd", "nfkc", "nfkd"];
pub fn nf(form: &str, t: &str) -> String {
    match form {
        "nfc" => t.nfc().collect(),
        "nfd" => t.nfd().collect(),
        "nfkc" => t.nfkc().collect(),
        _ => t.nfkd().collect(),
    }
}
/// Does a text starting with c never interact with what precedes it?
fn stable_start(form: &str, c: char) -> bool {
    let mut first = None;
    if form.len() == 4 {
        decompose_compatible(c, |d| { first.get_or_insert(d); });
    } else {
        decompose_canonical(c, |d| { first.get_or_insert(d); });
    }
    let f = first.unwrap_or(c);
    canonical_combining_class(f) == 0 && !('\u{1161}'..='\u{11ff}').contains(&f) && nf(form, &f.to_string()) == f.to_string()
        && unicode_normalization::is_nfc_quick([f].into_iter()) == unicode_normalization::IsNormalized::Yes
}
/// Pieces: grapheme clusters; a run of clusters that interact (the normal form of the run is
/// not the concatenation of theirs) is one piece.
pub fn ref_normal(form: &str, t: &str) -> Pieces {
    let mut out: Pieces = vec![];
    let mut run: Vec<&str> = vec![];
    let flush = |run: &mut Vec<&str>, out: &mut Pieces| {
        let whole: String = run.concat();
        let each: Pieces = run.iter().map(|g| (g.len(), nf(form, g))).collect();
        if out_of(&each) == nf(form, &whole) {
            out.extend(each);
        } else {
            out.push((whole.len(), nf(form, &whole)));
        }
        run.clear();
    };
    for g in t.graphemes(true) {
        if !run.is_empty() && stable_start(form, g.chars().next().unwrap()) {
            flush(&mut run, &mut out);
        }
        run.push(g);
    }
    if !run.is_empty() {
        flush(&mut run, &mut out);
    }
    out
}

fn check_normal(form: &str, f: &BoxCharacterFilter, t: &str, st: &mut Stats) -> Res {
    let want = nf(form, t);
    st.transitions += 1;
    st.traces += 1;
    if want != t {
        st.nontrivial += 1;
        st.sample(|| json!({"form": form, "text": t, "result": want}));
    }
    let key = format!("{form} {}", t.chars().map(|c| format!("U+{:04X}", c as u32)).collect::<Vec<_>>().join(" "));
    let got = cf_apply(f, t);
    match got {
        Ok(s) if s == want => {}
        Ok(s) => return viol(&key, format!("{form} of {t:?} ({key}) is {want:?}, the filter gives {s:?}"), json!({"form": form, "text": t})),
        Err(e) => return viol(&key, format!("{form} of {t:?}: {e}"), json!({"form": form, "text": t})),
    }
    match cf_apply(f, &want) {
        Ok(s) if s == want => Ok(()),
        Ok(s) => viol(&key, format!("{form} applied twice to {t:?} changes {want:?} into {s:?}"), json!({"form": form, "text": t})),
        Err(e) => viol(&key, format!("{form} of {want:?}: {e}"), json!({"form": form, "text": t})),
    }
}
/// Characters that take part in normalisation, by role.
fn interesting(full: bool) -> Vec<char> {
    let mut v: BTreeSet<char> = BTreeSet::new();
    let all: Vec<char> = (1..0x110000u32).filter_map(char::from_u32).collect();
    let mut seen: BTreeMap<(String, u32), u32> = BTreeMap::new();
    for &c in &all {
        let ccc = canonical_combining_class(c);
        let mut d = vec![];
        decompose_compatible(c, |x| d.push(x));
        let mut dc = vec![];
        decompose_canonical(c, |x| dc.push(x));
        let hangul = (0xac00..=0xd7a3).contains(&(c as u32));
        // role: combining class, canonical or compatibility decomposition and its ends, block
        let role = if ccc != 0 {
            format!("ccc{ccc}")
        } else if hangul {
            format!("h{}", (c as u32 - 0xac00) % 28 == 0)
        } else if dc.len() > 1 || dc[0] != c {
            format!("dc{} {} {}", dc.len(), canonical_combining_class(dc[0]), canonical_combining_class(*dc.last().unwrap()))
        } else if d.len() > 1 || d[0] != c {
            format!("dk{} {:x} {}", d.len().min(3), (d[0] as u32) >> 8, canonical_combining_class(*d.last().unwrap()))
        } else {
            continue;
        };
        let lim = if full { 6 } else { 2 };
        let e = seen.entry((role, (c as u32) >> if full { 8 } else { 16 })).or_insert(0);
        if *e < lim {
            *e += 1;
            v.insert(c);
        }
    }
    // characters that compose with a following one, and what they compose with
    for &c in &all {
        let mut dc = vec![];
        decompose_canonical(c, |x| dc.push(x));
        if dc.len() >= 2 && !(0xac00..=0xd7a3).contains(&(c as u32)) {
            let l = *dc.last().unwrap();
            if canonical_combining_class(l) == 0 || full {
                v.insert(l);
                v.insert(dc[0]);
            }
        }
    }
    v.extend(['a', 'A', ' ', '\n', '\r', '\t', '\u{ad}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{600}', '\u{110bd}', '\u{1f1e6}', '\u{1f468}', '\u{fe0f}', '\u{1f3fb}', '\u{feff}', '\u{e000}', 'か', 'カ', 'ﾊ', 'ﾞ', 'ﾟ', '゙', '゛', 'は', '語', '㍿', '①', 'ﾡ', 'ￂ', 'ᄀ', 'ᅡ', 'ᆨ', '가', '각', 'ㄱ', 'ㅏ', 'ㄳ', '\u{115f}', '\u{1160}', '\u{3164}', '\u{ffa0}', '\u{a960}', '\u{d7b0}', '\u{d7cb}']);
    v.into_iter().collect()
}

pub fn c14(run: &mut Run) {
    run.rule = "every character, every pair of characters that take part in normalisation (by role), and every text over a core set up to a bound, for each of the four forms; compared with the normal form of the whole text; applied twice. non-trivial: the text is not already normal".into();
    run.assumptions = vec!["the normal form of a whole text is computed with the unicode-normalization crate".into()];
    let block = 256u64;
    run.family("every character", 0x110000 / block * 4, |i, st| {
        let form = FORMS[(i % 4) as usize];
        let f = cf("unicode_normalize", &json!({ "kind": form })).map_err(|e| Viol { key: form.into(), what: e, detail: json!({}) })?;
        for c in (i / 4 * block..(i / 4 + 1) * block).filter_map(|c| char::from_u32(c as u32)) {
            check_normal(form, &f, &c.to_string(), st)?;
            check_normal(form, &f, &format!("a{c}\u{301}"), st)?;
            check_normal(form, &f, &format!("{c}\u{3099}か"), st)?;
        }
        Ok(())
    });
    let cs = interesting(!run.quick());
    let n = cs.len() as u64;
    run.family("pairs of characters that take part", n * 4, |i, st| {
        let form = FORMS[(i % 4) as usize];
        let f = cf("unicode_normalize", &json!({ "kind": form })).map_err(|e| Viol { key: form.into(), what: e, detail: json!({}) })?;
        let a = cs[(i / 4) as usize];
        for &b in &cs {
            check_normal(form, &f, &format!("{a}{b}"), st)?;
        }
        Ok(())
    });
    let core = ["a", "か", "\u{3099}", "ﾊ", "ﾟ", "\u{301}", "\u{323}", "ᄀ", "ᅡ", "ᆨ", "ﾡ", "ￂ", "ㄱ", "㍿", "é", "\u{1100}", "가", "\u{9c7}", "\u{9be}", "\n", "\u{200d}", "Å", "ﬁ", "①", "\u{344}", "か\u{3099}", "パ", "語", "𝒜", "\u{2f81a}", "゛", "\u{5d0}\u{5b7}", "ﬠ", "\u{1d15e}"];
    let len = run.b(3, 4);
    let chunk = 512u64;
    let total = strings_upto(core.len() as u64, len);
    run.family("texts over a core set", (total + chunk - 1) / chunk * 4, |i, st| {
        let form = FORMS[(i % 4) as usize];
        let f = cf("unicode_normalize", &json!({ "kind": form })).map_err(|e| Viol { key: form.into(), what: e, detail: json!({}) })?;
        for t in i / 4 * chunk..((i / 4 + 1) * chunk).min(total) {
            check_normal(form, &f, &nth_text(t, &core), st)?;
        }
        Ok(())
    });
    c14_lengths(run);
    let ways: Vec<(&str, Value)> = FORMS.iter().map(|k| ("unicode_normalize", json!({ "kind": k }))).collect();
    let texts: Vec<String> = (0..strings_upto(7, 4)).map(|t| nth_text(t, &["か", "\u{3099}", "ｶ", "ﾞ", "é", "\u{301}", "㍿"])).collect();
    crate::routes::chars(run, &ways, &texts);
}

/// Runs of marks and long texts.
fn c14_lengths(run: &mut Run) {
    let units: [&[&str]; 12] = [
        &["\u{301}"], &["\u{323}", "\u{301}"], &["\u{301}", "\u{323}"], &["\u{3099}"], &["か\u{3099}"], &["ﾊﾟ"], &["ᄀ", "ᅡ", "ᆨ"], &["é", "e\u{301}", "a"],
        &["漢", "㍿", "字"], &["\u{5b0}", "\u{5bc}", "\u{5b7}"], &["\u{344}", "\u{1d165}"], &["\u{f71}", "\u{f72}", "\u{f74}"],
    ];
    let bases = ["", "a", "か", "ᄀ", "語Å"];
    let mut lens: Vec<usize> = (1..=run.b(100usize, 400)).collect();
    for k in [127usize, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096] {
        lens.extend([k, k + 1]);
    }
    lens.sort();
    lens.dedup();
    let nl = lens.len() as u64;
    let radices = [nl, units.len() as u64, bases.len() as u64, 4];
    run.family("runs of every length", product(&radices), |i, st| {
        let d = digits(i, &radices);
        let form = FORMS[d[3]];
        let f = cf("unicode_normalize", &json!({ "kind": form })).map_err(|e| Viol { key: form.into(), what: e, detail: json!({}) })?;
        let u = units[d[1]];
        let t: String = bases[d[2]].to_string() + &(0..lens[d[0]]).map(|j| u[j % u.len()]).collect::<String>() + ["", "z"][d[0] % 2];
        check_normal(form, &f, &t, st)
    });
}

// ---- iteration marks --------------------------------------------------------------------

const UNVOICED: &str = "かきくけこさしすせそたちつてとはひふへほカキクケコサシスセソタチツテトハヒフヘホ";
const VOICED: &str = "がぎぐげござじずぜぞだぢづでどばびぶべぼガギグゲゴザジズゼゾダヂヅデドバビブベボ";
fn voice(c: char) -> char {
    UNVOICED.chars().position(|x| x == c).map_or(c, |i| VOICED.chars().nth(i).unwrap())
}
fn unvoice(c: char) -> char {
    VOICED.chars().position(|x| x == c).map_or(c, |i| UNVOICED.chars().nth(i).unwrap())
}
fn is_hira(c: char) -> bool {
    ('\u{3041}'..='\u{3096}').contains(&c)
}
fn is_kata(c: char) -> bool {
    ('\u{30a1}'..='\u{30fa}').contains(&c)
}
/// For every character of the text the set of outputs the description allows.
pub fn ref_iteration(kanji: bool, kana: bool, t: &str) -> Vec<(char, Vec<char>)> {
    let cs: Vec<char> = t.chars().collect();
    let is_mark = |c: char| (kanji && c == '々') || (kana && "ゝゞヽヾ".contains(c));
    let mut out: Vec<(char, Vec<char>)> = vec![];
    let mut i = 0;
    while i < cs.len() {
        if !is_mark(cs[i]) {
            out.push((cs[i], vec![cs[i]]));
            i += 1;
            continue;
        }
        let s = i;
        while i < cs.len() && is_mark(cs[i]) {
            i += 1;
        }
        let n = i - s;
        let p = n.min(s);
        for j in 0..n {
            let mark = cs[s + j];
            if j >= p {
                // nothing to repeat; a run of several kinds of marks is not specified further
                let mut a = vec![mark];
                if p > 0 {
                    a.extend(&cs[s..i]);
                }
                out.push((mark, a));
                continue;
            }
            let at = s - p + j;
            // the character as written, or as already expanded
            let mut srcs = vec![cs[at]];
            srcs.extend(out[at].1.iter());
            let mut allow = vec![];
            for x in srcs {
                let same_script = match mark {
                    'ゝ' | 'ゞ' => is_hira(x),
                    'ヽ' | 'ヾ' => is_kata(x),
                    _ => true,
                };
                let y = match mark {
                    '々' => x,
                    'ゝ' | 'ヽ' => unvoice(x),
                    _ => voice(x),
                };
                allow.push(y);
                if !same_script || "うゔウヴワヷヰヸヱヹヲヺ".contains(x) {
                    allow.push(x);
                    if mark != '々' {
                        allow.extend(match x { 'う' => vec!['ゔ'], 'ウ' => vec!['ヴ'], 'ゔ' => vec!['う'], 'ヴ' => vec!['ウ'], _ => vec![] });
                    }
                }
            }
            allow.sort();
            allow.dedup();
            out.push((mark, allow));
        }
    }
    out
}
fn check_iteration(kanji: bool, kana: bool, f: &BoxCharacterFilter, t: &str, st: &mut Stats) -> Res {
    let want = ref_iteration(kanji, kana, t);
    st.transitions += 1;
    st.states += want.len() as u64;
    st.traces += 1;
    if want.iter().any(|(c, a)| !a.contains(c)) {
        st.nontrivial += 1;
        st.sample(|| json!({"kanji": kanji, "kana": kana, "text": t, "result": want.iter().map(|x| x.1[0]).collect::<String>()}));
    }
    let key = format!("iteration kanji={kanji} kana={kana} {t:?}");
    let detail = json!({"normalize_kanji": kanji, "normalize_kana": kana, "text": t});
    match cf_apply(f, t) {
        Ok(s) => {
            let got: Vec<char> = s.chars().collect();
            let ok = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| w.1.contains(g));
            if ok {
                Ok(())
            } else {
                viol(key, format!("iteration marks (kanji {kanji}, kana {kana}): {t:?} became {s:?}, expected {:?}", want.iter().map(|x| x.1[0]).collect::<String>()), detail)
            }
        }
        Err(e) => viol(key, format!("iteration marks on {t:?}: {e}"), detail),
    }
}
pub fn c15(run: &mut Run) {
    run.rule = "every text up to a bound over an alphabet of kana, kanji and every iteration mark, for the four option settings; every kana with every mark; non-trivial: a mark is expanded".into();
    run.assumptions = vec!["marks of one script after characters of another, and marks beyond the available characters in runs of several kinds of marks, may expand in any of the ways the description leaves open".into()];
    let ab = ["時", "か", "ざ", "カ", "ヅ", "a", "𠮷", "々", "ゝ", "ゞ", "ヽ", "ヾ"];
    let n = run.b(5, 7);
    let total = strings_upto(12, n);
    let chunk = 4096u64;
    let opts = [(true, true), (true, false), (false, true), (false, false)];
    let load = |kanji: bool, kana: bool| cf("japanese_iteration_mark", &json!({"normalize_kanji": kanji, "normalize_kana": kana})).map_err(|e| Viol { key: "iteration load".into(), what: e, detail: json!({}) });
    run.family("texts", (total + chunk - 1) / chunk * 4, |i, st| {
        let (kanji, kana) = opts[(i % 4) as usize];
        let f = load(kanji, kana)?;
        for t in i / 4 * chunk..((i / 4 + 1) * chunk).min(total) {
            check_iteration(kanji, kana, &f, &nth_text(t, &ab), st)?;
        }
        Ok(())
    });
    // longer runs over a smaller alphabet
    let ab2 = ["部", "分", "い", "ろ", "々", "ゝ"];
    let n2 = run.b(7, 9);
    let total2 = strings_upto(6, n2);
    run.family("longer runs", (total2 + chunk - 1) / chunk, |i, st| {
        let f = load(true, true)?;
        for t in i * chunk..((i + 1) * chunk).min(total2) {
            check_iteration(true, true, &f, &nth_text(t, &ab2), st)?;
        }
        Ok(())
    });
    run.family("every character with every mark", 0x110000 / 1024 * 4, |i, st| {
        let (kanji, kana) = opts[(i % 4) as usize];
        let f = load(kanji, kana)?;
        for c in (i / 4 * 1024..(i / 4 + 1) * 1024).filter_map(|c| char::from_u32(c as u32)) {
            for m in "々ゝゞヽヾ".chars() {
                check_iteration(kanji, kana, &f, &format!("{c}{m}"), st)?;
                check_iteration(kanji, kana, &f, &format!("x{c}か{m}{m}z{m}"), st)?;
            }
        }
        Ok(())
    });
    let mut lens: Vec<usize> = (1..=run.b(200usize, 700)).collect();
    lens.extend([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 21845, 21846, 65535, 65536, 65537]);
    let nl = lens.len() as u64;
    run.family("text lengths", nl * 6 * 4, |i, st| {
        let d = digits(i, &[nl, 6, 4]);
        let (kanji, kana) = opts[d[2]];
        let f = load(kanji, kana)?;
        let n = lens[d[0]];
        let t = match d[1] {
            0 => "a".repeat(n) + "時々",
            1 => "時々".repeat(n),
            2 => "か".repeat(n) + "ゝゞ",
            3 => "馬鹿々々しい".chars().cycle().take(n).collect(),
            4 => "𠮷々aこゞろ、カヾ".chars().cycle().take(n).collect(),
            _ => "々".repeat(n.min(3)) + &"字".repeat(n) + "々ゝ",
        };
        check_iteration(kanji, kana, &f, &t, st)
    });
    run.family("run lengths", 40 * 40, |i, st| {
        let f = load(true, true)?;
        let (a, b) = (i / 40, i % 40);
        let t: String = (0..a).map(|j| ["時", "か", "𠮷", "ぎ"][j as usize % 4]).collect::<String>() + &(0..b).map(|j| if (a + j) % 4 == 1 { "ゝ" } else { "々" }).collect::<String>() + "終";
        check_iteration(true, true, &f, &t, st)
    });
    let ways: Vec<(&str, Value)> = opts.iter().map(|(a, b)| ("japanese_iteration_mark", json!({"normalize_kanji": a, "normalize_kana": b}))).collect();
    let texts: Vec<String> = (0..strings_upto(12, 3)).map(|t| nth_text(t, &ab)).collect();
    crate::routes::chars(run, &ways, &texts);
}

// ---- analyzer offsets -------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Stage {
    Map(BTreeMap<String, String>),
    Regex(Re, usize, &'static str),
    Norm(&'static str),
    Iter(bool, bool),
}
impl Stage {
    pub fn kind(&self) -> &'static str {
        match self {
            Stage::Map(_) => "mapping",
            Stage::Regex(..) => "regex",
            Stage::Norm(_) => "unicode_normalize",
            Stage::Iter(..) => "japanese_iteration_mark",
        }
    }
    pub fn args(&self) -> Value {
        match self {
            Stage::Map(m) => json!({ "mapping": m }),
            Stage::Regex(r, _, t) => json!({"pattern": r.src(), "replacement": t}),
            Stage::Norm(f) => json!({ "kind": f }),
            Stage::Iter(a, b) => json!({"normalize_kanji": a, "normalize_kana": b}),
        }
    }
    pub fn json(&self) -> Value {
        json!({"kind": self.kind(), "args": self.args()})
    }
    pub fn load(&self) -> Result<BoxCharacterFilter, String> {
        cf(self.kind(), &self.args())
    }
    fn pieces(&self, f: &BoxCharacterFilter, t: &str) -> Result<Pieces, String> {
        Ok(match self {
            Stage::Map(m) => ref_mapping(m, t),
            Stage::Regex(r, n, tpl) => ref_regex(r, *n, tpl, t),
            Stage::Norm(form) => ref_normal(form, t),
            Stage::Iter(..) => {
                // one character stands for one character
                let s = cf_apply(f, t)?;
                if s.chars().count() != t.chars().count() {
                    return Err("iteration marks changed the number of characters".into());
                }
                t.chars().zip(s.chars()).map(|(a, b)| (a.len_utf8(), b.to_string())).collect()
            }
        })
    }
}
fn map(kv: &[(&str, &str)]) -> Stage {
    Stage::Map(kv.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())
}

/// A dictionary in which every character is a token of its own.
pub fn char_src() -> dictkit::Src {
    dictkit::Src {
        rows: vec![dictkit::row("ZZZZ", 0, 0, 0, "z")],
        cats: vec![dictkit::Cat { name: "DEFAULT", invoke: true, group: false }],
        ranges: vec![],
        unks: vec![dictkit::Unk { cat: "DEFAULT", left: 0, right: 0, cost: 10 }],
        conn: vec![vec![0]],
        user: vec![],
    }
}

fn check_offsets(stages: &[Stage], an: &Analyzer, t: &str, st: &mut Stats) -> Res {
    let key = || format!("offsets {} on {t:?}", stages.iter().map(|s| s.json().to_string()).collect::<Vec<_>>().join(" "));
    let detail = || json!({"character_filters": stages.iter().map(|s| s.json()).collect::<Vec<_>>(), "text": t});
    // positions of the current text -> positions of the original it may stand for (None: anything)
    let mut back: BTreeMap<usize, Option<BTreeSet<usize>>> = t.char_indices().map(|x| x.0).chain([t.len()]).map(|p| (p, Some([p].into()))).collect();
    let mut cur = t.to_string();
    let mut identity = true;
    for (s, f) in stages.iter().zip(&an.character_filters) {
        let p = match s.pieces(f, &cur) {
            Ok(p) => p,
            Err(e) => return viol(key(), e, detail()),
        };
        let mut nb: BTreeMap<usize, Option<BTreeSet<usize>>> = BTreeMap::new();
        let (mut i, mut o) = (0, 0);
        let put = |nb: &mut BTreeMap<usize, Option<BTreeSet<usize>>>, o: usize, i: usize| {
            let b = back.get(&i).cloned().flatten();
            match nb.get_mut(&o) {
                None => {
                    nb.insert(o, b);
                }
                Some(x) => {
                    if let (Some(x), Some(b)) = (x.as_mut(), &b) {
                        x.extend(b);
                    } else {
                        *x = None;
                    }
                }
            }
        };
        put(&mut nb, 0, 0);
        for (n, w) in &p {
            if cur[i..i + n] != *w {
                identity = false;
            }
            i += n;
            o += w.len();
            put(&mut nb, o, i);
        }
        cur = out_of(&p);
        back = nb;
    }
    st.transitions += 1;
    st.states += back.len() as u64;
    let toks = match guard(|| an.analyze(t)) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => return viol(key(), format!("analyze failed: {e}"), detail()),
        Err(p) => return viol(key(), format!("analyze panicked: {p}"), detail()),
    };
    let (mut at, mut ps, mut pe) = (0, 0, 0);
    for (i, k) in toks.iter().enumerate() {
        let (fs, fe) = (at, at + k.text.len());
        at = fe;
        let bad = |m: String| viol(key(), format!("analyzing {t:?} (filtered: {cur:?}) token {i} {:?}: {m}", k.text), detail());
        if cur.get(fs..fe) != Some(k.text.as_str()) {
            return bad(format!("is not the filtered text at {fs}..{fe}"));
        }
        let (s, e) = (k.byte_start, k.byte_end);
        if s > e || e > t.len() {
            return bad(format!("has range {s}..{e} in a text of {} bytes", t.len()));
        }
        if !t.is_char_boundary(s) || !t.is_char_boundary(e) {
            return bad(format!("has range {s}..{e}, inside a character"));
        }
        if s < ps || e < pe {
            return bad(format!("has range {s}..{e}, before the previous token's"));
        }
        if identity && (s, e) != (fs, fe) {
            return bad(format!("has range {s}..{e}, nothing was rewritten and it is at {fs}..{fe}"));
        }
        for (what, f, got) in [("start", fs, s), ("end", fe, e)] {
            if let Some(Some(a)) = back.get(&f) {
                let (lo, hi) = (*a.first().unwrap(), *a.last().unwrap());
                if got != hi {
                    return bad(format!("{what} is reported at {got}, the corresponding boundary of the original text is {}", if lo == hi { lo.to_string() } else { format!("{lo}..{hi}") }));
                }
            }
        }
        ps = s;
        pe = e;
        st.traces += 1;
    }
    if at != cur.len() {
        return viol(key(), format!("tokens cover {at} of {} bytes of the filtered text", cur.len()), detail());
    }
    if !identity {
        st.nontrivial += 1;
    }
    if !identity && t.len() < 300 {
        st.sample(|| json!({"stages": stages.iter().map(|s| s.json()).collect::<Vec<_>>(), "text": t, "filtered": cur, "ranges": toks.iter().map(|k| json!([k.text, k.byte_start, k.byte_end])).collect::<Vec<_>>()}));
    }
    Ok(())
}
fn analyzer(stages: &[Stage], tk: &lindera_tokenizer::tokenizer::Tokenizer) -> Result<Analyzer, Viol> {
    let mut v = vec![];
    for s in stages {
        v.push(s.load().map_err(|e| Viol { key: format!("stage {}", s.json()), what: format!("valid filter {} was {e}", s.json()), detail: s.json() })?);
    }
    Ok(Analyzer::new(v, tk.clone(), vec![]))
}
pub fn stage_pool() -> Vec<Stage> {
    let lit = |s| Re::Lit(s);
    let b = |r: Re| Box::new(r);
    vec![
        map(&[("㍿", "株式会社")]),
        map(&[("a", "")]),
        map(&[("a", "ab"), ("ba", "a")]),
        map(&[("ab", "b"), ("b", "あ")]),
        map(&[("あ", "ab")]),
        map(&[("a", "𠮷"), ("あ", "い")]),
        map(&[("あ", ""), ("あ々", "aaaa"), ("b", "bb")]),
        Stage::Norm("nfc"),
        Stage::Norm("nfd"),
        Stage::Norm("nfkc"),
        Stage::Norm("nfkd"),
        Stage::Iter(true, true),
        Stage::Regex(lit("a"), 0, ""),
        Stage::Regex(Re::Rep(b(lit("b")), 1, usize::MAX, true), 0, "あ"),
        Stage::Regex(Re::Rep(b(lit("a")), 0, usize::MAX, true), 0, "-"),
        Stage::Regex(Re::Cat(b(Re::Group(1, b(Re::Any))), b(Re::Group(2, b(lit("あ"))))), 2, "$2$1$1"),
        Stage::Regex(Re::Word, 0, "語"),
        Stage::Regex(Re::Any, 0, "xyz"),
    ]
}

pub fn c16(run: &mut Run) {
    run.rule = "every filter pipeline of the families against every text up to a bound, with a dictionary that makes every character of the filtered text a token, so that every boundary is observed; the reference rewriting gives the alignment. non-trivial: something is rewritten. states: boundaries of the filtered text, traces: tokens compared".into();
    run.assumptions = vec![
        "a boundary where text was deleted is mapped to the end of the deleted text".into(),
        "a boundary inside a replacement is only required to be valid and in order; the pieces of a normalisation are grapheme clusters".into(),
    ];
    let tk = match char_src().tokenizer(Mode::Normal) {
        Ok(t) => t,
        Err(e) => {
            run.family("setup", 1, |_, _| viol("setup", &e, json!({})));
            return;
        }
    };
    let tk = &tk;
    // every mapping of one or two keys
    let keys: Vec<String> = (1..strings_upto(2, 2)).map(|i| nth_text(i, &["a", "あ"])).collect();
    let vals = ["", "x", "あい", "abcd", "𠮷é", "い"];
    let subs = subsets_upto(keys.len(), 2);
    let texts: Vec<String> = (0..strings_upto(2, run.b(7, 9))).map(|t| nth_text(t, &["a", "あ"])).collect();
    run.family("every mapping of one or two keys", subs.len() as u64 * 36, |i, st| {
        let s = &subs[(i / 36) as usize];
        let v = (i % 36) as usize;
        if s.len() == 1 && v >= 6 {
            return Ok(());
        }
        let m: Vec<(&str, &str)> = s.iter().enumerate().map(|(j, &k)| (keys[k].as_str(), vals[if j == 0 { v % 6 } else { v / 6 }])).collect();
        let stages = [map(&m)];
        let an = analyzer(&stages, tk)?;
        for t in &texts {
            check_offsets(&stages, &an, t, st)?;
        }
        Ok(())
    });
    // regular expressions
    let res = regexes(run.b(1, 2));
    let tpls = ["", "x", "あい", "xyzw"];
    let texts: Vec<String> = (0..strings_upto(3, run.b(5, 4))).map(|t| nth_text(t, &["a", "b", "あ"])).collect();
    run.family("every regular expression", (res.len() * 4) as u64, |i, st| {
        let stages = [Stage::Regex(res[i as usize / 4].clone(), 0, tpls[i as usize % 4])];
        let an = analyzer(&stages, tk)?;
        for t in &texts {
            check_offsets(&stages, &an, t, st)?;
        }
        Ok(())
    });
    let caps = capture_regexes();
    let ctpls = ["$1", "$2$1", "<$1|$2>", "$$1", "$0$0", "$3"];
    run.family("capture references", (caps.len() * ctpls.len()) as u64, |i, st| {
        let (re, n) = &caps[i as usize / ctpls.len()];
        let stages = [Stage::Regex(re.clone(), *n, ctpls[i as usize % ctpls.len()])];
        let an = analyzer(&stages, tk)?;
        for t in &texts {
            check_offsets(&stages, &an, t, st)?;
        }
        Ok(())
    });
    // normalisation: every character between others, and all texts over a core set
    run.family("normalisation of every character", 0x110000 / 256 * 4, |i, st| {
        let stages = [Stage::Norm(FORMS[(i % 4) as usize])];
        let an = analyzer(&stages, tk)?;
        for c in (i / 4 * 256..(i / 4 + 1) * 256).filter_map(|c| char::from_u32(c as u32)) {
            for t in [format!("㍿{c}か{c}é"), format!("{c}㍿a{c}")] {
                check_offsets(&stages, &an, &t, st)?;
            }
        }
        Ok(())
    });
    let core = ["a", "か", "\u{3099}", "ﾊ", "ﾟ", "\u{301}", "ᅡ", "ﾡ", "ￂ", "㍿", "é", "ﬁ", "①", "パ", "𝒜", "\u{1d15e}"];
    let n = run.b(3, 4);
    let total = strings_upto(16, n);
    run.family("normalisation of texts over a core set", (total + 255) / 256 * 4, |i, st| {
        let stages = [Stage::Norm(FORMS[(i % 4) as usize])];
        let an = analyzer(&stages, tk)?;
        for t in i / 4 * 256..((i / 4 + 1) * 256).min(total) {
            check_offsets(&stages, &an, &nth_text(t, &core), st)?;
        }
        Ok(())
    });
    // iteration marks that repeat characters of another width
    let ab = ["a", "é", "か", "𠮷", "々", "ゞ"];
    let total = strings_upto(6, run.b(5, 6));
    run.family("iteration marks", (total + 255) / 256, |i, st| {
        let stages = [Stage::Iter(true, true)];
        let an = analyzer(&stages, tk)?;
        for t in i * 256..((i + 1) * 256).min(total) {
            check_offsets(&stages, &an, &nth_text(t, &ab), st)?;
        }
        Ok(())
    });
    // pipelines
    let pool = stage_pool();
    let np = pool.len() as u64;
    let ab = ["a", "b", "あ", "㍿", "ﾊ", "ﾟ", "々"];
    let texts: Vec<String> = (0..strings_upto(7, run.b(4, 5))).map(|t| nth_text(t, &ab)).collect();
    run.family("pipelines of two filters", np * np, |i, st| {
        let stages = [pool[(i / np) as usize].clone(), pool[(i % np) as usize].clone()];
        let an = analyzer(&stages, tk)?;
        for t in &texts {
            check_offsets(&stages, &an, t, st)?;
        }
        Ok(())
    });
    let texts: Vec<String> = (0..strings_upto(7, run.b(3, 4))).map(|t| nth_text(t, &ab)).chain(["aあ々ab㍿ﾊﾟb".to_string(), "㍿あ々々aabbbﾊ".into()]).collect();
    run.family("pipelines of three filters", np * np * np, |i, st| {
        let stages = [pool[(i / np / np) as usize].clone(), pool[(i / np % np) as usize].clone(), pool[(i % np) as usize].clone()];
        let an = analyzer(&stages, tk)?;
        for t in &texts {
            check_offsets(&stages, &an, t, st)?;
        }
        Ok(())
    });
    // long texts: many corrections accumulate
    run.family("long texts", np * 64, |i, st| {
        let stages = [pool[(i / 64) as usize].clone()];
        let an = analyzer(&stages, tk)?;
        let k = i % 64;
        let t: String = (0..40 + k * 3).map(|j| ab[((j * (k + 1) + j * j * (k % 5)) % 7) as usize]).collect();
        check_offsets(&stages, &an, &t, st)
    });
    // very long texts: many corrections, and offsets beyond 16 bits
    let sizes = run.b(vec![1000u64, 5000, 30000, 100000], vec![1000, 5000, 30000, 100000, 400000]);
    let ns = sizes.len() as u64;
    run.family("very long texts", np * ns * 2, |i, st| {
        let d = digits(i, &[np, ns, 2]);
        let stages = [pool[d[0]].clone()];
        let an = analyzer(&stages, tk)?;
        let n = sizes[d[1]];
        let t: String = (0..n).map(|j| ab[(if d[2] == 0 { j * j + j / 7 } else { j * 3 + j / 5 } % 7) as usize]).collect();
        check_offsets(&stages, &an, &t, st)
    });
    let n = run.b(3000u64, 12000);
    run.family("very long texts through two filters", np * np, |i, st| {
        let stages = [pool[(i / np) as usize].clone(), pool[(i % np) as usize].clone()];
        let an = analyzer(&stages, tk)?;
        let t: String = (0..n).map(|j| ab[((j * j + j / 7 + i) % 7) as usize]).collect();
        check_offsets(&stages, &an, &t, st)
    });
}
