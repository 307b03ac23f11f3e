//! C22: malformed dictionary sources and settings. Every enumerated damage of a well-formed
//! source is judged by a reference reader of the format; what must be refused must be refused
//! without a panic, what remains well-formed must be built with exactly the stated contents.
use crate::rich::near_names;
use crate::dict::{copy_dir, row_table, u_rows, Which};
use crate::dictkit::*;
use crate::fw::*;
use crate::settings::{self, Verdict, FILTERS};
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind, DictionaryLoader, UserDictionaryConfig};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::path::Path;
use Verdict::*;

// ---- reference readers -----------------------------------------------------------------

/// A decimal integer within bounds. Spellings the formats do not speak of are `Any`.
fn num(s: &str, lo: i64, hi: i64) -> (Verdict, i64) {
    let digits = s.strip_prefix('-').unwrap_or(s);
    if !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit()) {
        if s == "-0" {
            return (Any, 0);
        }
        return match s.parse::<i64>() {
            Ok(n) if lo <= n && n <= hi => (Valid, n),
            _ => (Invalid, 0),
        };
    }
    let t = s.trim();
    if t != s || s.starts_with('+') {
        let t = t.strip_prefix('+').unwrap_or(t);
        return if t.starts_with('+') { (Invalid, 0) } else if num(t, lo, hi).0 == Invalid { (Invalid, 0) } else { (Any, 0) };
    }
    (Invalid, 0)
}
fn and(a: Verdict, b: Verdict) -> Verdict {
    match (a, b) {
        (Invalid, _) | (_, Invalid) => Invalid,
        (Any, _) | (_, Any) => Any,
        _ => Valid,
    }
}
/// The records of a CSV text without odd quoting, else None.
fn csv(text: &str) -> Option<Vec<Vec<String>>> {
    let mut out = vec![];
    let mut rest = text;
    while !rest.is_empty() {
        if rest.starts_with(['\n', '\r']) {
            rest = &rest[1..];
            continue;
        }
        let mut rec = vec![];
        loop {
            if let Some(r) = rest.strip_prefix('"') {
                let mut f = String::new();
                let mut r = r;
                loop {
                    let q = r.find('"')?;
                    f.push_str(&r[..q]);
                    r = &r[q + 1..];
                    if let Some(r2) = r.strip_prefix('"') {
                        f.push('"');
                        r = r2;
                    } else {
                        break;
                    }
                }
                if !(r.is_empty() || r.starts_with([',', '\n', '\r'])) {
                    return None;
                }
                rec.push(f);
                rest = r;
            } else {
                let e = rest.find([',', '\n', '\r']).unwrap_or(rest.len());
                if rest[..e].contains('"') {
                    return None;
                }
                rec.push(rest[..e].to_string());
                rest = &rest[e..];
            }
            match rest.strip_prefix(',') {
                Some(r) => rest = r,
                None => break,
            }
        }
        out.push(rec);
    }
    Some(out)
}
fn odd(s: &str) -> bool {
    s.is_empty() || s.contains('\0') || s.contains('\u{feff}') || s.contains('\u{fffd}')
}
/// System dictionary rows: the verdict, and the rows it must hold (the certain ones when `Any`).
fn read_words(kind: &DictionaryKind, text: &str) -> (Verdict, Vec<Row>) {
    let Some(recs) = csv(text) else { return (Any, vec![]) };
    let skip = *kind == DictionaryKind::CcCedict;
    let mut v = Valid;
    if !skip && recs.iter().any(|r| r.len() != recs[0].len()) {
        v = Invalid;
    }
    let mut rows = vec![];
    for r in &recs {
        let f = |i: usize| r.get(i).map(|s| s.as_str()).unwrap_or("");
        let (a, left) = num(f(1), 0, 65535);
        let (b, right) = num(f(2), 0, 65535);
        let (c, cost) = num(f(3), -32768, 32767);
        match and(and(a, b), c) {
            Invalid if skip => continue,
            Invalid => v = Invalid,
            Any => v = and(v, Any),
            Valid => {
                if odd(&r[0]) || r.iter().any(|x| x.contains('\0')) {
                    v = and(v, Any);
                } else {
                    let mut details: Vec<String> = r[4..].to_vec();
                    if details.is_empty() {
                        details.push(String::new());
                    }
                    rows.push(Row { surface: r[0].clone(), left: left as u16, right: right as u16, cost: cost as i16, details });
                }
            }
        }
    }
    if rows.is_empty() {
        // a dictionary without words is not worth an opinion
        v = and(v, Any);
    }
    (v, rows)
}
fn read_user(kind: &DictionaryKind, text: &str) -> (Verdict, Vec<UserLine>) {
    let Some(recs) = csv(text) else { return (Any, vec![]) };
    let mixes = matches!(kind, DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd);
    let mut v = Valid;
    if !mixes && recs.iter().any(|r| r.len() != recs[0].len()) {
        v = Invalid;
    }
    let mut rows = vec![];
    for r in &recs {
        if odd(&r[0]) {
            v = and(v, Any);
        }
        if r.len() == 3 {
            if !odd(&r[0]) {
                rows.push(UserLine::Simple(r[0].clone(), r[1].clone(), r[2].clone()));
            }
        } else if r.len() >= detailed_fields(kind) {
            let (a, left) = num(&r[1], 0, 65535);
            let (b, right) = num(&r[2], 0, 65535);
            let (c, cost) = num(&r[3], -32768, 32767);
            let w = and(and(a, b), c);
            v = and(v, w);
            if w == Valid && !odd(&r[0]) {
                rows.push(UserLine::Detailed(Row { surface: r[0].clone(), left: left as u16, right: right as u16, cost: cost as i16, details: r[4..].to_vec() }));
            }
        } else {
            v = Invalid;
        }
    }
    if recs.is_empty() {
        v = and(v, Any);
    }
    (v, rows)
}
pub use crate::dict::U as UserLine;

/// name, invoke, group, length
type CatLine = (String, bool, bool, u32);
#[derive(Default, Clone)]
struct Chars {
    cats: Vec<CatLine>,
    ranges: Vec<(u32, u32, Vec<String>)>,
}
fn read_chars(text: &str) -> (Verdict, Chars) {
    let mut v = Valid;
    let mut c = Chars::default();
    let mut mentioned = BTreeSet::new();
    for line in text.lines() {
        let line = line.split('#').next().unwrap().trim();
        if line.is_empty() {
            continue;
        }
        if line.chars().any(|c| c == '\u{feff}' || c == '\u{fffd}' || (c.is_whitespace() && !" \t".contains(c))) {
            v = and(v, Any);
        }
        let f: Vec<&str> = line.split_whitespace().collect();
        if line.starts_with("0x") {
            let b: Vec<&str> = f[0].split("..").collect();
            let hex = |s: &str| -> (Verdict, u32) {
                match s.strip_prefix("0x") {
                    // a bound without the prefix, or with more than 16 bits, is not spoken of
                    None if !s.is_empty() && s.bytes().all(|b| b.is_ascii_hexdigit()) => (Any, 0),
                    Some(h) if !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit()) => match u64::from_str_radix(h, 16) {
                        Ok(n) if n <= 0xffff && !(0xd800..0xe000).contains(&n) => (Valid, n as u32),
                        _ => (Any, 0),
                    },
                    Some(h) if h.starts_with("0x") || h.starts_with('+') => (Any, 0),
                    _ if s.starts_with('+') => (Any, 0),
                    _ => (Invalid, 0),
                }
            };
            if b.len() > 2 {
                v = Invalid;
                continue;
            }
            let (x, lo) = hex(b[0]);
            let (y, hi) = hex(b[b.len() - 1]);
            v = and(v, and(x, y));
            if and(x, y) == Valid && hi < lo {
                v = Invalid;
            }
            if f.len() == 1 {
                v = and(v, Any);
            }
            for n in &f[1..] {
                mentioned.insert(n.to_string());
            }
            c.ranges.push((lo, hi, f[1..].iter().map(|s| s.to_string()).collect()));
        } else {
            if f.len() != 4 {
                v = Invalid;
                continue;
            }
            for (i, hi) in [(1, 1), (2, 1), (3, u32::MAX as i64)] {
                let (w, _) = num(f[i], 0, u32::MAX as i64);
                v = and(v, w);
                if w == Valid && num(f[i], 0, hi).0 != Valid {
                    v = and(v, Any);
                }
            }
            if c.cats.iter().any(|x| x.0 == f[0]) {
                v = Invalid;
            }
            c.cats.push((f[0].to_string(), f[1] == "1", f[2] == "1", f[3].parse().unwrap_or(0)));
        }
    }
    if mentioned.iter().any(|m| !c.cats.iter().any(|x| x.0 == *m)) {
        v = Invalid;
    }
    if !c.cats.iter().any(|x| x.0 == "DEFAULT") {
        v = and(v, Any);
    }
    (v, c)
}
impl Chars {
    fn of(&self, c: u32) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for (lo, hi, cs) in &self.ranges {
            if *lo <= c && c <= *hi {
                for k in cs {
                    if !v.contains(k) {
                        v.push(k.clone());
                    }
                }
            }
        }
        if v.is_empty() {
            v.push("DEFAULT".into());
        }
        v
    }
    fn check(&self, d: &Dictionary) -> Result<(), String> {
        let d = &d.char_definitions;
        let mut probes: BTreeSet<u32> = [0u32, 0x20, 0x41, 0x3042, 0x4e00, 0xffff, 0x10000, 0x10ffff].into_iter().collect();
        for (lo, hi, _) in &self.ranges {
            for p in [*lo, *hi] {
                probes.extend([p.saturating_sub(1), p, p + 1]);
            }
        }
        for c in probes.into_iter().filter_map(char::from_u32) {
            let got: Vec<&str> = d.lookup_categories(c).iter().map(|&id| d.category_name(id)).collect();
            let want = self.of(c as u32);
            if got != want {
                return Err(format!("U+{:04X} has categories {got:?}, char.def says {want:?}", c as u32));
            }
        }
        for (i, n) in d.categories().iter().enumerate() {
            let f = d.lookup_definition(lindera_core::character_definition::CategoryId(i));
            match self.cats.iter().find(|x| x.0 == *n) {
                Some(w) if (f.invoke, f.group, f.length) == (w.1, w.2, w.3) => {}
                w => return Err(format!("category {n} has invoke {} group {} length {}, char.def says {w:?}", f.invoke, f.group, f.length)),
            }
        }
        Ok(())
    }
}
type UnkLine = (String, u16, u16, i16);
fn read_unks(kind: &DictionaryKind, text: &str) -> (Verdict, Vec<UnkLine>) {
    let mut v = Valid;
    let mut out = vec![];
    for line in text.lines() {
        if line.trim().is_empty() {
            v = and(v, Any);
            continue;
        }
        let f: Vec<&str> = line.split(',').collect();
        if f.len() != unk_fields(kind) {
            v = Invalid;
            continue;
        }
        let (a, l) = num(f[1], 0, 65535);
        let (b, r) = num(f[2], 0, 65535);
        let (c, w) = num(f[3], -32768, 32767);
        v = and(v, and(and(a, b), c));
        if f[0].contains(['\u{feff}', '\u{fffd}', '"']) || f[0].trim() != f[0] {
            v = and(v, Any);
        }
        out.push((f[0].to_string(), l as u16, r as u16, w as i16));
    }
    (v, out)
}
fn check_unks(unks: &[UnkLine], d: &Dictionary) -> Result<(), String> {
    for (i, n) in d.char_definitions.categories().iter().enumerate() {
        let got: Vec<(u16, u16, i16)> = d
            .unknown_dictionary
            .lookup_word_ids(lindera_core::character_definition::CategoryId(i))
            .iter()
            .map(|&w| {
                let e = d.unknown_dictionary.word_entry(w);
                (e.left_id, e.right_id, e.word_cost)
            })
            .collect();
        let want: Vec<(u16, u16, i16)> = unks.iter().filter(|u| u.0 == *n).map(|u| (u.1, u.2, u.3)).collect();
        if got != want {
            return Err(format!("unknown words of category {n}: {got:?}, unk.def says {want:?}"));
        }
    }
    Ok(())
}
#[derive(Default, Clone)]
struct Matrix {
    /// the last statement about a pair counts
    lines: Vec<(u32, u32, i16)>,
}
fn read_matrix(text: &str) -> (Verdict, Matrix) {
    let mut v = Valid;
    let mut m = Matrix::default();
    let mut sizes: Option<(i64, i64)> = None;
    for line in text.lines() {
        if line.chars().any(|c| c == '\u{feff}' || c == '\u{fffd}' || (c.is_whitespace() && !" \t".contains(c))) {
            v = and(v, Any);
        }
        let f: Vec<&str> = line.split_whitespace().collect();
        if f.is_empty() {
            v = and(v, Any);
            continue;
        }
        match sizes {
            None => {
                if f.len() < 2 {
                    return (Invalid, m);
                }
                let (a, x) = num(f[0], 0, 65535);
                let (b, y) = num(f[1], 0, 65535);
                v = and(v, and(a, b));
                if f.len() > 2 || x > 32767 || y > 32767 {
                    v = and(v, Any);
                }
                if and(a, b) != Valid {
                    return (v, m);
                }
                sizes = Some((x, y));
            }
            Some((x, y)) => {
                if f.len() != 3 {
                    v = Invalid;
                    continue;
                }
                let (a, fw) = num(f[0], 0, x - 1);
                let (b, bw) = num(f[1], 0, y - 1);
                let (c, w) = num(f[2], -32768, 32767);
                v = and(v, and(and(a, b), c));
                if and(and(a, b), c) == Valid {
                    m.lines.push((fw as u32, bw as u32, w as i16));
                }
            }
        }
    }
    if sizes.is_none() {
        v = Invalid;
    }
    (v, m)
}
impl Matrix {
    fn check(&self, d: &Dictionary) -> Result<(), String> {
        for (i, (f, b, c)) in self.lines.iter().enumerate() {
            if self.lines[i + 1..].iter().any(|l| l.0 == *f && l.1 == *b) {
                continue;
            }
            let got = guard(|| d.cost_matrix.cost(*f, *b)).map_err(|e| format!("cost({f},{b}): panic: {e}"))?;
            if got != *c as i32 {
                return Err(format!("cost from right id {f} to left id {b} is {got}, matrix.def says {c}"));
            }
        }
        Ok(())
    }
}

// ---- sources and their damages ------------------------------------------------------------

pub const FILES: [&str; 4] = ["words.csv", "char.def", "unk.def", "matrix.def"];
#[derive(Clone)]
pub struct Source {
    pub kind: DictionaryKind,
    /// in the order of FILES
    pub text: [String; 4],
}
pub fn base(kind: &DictionaryKind) -> Source {
    let n = if *kind == DictionaryKind::CcCedict { 4 } else { detailed_fields(kind) - 4 };
    let row = |s: &str, a: &str, b: &str, c: &str, first: &str| {
        let mut v: Vec<String> = vec![s.into(), a.into(), b.into(), c.into()];
        v.extend((0..n).map(|i| if i == 0 { first.to_string() } else if i == n - 1 { "末".into() } else { "*".into() }));
        csv_line(&v)
    };
    let words = [row("東京", "0", "1", "120", "名詞"), row("東", "1", "0", "-7", "a,\"b\""), row("東京", "1", "1", "32000", "地名"), row("ab", "2", "1", "-32768", "x")].concat();
    let chars = "# comment\nDEFAULT 0 1 0\nALPHA 1 1 2 # note\nKANJI\t0 0 2\n\n0x0041..0x005A ALPHA\n0x4E00 KANJI ALPHA\n0x3041..0x3042  KANJI\n".to_string();
    let u = |c: &str, a: i32, b: i32, w: i32| {
        let mut v = vec![c.to_string(), a.to_string(), b.to_string(), w.to_string()];
        while v.len() < unk_fields(kind) {
            v.push("記号".into());
        }
        v.join(",") + "\n"
    };
    let unk = [u("DEFAULT", 0, 0, 4000), u("ALPHA", 1, 1, -300), u("KANJI", 2, 1, 32767), u("ALPHA", 0, 0, 5)].concat();
    let matrix = "2 3\n0 0 5\n0 1 -10\n0 2 32767\n1 0 -32768\n1 1 0\n1 2 77\n".to_string();
    Source { kind: kind.clone(), text: [words, chars, unk, matrix] }
}
pub fn base_user(kind: &DictionaryKind, detailed: bool) -> String {
    let simple = ["東京,名詞,トウキョウ\n".to_string(), "東,\"a,\"\"b\",ヒガシ\n".into(), "東京,地名,\n".into()];
    let det: Vec<String> = [("東京", "0", "1", "120"), ("ab", "65535", "3", "-32768"), ("東", "1", "0", "-7")]
        .iter()
        .map(|(s, a, b, c)| {
            let mut v: Vec<String> = [*s, *a, *b, *c].iter().map(|x| x.to_string()).collect();
            v.extend((0..detailed_fields(kind) - 4).map(|i| if i % 3 == 0 { format!("詳{i}") } else { "*".into() }));
            csv_line(&v)
        })
        .collect();
    match (matches!(kind, DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd), detailed) {
        (true, false) => [simple.to_vec(), det].concat().concat(),
        (_, false) => simple.concat(),
        (_, true) => det.concat(),
    }
}

const BAD: &[&str] = &[
    "", " ", "x", "-1", "0", "1", "2", "3", "65535", "65536", "32767", "32768", "-32768", "-32769", "99999999999", "18446744073709551616", "1.5", "1e3", "1 ", " 2", "+1", "-0", "--1", "０", "0x41", "0X41", "0x", "A", "*", "\"", "\"\"", "#", "0x10000", "0xFFFF", "0xD800", "0x0041..0x0040", "0x0041..", "..0x41", "0x41..0x42..0x43", "0x0..0xFFFF", "DEFAULT", "NOSUCH", "4294967295", "4294967296", "\u{feff}", "\u{fffd}", "\0", "東",
];
/// Every single-site damage of a text: (what, damaged text).
fn damages(text: &str, sep: char, maxf: usize) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    let lines: Vec<&str> = text.split_inclusive('\n').collect();
    let mut put = |w: String, v: Vec<String>| out.push((w, v.concat()));
    let own = |l: &[&str]| l.iter().map(|s| s.to_string()).collect::<Vec<String>>();
    for i in 0..lines.len() {
        let mut v = own(&lines);
        v.remove(i);
        put(format!("line {i} dropped"), v);
        let mut v = own(&lines);
        v.insert(i, lines[i].into());
        put(format!("line {i} doubled"), v);
        let mut v = own(&lines);
        v[i] = "\n".into();
        put(format!("line {i} blank"), v);
        let mut v = own(&lines);
        v[i] = "\r\n".into();
        put(format!("line {i} blank, CRLF"), v);
        let mut v = own(&lines);
        v[i] = lines[i].trim_end().to_string();
        put(format!("line {i} joined with the next"), v);
        if i + 1 < lines.len() {
            let mut v = own(&lines);
            v.swap(i, i + 1);
            put(format!("lines {i} and {} swapped", i + 1), v);
        }
        for b in BAD {
            let mut v = own(&lines);
            v.insert(i, format!("{b}\n"));
            put(format!("line {b:?} before line {i}"), v);
        }
        let body = lines[i].trim_end_matches('\n');
        let f: Vec<&str> = body.split(sep).collect();
        // the first fields and the last one
        let which: Vec<usize> = (0..f.len()).filter(|&j| j < maxf || j + 1 == f.len()).collect();
        for &j in &which {
            let join = |g: Vec<String>| g.join(&sep.to_string()) + "\n";
            for b in BAD {
                let mut g = own(&f);
                g[j] = b.to_string();
                let mut v = own(&lines);
                v[i] = join(g);
                put(format!("line {i} field {j} = {b:?}"), v);
            }
            let mut g = own(&f);
            g.remove(j);
            let mut v = own(&lines);
            v[i] = join(g);
            put(format!("line {i} field {j} dropped"), v);
            let mut g = own(&f);
            g.insert(j, f[j].into());
            let mut v = own(&lines);
            v[i] = join(g);
            put(format!("line {i} field {j} doubled"), v);
            if j + 1 < f.len() {
                let mut g = own(&f);
                g.swap(j, j + 1);
                let mut v = own(&lines);
                v[i] = join(g);
                put(format!("line {i} fields {j} and {} swapped", j + 1), v);
            }
        }
    }
    for b in BAD {
        put(format!("{b:?} at the end"), vec![text.to_string(), b.to_string()]);
    }
    put("BOM".into(), vec!["\u{feff}".into(), text.into()]);
    put("CRLF".into(), vec![text.replace('\n', "\r\n")]);
    put("no final newline".into(), vec![text.trim_end().into()]);
    put("empty".into(), vec![]);
    for (i, _) in text.char_indices() {
        put(format!("cut at {i}"), vec![text[..i].to_string()]);
    }
    out
}
fn sep(file: usize) -> char {
    if file == 0 || file == 2 { ',' } else { ' ' }
}

struct Judged {
    v: Verdict,
    words: Vec<Row>,
    chars: Option<Chars>,
    unks: Option<Vec<UnkLine>>,
    matrix: Option<Matrix>,
}
fn judge(s: &Source) -> Judged {
    let (a, words) = read_words(&s.kind, &s.text[0]);
    let (b, chars) = read_chars(&s.text[1]);
    let (c, unks) = read_unks(&s.kind, &s.text[2]);
    let (d, matrix) = read_matrix(&s.text[3]);
    Judged {
        v: and(and(a, b), and(c, d)),
        words,
        chars: (b == Valid).then_some(chars),
        unks: (c == Valid).then_some(unks),
        matrix: (d == Valid).then_some(matrix),
    }
}
fn write(s: &Source, dir: &Path) {
    std::fs::create_dir_all(dir).unwrap();
    for (n, t) in FILES.iter().zip(&s.text) {
        std::fs::write(dir.join(n), encode(&s.kind, t)).unwrap();
    }
}
/// Encoding damaged text must not change it, or the judgement is about another text.
fn encodable(kind: &DictionaryKind, t: &str) -> bool {
    *kind != DictionaryKind::IPADIC || encoding_rs::EUC_JP.decode_without_bom_handling(&encode(kind, t)).0 == t
}
fn check_source(s: &Source, what: &str, st: &mut Stats) -> Res {
    let key = format!("{} {what}", s.kind.as_str());
    let det = || json!({"format": s.kind.as_str(), "damage": what, "words.csv": s.text[0], "char.def": s.text[1], "unk.def": s.text[2], "matrix.def": s.text[3]});
    let mut j = judge(s);
    // a byte order mark may be taken for a part of the text or not
    if s.text.iter().any(|t| t.starts_with('\u{feff}')) {
        j = Judged { v: Any, words: if s.text[0].starts_with('\u{feff}') { vec![] } else { j.words }, chars: None, unks: None, matrix: None };
    }
    if !s.text.iter().all(|t| encodable(&s.kind, t)) {
        j = Judged { v: Any, words: vec![], chars: None, unks: None, matrix: None };
    }
    let sc = Scratch::new();
    let (i, o) = (sc.0.join("in"), sc.0.join("out"));
    write(s, &i);
    st.states += 1;
    st.transitions += 1;
    match (build_dir(&s.kind, &i, &o), j.v) {
        (Err(e), _) if e.starts_with("panicked") => viol(key, format!("building a {} dictionary from a source with {what} {e}", s.kind.as_str()), det()),
        (Err(_), Invalid) => {
            st.nontrivial += 1;
            st.sample(|| json!({"format": s.kind.as_str(), "damage": what, "outcome": "refused"}));
            Ok(())
        }
        (Err(_), Any) => Ok(()),
        (Err(e), Valid) => viol(key, format!("a well-formed {} source ({what}) was {e}", s.kind.as_str()), det()),
        (Ok(()), Invalid) => viol(key, format!("a malformed {} source ({what}) was accepted", s.kind.as_str()), det()),
        (Ok(()), v) => {
            let d = match load_dir(&o) {
                Ok(d) => d,
                Err(e) => return viol(key, format!("the {} dictionary built from a source with {what} was {e} by the loader", s.kind.as_str()), det()),
            };
            st.traces += 1;
            let probes: Vec<String> = ["東", "東京", "a", "ab", "abc", "x", "1"].iter().map(|s| s.to_string()).collect();
            let want = row_table(&s.kind, &j.words);
            let r = if v == Valid { Which::Sys(&d).compare(&want, &probes, true).map(|_| ()) } else { Which::Sys(&d).includes(&want) };
            r.and_then(|_| j.chars.as_ref().map_or(Ok(()), |c| c.check(&d)))
                .and_then(|_| match (&j.unks, &j.chars) {
                    (Some(u), Some(_)) => check_unks(u, &d),
                    _ => Ok(()),
                })
                .and_then(|_| j.matrix.as_ref().map_or(Ok(()), |m| m.check(&d)))
                .or_else(|e| viol(key, format!("{} dictionary built from a source with {what}: {e}", s.kind.as_str()), det()))
        }
    }
}
fn load_user(kind: &DictionaryKind, p: &Path) -> Result<UserDictionary, String> {
    match guard(|| DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { kind: Some(kind.clone()), path: p.to_path_buf() })) {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(p) => Err(format!("panicked: {p}")),
    }
}
fn check_user(kind: &DictionaryKind, text: &str, what: &str, st: &mut Stats) -> Res {
    let key = format!("user {} {what}", kind.as_str());
    let det = || json!({"format": kind.as_str(), "damage": what, "user.csv": text});
    let (mut v, mut rows) = read_user(kind, text);
    if text.starts_with('\u{feff}') {
        (v, rows) = (Any, vec![]);
    }
    let sc = Scratch::new();
    let (p, b) = (sc.0.join("user.csv"), sc.0.join("out/user.bin"));
    std::fs::write(&p, text).unwrap();
    let built = match guard(|| DictionaryBuilderResolver::resolve_builder(kind.clone()).and_then(|x| x.build_user_dictionary(&p, &b))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(p) => Err(format!("panicked: {p}")),
    };
    let loaded = load_user(kind, &p);
    st.states += 1;
    st.transitions += 2;
    for (n, e) in [("building", built.as_ref().err()), ("loading", loaded.as_ref().err())] {
        if let Some(e) = e {
            if e.starts_with("panicked") {
                return viol(key, format!("{n} a {} user dictionary from a source with {what} {e}", kind.as_str()), det());
            }
            if v == Valid {
                return viol(key, format!("{n} a well-formed {} user dictionary ({what}) was {e}", kind.as_str()), det());
            }
        } else if v == Invalid {
            return viol(key, format!("{n} a malformed {} user dictionary ({what}) was accepted", kind.as_str()), det());
        }
    }
    if v == Invalid {
        st.nontrivial += 1;
        st.sample(det);
    }
    let want = u_rows(kind, &rows);
    let probes: Vec<String> = ["東", "東京", "a", "ab", "abc", "x", "1"].iter().map(|s| s.to_string()).collect();
    let mut all = vec![];
    if let Ok(d) = loaded {
        all.push(("loaded", d));
    }
    if built.is_ok() {
        match load_user(kind, &b) {
            Ok(d) => all.push(("compiled", d)),
            Err(e) => return viol(key, format!("the compiled {} user dictionary of a source with {what} was {e}", kind.as_str()), det()),
        }
    }
    for (n, d) in all {
        st.traces += 1;
        let r = if v == Valid { Which::User(&d).compare(&want, &probes, true).map(|_| ()) } else { Which::User(&d).includes(&want) };
        r.or_else(|e| viol(&key, format!("{n} {} user dictionary from a source with {what}: {e}", kind.as_str()), det()))?;
    }
    Ok(())
}

fn load_filter(token: bool, name: &str, args: &Value) -> Result<(), String> {
    if token {
        crate::filters::tf(name, args).map(|_| ())
    } else {
        crate::filters::cf(name, args).map(|_| ())
    }
}

pub fn c22(run: &mut Run) {
    run.level = "fault_enumeration";
    run.rule = "every single-site damage (lines dropped, doubled, blanked, joined, swapped, inserted; fields dropped, doubled, swapped or replaced by each of a list of bad values; a cut at every byte; missing files) of a well-formed source of every format, judged by a reference reader; every combination of values of the settings of every filter. non-trivial: what must be refused. traces: dictionaries compared with the reference".into();
    run.assumptions = vec![
        "spellings the formats do not speak of (padded or signed numbers, odd quoting, empty or NUL-holding surfaces, blank definition lines, ranges beyond 16 bits, surrogates, a source without words) may be accepted or refused, but not panic, and must leave well-formed rows intact".into(),
        "connection ids of words are not compared with the size of the connection table (the embedded dummy dictionaries have an empty one)".into(),
    ];
    // the sources themselves, and every single damage of every file
    let kinds = crate::dictkit::KINDS;
    let all: Vec<Source> = kinds.iter().map(base).collect();
    run.family("well-formed sources", all.len() as u64, |i, st| {
        let s = &all[i as usize];
        if judge(s).v != Valid {
            return viol("base", "the base source is not well-formed (machinery)", json!({}));
        }
        check_source(s, "no damage", st)
    });
    let maxf = run.b(5, 30);
    for (k, s) in all.iter().enumerate() {
        for file in 0..4 {
            // the definition readers are shared by the formats; the encodings differ
            let cases = damages(&s.text[file], sep(file), maxf);
            run.family(&format!("{} {} damaged", s.kind.as_str(), FILES[file]), cases.len() as u64, |i, st| {
                let (w, t) = &cases[i as usize];
                let mut s = all[k].clone();
                s.text[file] = t.clone();
                check_source(&s, &format!("{} {w}", FILES[file]), st)
            });
        }
    }
    // cuts within a character, and files that are missing or not files
    for s in &all {
        let bytes: Vec<Vec<u8>> = s.text.iter().map(|t| encode(&s.kind, t)).collect();
        for file in 0..4 {
            run.family(&format!("{} {} cut at every byte", s.kind.as_str(), FILES[file]), bytes[file].len() as u64, |i, st| {
                let sc = Scratch::new();
                let (d, o) = (sc.0.join("in"), sc.0.join("out"));
                write(s, &d);
                std::fs::write(d.join(FILES[file]), &bytes[file][..i as usize]).unwrap();
                st.states += 1;
                st.transitions += 1;
                let key = format!("{} {} cut at byte {i}", s.kind.as_str(), FILES[file]);
                match build_dir(&s.kind, &d, &o) {
                    Err(e) if e.starts_with("panicked") => return viol(&key, format!("building from {} cut at byte {i} {e}", FILES[file]), json!({})),
                    Err(_) => return Ok(()),
                    Ok(()) => {}
                }
                let dict = load_dir(&o).or_else(|e| viol(&key, format!("the dictionary built from {} cut at byte {i} was {e}", FILES[file]), json!({})))?;
                st.traces += 1;
                // every complete line must have arrived
                let done = bytes[file][..i as usize].iter().rposition(|&b| b == b'\n').map(|p| p + 1).unwrap_or(0);
                let mut s2 = s.clone();
                let decode = |b: &[u8]| if s.kind == DictionaryKind::IPADIC { encoding_rs::EUC_JP.decode(b).0.into_owned() } else { String::from_utf8(b.to_vec()).unwrap() };
                s2.text[file] = decode(&bytes[file][..done]);
                if file == 0 {
                    let (_, rows) = read_words(&s.kind, &s2.text[0]);
                    Which::Sys(&dict).includes(&row_table(&s.kind, &rows)).or_else(|e| viol(&key, format!("words.csv cut at byte {i}: {e}"), json!({})))?;
                }
                if file == 3 {
                    let (v, m) = read_matrix(&s2.text[3]);
                    // an unfinished last line may restate a pair only by writing another number
                    if v == Valid {
                        m.check(&dict).or_else(|e| viol(&key, format!("matrix.def cut at byte {i}: {e}"), json!({})))?;
                    }
                }
                Ok(())
            });
        }
    }
    run.family("missing files", (all.len() * 4 * 3) as u64, |i, st| {
        let d = digits(i, &[all.len() as u64, 4, 3]);
        let (s, file) = (&all[d[0]], FILES[d[1]]);
        let sc = Scratch::new();
        let (i, o) = (sc.0.join("in"), sc.0.join("out"));
        write(s, &i);
        std::fs::remove_file(i.join(file)).unwrap();
        let what = match d[2] {
            0 => "missing",
            1 => {
                std::fs::create_dir(i.join(file)).unwrap();
                "a directory"
            }
            _ => {
                std::os::unix::fs::symlink(i.join("nowhere"), i.join(file)).unwrap();
                "a dangling link"
            }
        };
        st.states += 1;
        st.transitions += 1;
        st.nontrivial += 1;
        let key = format!("{} {file} {what}", s.kind.as_str());
        match build_dir(&s.kind, &i, &o) {
            Err(e) if e.starts_with("panicked") => viol(key, format!("building a {} dictionary with {file} {what} {e}", s.kind.as_str()), json!({})),
            Err(_) => Ok(()),
            Ok(()) => viol(key, format!("a {} source with {file} {what} was accepted", s.kind.as_str()), json!({})),
        }
    });
    // several word files: one of them damaged
    run.family("one of several word files damaged", all.len() as u64 * 8, |i, st| {
        let s = &all[i as usize / 8];
        let mut bad: Vec<&str> = s.text[0].split_inclusive('\n').collect();
        let at = i as usize % 8 / 2;
        let f: Vec<&str> = bad[at].splitn(2, ',').collect();
        let broken = if i % 2 == 0 { format!("{},x{}", f[0], f[1]) } else { format!("{}\n", f[0]) };
        bad[at] = &broken;
        let mut s2 = s.clone();
        s2.text[0] = bad[at].to_string();
        let rest: String = bad.iter().enumerate().filter(|(j, _)| *j != at).map(|(_, l)| *l).collect();
        let skip = s.kind == DictionaryKind::CcCedict;
        let sc = Scratch::new();
        let (d, o) = (sc.0.join("in"), sc.0.join("out"));
        write(&s2, &d);
        std::fs::write(d.join("more.csv"), encode(&s.kind, &rest)).unwrap();
        st.states += 1;
        st.transitions += 1;
        st.nontrivial += 1;
        let key = format!("{} line {at} of several files {}", s.kind.as_str(), i % 2);
        let det = json!({"words.csv": s2.text[0], "more.csv": rest});
        match (build_dir(&s.kind, &d, &o), skip) {
            (Err(e), _) if e.starts_with("panicked") => viol(key, format!("building {e}"), det),
            (Err(_), false) => Ok(()),
            (Err(e), true) => viol(key, format!("a source whose malformed row should be skipped was {e}"), det),
            (Ok(()), false) => viol(key, "a malformed row in one of several files was accepted", det),
            (Ok(()), true) => {
                let dict = load_dir(&o).or_else(|e| viol(&key, format!("the dictionary was {e}"), det.clone()))?;
                st.traces += 1;
                let (_, rows) = read_words(&s.kind, &rest);
                Which::Sys(&dict).compare(&row_table(&s.kind, &rows), &[], true).map(|_| ()).or_else(|e| viol(&key, e, det))
            }
        }
    });
    // built dictionaries with a file missing
    run.family("missing files of a built dictionary", all.len() as u64, |i, st| {
        let s = &all[i as usize];
        let sc = Scratch::new();
        let (d, o) = (sc.0.join("in"), sc.0.join("out"));
        write(s, &d);
        build_dir(&s.kind, &d, &o).or_else(|e| viol("built", format!("a well-formed source was {e}"), json!({})))?;
        let mut names: Vec<_> = std::fs::read_dir(&o).unwrap().map(|e| e.unwrap().file_name()).collect();
        names.sort();
        for n in names {
            let c = sc.0.join("copy");
            copy_dir(&o, &c);
            std::fs::remove_file(c.join(&n)).unwrap();
            st.transitions += 1;
            st.states += 1;
            st.nontrivial += 1;
            match load_dir(&c) {
                Err(e) if e.starts_with("panicked") => return viol(format!("{} without {n:?}", s.kind.as_str()), format!("loading a dictionary without {n:?} {e}"), json!({})),
                Err(_) => {}
                Ok(_) => return viol(format!("{} without {n:?}", s.kind.as_str()), format!("a dictionary without {n:?} was loaded"), json!({})),
            }
            let _ = std::fs::remove_dir_all(&c);
        }
        match load_dir(&sc.0.join("nowhere")) {
            Err(e) if !e.starts_with("panicked") => Ok(()),
            _ => viol("no directory", "a dictionary that does not exist was loaded", json!({})),
        }
    });
    // two damages at once
    if !run.quick() {
        for (k, s) in all.iter().enumerate() {
            for (x, y) in [(0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (0, 1)] {
                let small = |f: usize| damages(&s.text[f], sep(f), 4).into_iter().filter(|d| !d.0.starts_with("cut")).step_by(11).collect::<Vec<_>>();
                let (a, b) = (small(x), small(y));
                run.family(&format!("{} {} and {} damaged", s.kind.as_str(), FILES[x], FILES[y]), (a.len() * b.len()) as u64, |i, st| {
                    let mut s = all[k].clone();
                    let (p, q) = (&a[i as usize / b.len()], &b[i as usize % b.len()]);
                    s.text[x] = p.1.clone();
                    s.text[y] = q.1.clone();
                    check_source(&s, &format!("{} {}; {} {}", FILES[x], p.0, FILES[y], q.0), st)
                });
            }
            let a = damages(&s.text[0], ',', 4);
            let a: Vec<_> = a.into_iter().filter(|d| d.0.contains("field")).collect();
            let lines: Vec<&str> = s.text[0].split_inclusive('\n').collect();
            let _ = lines;
            run.family(&format!("{} words.csv damaged twice", s.kind.as_str()), a.len() as u64, |i, st| {
                for (w, t) in damages(&a[i as usize].1, ',', 4).into_iter().filter(|d| d.0.contains("field")).step_by(7) {
                    let mut s = all[k].clone();
                    s.text[0] = t;
                    check_source(&s, &format!("words.csv {} then {w}", a[i as usize].0), st)?;
                }
                Ok(())
            });
        }
    }
    // user dictionaries
    for kind in kinds.iter() {
        for detailed in [false, true] {
            let text = base_user(kind, detailed);
            let cases = damages(&text, ',', run.b(5, 30));
            run.family(&format!("{} user dictionary damaged ({})", kind.as_str(), if detailed { "detailed" } else { "simple" }), cases.len() as u64 + 1, |i, st| {
                if i == 0 {
                    if read_user(kind, &text).0 != Valid {
                        return viol("base", "the base user dictionary is not well-formed (machinery)", json!({}));
                    }
                    return check_user(kind, &text, "no damage", st);
                }
                let (w, t) = &cases[i as usize - 1];
                check_user(kind, t, w, st)
            });
            run.family(&format!("{} user dictionary cut at every byte ({})", kind.as_str(), if detailed { "detailed" } else { "simple" }), text.len() as u64, |i, st| {
                let sc = Scratch::new();
                let p = sc.0.join("user.csv");
                std::fs::write(&p, &text.as_bytes()[..i as usize]).unwrap();
                st.states += 1;
                st.transitions += 1;
                match load_user(kind, &p) {
                    Err(e) if e.starts_with("panicked") => viol(format!("user {} cut {i}", kind.as_str()), format!("loading a user dictionary cut at byte {i} {e}"), json!({ "user.csv": text })),
                    Ok(d) => {
                        st.traces += 1;
                        let done = text.as_bytes()[..i as usize].iter().rposition(|&b| b == b'\n').map(|p| p + 1).unwrap_or(0);
                        let (_, rows) = read_user(kind, &text[..done]);
                        Which::User(&d).includes(&u_rows(kind, &rows)).or_else(|e| viol(format!("user {} cut {i}", kind.as_str()), e, json!({ "user.csv": text })))
                    }
                    Err(_) => Ok(()),
                }
            });
        }
        run.family(&format!("{} user dictionary missing", kind.as_str()), 3, |i, st| {
            let sc = Scratch::new();
            let p = sc.0.join("user.csv");
            if i == 1 {
                std::fs::create_dir(&p).unwrap();
            }
            if i == 2 {
                std::os::unix::fs::symlink(sc.0.join("nowhere"), &p).unwrap();
            }
            st.states += 1;
            st.nontrivial += 1;
            let b = guard(|| DictionaryBuilderResolver::resolve_builder(kind.clone()).and_then(|x| x.build_user_dictionary(&p, &sc.0.join("o.bin"))).is_ok());
            match (load_user(kind, &p), b) {
                (Err(e), Ok(false)) if !e.starts_with("panicked") => Ok(()),
                (r, b) => viol(format!("user missing {i}"), format!("a missing user dictionary: {:?} {b:?}", r.map(|_| ())), json!({})),
            }
        });
    }
    // filter settings: all combinations of values of all fields
    for f in FILTERS {
        let n = settings::count(f);
        let chunk = 512;
        run.family(&format!("{} filter {}: every setting", if f.token { "token" } else { "character" }, f.name), (n + chunk - 1) / chunk, |i, st| {
            for x in i * chunk..((i + 1) * chunk).min(n) {
                let (args, v) = settings::nth(f, x);
                st.transitions += 1;
                st.states += 1;
                let det = json!({"kind": f.name, "args": args});
                let key = format!("{}:{args}", f.name);
                let ways: crate::routes::Routes<()> = if f.token { crate::routes::token_filters(f.name, &args).into_iter().map(|(w, r)| (w, r.map(|_| ()))).collect() } else { crate::routes::char_filters(f.name, &args).into_iter().map(|(w, r)| (w, r.map(|_| ()))).collect() };
                for (way, r) in ways {
                    match (r, v) {
                        (Err(e), _) if e.starts_with("panicked") => return viol(key, format!("{} with settings {args} by {way} {e}", f.name), det),
                        // a typed constructor is not given what does not fit its type
                        (Ok(()), Invalid) if way != "typed" => return viol(key, format!("{} with malformed settings {args} was accepted by {way}", f.name), det),
                        (Err(e), Valid) => return viol(key, format!("{} with well-formed settings {args} by {way} was {e}", f.name), det),
                        (Err(_), Invalid) => {
                            st.nontrivial += 1;
                        }
                        _ => {}
                    }
                }
            }
            st.traces += 1;
            st.sample(|| json!({"kind": f.name, "args": settings::nth(f, i * chunk).0}));
            Ok(())
        });
    }
    let mut names: Vec<(bool, String)> = vec![];
    for f in FILTERS {
        for n in near_names(f.name) {
            for t in [false, true] {
                if !FILTERS.iter().any(|g| g.name == n && g.token == t) {
                    names.push((t, n.clone()));
                }
            }
        }
    }
    run.family("unknown filters", names.len() as u64, |i, st| {
        let (t, n) = &names[i as usize];
        st.states += 1;
        st.transitions += 2;
        st.nontrivial += 1;
        for a in [json!(null), json!({"kind": "nfc", "tags": [], "words": [], "mapping": {}, "pattern": "a", "replacement": "b", "normalize_kanji": true, "normalize_kana": true, "min": 1})] {
            match load_filter(*t, n, &a) {
                Err(e) if !e.starts_with("panicked") => {}
                r => return viol(format!("unknown filter {n:?}"), format!("the unknown filter {n:?} gave {r:?}"), json!({ "kind": n, "args": a })),
            }
        }
        Ok(())
    });
    // analyzer configurations as text: every cut, every byte replaced
    let cfg = r#"{"character_filters":[{"kind":"mapping","args":{"mapping":{"あ":"\u3042x"}}}],"tokenizer":{"dictionary":{"path":"/nowhere"},"mode":"normal"},"token_filters":[{"kind":"lowercase"}]}"#;
    let n = cfg.len() as u64;
    run.family("analyzer configuration text cut or with a byte replaced", n * 12, |i, st| {
        let at = (i / 12) as usize;
        let mut b = cfg.as_bytes().to_vec();
        let rep = [None, Some(b' '), Some(b'"'), Some(b'{'), Some(b'}'), Some(b'['), Some(b','), Some(0), Some(0xff), Some(b'\\'), Some(b'1')];
        let cut = (i % 12) as usize;
        if cut < rep.len() {
            match rep[cut] {
                None => b.truncate(at),
                Some(c) => b[at] = c,
            }
        } else {
            b.extend(&cfg.as_bytes()[at..]);
        }
        st.states += 1;
        st.transitions += 1;
        let valid = serde_json::from_slice::<Value>(&b).is_ok();
        st.nontrivial += !valid as u64;
        let t = String::from_utf8_lossy(&b).into_owned();
        match guard(|| lindera_analyzer::analyzer::AnalyzerConfig::from_slice(&b).and_then(|c| lindera_analyzer::analyzer::Analyzer::from_config(&c)).map(|_| ())) {
            Err(p) => viol(format!("config {i}"), format!("an analyzer configuration panicked: {p}"), json!({ "config": t })),
            Ok(Ok(())) => viol(format!("config {i}"), "a configuration whose dictionary does not exist, or that is not JSON, was accepted", json!({ "config": t })),
            Ok(Err(_)) => Ok(()),
        }
    });
}
