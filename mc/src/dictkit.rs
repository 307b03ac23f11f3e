//! Dictionary sources (as a user writes them) and an independent reference model of the
//! segmentation they prescribe.
use crate::fw::{guard, Scratch, Stats};
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::mode::{Mode, Penalty};
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind, DictionaryLoader};
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::Path;

pub const KINDS: [DictionaryKind; 5] = [
    DictionaryKind::IPADIC,
    DictionaryKind::IPADICNEologd,
    DictionaryKind::UniDic,
    DictionaryKind::KoDic,
    DictionaryKind::CcCedict,
];
pub fn unk_fields(kind: &DictionaryKind) -> usize {
    match kind {
        DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd => 11,
        DictionaryKind::UniDic | DictionaryKind::CcCedict => 10,
        DictionaryKind::KoDic => 12,
    }
}
pub fn detailed_fields(kind: &DictionaryKind) -> usize {
    match kind {
        DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd => 13,
        DictionaryKind::UniDic => 21,
        DictionaryKind::KoDic | DictionaryKind::CcCedict => 12,
    }
}

#[derive(Clone, Debug)]
pub struct Row {
    pub surface: String,
    pub left: u16,
    pub right: u16,
    pub cost: i16,
    pub details: Vec<String>,
}
pub fn row(surface: &str, left: u16, right: u16, cost: i16, id: &str) -> Row {
    Row { surface: surface.into(), left, right, cost, details: vec![id.into(), "d".into()] }
}

#[derive(Clone, Debug)]
pub struct Cat {
    pub name: &'static str,
    pub invoke: bool,
    pub group: bool,
}
#[derive(Clone, Debug)]
pub struct Unk {
    pub cat: &'static str,
    pub left: u16,
    pub right: u16,
    pub cost: i16,
}

/// A complete dictionary source.
#[derive(Clone, Debug)]
pub struct Src {
    pub rows: Vec<Row>,
    pub cats: Vec<Cat>,
    pub ranges: Vec<(u32, u32, Vec<&'static str>)>,
    pub unks: Vec<Unk>,
    /// conn[right id of the left word][left id of the right word]
    pub conn: Vec<Vec<i16>>,
    /// user words: simple (surface only; cost -10000, ids 0) or detailed
    pub user: Vec<UserRow>,
}
#[derive(Clone, Debug)]
pub struct UserRow {
    pub row: Row,
    pub simple: bool,
}

pub fn csv_field(s: &str) -> String {
    if s.contains([',', '"', '\n', '\r']) || s.starts_with(' ') || s.ends_with(' ') {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}
pub fn csv_line(fields: &[String]) -> String {
    fields.iter().map(|f| csv_field(f)).collect::<Vec<_>>().join(",") + "\n"
}
pub fn row_line(r: &Row) -> String {
    let mut f = vec![r.surface.clone(), r.left.to_string(), r.right.to_string(), r.cost.to_string()];
    f.extend(r.details.iter().cloned());
    csv_line(&f)
}

/// The bytes of a source file in the encoding the format prescribes.
pub fn encode(kind: &DictionaryKind, text: &str) -> Vec<u8> {
    match kind {
        DictionaryKind::IPADIC => encoding_rs::EUC_JP.encode(text).0.into_owned(),
        _ => text.as_bytes().to_vec(),
    }
}

impl Src {
    pub fn chardef_text(&self) -> String {
        let mut s = String::new();
        for c in &self.cats {
            s += &format!("{} {} {} 0\n", c.name, c.invoke as u8, c.group as u8);
        }
        for (lo, hi, cats) in &self.ranges {
            if lo == hi {
                s += &format!("0x{:04X} {}\n", lo, cats.join(" "));
            } else {
                s += &format!("0x{:04X}..0x{:04X} {}\n", lo, hi, cats.join(" "));
            }
        }
        s
    }
    pub fn unk_text(&self, kind: &DictionaryKind) -> String {
        let n = unk_fields(kind);
        let mut s = String::new();
        for u in &self.unks {
            let mut f = vec![u.cat.to_string(), u.left.to_string(), u.right.to_string(), u.cost.to_string()];
            while f.len() < n {
                f.push("*".into());
            }
            s += &(f.join(",") + "\n");
        }
        s
    }
    pub fn matrix_text(&self) -> String {
        let nf = self.conn.len();
        let nb = self.conn[0].len();
        let mut s = format!("{nf} {nb}\n");
        for (f, r) in self.conn.iter().enumerate() {
            for (b, c) in r.iter().enumerate() {
                s += &format!("{f} {b} {c}\n");
            }
        }
        s
    }
    pub fn rows_text(&self) -> String {
        self.rows.iter().map(row_line).collect()
    }
    pub fn user_text(&self, kind: &DictionaryKind) -> String {
        let mut s = String::new();
        for u in &self.user {
            if u.simple {
                s += &csv_line(&[u.row.surface.clone(), u.row.details[0].clone(), "ヨミ".into()]);
            } else {
                let mut r = u.row.clone();
                while r.details.len() < detailed_fields(kind) - 4 {
                    r.details.push("*".into());
                }
                s += &row_line(&r);
            }
        }
        s
    }
    pub fn write(&self, kind: &DictionaryKind, dir: &Path) {
        std::fs::create_dir_all(dir).unwrap();
        let mut rows = self.rows.clone();
        for r in rows.iter_mut() {
            // these formats want the same number of fields in every row
            if matches!(kind, DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd | DictionaryKind::KoDic) {
                while r.details.len() < detailed_fields(kind) - 4 {
                    r.details.push("*".into());
                }
            }
        }
        for (name, text) in [
            ("char.def", self.chardef_text()),
            ("unk.def", self.unk_text(kind)),
            ("matrix.def", self.matrix_text()),
            ("words.csv", rows.iter().map(row_line).collect()),
        ] {
            std::fs::write(dir.join(name), encode(kind, &text)).unwrap();
        }
    }
    /// Builds with the real builder of `kind` and loads the result with the real loader.
    pub fn build_kind(&self, kind: &DictionaryKind) -> Result<Dictionary, String> {
        let sc = Scratch::new();
        let (i, o) = (sc.0.join("in"), sc.0.join("out"));
        self.write(kind, &i);
        build_dir(kind, &i, &o)?;
        load_dir(&o)
    }
    pub fn build_user(&self, kind: &DictionaryKind) -> Result<Option<UserDictionary>, String> {
        if self.user.is_empty() {
            return Ok(None);
        }
        let sc = Scratch::new();
        let p = sc.0.join("user.csv");
        std::fs::write(&p, self.user_text(kind)).unwrap();
        match guard(|| DictionaryLoader::load_user_dictionary_from_csv(kind.clone(), p.clone())) {
            Ok(Ok(d)) => Ok(Some(d)),
            Ok(Err(e)) => Err(format!("user dictionary refused: {e}")),
            Err(p) => Err(format!("user dictionary build panicked: {p}")),
        }
    }
    /// UniDic is used where the format does not matter: it is UTF-8 and allows any number of details.
    /// (User dictionaries mix simple and detailed rows, which only the IPADIC format allows.)
    pub fn tokenizer(&self, mode: Mode) -> Result<Tokenizer, String> {
        let d = self.build_kind(&DictionaryKind::UniDic)?;
        let u = self.build_user(&DictionaryKind::IPADIC)?;
        Ok(Tokenizer::new(d, u, mode))
    }
    pub fn describe(&self) -> Value {
        json!({"words.csv": self.rows_text(), "char.def": self.chardef_text(),
            "unk.def": self.unk_text(&DictionaryKind::UniDic), "matrix.def": self.matrix_text(),
            "user.csv": if self.user.is_empty() {String::new()} else {self.user_text(&DictionaryKind::IPADIC)}})
    }
}

pub fn build_dir(kind: &DictionaryKind, i: &Path, o: &Path) -> Result<(), String> {
    match guard(|| {
        DictionaryBuilderResolver::resolve_builder(kind.clone()).and_then(|b| b.build_dictionary(i, o))
    }) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(p) => Err(format!("panicked: {p}")),
    }
}
pub fn load_dir(o: &Path) -> Result<Dictionary, String> {
    match guard(|| DictionaryLoader::load_dictionary(o.to_path_buf())) {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(p) => Err(format!("panicked: {p}")),
    }
}

// ---- observed tokens -----------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub text: String,
    pub start: usize,
    pub end: usize,
    pub position: usize,
    pub position_length: usize,
    pub details: Vec<String>,
}
pub fn tok_json(t: &[Tok]) -> Value {
    json!(t.iter().map(|t| json!([t.text, t.start, t.end, t.position, t.position_length, t.details])).collect::<Vec<_>>())
}
pub fn tokenize(tk: &Tokenizer, text: &str) -> Result<Vec<Tok>, String> {
    match guard(|| -> Result<Vec<Tok>, String> {
        let mut ts = tk.tokenize(text).map_err(|e| format!("error: {e}"))?;
        let mut out = Vec::with_capacity(ts.len());
        for t in ts.iter_mut() {
            let details = match t.get_details() {
                Some(d) => d.iter().map(|s| s.to_string()).collect(),
                None => vec!["<none>".to_string()],
            };
            out.push(Tok {
                text: t.text.to_string(),
                start: t.byte_start,
                end: t.byte_end,
                position: t.position,
                position_length: t.position_length,
                details,
            });
        }
        Ok(out)
    }) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// C01: the tokens tile the text.
pub fn check_tiling(text: &str, toks: &[Tok]) -> Result<(), String> {
    let mut at = 0;
    for (i, t) in toks.iter().enumerate() {
        if t.start != at {
            return Err(format!("token {i} starts at {} but the previous one ended at {at}", t.start));
        }
        if t.end <= t.start {
            return Err(format!("token {i} is empty or reversed ({}..{})", t.start, t.end));
        }
        match text.get(t.start..t.end) {
            Some(s) if s == t.text => {}
            Some(s) => return Err(format!("token {i} has text {:?} but its range selects {:?}", t.text, s)),
            None => return Err(format!("token {i} has range {}..{} outside the text or inside a character", t.start, t.end)),
        }
        if t.position != i {
            return Err(format!("token {i} has position {}", t.position));
        }
        if t.position_length != 1 {
            return Err(format!("token {i} has position length {}", t.position_length));
        }
        at = t.end;
    }
    if at != text.len() {
        return Err(format!("tokens end at byte {at} of {}", text.len()));
    }
    Ok(())
}

// ---- reference model -----------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Edge {
    pub start: usize,
    pub stop: usize,
    pub cost: i64,
    pub left: usize,
    pub right: usize,
    /// index into Model.ids
    pub id: u32,
    pub penalty: i64,
}

/// The reference model: a plain table-driven reading of the sources.
pub struct Model {
    words: HashMap<String, Vec<(u32, i16, u16, u16)>>,
    max_word: usize,
    cats: HashMap<&'static str, Cat>,
    ranges: Vec<(u32, u32, Vec<&'static str>)>,
    unks: Vec<Unk>,
    conn: Vec<Vec<i16>>,
    pub ids: Vec<String>,
}
pub const DELIMS: [char; 4] = ['。', '、', '\n', '\t'];

pub fn split_sentences(text: &str) -> Vec<&str> {
    let mut out = vec![];
    let mut s = 0;
    for (i, c) in text.char_indices() {
        if DELIMS.contains(&c) {
            out.push(&text[s..i + c.len_utf8()]);
            s = i + c.len_utf8();
        }
    }
    if s < text.len() {
        out.push(&text[s..]);
    }
    out
}

impl Model {
    pub fn new(src: &Src) -> Model {
        let mut ids = vec!["UNK".to_string()];
        let mut words: HashMap<String, Vec<(u32, i16, u16, u16)>> = HashMap::new();
        let mut max_word = 0;
        for r in &src.rows {
            ids.push(r.details[0].clone());
            words.entry(r.surface.clone()).or_default().push((ids.len() as u32 - 1, r.cost, r.left, r.right));
            max_word = max_word.max(r.surface.len());
        }
        for u in &src.user {
            ids.push(u.row.details[0].clone());
            let (c, l, r) = if u.simple { (-10000, 0, 0) } else { (u.row.cost, u.row.left, u.row.right) };
            words.entry(u.row.surface.clone()).or_default().push((ids.len() as u32 - 1, c, l, r));
            max_word = max_word.max(u.row.surface.len());
        }
        Model {
            words,
            max_word,
            cats: src.cats.iter().map(|c| (c.name, c.clone())).collect(),
            ranges: src.ranges.clone(),
            unks: src.unks.clone(),
            conn: src.conn.clone(),
            ids,
        }
    }
    pub fn categories(&self, c: char) -> Vec<&'static str> {
        let mut v: Vec<&'static str> = vec![];
        for (lo, hi, cats) in &self.ranges {
            if (*lo..=*hi).contains(&(c as u32)) {
                for k in cats {
                    if !v.contains(k) {
                        v.push(k);
                    }
                }
            }
        }
        if v.is_empty() {
            v.push("DEFAULT");
        }
        v
    }
    fn penalty(&self, mode: &Mode, word: &str) -> i64 {
        match mode {
            Mode::Normal => 0,
            Mode::Decompose(p) => {
                let n = (word.len() / 3) as i64;
                let kanji = word.chars().all(|c| ('\u{4e00}'..='\u{9faf}').contains(&c));
                let (kt, ot) = (p.kanji_penalty_length_threshold.min(1 << 40) as i64, p.other_penalty_length_threshold.min(1 << 40) as i64);
                if kanji && n > kt {
                    (n - kt) * p.kanji_penalty_length_penalty as i64
                } else if !kanji && n > ot {
                    (n - ot) * p.other_penalty_length_penalty as i64
                } else {
                    0
                }
            }
        }
    }
    /// All candidate words of one sentence.
    pub fn candidates(&self, s: &str, mode: &Mode) -> Vec<Edge> {
        let decompose = matches!(mode, Mode::Decompose(_));
        let chars: Vec<(usize, char)> = s.char_indices().collect();
        let ends: Vec<usize> = chars.iter().map(|(i, c)| i + c.len_utf8()).collect();
        let cats: Vec<Vec<&'static str>> = chars.iter().map(|&(_, c)| self.categories(c)).collect();
        let mut reach = vec![false; s.len() + 1];
        reach[0] = true;
        let mut edges = vec![];
        let mut last_unknown_end = 0usize; // normal mode: no unknown word starts before this
        for (ci, &(start, _)) in chars.iter().enumerate() {
            if !reach[start] {
                continue;
            }
            let mut found = false;
            for &stop in ends[ci..].iter() {
                if stop - start > self.max_word {
                    break;
                }
                if let Some(ws) = self.words.get(&s[start..stop]) {
                    found = true;
                    let pen = self.penalty(mode, &s[start..stop]);
                    for &(id, cost, left, right) in ws {
                        edges.push(Edge { start, stop, cost: cost as i64, left: left as usize, right: right as usize, id, penalty: pen });
                    }
                    reach[stop] = true;
                }
            }
            if !decompose && start < last_unknown_end {
                continue;
            }
            for (rank, cat) in cats[ci].iter().enumerate() {
                let def = &self.cats[cat];
                if !(def.invoke || !found) {
                    continue;
                }
                let mut k = ci;
                if def.group {
                    while k + 1 < chars.len() && cats[k + 1].get(rank) == Some(cat) {
                        k += 1;
                    }
                }
                let stop = ends[k];
                let pen = self.penalty(mode, &s[start..stop]);
                for u in self.unks.iter().filter(|u| u.cat == *cat) {
                    edges.push(Edge { start, stop, cost: u.cost as i64, left: u.left as usize, right: u.right as usize, id: 0, penalty: pen });
                }
                reach[stop] = true;
                last_unknown_end = stop;
            }
        }
        edges
    }
    /// Shortest path over candidate edges; `allowed` restricts the edges. None if no path.
    pub fn best(&self, edges: &[Edge], len: usize, st: &mut Stats, allowed: impl Fn(&Edge) -> bool) -> Option<i64> {
        // best cost of a path whose last edge is e, by edge; edges are in start order
        let mut by_stop: HashMap<usize, Vec<usize>> = HashMap::new();
        let mut dp: Vec<Option<i64>> = vec![None; edges.len()];
        // edges are generated in increasing start; all edges ending at p start before p
        for (i, e) in edges.iter().enumerate() {
            if !allowed(e) {
                continue;
            }
            st.states += 1;
            let mut b: Option<i64> = None;
            if e.start == 0 {
                st.transitions += 1;
                b = Some(self.conn[0][e.left] as i64);
            }
            if let Some(ls) = by_stop.get(&e.start) {
                for &l in ls {
                    st.transitions += 1;
                    let le = &edges[l];
                    let c = dp[l].unwrap() + self.conn[le.right][e.left] as i64;
                    if b.map_or(true, |x| c < x) {
                        b = Some(c);
                    }
                }
            }
            if let Some(c) = b {
                dp[i] = Some(c + e.cost + e.penalty);
                by_stop.entry(e.stop).or_default().push(i);
            }
        }
        let mut b: Option<i64> = None;
        if let Some(ls) = by_stop.get(&len) {
            for &l in ls {
                st.transitions += 1;
                let c = dp[l].unwrap() + self.conn[edges[l].right][0] as i64;
                if b.map_or(true, |x| c < x) {
                    b = Some(c);
                }
            }
        }
        b
    }
    /// Checks the observed tokens of a whole text against the model.
    /// Returns a message and whether the disagreement is about candidates (true) or cost (false).
    pub fn check(&self, text: &str, toks: &[Tok], mode: &Mode, st: &mut Stats) -> Result<(), (bool, String)> {
        let mut ti = 0;
        let mut base = 0;
        for s in split_sentences(text) {
            let edges = self.candidates(s, mode);
            let mut sel: HashMap<(usize, usize), &str> = HashMap::new();
            while ti < toks.len() && toks[ti].start < base + s.len() {
                let t = &toks[ti];
                if t.end > base + s.len() {
                    return Err((true, format!("token {ti} ({:?}) crosses a sentence end", t.text)));
                }
                sel.insert((t.start - base, t.end - base), t.details[0].as_str());
                let (a, z) = (t.start - base, t.end - base);
                // edges are in the order of their starts
                let first = edges.partition_point(|e| e.start < a);
                if !edges[first..].iter().take_while(|e| e.start == a).any(|e| e.stop == z && self.ids[e.id as usize] == t.details[0]) {
                    return Err((true, format!("token {ti} ({:?}, {:?}) is not a candidate word at its position", t.text, t.details[0])));
                }
                ti += 1;
            }
            let best = self.best(&edges, s.len(), st, |_| true);
            let got = self.best(&edges, s.len(), &mut Stats::default(), |e| {
                sel.get(&(e.start, e.stop)).map_or(false, |d| *d == self.ids[e.id as usize])
            });
            st.traces += 1;
            match (best, got) {
                (Some(b), Some(g)) if b == g => {}
                (Some(b), Some(g)) => return Err((false, format!("sentence {s:?}: chosen path costs {g}, the cheapest costs {b}"))),
                (b, g) => return Err((false, format!("sentence {s:?}: chosen path {g:?}, cheapest {b:?}"))),
            }
            base += s.len();
        }
        if ti != toks.len() {
            return Err((true, "tokens after the last sentence".into()));
        }
        Ok(())
    }
}

pub fn mode_json(m: &Mode) -> Value {
    match m {
        Mode::Normal => json!("normal"),
        Mode::Decompose(p) => json!({"decompose": [p.kanji_penalty_length_threshold, p.kanji_penalty_length_penalty, p.other_penalty_length_threshold, p.other_penalty_length_penalty]}),
    }
}
pub fn pen(kt: usize, kp: i32, ot: usize, op: i32) -> Mode {
    Mode::Decompose(Penalty {
        kanji_penalty_length_threshold: kt,
        kanji_penalty_length_penalty: kp,
        other_penalty_length_threshold: ot,
        other_penalty_length_penalty: op,
    })
}
