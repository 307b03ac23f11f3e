//! C01 tiling, C02 normal mode, C03 decompose mode, C04 unknown words, C09 sentences.
use crate::dictkit::*;
use crate::fw::*;
use crate::worlds::*;
use lindera_core::mode::{Mode, Penalty};
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::json;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Tile,
    Cost,
    Candidates,
    Sentences,
}

fn build(src: &Src, mode: &Mode) -> Result<Tokenizer, Viol> {
    match src.tokenizer(mode.clone()) {
        Ok(t) => Ok(t),
        Err(e) => viol("build", format!("a well-formed dictionary could not be built: {e}"), src.describe()),
    }
}

/// One evaluation: text against tokenizer and model.
fn one(what: What, src: &Src, tk: &Tokenizer, model: &Model, mode: &Mode, text: &str, st: &mut Stats) -> Res {
    let key = || format!("{:?} {}", if text.len() > 80 { &"long text" } else { &text }, mode_json(mode));
    let det = |toks: &[Tok]| json!({"text": if text.len() > 2000 { format!("{} bytes", text.len()) } else { text.to_string() },
        "mode": mode_json(mode), "tokens": if toks.len() > 200 { json!(toks.len()) } else { tok_json(toks) }, "dictionary": if src.rows.len() > 200 { json!(src.rows.len()) } else { src.describe() }});
    let toks = match tokenize(tk, text) {
        Ok(t) => t,
        Err(e) => return viol(key(), format!("tokenize({:?}) failed: {e}", short(text)), det(&[])),
    };
    if toks.len() > 1 {
        st.nontrivial += 1;
    }
    match what {
        What::Tile => {
            st.states += toks.len() as u64 + 1;
            st.transitions += toks.len() as u64;
            st.traces += 1;
            if let Err(e) = check_tiling(text, &toks) {
                return viol(key(), format!("tokens of {:?} do not tile it: {e}", short(text)), det(&toks));
            }
            if text.is_empty() && !toks.is_empty() {
                return viol(key(), "the empty text gave tokens", det(&toks));
            }
        }
        What::Cost | What::Candidates => {
            if let Err(e) = check_tiling(text, &toks) {
                return viol(key(), format!("tokens of {:?} are not a path: {e}", short(text)), det(&toks));
            }
            if let Err((_, e)) = model.check(text, &toks, mode, st) {
                return viol(key(), format!("{:?} in mode {}: {e}", short(text), mode_json(mode)), det(&toks));
            }
        }
        What::Sentences => {
            let mut at = 0;
            let mut exp: Vec<Tok> = vec![];
            for s in split_sentences(text) {
                let part = match tokenize(tk, s) {
                    Ok(t) => t,
                    Err(e) => return viol(key(), format!("tokenize({:?}) failed: {e}", short(s)), det(&[])),
                };
                st.states += 1;
                st.transitions += 1;
                for mut t in part {
                    t.start += at;
                    t.end += at;
                    t.position = exp.len();
                    exp.push(t);
                }
                at += s.len();
            }
            st.traces += 1;
            if exp != toks {
                let i = exp.iter().zip(&toks).position(|(a, b)| a != b).unwrap_or(exp.len().min(toks.len()));
                return viol(key(), format!("{:?} tokenized whole and sentence by sentence differ at token {i}", short(text)),
                    json!({"text": short(text), "whole": tok_json(&toks[..toks.len().min(100)]), "by_sentence": tok_json(&exp[..exp.len().min(100)]), "mode": mode_json(mode), "dictionary": src.describe()}));
            }
            for t in &toks {
                if let Some(i) = t.text.find(&DELIMS[..]) {
                    let w = t.text[i..].chars().next().unwrap().len_utf8();
                    if i + w != t.text.len() {
                        return viol(key(), format!("token {:?} crosses a delimiter", t.text), det(&toks));
                    }
                }
            }
        }
    }
    st.sample(|| json!({"text": short(text), "mode": mode_json(mode), "tokens": tok_json(&toks[..toks.len().min(12)])}));
    Ok(())
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 40 {
        format!("{}…({} bytes)", s.chars().take(20).collect::<String>(), s.len())
    } else {
        s.to_string()
    }
}

/// A lazily built dictionary shared by the cases of a family.
struct World {
    src: Src,
    model: Model,
    mode: Mode,
    tk: OnceLock<Result<Tokenizer, String>>,
}
impl World {
    fn new(src: Src, mode: Mode) -> World {
        World { model: Model::new(&src), src, mode, tk: OnceLock::new() }
    }
    fn get(&self) -> Result<&Tokenizer, Viol> {
        match self.tk.get_or_init(|| self.src.tokenizer(self.mode.clone())) {
            Ok(t) => Ok(t),
            Err(e) => viol("build", format!("a well-formed dictionary could not be built: {e}"), self.src.describe()),
        }
    }
}

fn default_pen() -> Mode {
    Mode::Decompose(Penalty::default())
}

fn texts_family(run: &mut Run, what: What, name: &str, worlds: &[World], alphabet: &[&str], len: u32) {
    let n = strings_upto(alphabet.len() as u64, len);
    run.family(name, n * worlds.len() as u64, |i, st| {
        let w = &worlds[(i / n) as usize];
        let text = nth_text(i % n, alphabet);
        one(what, &w.src, w.get()?, &w.model, &w.mode, &text, st)
    });
}

/// Long and structured texts: every length 1..=n of periodic texts, and sizes around powers of two.
fn scale_texts(quick: bool) -> Vec<(usize, &'static str, &'static str)> {
    // (repetitions, unit, prefix)
    let mut v = vec![];
    let units = ["a", "é", "あ", "漢", "𠮷", "一", "あ漢", "ab", "é𠮷a", "。", "\n", "a。", "漢。", "あ漢一a \n", "x", "一漢あ。"];
    let upto = if quick { 140 } else { 700 };
    for u in units {
        for p in ["", "漢a。"] {
            for n in 1..=upto {
                v.push((n, u, p));
            }
        }
        let mut k = 256usize;
        while k <= (if quick { 65536 } else { 262144 }) {
            for d in [-1i64, 0, 1] {
                for per_byte in [true, false] {
                    let n = ((k as i64 + d) as usize) / if per_byte { u.len() } else { 1 };
                    if n > upto && n * u.len() <= 400_000 {
                        v.push((n, u, ""));
                    }
                }
            }
            k *= 2;
        }
    }
    v.dedup();
    v
}
fn scale_family(run: &mut Run, what: What, name: &str, worlds: &[World]) {
    let quick = run.quick();
    let v = scale_texts(quick);
    let nv = v.len() as u64;
    run.family(name, nv * worlds.len() as u64, |i, st| {
        // big cases first so that cores finish together
        let (n, unit, prefix) = v[(nv - 1 - i % nv) as usize];
        let w = &worlds[(i / nv) as usize];
        let bytes = n * unit.len();
        // grouping in decompose mode is quadratic in the run length: bound it
        if bytes > 8200 && matches!(w.mode, Mode::Decompose(_)) && !unit.contains(['。', '\n']) {
            st.add("skipped_quadratic", 1);
            return Ok(());
        }
        let text = format!("{prefix}{}", unit.repeat(n));
        one(what, &w.src, w.get()?, &w.model, &w.mode, &text, st)
    });
}

fn mixed_worlds(ks: impl Iterator<Item = usize> + Clone, modes: &[Mode]) -> Vec<World> {
    let mut v = vec![];
    for m in modes {
        for k in ks.clone() {
            v.push(World::new(mixed(k), m.clone()));
        }
    }
    v
}

/// Every subset of the tiny vocabulary x cost pattern x connection pattern x texts.
fn tiny_family(run: &mut Run, what: What, modes: Vec<Mode>, textlen: u32) {
    let costs = if run.quick() { 3 } else { 4 };
    let conns = 3;
    let radices = [256, costs, conns, 2, modes.len() as u64];
    run.family("tiny dictionaries: every vocabulary subset x texts", product(&radices), |i, st| {
        let d = digits(i, &radices);
        let src = tiny(d[0], d[1], d[2] + 1, d[3] == 1);
        let mode = &modes[d[4]];
        let tk = build(&src, mode)?;
        let model = Model::new(&src);
        let ab = ["あ", "い"];
        for t in 0..strings_upto(2, textlen) {
            one(what, &src, &tk, &model, mode, &nth_text(t, &ab), st)?;
        }
        Ok(())
    });
}

/// Long words: a word of every byte length, competing with its pieces.
fn long_words(run: &mut Run, what: What, mode: Mode) {
    let mut lens: Vec<usize> = (1..=run.b(140, 400)).collect();
    for k in [255usize, 256, 511, 512, 1023, 1024, 4095, 4096, 21845, 21846, 32767, 32768, 65535, 65536] {
        for d in [-1i64, 0, 1] {
            lens.push((k as i64 + d) as usize);
        }
    }
    lens.sort();
    lens.dedup();
    lens.retain(|&l| l < run.b(70000, 140000));
    let units = ["x", "é", "か", "漢", "𠮷"];
    let nl = lens.len() as u64;
    let lens = &lens;
    run.case_limit_s(120);
    run.family("long words of every length", nl * units.len() as u64, |i, st| {
        let n = lens[(nl - 1 - i % nl) as usize];
        let unit = units[(i / nl) as usize];
        if n > 8200 && unit != "x" && !matches!(what, What::Tile) && n * unit.len() > 70000 {
            return Ok(());
        }
        let mut src = mixed(4);
        src.ranges.push((0x78, 0x78, vec!["ALPHA"]));
        let long = unit.repeat(n);
        src.rows = vec![row(&long, 1, 1, -32000, "S0"), row(&unit.repeat(n + 1), 2, 1, 32000, "S1"), row("a", 0, 0, 10, "S2")];
        if n > 1 {
            src.rows.push(row(&unit.repeat(n - 1), 0, 2, 100, "S3"));
        }
        let tk = build(&src, &mode)?;
        let model = Model::new(&src);
        let texts: Vec<String> = if n <= 8200 {
            vec![long.clone(), format!("{long}a"), format!("a{long}"), format!("{long}{unit}"), format!("{long}。{long}"), unit.repeat(n - 1), format!("a{}", unit.repeat(2 * n))]
        } else {
            vec![format!("a{long}a")]
        };
        for t in texts {
            // grouped unknown runs are quadratic in decompose mode
            if t.len() > 20000 && matches!(mode, Mode::Decompose(_)) {
                continue;
            }
            one(what, &src, &tk, &model, &mode, &t, st)?;
        }
        Ok(())
    });
}

pub fn c01(run: &mut Run) {
    run.rule = "every text up to the length bound over the alphabet, per dictionary and mode; non-trivial: the text gives at least two tokens".into();
    run.assumptions = vec!["dictionaries are well-formed: every category has an unknown-word entry and all ids lie in the connection table".into()];
    let modes = [Mode::Normal, default_pen()];
    let ws = mixed_worlds(0..NMIXED, &modes);
    texts_family(run, What::Tile, "mixed dictionaries x texts", &ws, &MIX, run.b(5, 6));
    // control characters, combining marks, noncharacters, all delimiters
    let odd = ["\0", "\r", "\t", "、", "\u{3000}", "\u{301}", "\u{ffff}", "\u{10ffff}", "\u{feff}", "漢", "a"];
    texts_family(run, What::Tile, "control and boundary characters x texts", &ws, &odd, run.b(4, 5));
    tiny_family(run, What::Tile, modes.to_vec(), run.b(5, 7));
    scale_family(run, What::Tile, "lengths and sizes", &mixed_worlds([0, 3, 4, 9].into_iter(), &modes));
    long_words(run, What::Tile, Mode::Normal);
    // every Unicode scalar value between two known characters
    let w = mixed_worlds([0usize, 8].into_iter(), &modes);
    run.family("every Unicode character in context", 0x110000 / 64 * w.len() as u64, |i, st| {
        let wi = &w[(i % w.len() as u64) as usize];
        let base = (i / w.len() as u64) as u32 * 64;
        for c in (base..base + 64).filter_map(char::from_u32) {
            let t = format!("a{c}あ{c}{c}");
            one(What::Tile, &wi.src, wi.get()?, &wi.model, &wi.mode, &t, st)?;
        }
        Ok(())
    });
}

pub fn c02(run: &mut Run) {
    run.rule = "every text up to the length bound per dictionary, compared with an exhaustive shortest-path model; non-trivial: the text gives at least two tokens; states: candidate words examined by the model, transitions: connections examined".into();
    run.assumptions = vec!["path costs stay below 2^63 (every text that fits in memory)".into()];
    let ws = mixed_worlds(0..NMIXED, &[Mode::Normal]);
    texts_family(run, What::Cost, "mixed dictionaries x texts", &ws, &MIX, run.b(5, 6));
    // NUL is the terminator of the words in the double array
    let wn = mixed_worlds([0usize, 1, 3, 4, 6, 9, 11].into_iter(), &[Mode::Normal]);
    texts_family(run, What::Cost, "texts with NUL", &wn, &["\0", "a", "b", "あ", "漢", "。"], run.b(5, 6));
    tiny_family(run, What::Cost, vec![Mode::Normal], run.b(6, 8));
    homographs(run);
    nested_prefixes(run);
    many_ids(run);
    dense(run, &Mode::Normal);
    dear_sentences(run, &Mode::Normal);
    every_char(run, What::Cost, &[Mode::Normal]);
    scale_family(run, What::Cost, "lengths and sizes", &mixed_worlds([0, 2, 4, 9].into_iter(), &[Mode::Normal]));
    long_words(run, What::Cost, Mode::Normal);
}

/// Blocks of 64 characters: all of them, or (quick) the 16-bit ones and every 16th of the others.
fn blocks(quick: bool) -> Vec<u32> {
    (0..0x110000 / 64).filter(|b| !quick || *b < 0x10000 / 64 || b % 16 == 7).collect()
}
/// Every character where nothing in the dictionary names it.
fn every_char(run: &mut Run, what: What, modes: &[Mode]) {
    let w = mixed_worlds([0usize, 9].into_iter(), modes);
    let bs = blocks(run.quick());
    run.family("every character between known ones", bs.len() as u64 * w.len() as u64, |i, st| {
        let wi = &w[(i % w.len() as u64) as usize];
        let base = bs[(i / w.len() as u64) as usize] * 64;
        for c in (base..base + 64).filter_map(char::from_u32) {
            one(what, &wi.src, wi.get()?, &wi.model, &wi.mode, &format!("{c}a{c}{c}あ{c}"), st)?;
        }
        Ok(())
    });
}

/// Words made of every character, in lengths around the thresholds.
fn every_char_words(run: &mut Run, modes: &[Mode]) {
    let bs = blocks(run.quick());
    let n = modes.len() as u64;
    run.family("words of every character", bs.len() as u64 * n, |i, st| {
        let mode = &modes[(i % n) as usize];
        let base = bs[(i / n) as usize] * 64;
        let cs: Vec<char> = (base..base + 64).filter_map(char::from_u32).filter(|c| *c != '\0').collect();
        if cs.is_empty() {
            return Ok(());
        }
        let mut src = mixed(6);
        src.rows = vec![];
        let add = |s: String, c: i16, k: String, src: &mut Src| {
            if !src.rows.iter().any(|r| r.surface == s) {
                src.rows.push(row(&s, 0, 0, c, &k));
            }
        };
        add("漢".into(), 1500, "S-k".into(), &mut src);
        add("か".into(), 1500, "S-h".into(), &mut src);
        for (j, c) in cs.iter().enumerate() {
            let (one, two) = (c.to_string(), format!("{c}{c}"));
            add(one.clone(), 1500, format!("S1.{j}"), &mut src);
            add(one.repeat(3), 2000, format!("S3.{j}"), &mut src);
            add(one.repeat(8), 3500, format!("S8.{j}"), &mut src);
            add(format!("漢{c}漢"), 2000, format!("S漢.{j}"), &mut src);
            add(format!("{two}漢"), 2000, format!("Sx.{j}"), &mut src);
            add(format!("か{two}"), 2000, format!("Sy.{j}"), &mut src);
        }
        let tk = build(&src, mode)?;
        let model = Model::new(&src);
        for c in &cs {
            let o = c.to_string();
            for t in [o.repeat(3), o.repeat(8), format!("漢{c}漢{c}{c}漢か{c}{c}")] {
                one(What::Cost, &src, &tk, &model, mode, &t, st)?;
            }
        }
        Ok(())
    });
}

/// k homographs (1..31); each in turn is the cheapest by cost or by connection.
fn homographs(run: &mut Run) {
    let radices = [31, 31, 2, 2];
    run.family("homographs: each of 1..31 rows the best once", product(&radices), |i, st| {
        let d = digits(i, &radices);
        let (k, best, by_conn, user) = (d[0] + 1, d[1], d[2] == 1, d[3] == 1);
        if best >= k {
            return Ok(());
        }
        let mut src = mixed(6);
        let n = 32;
        src.conn = (0..n).map(|f| (0..n).map(|b| if by_conn && f == best + 1 && (b == best + 1 || b == 0) { -2000 } else { 40 * (f as i16 - b as i16).abs() }).collect()).collect();
        let rows: Vec<Row> = (0..k)
            .map(|j| {
                let id = (j + 1) as u16;
                let cost = if by_conn { 1000 } else if j == best { 500 } else { 1000 + j as i16 };
                row("漢字", if by_conn { id } else { 0 }, if by_conn { id } else { 0 }, cost, &format!("{}{j}", if user { "U" } else { "S" }))
            })
            .collect();
        if user {
            src.user = rows.into_iter().map(|row| UserRow { row, simple: false }).collect();
            src.rows.push(row("漢字", 0, 0, 20000, "S9"));
        } else {
            src.rows.extend(rows);
            src.rows.push(row("漢", 0, 0, 3000, "S100"));
            src.rows.last_mut().unwrap().details[0] = "S100".into();
        }
        src.rows[0].details[0] = "S900".into();
        let tk = build(&src, &Mode::Normal)?;
        let model = Model::new(&src);
        let want = format!("{}{best}", if user { "U" } else { "S" });
        st.add("the_best_row_is_chosen", tokenize(&tk, "漢字").map_or(false, |t| t.iter().any(|t| t.details[0] == want)) as u64);
        for t in ["漢字", "漢字漢字", "一漢字a", "漢字漢字漢字。漢字"] {
            one(What::Cost, &src, &tk, &model, &Mode::Normal, t, st)?;
        }
        Ok(())
    });
}

/// n words that all start at the same position (x, xx, xxx, ...), each in turn the best.
fn nested_prefixes(run: &mut Run) {
    let max = run.b(48u64, 80);
    let radices = [max, max, 2];
    run.family("nested prefixes: every number of words at one position", product(&radices), |i, st| {
        let d = digits(i, &radices);
        let (n, best) = (d[0] + 1, d[1] + 1);
        if best > n {
            return Ok(());
        }
        let unit = ["か", "x"][d[2]];
        let mut src = mixed(6);
        src.ranges.push((0x78, 0x78, vec!["ALPHA"]));
        src.conn.iter_mut().flatten().for_each(|c| *c = 50);
        src.unks.iter_mut().for_each(|u| u.cost = 20000);
        src.rows = (1..=n).map(|j| row(&unit.repeat(j), 0, 0, if j == best { 100 } else { 200 * j as i16 }, &format!("S{j}"))).collect();
        let tk = build(&src, &Mode::Normal)?;
        let model = Model::new(&src);
        // the family is about the best word being found
        let got: Vec<String> = tokenize(&tk, &unit.repeat(best)).map(|t| t.into_iter().map(|t| t.text).collect()).unwrap_or_default();
        if got.len() != 1 {
            return viol(format!("nested {d:?}"), format!("the cheap word {:?} gives {} tokens", unit.repeat(best), got.len()), src.describe());
        }
        for t in [unit.repeat(n), unit.repeat(best), format!("{}a", unit.repeat(2 * n)), format!("a{}", unit.repeat(n + 1))] {
            one(What::Cost, &src, &tk, &model, &Mode::Normal, &t, st)?;
        }
        Ok(())
    });
}

/// Many words that end at one position (every length up to L, h rows each): each in turn is the
/// one from which the rest of the sentence is cheap, while it is the dearest or cheapest so far.
fn dense(run: &mut Run, mode: &Mode) {
    let mut cases: Vec<(usize, usize, usize, usize)> = vec![];
    for l in run.b(vec![1usize, 2, 3, 5, 9], vec![1, 2, 3, 4, 5, 7, 9, 17, 33, 70]) {
        for h in run.b(vec![1usize, 8, 31], vec![1, 2, 8, 16, 30, 31]) {
            for best in 0..l * h {
                if l * h > 300 && best % (l * h / 40) != 0 && best + h.min(5) < l * h {
                    continue;
                }
                for order in 0..2 {
                    cases.push((l, h, best, order));
                }
            }
        }
    }
    let n = cases.len() as u64;
    run.family("many words that end at one position", n, |i, st| {
        let (l, h, best, order) = cases[(n - 1 - i) as usize];
        let mut src = mixed(6);
        src.ranges.push((0x78, 0x79, vec!["ALPHA"]));
        let k = l * h;
        // ids 1..=k: the words (of many words, most share their ids); k + 2: the word that follows them
        let ids = k.min(300);
        let id = |j: usize| if j == best { ids + 1 } else { j % ids + 1 };
        let y = ids + 2;
        let best_id = id(best);
        src.conn = (0..ids + 3)
            .map(|f| (0..ids + 3).map(|b| if (b == y || b == 0) && f >= 1 && f <= ids + 1 && f != best_id { 30000 } else if f == best_id && b == y { -100 } else { (f % 7) as i16 }).collect())
            .collect();
        src.rows = (0..k)
            .map(|j| {
                let cost = if order == 0 { 10 * j as i16 } else { 10 * (k - j) as i16 };
                row(&"x".repeat(j / h + 1), id(j) as u16, id(j) as u16, cost, &format!("S{j}"))
            })
            .collect();
        src.rows.push(row("y", y as u16, y as u16, 0, "SY"));
        let tk = build(&src, mode)?;
        let model = Model::new(&src);
        let texts = [format!("{}y", "x".repeat(l)), "x".repeat(l), format!("{}y{}y", "x".repeat(l + 1), "x".repeat(l))];
        st.add("the_best_row_is_chosen", tokenize(&tk, &texts[0]).map_or(false, |t| t.iter().any(|t| t.details[0] == format!("S{best}"))) as u64);
        for t in &texts[..if k > 600 { 1 } else { 3 }] {
            one(What::Cost, &src, &tk, &model, mode, &t, st)?;
        }
        Ok(())
    });
}

/// Sentences whose cost leaves 32 bits, or the exact range of a 32-bit float.
fn dear_sentences(run: &mut Run, mode: &Mode) {
    let costs = [(0i16, 32767i16), (20000, 32767), (32766, 32767), (-32768, 0), (-32768, -32767), (-32768, -9)];
    let conns = [32767i16, -32768, 0];
    let lens = run.b(vec![700usize, 33_000, 66_000], vec![129, 700, 16_500, 33_000, 66_000, 132_000]);
    let radices = [conns.len() as u64, costs.len() as u64, lens.len() as u64];
    run.family("sentences whose cost exceeds 32 bits", product(&radices), |i, st| {
        let d = digits(product(&radices) - 1 - i, &radices);
        let (conn, (cheap, dear), n) = (conns[d[0]], costs[d[1]], lens[d[2]]);
        let mut src = mixed(6);
        src.conn = vec![vec![conn; 4]; 4];
        src.unks.iter_mut().for_each(|u| (u.left, u.right) = (0, 0));
        // the better row comes first, last or between the others
        src.rows = vec![row("か", 1, 1, dear, "S1"), row("か", 2, 2, cheap, "S2"), row("か", 3, 3, dear, "S3")];
        src.rows.rotate_left(n % 3);
        let tk = build(&src, mode)?;
        let model = Model::new(&src);
        st.add("the_best_row_is_chosen", tokenize(&tk, "かか").map_or(false, |t| t.iter().all(|t| t.details[0] == "S2")) as u64);
        one(What::Cost, &src, &tk, &model, mode, &"か".repeat(n), st)
    });
}

/// Context ids over the whole table: word i has ids (i, n-1-i).
fn many_ids(run: &mut Run) {
    let shapes: Vec<(usize, usize)> = vec![(2, 3), (3, 2), (7, 5), (100, 129), (129, 100), (255, 257), (257, 256), (300, 400), (400, 300), (1, 5000), (5000, 1), (1300, 1300)];
    run.family("context ids across the connection table", shapes.len() as u64, |i, st| {
        let (nf, nb) = shapes[i as usize];
        let mut src = mixed(6);
        src.conn = (0..nf).map(|f| (0..nb).map(|b| (((f * 7919 + b * 104729 + f * b) % 4001) as i32 - 2000) as i16).collect()).collect();
        let n = 400usize;
        let chars: Vec<char> = (0..n).map(|k| char::from_u32(0x4e00 + k as u32).unwrap()).collect();
        src.unks.iter_mut().for_each(|u| {
            u.left = 0;
            u.right = 0;
        });
        src.rows = vec![];
        for (k, c) in chars.iter().enumerate() {
            for v in 0..2 {
                let (l, r) = (((k * 37 + v * 11) * nb / 4096.min(nb * 40)) % nb, ((k * 41 + v * 5) * nf / 4096.min(nf * 40)) % nf);
                src.rows.push(row(&c.to_string(), l as u16, r as u16, (k % 17) as i16, &format!("S{k}-{v}")));
            }
        }
        // make sure the extreme ids are used
        src.rows.push(row("端", (nb - 1) as u16, (nf - 1) as u16, 3, "Send"));
        src.rows.push(row("端", 0, (nf - 1) as u16, 4, "Send2"));
        src.rows.push(row("端", (nb - 1) as u16, 0, 5, "Send3"));
        let tk = build(&src, &Mode::Normal)?;
        let model = Model::new(&src);
        for a in 0..n {
            let b = (a * 7 + 13) % n;
            let t: String = [chars[a], chars[b], '端', chars[a], '端', '端'].iter().collect();
            one(What::Cost, &src, &tk, &model, &Mode::Normal, &t, st)?;
        }
        Ok(())
    });
}

pub fn c03(run: &mut Run) {
    run.rule = "every text up to the length bound per dictionary and penalty setting, compared with an exhaustive shortest-path model that adds the length penalties; non-trivial: at least two tokens".into();
    run.assumptions = vec!["path costs stay below 2^63 (every text that fits in memory)".into()];
    let mut grid = vec![default_pen()];
    for kt in 0..4usize {
        for ot in [0, 1, kt, kt + 1, 5, 7] {
            for (kp, op) in [(3000, 1700), (1, 1), (700, 0), (0, 700), (-400, -300)] {
                grid.push(pen(kt, kp, ot, op));
            }
        }
    }
    // extreme settings: no threshold is ever exceeded, penalties beyond every word cost
    for (kt, ot) in [(2, 300), (300, 0), (usize::MAX, 1), (1, usize::MAX), (usize::MAX, usize::MAX), (1, 0), (0, 1)] {
        for (kp, op) in [(3000, 1700), (i32::MAX, 1), (1, i32::MAX), (i32::MIN, i32::MIN), (i32::MAX, i32::MAX)] {
            grid.push(pen(kt, kp, ot, op));
        }
    }
    let ws: Vec<World> = (0..3).flat_map(|k| grid.iter().map(move |m| World::new(compounds(k), m.clone()))).collect();
    texts_family(run, What::Cost, "compounds x penalties x texts", &ws, &["漢", "か", "a"], run.b(6, 8));
    let wd: Vec<World> = (0..3).map(|k| World::new(compounds(k), default_pen())).collect();
    texts_family(run, What::Cost, "default penalties, longer texts", &wd, &["漢", "か"], run.b(13, 16));
    texts_family(run, What::Cost, "kanji range ends", &wd, &["\u{4e00}", "\u{9faf}", "\u{4dff}", "\u{9fb0}", "漢", "か", "。"], run.b(5, 7));
    let ws = mixed_worlds(0..NMIXED, &[default_pen(), pen(1, 400, 1, 300)]);
    texts_family(run, What::Cost, "mixed dictionaries x texts", &ws, &MIX, run.b(4, 5));
    tiny_family(run, What::Cost, vec![default_pen(), pen(1, 500, 1, 450)], run.b(5, 7));
    // runs of every length around and far beyond the thresholds
    let mut wl = vec![];
    for m in [default_pen(), pen(2, 3000, 7, 1700), pen(0, 10, 0, 10), pen(40, 30, 85, 20), pen(60, 20, 30, 15), pen(1, i32::MAX, 1, i32::MAX)] {
        for unit in ["漢", "か", "a"] {
            wl.push((m.clone(), unit));
        }
    }
    let max = run.b(90u64, 300);
    run.family("one compound of every length against its pieces", wl.len() as u64 * max * 3, |i, st| {
        let d = digits(i, &[wl.len() as u64, max, 3]);
        let (mode, unit) = &wl[d[0]];
        let n = d[1] + 1;
        let mut src = compounds(2);
        src.user.clear();
        // compound cost sits near the point where the penalty decides
        let c = 50 + 13 * n as i32 - [0, 4000, 30000][d[2]];
        src.rows = vec![row(&unit.repeat(n), 0, 0, c.max(-32768) as i16, "S0"), row(unit, 0, 0, 25, "S1"), row(&unit.repeat(2), 0, 0, 40, "S2")];
        if n == 2 {
            src.rows.pop();
        }
        if n == 1 {
            src.rows.remove(0);
        }
        let tk = build(&src, mode)?;
        let model = Model::new(&src);
        for t in [unit.repeat(n), format!("{}か", unit.repeat(n)), unit.repeat(n + 1)] {
            one(What::Cost, &src, &tk, &model, mode, &t, st)?;
        }
        Ok(())
    });
    dense(run, &default_pen());
    dear_sentences(run, &default_pen());
    every_char_words(run, &[default_pen(), pen(2, 3000, 2, 3000)][..run.b(1, 2)]);
    scale_family(run, What::Cost, "lengths and sizes", &mixed_worlds([0, 4].into_iter(), &[default_pen()]));
}

pub fn c04(run: &mut Run) {
    run.rule = "all 64 invoke/group settings of three categories x word lists x texts; each observed token must be a candidate of the model and the path a cheapest one, so that wrong, missing and extra unknown words are all visible; non-trivial: at least two tokens".into();
    let modes = [Mode::Normal, default_pen()];
    let mut ws = vec![];
    for m in &modes {
        for flags in 0..64 {
            for words in 0..4 {
                for two in [false, true] {
                    ws.push(World::new(cats_world(flags, words, two), m.clone()));
                }
            }
        }
    }
    texts_family(run, What::Candidates, "category flags x words x texts", &ws, &CATS_ALPHA, run.b(4, 6));
    // one unknown word of every length, in every flag setting: grouping has no length limit
    let mut ns: Vec<usize> = (1..=run.b(80, 260)).collect();
    for k in [128usize, 256, 512, 1000, 1024, 2048, 4096, 5000, 8192, 10_000] {
        ns.extend([k - 1, k, k + 1]);
    }
    let wl: Vec<World> = modes.iter().flat_map(|m| [2usize, 3, 8, 12, 32, 48, 63].into_iter().map(move |f| World::new(cats_world(f, 1, false), m.clone()))).collect();
    let n = ns.len() as u64;
    run.family("runs of every length", n * wl.len() as u64 * 5, |i, st| {
        let d = digits(i, &[n, wl.len() as u64, 5]);
        let w = &wl[d[1]];
        let unit = ["a", "c", "x", "cd", "é"][d[2]];
        // searching for unknown words everywhere makes long runs quadratic
        if ns[d[0]] > 300 && (matches!(w.mode, Mode::Decompose(_)) && ns[d[0]] > 1100 || ns[d[0]] > 4200 && d[2] == 3) {
            st.add("skipped_quadratic", 1);
            return Ok(());
        }
        for t in [unit.repeat(ns[d[0]]), format!("b{}b", unit.repeat(ns[d[0]])), format!("{}xb", unit.repeat(ns[d[0]]))] {
            one(What::Candidates, &w.src, w.get()?, &w.model, &w.mode, &t, st)?;
        }
        Ok(())
    });
    let ws = mixed_worlds(0..NMIXED, &modes);
    texts_family(run, What::Candidates, "mixed dictionaries x texts", &ws, &MIX, run.b(4, 5));
    every_char(run, What::Candidates, &modes);
    // characters of any list of categories, in every order
    let names = ["A", "B", "C", "D"];
    let nc = run.b(3usize, 4);
    let mut lists: Vec<Vec<&'static str>> = vec![vec![]];
    for k in 1..=nc {
        for p in permutations(nc) {
            let l: Vec<&'static str> = p[..k].iter().map(|&j| names[j]).collect();
            if !lists.contains(&l) {
                lists.push(l);
            }
        }
    }
    let nl = lists.len() as u64;
    let nf = run.b(32u64, 16);
    let radices = [nl, nl, nf];
    run.family("characters of several categories", product(&radices), |i, st| {
        let d = digits(i, &radices);
        let f = |k: usize| (d[2] * 2 + (d[0] + d[1]) % 2) >> k & 1 == 1;
        let mut src = cats_world(3, 0, false);
        src.cats = vec![Cat { name: "DEFAULT", invoke: f(0), group: true }];
        src.unks = vec![u("DEFAULT", 0, 0, 900)];
        for (k, n) in names[..nc].iter().enumerate() {
            src.cats.push(Cat { name: n, invoke: f(k), group: f((k + 2) % 5) });
            src.unks.push(u(n, (k % 2) as u16, (k / 2) as u16, 1000 - 150 * k as i16));
        }
        src.ranges = vec![];
        for (c, l) in [(0x61, &lists[d[0]]), (0x62, &lists[d[1]])] {
            if !l.is_empty() {
                src.ranges.push((c, c, l.clone()));
            }
        }
        if d[2] % 3 == 0 {
            src.rows.push(row("a", 0, 0, 800, "S7"));
            src.rows.push(row("ab", 1, 1, 1700, "S8"));
        }
        for mode in &modes {
            let tk = build(&src, mode)?;
            let model = Model::new(&src);
            for t in ["a", "ab", "aba", "aab", "bab", "abab", "bbaa", "aabbab"] {
                one(What::Candidates, &src, &tk, &model, mode, t, st)?;
            }
        }
        Ok(())
    });
    // several entries per category: the cheapest of n, at each index
    run.family("number of unknown entries per category", 40 * 40, |i, st| {
        let (n, best) = ((i / 40) as usize + 1, (i % 40) as usize);
        if best >= n {
            return Ok(());
        }
        let mut src = cats_world(3, 1, false);
        src.conn = conn_pattern(1, 41, 41);
        for j in 0..n {
            src.unks.push(u("A", j as u16, (n - j) as u16, if j == best { -2000 } else { 500 - j as i16 }));
        }
        let tk = build(&src, &Mode::Normal)?;
        let model = Model::new(&src);
        for t in ["a", "aab", "xcab", "bccb"] {
            one(What::Candidates, &src, &tk, &model, &Mode::Normal, t, st)?;
        }
        Ok(())
    });
}

pub fn c09(run: &mut Run) {
    let quick = run.quick();
    run.rule = "every text up to the length bound over an alphabet with all delimiters, whole and sentence by sentence; non-trivial: at least two tokens".into();
    let modes = [Mode::Normal, default_pen()];
    let ws = mixed_worlds(0..NMIXED, &modes);
    texts_family(run, What::Sentences, "delimiters x texts", &ws, &["a", "あ", "漢", "。", "、", "\n", "\t"], run.b(5, 6));
    texts_family(run, What::Sentences, "mixed texts", &ws, &MIX, run.b(4, 5));
    // every character before and after every delimiter, with words that would cross it
    let block = 256u32;
    let blocks: Vec<u32> = (0..0x110000 / block).filter(|b| !quick || *b < 0x10000 / block || b % 16 == 3).collect();
    let nb = blocks.len() as u64;
    run.family("every character around every delimiter", nb * 2, |i, st| {
        let b = blocks[(i / 2) as usize];
        let mode = &modes[(i % 2) as usize];
        let chars: Vec<char> = (b * block..(b + 1) * block).filter_map(char::from_u32).filter(|c| *c != '\0').collect();
        if chars.is_empty() {
            return Ok(());
        }
        let mut src = mixed(4);
        src.user.clear();
        src.rows = vec![row("a", 0, 0, 10, "S0")];
        let ds = ["。", "、", "\n", "\t"];
        for (j, c) in chars.iter().enumerate() {
            for (k, d) in ds.iter().enumerate() {
                src.rows.push(row(&format!("{d}{c}"), 0, 0, -3000, &format!("A{k}.{j}")));
                if (j + k) % 4 == 0 {
                    src.rows.push(row(&format!("a{c}{d}{c}a"), 0, 0, -9000, &format!("B{k}.{j}")));
                    src.rows.push(row(&format!("{c}{d}"), 0, 0, -100, &format!("C{k}.{j}")));
                }
            }
        }
        let tk = build(&src, mode)?;
        let model = Model::new(&src);
        for (j, c) in chars.iter().enumerate() {
            for (k, d) in ds.iter().enumerate() {
                one(What::Sentences, &src, &tk, &model, mode, &format!("a{c}{d}{c}a"), st)?;
                if (j + k) % 4 == 0 {
                    one(What::Sentences, &src, &tk, &model, mode, &format!("{d}{c}{d}{d}{c}{c}a"), st)?;
                }
            }
        }
        Ok(())
    });
    // sequences of sentences of chosen lengths, growing and shrinking
    let lens = [0usize, 1, 2, 7, 33, 130];
    let units = ["a", "漢", "あ漢一", "𠮷é"];
    let k = run.b(4u32, 5);
    let n = (lens.len() as u64).pow(k) * units.len() as u64 * 2;
    run.family("sequences of sentence lengths", n * ws.len() as u64, |i, st| {
        let w = &ws[(i / n) as usize];
        let mut j = i % n;
        let unit = units[(j % 4) as usize];
        j /= 4;
        let delim = ["。", "\n"][(j % 2) as usize];
        j /= 2;
        let mut t = String::new();
        for _ in 0..k {
            t += &unit.repeat(lens[(j % 6) as usize]);
            t += delim;
            j /= 6;
        }
        one(What::Sentences, &w.src, w.get()?, &w.model, &w.mode, &t, st)
    });
    let wl = mixed_worlds([0, 4, 8].into_iter(), &modes);
    scale_family(run, What::Sentences, "lengths and sizes", &wl);
    // many sentences: counts across powers of two
    let mut counts: Vec<usize> = (1..=run.b(300, 1100)).collect();
    for p in [4096usize, 32768, 65536] {
        counts.extend([p - 1, p, p + 1]);
    }
    let nc = counts.len() as u64;
    run.family("number of sentences", nc * wl.len() as u64, |i, st| {
        let w = &wl[(i / nc) as usize];
        let n = counts[(nc - 1 - i % nc) as usize];
        let mut t = String::new();
        for j in 0..n {
            t += ["漢a。", "あ\n", "。", "ab漢一、", "\t"][(j * 7 + j / 5) % 5];
        }
        one(What::Sentences, &w.src, w.get()?, &w.model, &w.mode, &t, st)
    });
}
