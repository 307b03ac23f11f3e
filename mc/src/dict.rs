//! Dictionary contents: C05, C06, C07, C10, C11.
use crate::dictkit::*;
use crate::fw::*;
use lindera_core::character_definition::{CharacterDefinitions, CharacterDefinitionsBuilder};
use lindera_core::connection::ConnectionCostMatrix;
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::mode::Mode;
use lindera_core::prefix_dict::PrefixDict;
use lindera_core::unknown_dictionary::UnknownDictionary;
use lindera_core::word_entry::WordEntry;
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind, DictionaryLoader, UserDictionaryConfig};
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;

pub type Entry = (i16, u16, u16, Vec<String>);
pub type Table = BTreeMap<String, Vec<Entry>>;

fn normalises(kind: &DictionaryKind) -> bool {
    matches!(kind, DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd)
}
fn norm(kind: &DictionaryKind, s: &str) -> String {
    if normalises(kind) {
        s.chars().map(|c| match c { '\u{2015}' => '\u{2014}', '\u{ff5e}' => '\u{301c}', c => c }).collect()
    } else {
        s.to_string()
    }
}
pub fn table(kind: &DictionaryKind, rows: &[Row]) -> Table {
    let mut t = Table::new();
    for r in rows {
        t.entry(norm(kind, &r.surface)).or_default().push((r.cost, r.left, r.right, r.details.iter().map(|d| norm(kind, d)).collect()));
    }
    for v in t.values_mut() {
        v.sort();
    }
    t
}

pub enum Which<'a> {
    Sys(&'a Dictionary),
    User(&'a UserDictionary),
}
impl<'a> Which<'a> {
    fn da(&self) -> &PrefixDict<Vec<u8>> {
        match self {
            Which::Sys(d) => &d.dict,
            Which::User(d) => &d.dict,
        }
    }
    fn entry(&self, e: WordEntry) -> Result<Entry, String> {
        let sys = matches!(self, Which::Sys(_));
        if e.word_id.is_system() != sys {
            return Err(format!("word id {:?} claims the wrong dictionary", e.word_id));
        }
        let d = match self {
            Which::Sys(d) => d.word_details(e.word_id.0 as usize),
            Which::User(d) => d.word_details(e.word_id.0 as usize),
        };
        Ok((e.word_cost, e.left_id, e.right_id, d.ok_or_else(|| format!("no details for {:?}", e.word_id))?))
    }
    pub fn find(&self, s: &str) -> Result<Vec<Entry>, String> {
        let mut v = self.da().find_surface(s).into_iter().map(|e| self.entry(e)).collect::<Result<Vec<_>, _>>()?;
        v.sort();
        Ok(v)
    }
    /// Words that are prefixes of s, by length.
    pub fn prefixes(&self, s: &str) -> Result<BTreeMap<usize, Vec<Entry>>, String> {
        let mut m: BTreeMap<usize, Vec<Entry>> = BTreeMap::new();
        for (n, e) in self.da().prefix(s) {
            m.entry(n).or_default().push(self.entry(e)?);
        }
        for v in m.values_mut() {
            v.sort();
        }
        Ok(m)
    }
    /// Every row of the table is in the dictionary.
    pub fn includes(&self, want: &Table) -> Result<(), String> {
        for (p, w) in want {
            let mut got = guard(|| self.find(p)).and_then(|x| x).map_err(|e| format!("looking up {p:?}: {e}"))?;
            for e in w {
                match got.iter().position(|g| g == e) {
                    Some(i) => {
                        got.remove(i);
                    }
                    None => return Err(format!("surface {p:?}: the well-formed row {e:?} is missing; found {}", ej(&got))),
                }
            }
        }
        Ok(())
    }
    /// Everything the dictionary says about the probes and the table's surfaces.
    pub fn compare(&self, want: &Table, probes: &[String], prefix_too: bool) -> Result<u64, String> {
        let empty = vec![];
        let mut n = 0;
        let nul: Vec<String> = want.keys().take(3).filter(|k| k.len() < 50).flat_map(|k| [format!("\0{k}"), format!("{k}\0"), format!("{k}\0{k}\0\0{k}")]).collect();
        for p in want.keys().chain(probes.iter()).chain(nul.iter()) {
            if p.is_empty() {
                continue;
            }
            n += 1;
            let w = want.get(p).unwrap_or(&empty);
            let got = guard(|| self.find(p)).and_then(|x| x).map_err(|e| format!("looking up {p:?}: {e}"))?;
            if &got != w {
                return Err(format!("surface {p:?}: found {}, the source says {}", ej(&got), ej(w)));
            }
            if prefix_too {
                let mut wp: BTreeMap<usize, Vec<Entry>> = BTreeMap::new();
                for (i, c) in p.char_indices() {
                    let e = i + c.len_utf8();
                    if let Some(v) = want.get(&p[..e]) {
                        wp.insert(e, v.clone());
                    }
                }
                let gp = guard(|| self.prefixes(p)).and_then(|x| x).map_err(|e| format!("prefix search of {p:?}: {e}"))?;
                if gp != wp {
                    return Err(format!("words that start {p:?}: found {:?}, the source says {:?}", gp, wp));
                }
            }
        }
        Ok(n)
    }
}
fn ej(v: &[Entry]) -> String {
    if v.len() > 4 {
        format!("{} rows {:?}...", v.len(), &v[..4])
    } else {
        format!("{v:?}")
    }
}

pub fn base_src() -> Src {
    let mut s = crate::worlds::mixed(6);
    s.rows.clear();
    s
}

/// Writes the rows spread over files, builds and loads.
pub fn build_files(kind: &DictionaryKind, files: &[(String, Vec<Row>)]) -> Result<Dictionary, String> {
    let sc = Scratch::new();
    let (i, o) = (sc.0.join("in"), sc.0.join("out"));
    base_src().write(kind, &i);
    std::fs::remove_file(i.join("words.csv")).unwrap();
    for (name, rows) in files {
        let text: String = rows.iter().map(row_line).collect();
        std::fs::write(i.join(name), encode(kind, &text)).unwrap();
    }
    build_dir(kind, &i, &o)?;
    load_dir(&o)
}
fn files_json(files: &[(String, Vec<Row>)]) -> Value {
    json!(files.iter().map(|(n, r)| json!({"file": n, "rows": r.len(), "text": r.iter().take(200).map(row_line).collect::<String>()})).collect::<Vec<_>>())
}

fn r(surface: &str, left: u16, right: u16, cost: i16, details: &[&str]) -> Row {
    Row { surface: surface.into(), left, right, cost, details: details.iter().map(|s| s.to_string()).collect() }
}

fn check_files(key: String, kind: &DictionaryKind, files: &[(String, Vec<Row>)], probes: &[String], prefix_too: bool, st: &mut Stats) -> Res {
    let all: Vec<Row> = files.iter().flat_map(|f| f.1.iter().cloned()).collect();
    let want = table(kind, &all);
    let detail = || json!({"format": kind.as_str(), "files": files_json(files)});
    let d = match build_files(kind, files) {
        Ok(d) => d,
        Err(e) => return viol(key, format!("well-formed {} source was {e}", kind.as_str()), detail()),
    };
    match Which::Sys(&d).compare(&want, probes, prefix_too) {
        Ok(n) => {
            st.transitions += n;
            st.states += want.len() as u64;
            st.traces += 1;
            if all.len() > 1 {
                st.nontrivial += 1;
            }
            st.sample(|| json!({"format": kind.as_str(), "rows": all.len(), "surfaces": want.len(), "lookups": n, "first": files_json(files)[0]["text"].as_str().map(|s| s.chars().take(80).collect::<String>())}));
            Ok(())
        }
        Err(e) => viol(key, format!("{}: {e}", kind.as_str()), detail()),
    }
}

fn alphabet(kind: &DictionaryKind) -> [&'static str; 4] {
    if *kind == DictionaryKind::IPADIC { ["a", "あ", "語", "ｱ"] } else { ["a", "é", "語", "𠮷"] }
}

pub fn c05(run: &mut Run) {
    run.rule = "every enumerated source is built and loaded; every source surface and every probe string is looked up (exact and prefix search); non-trivial: more than one row. states: surfaces in the source, transitions: lookups compared".into();
    run.assumptions = vec!["surfaces are not empty and contain no NUL; rows have at least one detail field; at most 31 rows per surface".into()];
    let nk = KINDS.len() as u64;
    // 1. all subsets of a set of surfaces that are prefixes of each other
    let nsurf = run.b(11u32, 12);
    run.family("subsets of nested surfaces", nk << nsurf, |i, st| {
        let kind = &KINDS[(i % nk) as usize];
        let mask = i / nk;
        let ab = alphabet(kind);
        let surf: Vec<String> = [&[0][..], &[1], &[0, 0], &[1, 0], &[1, 2], &[2], &[2, 3], &[3], &[3, 3], &[1, 2, 0], &[1, 2, 3], &[0, 1, 2]]
            .iter().map(|w| w.iter().map(|&j| ab[j]).collect()).collect();
        let mut rows = vec![];
        for j in 0..nsurf as usize {
            if mask >> j & 1 == 1 {
                for h in 0..=(j % 3) {
                    rows.push(r(&surf[j], (j * 5 + h) as u16, (h * 7) as u16, (j as i16 - 4) * 1000 + h as i16, &[&format!("d{j}"), &format!("h{h}"), "*"]));
                }
            }
        }
        if rows.is_empty() {
            rows.push(r("zz", 1, 2, 3, &["x", "y", "z"]));
        }
        let probes: Vec<String> = (1..strings_upto(4, 3)).map(|t| nth_text(t, &ab)).collect();
        check_files(format!("c05 subset {} {mask:b}", kind.as_str()), kind, &[("words.csv".into(), rows)], &probes, true, st)
    });
    // 2. all row orders, spread over up to three files
    let perms = permutations(run.b(5, 6));
    let np = perms[0].len();
    let cuts: Vec<(usize, usize)> = (0..=np).flat_map(|a| (a..=np).map(move |b| (a, b))).collect();
    let radices = [nk, perms.len() as u64, cuts.len() as u64];
    run.family("row orders x file splits", product(&radices), |i, st| {
        let d = digits(i, &radices);
        let kind = &KINDS[d[0]];
        let ab = alphabet(kind);
        let base = [
            r(ab[1], 1, 2, -300, &["N", "一", "*"]),
            r(ab[1], 1, 2, -300, &["N", "二", "*"]),
            r(&format!("{}{}", ab[1], ab[0]), 3, 4, 500, &["V", "*", ""]),
            r(ab[0], 65535, 0, 32767, &["A", "x", "y"]),
            r("\u{2015}", 5, 6, -32768, &["D", "\u{2015}", "\u{ff5e}"]),
            r("\u{ff5e}\u{2015}", 6, 6, 1, &["E", "a\u{ff5e}", ""]),
        ];
        let rows: Vec<Row> = perms[d[1]].iter().map(|&j| base[j].clone()).collect();
        let (a, b) = cuts[d[2]];
        let files = vec![("b.csv".to_string(), rows[..a].to_vec()), ("a.csv".to_string(), rows[a..b].to_vec()), ("c.csv".to_string(), rows[b..].to_vec())];
        let probes = vec![ab[2].to_string(), format!("{}{}", ab[0], ab[1]), "\u{2014}".into(), "\u{2015}".into(), "\u{301c}\u{2014}".into(), "\u{ff5e}\u{2015}".into(), "\u{ff5e}".into()];
        check_files(format!("c05 order {} {:?} {:?}", kind.as_str(), perms[d[1]], (a, b)), kind, &files, &probes, true, st)
    });
    // 3. homographs
    let radices = [nk, 31, 31];
    run.family("1..31 rows per surface, two surfaces", product(&radices), |i, st| {
        let d = digits(i, &radices);
        let kind = &KINDS[d[0]];
        let ab = alphabet(kind);
        let mut rows = vec![];
        for h in 0..=d[1].max(d[2]) {
            // interleaved in the source
            if h <= d[1] {
                rows.push(r(ab[2], h as u16, 3, (h as i16) * 17 - 200, &[&format!("p{h}"), "*"]));
            }
            if h <= d[2] {
                rows.push(r(&format!("{}{}", ab[2], ab[0]), 9, h as u16, 1000 - h as i16, &[&format!("q{h}"), "*"]));
            }
        }
        rows.push(r(ab[0], 1, 1, 1, &["z", "*"]));
        check_files(format!("c05 homographs {} {} {}", kind.as_str(), d[1] + 1, d[2] + 1), kind, &[("w.csv".into(), rows)], &[ab[1].into()], true, st)
    });
    // 4. every word cost and every context id
    run.family("every 16-bit cost and context id", nk * 32, |i, st| {
        let kind = &KINDS[(i % nk) as usize];
        let b = (i / nk) as u32;
        let rows: Vec<Row> = (0..2048u32)
            .map(|j| {
                let v = (b * 2048 + j) as u16;
                r(&format!("w{j}"), v.wrapping_mul(5).wrapping_add(77), v.wrapping_mul(9).wrapping_add(3), v as i16, &["N", &v.to_string()])
            })
            .collect();
        check_files(format!("c05 numbers {} {b}", kind.as_str()), kind, &[("w.csv".into(), rows)], &[], false, st)
    });
    // 5. details: every combination of contents; every number of fields
    let contents = ["", "*", "a,b", "\"q\"", "改\n行", "\u{2015}", "\u{ff5e}x\u{2015}", " s ", "語", "\u{301c}", "\r", "\u{2014}", "a\tb", "#x", "a\\,\"\\b", "'\\"];
    let contents = &contents;
    let maxf = run.b(24, 60);
    run.family("detail field contents and counts", nk * (2 + maxf as u64), |i, st| {
        let kind = &KINDS[(i % nk) as usize];
        let k = i / nk;
        let cs: Vec<&str> = contents.iter().copied().filter(|c| {
            *kind != DictionaryKind::IPADIC || { let e = encoding_rs::EUC_JP.encode(c); !e.2 && encoding_rs::EUC_JP.decode(&e.0).0 == *c }
        }).collect();
        let n = cs.len();
        let rows: Vec<Row> = if k == 0 {
            (0..n * n * n).map(|j| r(&format!("w{j}"), 1, 1, 1, &[cs[j % n], cs[j / n % n], cs[j / n / n]])).collect()
        } else if k == 1 {
            // the contents as surfaces
            (0..n * n).map(|j| (j, format!("{}{}", cs[j % n], cs[j / n]))).filter(|x| !x.1.is_empty()).map(|(j, s)| r(&s, j as u16, 1, 1, &[&format!("d{j}")])).collect()
        } else {
            let f = (k - 1) as usize;
            (0..40usize).map(|j| { let v: Vec<String> = (0..f).map(|x| if (x + j) % 5 == 0 { String::new() } else { format!("f{j}.{x}") }).collect(); let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect(); r(&format!("w{}", j % 20), 1, 1, j as i16, &v) }).collect()
        };
        check_files(format!("c05 details {} {k}", kind.as_str()), kind, &[("w.csv".into(), rows)], &["z".into()], false, st)
    });
    // the format with a variable number of fields
    let flex = [DictionaryKind::CcCedict];
    let radices = [1u64, 5, 5, 5, 5];
    run.family("rows with different numbers of details", product(&radices), |i, st| {
        let d = digits(i, &radices);
        let kind = &flex[d[0]];
        let rows: Vec<Row> = (1..5).map(|j| { let v: Vec<String> = (0..=d[j]).map(|x| format!("{j}-{x}")).collect(); let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect(); r(["a", "b", "a", "ab"][j - 1], j as u16, 0, j as i16, &v) }).collect();
        check_files(format!("c05 ragged {} {d:?}", kind.as_str()), kind, &[("w.csv".into(), rows)], &[], true, st)
    });
    // every pair of rows with few details
    let lists = |kind: &DictionaryKind| -> Vec<Vec<&'static str>> {
        let c = ["x", "*", "", "x,*", "y"];
        let mut v = vec![];
        for n in 1..=3usize {
            let k = if n == 3 { 3u64 } else { c.len() as u64 };
            for i in 0..k.pow(n as u32) {
                v.push(digits(i, &vec![k; n]).into_iter().map(|j| c[j]).collect::<Vec<_>>());
            }
        }
        if *kind != DictionaryKind::CcCedict {
            v.sort_by_key(|l| l.len());
        }
        v
    };
    let mut pairs: Vec<(DictionaryKind, Vec<&str>, Vec<&str>)> = vec![];
    for kind in &KINDS {
        let l = lists(kind);
        for a in &l {
            for b in &l {
                if *kind == DictionaryKind::CcCedict || a.len() == b.len() {
                    pairs.push((kind.clone(), a.clone(), b.clone()));
                }
            }
        }
    }
    run.family("every pair of rows with few details", pairs.len() as u64 * 2, |i, st| {
        let (kind, a, b) = &pairs[(i / 2) as usize];
        let ab = alphabet(kind);
        // two surfaces, or one
        let mut rows = vec![r(ab[1], 1, 2, 3, a), r(ab[if i % 2 == 0 { 2 } else { 1 }], 1, 2, 3, b)];
        if *kind == DictionaryKind::CcCedict || a.len() == 1 {
            rows.push(r(ab[0], 0, 0, 0, &["z"]));
        }
        check_files(format!("c05 pair {} {a:?} {b:?} {}", kind.as_str(), i % 2), kind, &[("w.csv".into(), rows)], &[], false, st)
    });
    // sizes across the limits of narrow numbers
    let mut sizes: Vec<(usize, usize)> = vec![];
    for n in [127usize, 128, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 70000] {
        for what in 0..4 {
            sizes.push((what, n));
        }
    }
    sizes.push((0, 1 << 20));
    sizes.push((3, run.b(70001, 200_000)));
    // all details together across 2^24 bytes (thorough: 2^26), words across 2^20
    sizes.push((4, run.b(280, 1100)));
    if !run.quick() {
        sizes.push((3, (1 << 20) + 1000));
    }
    run.family("sizes: details, fields, surfaces and words", nk * sizes.len() as u64, |i, st| {
        let kind = &KINDS[(i % nk) as usize];
        let (what, n) = sizes[(i / nk) as usize];
        let ab = alphabet(kind);
        let mut rows = vec![r(ab[0], 1, 2, 3, &["first", "*"])];
        match what {
            0 => rows.push(r(ab[1], 4, 5, 6, &[&ab[2].repeat(n / 3).chars().chain("aa".chars().take(n % 3)).collect::<String>(), "end"])),
            1 => {
                let v: Vec<String> = (0..n).map(|j| format!("{}", j % 97)).collect();
                let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
                rows = vec![r(ab[0], 1, 2, 3, &v), r(ab[1], 1, 2, 4, &v[1..].iter().copied().chain(["end"]).collect::<Vec<_>>())];
            }
            2 => rows.push(r(&ab[0].repeat(n), 4, 5, 6, &["long", "*"])),
            4 => rows.extend((0..n).map(|j| r(&format!("w{j}"), 1, 2, 3, &[&format!("{j} ").repeat(65536 / (j.to_string().len() + 1)), &format!("d{j}")]))),
            _ => rows.extend((1..n).map(|j| r(&format!("w{j}"), (j % 65536) as u16, (j / 7 % 65536) as u16, (j % 65536) as u16 as i16, &[&format!("d{j}"), "*"]))),
        }
        rows.push(r(&format!("{}{}", ab[0], ab[1]), 7, 8, 9, &rows[0].details.iter().rev().map(|s| s.as_str()).collect::<Vec<_>>()));
        check_files(format!("c05 size {} {what} {n}", kind.as_str()), kind, &[("w.csv".into(), rows)], &["zz".into()], what < 3 && n < 5000, st)
    });
    // 6. every character as a surface, and after a common first character
    let block = 2048u32;
    let kinds: Vec<DictionaryKind> = run.b(vec![DictionaryKind::IPADIC, DictionaryKind::IPADICNEologd, DictionaryKind::UniDic], KINDS.to_vec());
    let nkk = kinds.len() as u64;
    run.family("every character as a surface", nkk * (0x110000 / block) as u64, |i, st| {
        let kind = &kinds[(i % nkk) as usize];
        let b = (i / nkk) as u32;
        let chars: Vec<char> = (b * block..(b + 1) * block).filter_map(char::from_u32).filter(|&c| c != '\0').filter(|c| {
            *kind != DictionaryKind::IPADIC || { let s = c.to_string(); let e = encoding_rs::EUC_JP.encode(&s); !e.2 && encoding_rs::EUC_JP.decode(&e.0).0 == s }
        }).collect();
        if chars.is_empty() {
            return Ok(());
        }
        let mut rows: Vec<Row> = chars.iter().map(|c| r(&c.to_string(), 1, 2, (*c as u32 % 30000) as i16, &[&format!("U{:X}", *c as u32)])).collect();
        rows.extend(chars.iter().step_by(7).map(|c| r(&format!("{c}{c}"), 2, 2, 5, &[&format!("V{:X}", *c as u32)])));
        let probes: Vec<String> = chars.iter().take(64).map(|c| format!("{c}{c}")).chain(["zz".to_string()]).collect();
        check_files(format!("c05 chars {} {b}", kind.as_str()), kind, &[("w.csv".into(), rows)], &probes, false, st)
    });
    // every character at the start, at the end and inside of a detail field
    run.family("every character in the details", nkk * (0x110000 / block) as u64, |i, st| {
        let kind = &kinds[(i % nkk) as usize];
        let b = (i / nkk) as u32;
        let rows: Vec<Row> = (b * block..(b + 1) * block)
            .filter_map(char::from_u32)
            .filter(|&c| c != '\0')
            .filter(|c| *kind != DictionaryKind::IPADIC || { let s = c.to_string(); let e = encoding_rs::EUC_JP.encode(&s); !e.2 && encoding_rs::EUC_JP.decode(&e.0).0 == s })
            .map(|c| r(&format!("w{:X}", c as u32), 1, 2, 3, &[&format!("{c}x"), &format!("x{c}"), &format!("{c}"), &format!("x{c}{c}x"), &format!("{c}{c}")]))
            .collect();
        if rows.is_empty() {
            return Ok(());
        }
        check_files(format!("c05 detail chars {} {b}", kind.as_str()), kind, &[("w.csv".into(), rows)], &["wG".into()], false, st)
    });
    // characters that are normalised, any number of times in one surface or field
    run.family("repeated characters that are normalised", nk * 40, |i, st| {
        let kind = &KINDS[(i % nk) as usize];
        let n = (i / nk) as usize + 1;
        let alt: String = (0..n).map(|j| ["\u{2015}", "\u{ff5e}"][j % 2]).collect();
        let (dash, tilde) = ("\u{2015}".repeat(n), "\u{ff5e}".repeat(n));
        let spaced: String = (0..n).map(|j| ["a\u{ff5e}", "\u{2015}b", "c"][(j * j + n) % 3]).collect();
        let rows = vec![
            r(&alt, 1, 2, 3, &[&alt, &dash, &tilde]),
            r(&format!("a{dash}"), 1, 2, 4, &[&tilde, &spaced, "*"]),
            r(&format!("b{tilde}"), 1, 2, 5, &["*", &alt, &spaced]),
            r(&format!("c{spaced}"), 1, 2, 6, &[&dash, "*", &alt]),
        ];
        let probes = vec!["\u{2014}".repeat(n), "\u{301c}".repeat(n), alt.clone(), format!("a{dash}"), format!("b{tilde}c")];
        check_files(format!("c05 normalised {} {n}", kind.as_str()), kind, &[("w.csv".into(), rows)], &probes, true, st)
    });
    // rows spread over any number of files; every file has a row of the same surface as others
    let counts: Vec<usize> = (1..=40).chain([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]).chain(run.b(vec![], vec![511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049])).collect();
    run.family("number of source files", nk * counts.len() as u64, |i, st| {
        let kind = &KINDS[(i % nk) as usize];
        let n = counts[(i / nk) as usize];
        let ab = alphabet(kind);
        let files: Vec<(String, Vec<Row>)> = (0..n)
            .map(|j| {
                let name = match j % 3 { 0 => format!("{j}.csv"), 1 => format!("words.{j}.csv"), _ => format!("語 {}.csv", n - j) };
                let rows = (0..j % 3).map(|k| r(&format!("{}{}", ab[k + 1], j / 20), j as u16, k as u16, j as i16, &[&format!("d{j}"), "*"])).chain([r(&format!("w{j}"), 1, 2, j as i16, &["N", &format!("{j}")])]).collect();
                (name, rows)
            })
            .collect();
        check_files(format!("c05 files {} {n}", kind.as_str()), kind, &files, &["w".into()], false, st)
    });
    // 7. many words
    let n = run.b(5, 6);
    run.case_limit_s(300);
    run.family("all strings up to a length as surfaces", nk, |i, st| {
        let kind = &KINDS[i as usize];
        let mut ab: Vec<&str> = alphabet(kind).to_vec();
        ab.extend(["b", "か", "漢", "0"]);
        let all: Vec<String> = (1..strings_upto(8, n)).map(|t| nth_text(t, &ab)).collect();
        let rows: Vec<Row> = all.iter().enumerate().filter(|(j, _)| j % 11 != 5).map(|(j, s)| r(s, (j % 1000) as u16, (j / 1000) as u16, (j % 30000) as i16 - 15000, &[&format!("d{j}"), "*"])).collect();
        check_files(format!("c05 many {}", kind.as_str()), kind, &[("w.csv".into(), rows)], &all, false, st)
    });
}

// ---- user dictionaries -----------------------------------------------------------------

fn simple_details(kind: &DictionaryKind, surface: &str, pos: &str, reading: &str) -> Vec<String> {
    let v: Vec<&str> = match kind {
        DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd => vec![pos, "*", "*", "*", "*", "*", surface, reading, "*"],
        DictionaryKind::UniDic => {
            let mut v = vec![pos, "*", "*", "*", "*", "*", reading];
            v.extend(["*"; 10]);
            v
        }
        DictionaryKind::KoDic => vec![pos, "*", "*", reading, "*", "*", "*", "*"],
        DictionaryKind::CcCedict => vec![pos, "*", "*", "*", reading, "*", "*", "*"],
    };
    v.into_iter().map(|s| s.to_string()).collect()
}

/// A user dictionary source line.
#[derive(Clone, Debug)]
pub enum U {
    Simple(String, String, String),
    Detailed(Row),
}
fn us(s: &str, p: &str, y: &str) -> U {
    U::Simple(s.into(), p.into(), y.into())
}
fn ud(kind: &DictionaryKind, s: &str, l: u16, rr: u16, c: i16, tag: &str) -> U {
    let n = detailed_fields(kind) - 4;
    let det: Vec<String> = (0..n).map(|j| if j == 0 { tag.to_string() } else if j % 3 == 0 { "*".into() } else { format!("{tag}.{j}") }).collect();
    U::Detailed(Row { surface: s.into(), left: l, right: rr, cost: c, details: det })
}
fn u_text(rows: &[U]) -> String {
    rows.iter()
        .map(|u| match u {
            U::Simple(a, b, c) => csv_line(&[a.clone(), b.clone(), c.clone()]),
            U::Detailed(r) => row_line(r),
        })
        .collect()
}
pub fn row_table(kind: &DictionaryKind, rows: &[Row]) -> Table {
    table(kind, rows)
}
pub fn u_rows(kind: &DictionaryKind, rows: &[U]) -> Table {
    u_table(kind, rows)
}
fn u_table(kind: &DictionaryKind, rows: &[U]) -> Table {
    let mut t = Table::new();
    for u in rows {
        match u {
            U::Simple(s, p, y) => t.entry(s.clone()).or_default().push((-10000, 0, 0, simple_details(kind, s, p, y))),
            U::Detailed(r) => t.entry(r.surface.clone()).or_default().push((r.cost, r.left, r.right, r.details.clone())),
        }
    }
    for v in t.values_mut() {
        v.sort();
    }
    t
}
fn mixes(kind: &DictionaryKind) -> bool {
    normalises(kind)
}

fn user_csv(kind: &DictionaryKind, text: &str) -> Result<UserDictionary, String> {
    let sc = Scratch::new();
    let p = sc.0.join("user.csv");
    std::fs::write(&p, text).unwrap();
    match guard(|| DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { kind: Some(kind.clone()), path: p.clone() })) {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(p) => Err(format!("panicked: {p}")),
    }
}
/// CSV -> compiled file -> loaded again.
fn user_bin(kind: &DictionaryKind, text: &str, old: Option<&[u8]>) -> Result<(UserDictionary, Vec<u8>), String> {
    let sc = Scratch::new();
    let p = sc.0.join("user.csv");
    let b = sc.0.join("out/user.bin");
    std::fs::write(&p, text).unwrap();
    if let Some(o) = old {
        std::fs::create_dir_all(b.parent().unwrap()).unwrap();
        std::fs::write(&b, o).unwrap();
    }
    match guard(|| DictionaryBuilderResolver::resolve_builder(kind.clone()).and_then(|x| x.build_user_dictionary(&p, &b))) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("refused: {e}")),
        Err(p) => return Err(format!("panicked: {p}")),
    }
    let bytes = std::fs::read(&b).map_err(|e| format!("no compiled file: {e}"))?;
    match guard(|| DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { kind: None, path: b.clone() })) {
        Ok(Ok(d)) => Ok((d, bytes)),
        Ok(Err(e)) => Err(format!("refused its own compiled file: {e}")),
        Err(p) => Err(format!("panicked on its own compiled file: {p}")),
    }
}

/// The enumerated user dictionaries of one format: every sequence of up to `n` rows.
fn u_pool(kind: &DictionaryKind) -> (Vec<U>, Vec<U>) {
    let simple = vec![
        us("東京", "カスタム名詞", "トウキョウ"),
        us("東京", "地名", "とうきょう"),
        us("東", "*", ""),
        us("a,b", "N,\"x\"", "エー"),
        us("\u{2015}\u{ff5e}", "記号", "\u{ff5e}"),
    ];
    let detailed = vec![
        ud(kind, "東京", 0, 0, 100, "D0"),
        ud(kind, "東京", 65535, 1, -32768, "D1"),
        ud(kind, "東", 1, 65535, 32767, "D2"),
        ud(kind, "京都駅", 2, 1, -1, "D3"),
        ud(kind, "\u{2015}", 1, 1, 0, "D4"),
    ];
    (simple, detailed)
}
fn u_sources(kind: &DictionaryKind, n: u32) -> Vec<Vec<U>> {
    let (s, d) = u_pool(kind);
    let mut out = vec![];
    let pools: Vec<Vec<U>> = if mixes(kind) { vec![s.into_iter().chain(d).collect()] } else { vec![s, d] };
    for pool in pools {
        let k = pool.len() as u64;
        let mut v = vec![];
        for i in 1..strings_upto(k, n) {
            nth_string(i, k, &mut v);
            out.push(v.iter().map(|&j| pool[j].clone()).collect());
        }
    }
    out
}
const U_PROBES: [&str; 9] = ["東", "東京", "東京都", "京", "京都駅", "a,b", "a", "\u{2015}", "\u{2014}\u{301c}"];

pub fn c06(run: &mut Run) {
    run.rule = "every enumerated user dictionary is read by the real loader; each surface and probe is looked up and tokens are checked; non-trivial: more than one row. states: surfaces, transitions: lookups or connections, traces: dictionaries or texts compared".into();
    run.assumptions = vec!["surfaces are not empty and contain no NUL; formats other than IPADIC and NEologd do not mix simple and detailed rows in one file".into()];
    let n = run.b(4, 6);
    let probes: Vec<String> = U_PROBES.iter().map(|s| s.to_string()).collect();
    for kind in KINDS.iter() {
        let srcs = u_sources(kind, n);
        run.family(&format!("{}: every sequence of user rows", kind.as_str()), srcs.len() as u64, |i, st| {
            let src = &srcs[i as usize];
            let text = u_text(src);
            let key = format!("c06 rows {} {text:?}", kind.as_str());
            let d = user_csv(kind, &text).or_else(|e| viol(&key, format!("well-formed user dictionary was {e}"), json!({"format": kind.as_str(), "user.csv": text})))?;
            let want = u_table(kind, src);
            let k = Which::User(&d).compare(&want, &probes, true).or_else(|e| viol(&key, e, json!({"format": kind.as_str(), "user.csv": text})))?;
            st.states += want.len() as u64;
            st.transitions += k;
            st.traces += 1;
            st.nontrivial += (src.len() > 1) as u64;
            st.sample(|| json!({"format": kind.as_str(), "user.csv": text, "lookups": k}));
            Ok(())
        });
    }
    // the number of rows, including all homograph counts
    let nk = KINDS.len() as u64;
    run.family("1..31 user rows per surface; many rows", nk * 2 * 40, |i, st| {
        let d = digits(i, &[nk, 2, 40]);
        let kind = &KINDS[d[0]];
        let mut rows = vec![];
        let (surf, per) = if d[2] < 31 { (3, d[2] + 1) } else { (1 << (d[2] - 31 + 3), 1) };
        for h in 0..per {
            for s in 0..surf {
                let name = if surf == 3 { ["東", "東京", "西"][s].to_string() } else { format!("語{s}") };
                rows.push(if d[1] == 0 { us(&name, &format!("P{s}.{h}"), &format!("y{h}")) } else { ud(kind, &name, s as u16, h as u16, (s as i16) - h as i16, &format!("D{s}.{h}")) });
            }
        }
        let text = u_text(&rows);
        let key = format!("c06 many {} {d:?}", kind.as_str());
        let dic = user_csv(kind, &text).or_else(|e| viol(&key, format!("well-formed user dictionary was {e}"), json!({"format": kind.as_str()})))?;
        let want = u_table(kind, &rows);
        let k = Which::User(&dic).compare(&want, &["語".to_string(), "東京都".into()], true).or_else(|e| viol(&key, e, json!({"format": kind.as_str(), "rows": rows.len()})))?;
        st.states += want.len() as u64;
        st.transitions += k;
        st.traces += 1;
        st.nontrivial += 1;
        Ok(())
    });
    // the contents of every field
    const CONT: [&str; 11] = ["", "*", "x", " s ", "a,b", "\"q\"", "語", "0", "#x", "a\\,\"\\b", "'"];
    let nc = CONT.len() as u64;
    run.family("contents of the fields of simple rows", nk * nc * nc * nc * 2, |i, st| {
        let d = digits(i, &[nk, nc, nc, nc, 2]);
        let kind = &KINDS[d[0]];
        if CONT[d[1]].is_empty() {
            return Ok(());
        }
        let mut rows = vec![us(CONT[d[1]], CONT[d[2]], CONT[d[3]])];
        if d[4] == 1 {
            rows.insert(0, us("東", "P", "Y"));
            rows.push(us(CONT[d[1]], CONT[d[3]], "Z"));
        }
        check_user(format!("c06 fields {} {d:?}", kind.as_str()), kind, &rows, st)
    });
    // one or two fields of a detailed row, and rows with more fields than needed
    let places: Vec<(usize, usize, usize)> = (0..nk as usize).flat_map(|k| { let n = detailed_fields(&KINDS[k]) - 4; (0..n).flat_map(move |p| (p..n).map(move |q| (k, p, q))) }).collect();
    run.family("contents of the fields of detailed rows", places.len() as u64 * nc * nc, |i, st| {
        let d = digits(i, &[places.len() as u64, nc, nc]);
        let (k, p, q) = places[d[0]];
        let kind = &KINDS[k];
        let mut row = ud(kind, "東京", 3, 4, 5, "T");
        if let U::Detailed(r) = &mut row {
            r.details[p] = CONT[d[1]].into();
            r.details[q] = CONT[d[2]].into();
        }
        check_user(format!("c06 detailed fields {} {d:?}", kind.as_str()), kind, &[row], st)
    });
    run.family("number of fields of detailed rows", nk * 40 * nc, |i, st| {
        let d = digits(i, &[nk, 40, nc]);
        let kind = &KINDS[d[0]];
        if !mixes(kind) && d[1] > 0 {
            return Ok(());
        }
        let mut row = ud(kind, "東京", 3, 4, 5, "T");
        if let U::Detailed(r) = &mut row {
            for j in 0..d[1] {
                r.details.push(if j % 3 == 0 { CONT[d[2]].into() } else { format!("e{j}") });
            }
        }
        check_user(format!("c06 field count {} {d:?}", kind.as_str()), kind, &[us("東", "P", "Y"), row][(!mixes(kind)) as usize..], st)
    });
    run.family("sizes of user words", nk * 2 * 4 * SIZES.len() as u64, |i, st| {
        let d = digits(i, &[nk, 2, 4, SIZES.len() as u64]);
        let kind = &KINDS[d[0]];
        check_user(format!("c06 size {} {d:?}", kind.as_str()), kind, &sized_rows(kind, d[1] == 1, d[2], SIZES[d[3]]), st)
    });
    let block = 1024u32;
    run.family("every character in user words", nk * 3 * (0x110000 / block) as u64, |i, st| {
        let d = digits(i, &[nk, 3, (0x110000 / block) as u64]);
        let kind = &KINDS[d[0]];
        let rows = char_rows(kind, d[1], (d[2] as u32 * block..(d[2] as u32 + 1) * block).filter_map(char::from_u32));
        if rows.is_empty() {
            return Ok(());
        }
        check_user(format!("c06 chars {} {d:?}", kind.as_str()), kind, &rows, st)
    });
    // tokens: system and user words with equal row numbers but different details
    let worlds: Vec<(DictionaryKind, usize)> = KINDS.iter().flat_map(|k| (0..6).map(move |w| (k.clone(), w))).collect();
    let len = run.b(7, 9);
    let ab = ["あ", "い", "漢"];
    let total = strings_upto(3, len);
    run.family("tokens of texts over system and user words", worlds.len() as u64 * 8, |i, st| {
        let (kind, w) = &worlds[(i / 8) as usize];
        let part = i % 8;
        let (src, det) = token_world(kind, *w);
        let sys = src.build_kind(kind).or_else(|e| viol(format!("c06 world {} {w}", kind.as_str()), e, src.describe()))?;
        let user = if src.user.is_empty() { None } else {
            Some(user_csv(kind, &src.user_text(kind)).or_else(|e| viol(format!("c06 world {} {w}", kind.as_str()), e, src.describe()))?)
        };
        let tk = Tokenizer::new(sys, user, Mode::Normal);
        let model = Model::new(&src);
        for t in (part * total / 8)..((part + 1) * total / 8) {
            let text = nth_text(t, &ab);
            let key = format!("c06 tokens {} {w} {text:?}", kind.as_str());
            let toks = tokenize(&tk, &text).or_else(|e| viol(&key, e, src.describe()))?;
            let j = || json!({"text": text, "tokens": tok_json(&toks), "format": kind.as_str(), "source": src.describe()});
            if let Err((_, e)) = model.check(&text, &toks, &Mode::Normal, st) {
                return viol(&key, e, j());
            }
            for x in &toks {
                let want = det.get(&x.details[0]);
                if want.map_or(true, |wd| *wd != x.details) {
                    return viol(&key, format!("token {:?} has details {:?}, its row says {:?}", x.text, x.details, want), j());
                }
                if x.details[0].starts_with('U') && x.details[0] != "UNK" {
                    st.add("user_tokens", 1);
                }
            }
            st.nontrivial += (toks.len() > 1) as u64;
        }
        st.sample(|| json!({"format": kind.as_str(), "user.csv": src.user_text(kind), "texts": total / 8}));
        Ok(())
    });
}

/// User rows with every given character alone, at the start, at the end and inside of the fields.
/// what: 0, 1 simple rows, 2 detailed rows.
fn char_rows(kind: &DictionaryKind, what: usize, chars: impl Iterator<Item = char>) -> Vec<U> {
    let mut rows: Vec<U> = chars
        .filter(|&c| c != '\0')
        .map(|c| {
            let f = [format!("{c}"), format!("{c}x"), format!("x{c}"), format!("x{c}{c}x"), format!("{c}{c}")];
            match what {
                0 => us(&f[0], &f[1], &f[2]),
                1 => us(&format!("w{c}"), &f[4], &f[0]),
                _ => {
                    let mut row = ud(kind, &f[1], 3, 4, 5, "T");
                    if let U::Detailed(r) = &mut row {
                        r.details.iter_mut().enumerate().for_each(|(j, d)| *d = f[j % 5].clone());
                    }
                    row
                }
            }
        })
        .collect();
    if !rows.is_empty() {
        // a byte order mark at the start of the file is not part of the first surface
        rows.insert(0, if what < 2 { us("あ", "P", "Y") } else { ud(kind, "あ", 1, 2, 3, "T") });
    }
    rows
}

const SIZES: [usize; 14] = [127, 128, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000];
/// Rows of which one part (surface, first or second other field, number of rows) has the given size.
fn sized_rows(kind: &DictionaryKind, detailed: bool, place: usize, n: usize) -> Vec<U> {
    let long: String = "語".repeat(n / 3) + &"a".repeat(n % 3);
    let mut rows = if !detailed {
        let f = |j: usize| if place == j { long.clone() } else { format!("f{j}") };
        vec![us(&f(0), &f(1), &f(2))]
    } else {
        let mut row = ud(kind, if place == 0 { &long } else { "東" }, 3, 4, 5, "T");
        if let U::Detailed(r) = &mut row {
            match place {
                1 => r.details[0] = long.clone(),
                2 => *r.details.last_mut().unwrap() = long.clone(),
                _ => {}
            }
        }
        vec![row]
    };
    if place == 3 {
        // many words
        rows = (0..n).map(|j| if !detailed { us(&format!("w{j}"), &format!("P{j}"), "Y") } else { ud(kind, &format!("w{j}"), j as u16, (j / 3) as u16, j as u16 as i16, &format!("T{j}")) }).collect();
    }
    rows.push(if !detailed { us("西", "Q", "R") } else { ud(kind, "西", 9, 8, 7, "Z") });
    rows
}
fn check_compiled(key: String, kind: &DictionaryKind, rows: &[U], st: &mut Stats) -> Res {
    let text = u_text(rows);
    let j = || json!({"format": kind.as_str(), "user.csv": text.chars().take(2000).collect::<String>()});
    let cutoff = |e: String| e.chars().take(600).collect::<String>();
    let csv = user_csv(kind, &text).or_else(|e| viol(&key, e, j()))?;
    let (bin, _) = user_bin(kind, &text, None).or_else(|e| viol(&key, e, j()))?;
    let want = u_table(kind, rows);
    let k = Which::User(&bin).compare(&want, &["東京".to_string(), "語".into()], false).or_else(|e| viol(&key, format!("compiled: {}", cutoff(e)), j()))?;
    for s in want.keys() {
        let (a, b) = (csv.dict.find_surface(s), bin.dict.find_surface(s));
        if a != b {
            return viol(&key, cutoff(format!("surface {s:?}: CSV gives {a:?}, compiled gives {b:?}")), j());
        }
    }
    st.transitions += k;
    st.traces += 1;
    st.nontrivial += 1;
    Ok(())
}

fn check_user(key: String, kind: &DictionaryKind, rows: &[U], st: &mut Stats) -> Res {
    let text = u_text(rows);
    let j = || json!({"format": kind.as_str(), "user.csv": text.chars().take(2000).collect::<String>()});
    let d = user_csv(kind, &text).or_else(|e| viol(&key, format!("well-formed user dictionary was {e}"), j()))?;
    let want = u_table(kind, rows);
    let k = Which::User(&d).compare(&want, &["東京".to_string(), "語".into()], false).or_else(|e| viol(&key, e.chars().take(600).collect::<String>(), j()))?;
    st.states += want.len() as u64;
    st.transitions += k;
    st.traces += 1;
    st.nontrivial += 1;
    Ok(())
}

fn token_world(kind: &DictionaryKind, w: usize) -> (Src, BTreeMap<String, Vec<String>>) {
    let mut src = crate::worlds::tiny([0xff, 0x0f, 0x3c, 0x55, 0xaa, 0x01][w], w % 3, w % 4, false);
    src.cats.push(Cat { name: "KANJI", invoke: w % 2 == 0, group: true });
    src.ranges.push((0x4e00, 0x9fff, vec!["KANJI"]));
    src.unks.push(crate::worlds::u("KANJI", 1, 1, 2500));
    let simple = w % 2 == 0;
    for (j, s) in ["あ", "いあ", "漢", "あ漢い", "漢漢", "い"].iter().enumerate() {
        if w == 5 && j > 0 {
            break;
        }
        src.user.push(UserRow { row: row(s, (j % 3) as u16, (j % 2) as u16, [200, 900, -300, 4000, 1700, 30000][j], &format!("U{j}")), simple });
    }
    let mut det = BTreeMap::new();
    det.insert("UNK".to_string(), vec!["UNK".to_string()]);
    let pad = |mut d: Vec<String>| {
        while d.len() < detailed_fields(kind) - 4 {
            d.push("*".into());
        }
        d
    };
    for r in &src.rows {
        let fixed = matches!(kind, DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd | DictionaryKind::KoDic);
        det.insert(r.details[0].clone(), if fixed { pad(r.details.clone()) } else { r.details.clone() });
    }
    for u in &src.user {
        let d = if u.simple { simple_details(kind, &u.row.surface, &u.row.details[0], "ヨミ") } else { pad(u.row.details.clone()) };
        det.insert(u.row.details[0].clone(), d);
    }
    (src, det)
}

// ---- C07 -------------------------------------------------------------------------------

fn try_load<T>(what: &str, bytes: &[u8], f: impl FnOnce(&[u8]) -> Result<T, String>) -> Result<(), String> {
    match guard(|| f(bytes).map(drop)) {
        Ok(Ok(())) => Err(format!("{what} of {} bytes was accepted", bytes.len())),
        Ok(Err(_)) => Ok(()),
        Err(p) => Err(format!("{what} of {} bytes: panic: {p}", bytes.len())),
    }
}

pub fn c07(run: &mut Run) {
    run.level = "fault_enumeration";
    run.rule = "every enumerated user dictionary compiled and loaded again, compared with its CSV; every proper prefix of every compiled file loaded; non-trivial: more than one row, or a cut inside the file".into();
    run.assumptions = vec!["a crash while writing leaves a prefix of the file (files are written front to back from an emptied file)".into()];
    let n = run.b(3, 5);
    let probes: Vec<String> = U_PROBES.iter().map(|s| s.to_string()).collect();
    let sys = {
        let mut s = crate::worlds::mixed(0);
        s.rows.push(row("東", 1, 1, 3000, "S90"));
        s.rows.push(row("京", 1, 1, 3000, "S91"));
        s.rows.push(row("東京", 1, 1, 3000, "S92"));
        s
    };
    let sysd = sys.build_kind(&DictionaryKind::UniDic);
    for kind in KINDS.iter() {
        let srcs = u_sources(kind, n);
        let sysd = &sysd;
        run.family(&format!("{}: compiled equals CSV", kind.as_str()), srcs.len() as u64, |i, st| {
            let src = &srcs[i as usize];
            let text = u_text(src);
            let key = format!("c07 equal {} {text:?}", kind.as_str());
            let det = || json!({"format": kind.as_str(), "user.csv": text});
            let want = u_table(kind, src);
            let csv = user_csv(kind, &text).or_else(|e| viol(&key, e, det()))?;
            let old = vec![0xffu8; 3000];
            let (bin, _) = user_bin(kind, &text, if i % 2 == 0 { Some(&old) } else { None }).or_else(|e| viol(&key, e, det()))?;
            Which::User(&bin).compare(&want, &probes, true).or_else(|e| viol(&key, format!("compiled: {e}"), det()))?;
            // word ids and order are the same too
            for s in want.keys().chain(probes.iter()) {
                let (a, b) = (csv.dict.find_surface(s), bin.dict.find_surface(s));
                if a != b {
                    return viol(&key, format!("surface {s:?}: CSV gives {a:?}, compiled gives {b:?}"), det());
                }
            }
            // tokens: ids that fit the connection table only
            let fits = src.iter().all(|u| match u { U::Simple(..) => true, U::Detailed(r) => r.left < 3 && r.right < 3 });
            if fits {
                let d = sysd.as_ref().map_err(|e| Viol { key: key.clone(), what: e.clone(), detail: json!({}) })?;
                let ta = Tokenizer::new(d.clone(), Some(csv), Mode::Normal);
                let tb = Tokenizer::new(d.clone(), Some(bin), Mode::Normal);
                for t in ["東京", "東京都東", "a,b東a,b", "京都駅京都駅", "\u{2015}\u{ff5e}a", "東。京、東京\u{2015}"] {
                    let (x, y) = (tokenize(&ta, t), tokenize(&tb, t));
                    if x != y || x.is_err() {
                        return viol(&key, format!("text {t:?}: tokens differ: {x:?} / {y:?}"), det());
                    }
                    st.add("texts", 1);
                }
            }
            st.nontrivial += (src.len() > 1) as u64;
            st.sample(det);
            Ok(())
        });
    }
    // every kind of content, and sizes
    const CONT: [&str; 11] = ["", "*", "x", " s ", "a,b", "\"q\"", "語", "0", "#x", "a\\,\"\\b", "'"];
    let nk = KINDS.len() as u64;
    let nc = CONT.len() as u64;
    run.family("contents of rows: compiled equals CSV", nk * nc * nc * 2, |i, st| {
        let d = digits(i, &[nk, nc, nc, 2]);
        let kind = &KINDS[d[0]];
        let rows = if d[3] == 0 {
            vec![us("東", CONT[d[1]], CONT[d[2]]), us(if d[1] > 0 { CONT[d[1]] } else { "西" }, "P", "Y")]
        } else {
            let mut v = vec![];
            for j in 0..detailed_fields(kind) - 4 {
                let mut row = ud(kind, &format!("東{j}"), 3 + j as u16, 4, 5, "T");
                if let U::Detailed(r) = &mut row {
                    r.details[j] = CONT[d[1]].into();
                    let n = r.details.len();
                    r.details[(j + 2) % n] = CONT[d[2]].into();
                }
                v.push(row);
            }
            v
        };
        check_compiled(format!("c07 contents {} {d:?}", kind.as_str()), kind, &rows, st)
    });
    let block = 1024u32;
    run.family("every character: compiled equals CSV", nk * 3 * (0x110000 / block) as u64, |i, st| {
        let d = digits(i, &[nk, 3, (0x110000 / block) as u64]);
        let kind = &KINDS[d[0]];
        let rows = char_rows(kind, d[1], (d[2] as u32 * block..(d[2] as u32 + 1) * block).filter_map(char::from_u32));
        if rows.is_empty() {
            return Ok(());
        }
        check_compiled(format!("c07 chars {} {d:?}", kind.as_str()), kind, &rows, st)
    });
    run.family("sizes: compiled equals CSV", nk * 2 * 4 * SIZES.len() as u64, |i, st| {
        let d = digits(i, &[nk, 2, 4, SIZES.len() as u64]);
        let kind = &KINDS[d[0]];
        check_compiled(format!("c07 size {} {d:?}", kind.as_str()), kind, &sized_rows(kind, d[1] == 1, d[2], SIZES[d[3]]), st)
    });
    run.family("numbers of rows: compiled equals CSV", nk * 2 * 2 * run.b(64, 300), |i, st| {
        let d = digits(i, &[nk, 2, 2, 300]);
        let (kind, n) = (&KINDS[d[0]], d[3] + 1);
        let rows: Vec<U> = (0..n).map(|j| {
            let s = if d[2] == 0 { format!("w{j}") } else { format!("v{}", j / 31) };
            if d[1] == 0 { us(&s, &format!("P{j}"), "Y") } else { ud(kind, &s, j as u16, (j / 3) as u16, j as u16 as i16, &format!("T{j}")) }
        }).collect();
        check_compiled(format!("c07 rows {} {d:?}", kind.as_str()), kind, &rows, st)
    });
    // every cut of compiled user dictionaries
    let picks: Vec<(DictionaryKind, Vec<U>)> = KINDS.iter().flat_map(|k| {
        let v = u_sources(k, 2);
        let l = v.len();
        [0, l / 3, l - 1].into_iter().map(move |j| (k.clone(), v[j].clone())).collect::<Vec<_>>()
    }).collect();
    // one of many words
    let picks: Vec<(DictionaryKind, Vec<U>)> = picks.into_iter().chain(KINDS.iter().enumerate().filter(|x| !run.quick() || x.0 % 2 == 0).map(|(j, k)| {
        (k.clone(), (0..run.b(8, 60)).map(|n| { let s = format!("語{}", n / 3); if j % 2 == 0 { us(&s, &format!("P{n}"), "Y") } else { ud(k, &s, n as u16, 1, -5, &format!("T{n}")) } }).collect())
    })).collect();
    for (k, src) in &picks {
        let text = u_text(src);
        let bytes = match user_bin(k, &text, None) {
            Ok((_, b)) => b,
            Err(_) => vec![], // reported by the family above
        };
        run.family(&format!("{}: compiled user dictionary {text:?} cut at every byte", k.as_str()), bytes.len() as u64, |i, st| {
            let key = format!("c07 cut user {} {text:?} {i}", k.as_str());
            let cut = &bytes[..i as usize];
            try_load("a compiled user dictionary cut short", cut, |b| UserDictionary::load(b).map_err(|e| e.to_string())).or_else(|e| viol(&key, e, json!({"user.csv": text, "bytes": bytes.len(), "cut": i})))?;
            st.nontrivial += (i > 0) as u64;
            st.sample(|| json!({"user.csv": text, "file bytes": bytes.len(), "cut at": i}));
            // through the file-based loaders as well
            if i % 4 < 2 {
                let sc = Scratch::new();
                let p = sc.0.join("user.bin");
                try_load("a compiled user dictionary file cut short", cut, |b| {
                    std::fs::write(&p, b).unwrap();
                    DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { kind: None, path: p.clone() }).map_err(|e| e.to_string())
                }).or_else(|e| viol(&key, e, json!({"user.csv": text, "cut": i})))?;
            }
            Ok(())
        });
    }
    // every cut of the compiled character-definition and unknown-word files
    for w in run.b(vec![0usize, 7], vec![0, 1, 2, 3, 7]) {
        let src = crate::worlds::mixed(w);
        for kind in [DictionaryKind::UniDic, DictionaryKind::IPADIC] {
            let sc = Scratch::new();
            let (a, o) = (sc.0.join("in"), sc.0.join("out"));
            // é and 𠮷 are not in the IPADIC encoding; only the definition files matter here
            src.write(&DictionaryKind::UniDic, &a);
            if kind == DictionaryKind::IPADIC {
                src.write(&kind, &a);
            }
            let built = build_dir(&kind, &a, &o);
            for (file, which) in [("char_def.bin", 0), ("unk.bin", 1)] {
                let bytes = match &built {
                    Ok(()) => std::fs::read(o.join(file)).unwrap_or_default(),
                    Err(_) => vec![],
                };
                let (o, built) = (&o, &built);
                run.family(&format!("{} world {w}: {file} cut at every byte", kind.as_str()), bytes.len().max(1) as u64, |i, st| {
                    let key = format!("c07 cut {} {w} {file} {i}", kind.as_str());
                    if let Err(e) = built {
                        return viol(&key, format!("well-formed source was {e}"), src.describe());
                    }
                    let cut = &bytes[..i as usize];
                    try_load(file, cut, |b| match which {
                        0 => CharacterDefinitions::load(b).map(drop).map_err(|e| e.to_string()),
                        _ => UnknownDictionary::load(b).map(drop).map_err(|e| e.to_string()),
                    }).or_else(|e| viol(&key, e, json!({"file": file, "bytes": bytes.len(), "cut": i})))?;
                    st.nontrivial += (i > 0) as u64;
                    st.sample(|| json!({"file": file, "bytes": bytes.len(), "cut at": i}));
                    if i % 8 < 2 {
                        // the whole directory with this file torn
                        let sc = Scratch::new();
                        copy_dir(o, &sc.0);
                        std::fs::write(sc.0.join(file), cut).unwrap();
                        match load_dir(&sc.0) {
                            Err(e) if e.starts_with("refused") => {}
                            Err(e) => return viol(&key, format!("loading a dictionary with {file} cut at {i}: {e}"), json!({})),
                            Ok(_) => return viol(&key, format!("a dictionary with {file} cut at {i} was accepted"), json!({})),
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}

pub fn copy_dir(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap() {
        let e = e.unwrap();
        std::fs::copy(e.path(), b.join(e.file_name())).unwrap();
    }
}

// ---- C10 -------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct CharSrc {
    /// (name, invoke, group, length), in line order
    cats: Vec<(&'static str, bool, bool, u32)>,
    ranges: Vec<(u32, u32, Vec<&'static str>)>,
}
impl CharSrc {
    fn want(&self, c: u32) -> Vec<&'static str> {
        let mut v = vec![];
        for (lo, hi, cs) in &self.ranges {
            if *lo <= c && c <= *hi {
                for k in cs {
                    if !v.contains(k) {
                        v.push(*k);
                    }
                }
            }
        }
        if v.is_empty() {
            v.push("DEFAULT");
        }
        v
    }
    fn cat_line(c: &(&'static str, bool, bool, u32)) -> String {
        format!("{} {} {} {}\n", c.0, c.1 as u8, c.2 as u8, c.3)
    }
    fn range_line(r: &(u32, u32, Vec<&'static str>), style: usize) -> String {
        let cs = r.2.join(" ");
        match (r.0 == r.1, style % 4) {
            (true, 0) | (true, 2) => format!("0x{:04X} {cs}\n", r.0),
            (true, _) => format!("0x{:04x}..0x{:04X}\t{cs}  # note 0x41 DEFAULT\n", r.0, r.1),
            (false, 1) => format!("  0x{:04x}..0x{:04x}   {cs}\r\n", r.0, r.1),
            (false, 2) => format!("0x{:X}..0x{:X} {cs}#x\n\n", r.0, r.1),
            (false, _) => format!("0x{:04X}..0x{:04X} {cs}\n", r.0, r.1),
        }
    }
    fn check(&self, d: &CharacterDefinitions, chars: impl Iterator<Item = char>) -> Result<u64, String> {
        let mut n = 0;
        for c in chars {
            n += 1;
            let got: Vec<&str> = d.lookup_categories(c).iter().map(|&id| d.category_name(id)).collect();
            let want = self.want(c as u32);
            if got != want {
                return Err(format!("U+{:04X} has categories {got:?}, the source says {want:?}", c as u32));
            }
            for &id in d.lookup_categories(c) {
                let name = d.category_name(id);
                let f = d.lookup_definition(id);
                let w = self.cats.iter().find(|x| x.0 == name).unwrap();
                if (f.invoke, f.group, f.length) != (w.1, w.2, w.3) {
                    return Err(format!("category {name} has invoke {} group {} length {}, the source says {:?}", f.invoke, f.group, f.length, w));
                }
            }
        }
        Ok(n)
    }
}
fn parse_chardef(text: &str) -> Result<CharacterDefinitions, String> {
    match guard(|| {
        let mut b = CharacterDefinitionsBuilder::default();
        b.parse(text)?;
        b.build()
    }) {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(p) => Err(format!("panicked: {p}")),
    }
}

pub fn c10(run: &mut Run) {
    run.rule = "every enumerated definition source, every line order; all characters at or next to a range end (or all characters) compared with the range lines; non-trivial: overlapping ranges. states: (source, character) pairs, transitions: range lines examined".into();
    run.assumptions = vec!["range ends are code points up to U+FFFF outside the surrogates (the file format holds 16-bit code points); every category is defined exactly once, DEFAULT among them".into()];
    let pts = [0u32, 0x41, 0x42, 0x43, 0x5a, 0x3042, 0xffff];
    let mut pool: Vec<(u32, u32, Vec<&'static str>)> = vec![];
    let sets: [&[&'static str]; 6] = [&["A"], &["B"], &["A", "B"], &["B", "A"], &["DEFAULT", "B"], &["B", "B", "DEFAULT"]];
    for (i, &lo) in pts.iter().enumerate() {
        for &hi in &pts[i..] {
            for (k, s) in sets.iter().enumerate() {
                if (i + k + hi as usize) % 2 == 0 || hi == lo {
                    pool.push((lo, hi, s.to_vec()));
                }
            }
        }
    }
    let np = pool.len() as u64;
    let mut probe: Vec<char> = pts.iter().flat_map(|&p| [p.wrapping_sub(1), p, p + 1]).filter_map(char::from_u32).collect();
    probe.extend(['\u{0}', 'C', 'a', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '語', 'ー']);
    let flagsets = |f: usize| vec![("DEFAULT", f & 1 == 1, f & 2 == 2, 0u32), ("A", f & 4 == 4, f & 8 == 8, 2), ("B", f & 16 == 16, f & 32 == 32, 1)];
    let depth = 2;
    let radices = [strings_upto(np, depth), 6, 3];
    let cperm = permutations(3);
    let (pool, probe, cperm) = (&pool, &probe, &cperm);
    let one = |ranges: Vec<(u32, u32, Vec<&'static str>)>, cp: usize, place: usize, flags: usize, style: usize, st: &mut Stats| -> Res {
        let src = CharSrc { cats: cperm[cp].iter().map(|&j| flagsets(flags)[j]).collect(), ranges };
        let cl: Vec<String> = src.cats.iter().map(CharSrc::cat_line).collect();
        let rl: Vec<String> = src.ranges.iter().enumerate().map(|(i, r)| CharSrc::range_line(r, style + i)).collect();
        let mut text = String::from("# comment\n\n");
        match place {
            0 => {
                text += &cl.concat();
                text += &rl.concat();
            }
            1 => {
                text += &rl.concat();
                text += &cl.concat();
            }
            _ => {
                for i in 0..cl.len().max(rl.len()) {
                    text += rl.get(i).map_or("", |s| s);
                    text += cl.get(i).map_or("", |s| s);
                }
            }
        }
        let key = format!("c10 {text:?}");
        let d = parse_chardef(&text).or_else(|e| viol(&key, format!("well-formed char.def was {e}"), json!({"char.def": text})))?;
        let n = src.check(&d, probe.iter().copied()).or_else(|e| viol(&key, e, json!({"char.def": text})))?;
        st.states += n;
        st.transitions += n * src.ranges.len() as u64;
        st.traces += 1;
        st.nontrivial += (src.ranges.len() > 1) as u64;
        st.sample(|| json!({"char.def": text}));
        Ok(())
    };
    run.family("range pairs x definition orders x places", product(&radices), |i, st| {
        let d = digits(i, &radices);
        let mut v = vec![];
        nth_string(d[0] as u64, np, &mut v);
        one(v.iter().map(|&j| pool[j].clone()).collect(), d[1], d[2], (i % 64) as usize, d[0], st)
    });
    // triples over a smaller pool: overlaps of three
    let small: Vec<_> = pool.iter().filter(|r| r.0 >= 0x41 && r.1 <= run.b(0x43, 0x5a)).cloned().collect();
    let ns = small.len() as u64;
    let radices3 = [ns, ns, ns, 3];
    run.family("range triples", product(&radices3), |i, st| {
        let d = digits(i, &radices3);
        one(vec![small[d[0]].clone(), small[d[1]].clone(), small[d[2]].clone()], (i % 6) as usize, d[3], (i % 61) as usize, i as usize, st)
    });
    // all flag combinations in all definition orders
    let radf = [64u64, 6, 3];
    run.family("flags x definition orders x places", product(&radf), |i, st| {
        let d = digits(i, &radf);
        one(vec![(0x41, 0x43, vec!["B"]), (0x42, 0x5a, vec!["A", "B"]), (0x3042, 0x3042, vec!["A"])], d[1], d[2], d[0], i as usize, st)
    });
    // many categories and many ranges
    run.family("many categories in rotated orders", 120, |i, st| {
        const NAMES: [&str; 24] = ["DEFAULT", "SPACE", "KANJI", "SYMBOL", "NUMERIC", "ALPHA", "HIRAGANA", "KATAKANA", "KANJINUMERIC", "GREEK", "CYRILLIC", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23"];
        let n = (i % 24) as usize + 1;
        let rot = (i / 24) as usize * 5;
        let mut src = CharSrc { cats: (0..n).map(|j| NAMES[(j + rot) % n]).enumerate().map(|(j, c)| (c, (j * 7 + rot) % 3 == 0, (j * 5 + rot) % 2 == 0, (j % 4) as u32)).collect(), ranges: vec![] };
        for j in 0..3 * n as u32 {
            src.ranges.push((j * 40 + 1, j * 40 + 90, (0..(j % 4 + 1)).map(|k| NAMES[((j * 7 + k * 3) as usize) % n]).collect()));
        }
        let cats: String = src.cats.iter().map(CharSrc::cat_line).collect();
        let rngs: String = src.ranges.iter().enumerate().map(|(k, r)| CharSrc::range_line(r, k)).collect();
        let text = if i % 2 == 0 { cats + &rngs } else { rngs + &cats };
        let key = format!("c10 many {i}");
        let d = parse_chardef(&text).or_else(|e| viol(&key, e, json!({"char.def": text})))?;
        let k = src.check(&d, (0..0x1200).filter_map(char::from_u32)).or_else(|e| viol(&key, e, json!({"char.def": text})))?;
        st.states += k;
        st.traces += 1;
        st.nontrivial += 1;
        Ok(())
    });
    // the number of range lines, and of categories on one line
    run.family("many range lines", run.b(300, 1500), |i, st| {
        let n = i as u32 + 1;
        const NAMES: [&str; 5] = ["DEFAULT", "A", "B", "C", "D"];
        let mut src = CharSrc { cats: (0..5).map(|j| (NAMES[(j + i as usize) % 5], j % 2 == 0, (j + n as usize) % 3 == 0, j as u32)).collect(), ranges: vec![] };
        for j in 0..n {
            let lo = (j * 7919) % 5000 + 1;
            src.ranges.push((lo, lo + (j % 37), (0..(j % 5 + 1)).map(|k| NAMES[((j + k * 3) % 5) as usize]).collect()));
        }
        let cats: String = src.cats.iter().map(CharSrc::cat_line).collect();
        let rngs: String = src.ranges.iter().enumerate().map(|(k, r)| CharSrc::range_line(r, k)).collect();
        let text = if i % 2 == 0 { cats + &rngs } else { rngs + &cats };
        let key = format!("c10 range lines {n}");
        let d = parse_chardef(&text).or_else(|e| viol(&key, e, json!({ "range lines": n })))?;
        let k = src.check(&d, (0..5100).filter_map(char::from_u32)).or_else(|e| viol(&key, e, json!({ "range lines": n })))?;
        st.states += k;
        st.transitions += k * n as u64;
        st.traces += 1;
        st.nontrivial += 1;
        Ok(())
    });
    // the number of categories, and of those of one character
    let mut ns: Vec<usize> = (1..=run.b(300, 600)).collect();
    ns.extend([511, 512, 513, 1000, 1023, 1024, 1025, 4096]);
    let names: Vec<&'static str> = std::iter::once("DEFAULT").chain((1..4097).map(|j| &*Box::leak(format!("K{j}").into_boxed_str()))).collect();
    let names = &names;
    run.family("numbers of categories", ns.len() as u64 * 3, |i, st| {
        let (n, shape) = (ns[i as usize / 3], i % 3);
        let mut src = CharSrc { cats: (0..n).map(|j| (names[(j + shape as usize) % n], (j * 7 + n) % 3 == 0, (j * 5 + n / 256) % 2 == 0, (j % 5) as u32)).collect(), ranges: vec![] };
        match shape {
            // one character per category, and each in the category of the next, too
            0 => (0..n as u32).for_each(|j| src.ranges.push((0x100 + j, 0x101 + j, vec![names[j as usize]]))),
            // all categories on one line
            1 => src.ranges.push((0x100, 0x101, names[..n].to_vec())),
            // all categories of one character on lines of their own, the last first
            _ => (0..n).for_each(|j| src.ranges.push((0x100, 0x101 + j as u32, vec![names[n - 1 - j]]))),
        }
        let cats: String = src.cats.iter().map(CharSrc::cat_line).collect();
        let rngs: String = src.ranges.iter().enumerate().map(|(k, r)| CharSrc::range_line(r, k)).collect();
        let text = if i % 2 == 0 { cats + &rngs } else { rngs + &cats };
        let key = format!("c10 categories {n} {shape}");
        let d = parse_chardef(&text).or_else(|e| viol(&key, e, json!({ "categories": n, "shape": shape })))?;
        let few = if n > 1100 { [0xff..0x110, 0x1f0..0x210, 0x100 + n as u32 - 5..0x100 + n as u32 + 5] } else { [0xff..0x104 + n as u32, 0..1, 0..1] };
        let k = src.check(&d, few.into_iter().flatten().filter_map(char::from_u32)).or_else(|e| viol(&key, e, json!({ "categories": n, "shape": shape })))?;
        if d.categories().len() != n {
            return viol(&key, format!("{} categories, the source defines {n}", d.categories().len()), json!({ "categories": n, "shape": shape }));
        }
        st.states += k;
        st.transitions += n as u64;
        st.traces += 1;
        st.nontrivial += 1;
        Ok(())
    });
    // through the files: builder, compiled file, loader, per format; every Unicode character
    let full = run.b(4usize, 12);
    run.family("every Unicode character through the compiled file", KINDS.len() as u64 * full as u64, |i, st| {
        let kind = &KINDS[i as usize % KINDS.len()];
        let w = i as usize / KINDS.len();
        let mut s = crate::worlds::mixed(w);
        s.ranges.push((0xac00, 0xd7a3, vec!["HIRA", "ALPHA"]));
        s.ranges.push((0xff66, 0xffff, vec!["KANJI"]));
        s.ranges.push((0, 0x1f, vec!["SYM"]));
        s.rows = vec![row("a", 0, 0, 0, "S0")];
        let dic = s.build_kind(kind).or_else(|e| viol(format!("c10 full {i}"), e, s.describe()))?;
        let src = CharSrc { cats: s.cats.iter().map(|c| (c.name, c.invoke, c.group, 0)).collect(), ranges: s.ranges.clone() };
        let n = src.check(&dic.char_definitions, (0..0x110000).filter_map(char::from_u32)).or_else(|e| viol(format!("c10 full {i}"), e, s.describe()))?;
        st.states += n;
        st.transitions += n * s.ranges.len() as u64;
        st.traces += 1;
        st.nontrivial += 1;
        st.sample(|| json!({"format": kind.as_str(), "char.def": s.chardef_text(), "characters": n}));
        Ok(())
    });
}

// ---- C11 -------------------------------------------------------------------------------

fn build_part(kind: &DictionaryKind, matrix: Option<&str>, unk: Option<&str>, chardef: Option<&str>) -> Result<Dictionary, String> {
    let sc = Scratch::new();
    let (i, o) = (sc.0.join("in"), sc.0.join("out"));
    let mut s = base_src();
    s.rows = vec![row("z", 0, 0, 0, "S0")];
    s.write(kind, &i);
    for (n, t) in [("matrix.def", matrix), ("unk.def", unk), ("char.def", chardef)] {
        if let Some(t) = t {
            std::fs::write(i.join(n), encode(kind, t)).unwrap();
        }
    }
    build_dir(kind, &i, &o)?;
    load_dir(&o)
}

/// entries: (right id of the left word, left id of the right word, cost); the last statement of a pair counts
fn check_matrix(key: String, kind: &DictionaryKind, nf: u32, nb: u32, entries: &[(u32, u32, i16)], st: &mut Stats) -> Res {
    let mut text = format!("{nf} {nb}\n");
    let mut want = vec![i16::MAX; (nf * nb) as usize];
    for &(f, b, c) in entries {
        text += &format!("{f} {b} {c}\n");
        want[(f * nb + b) as usize] = c;
    }
    let det = || json!({"format": kind.as_str(), "matrix.def": text.chars().take(2000).collect::<String>()});
    let d = build_part(kind, Some(&text), None, None).or_else(|e| viol(&key, format!("well-formed matrix.def was {e}"), det()))?;
    let look = |m: &ConnectionCostMatrix| -> Result<(), String> {
        for f in 0..nf {
            for b in 0..nb {
                let got = guard(|| m.cost(f, b)).map_err(|e| format!("cost({f},{b}): panic: {e}"))?;
                let w = want[(f * nb + b) as usize] as i32;
                if got != w {
                    return Err(format!("cost from right id {f} to left id {b} is {got}, the table says {w}"));
                }
            }
        }
        Ok(())
    };
    look(&d.cost_matrix).or_else(|e| viol(&key, e, det()))?;
    // the loader that embedded dictionaries use
    let mut bytes = ((nf as u16).to_le_bytes()).to_vec();
    bytes.extend((nb as u16).to_le_bytes());
    bytes.extend(d.cost_matrix.costs_data.iter());
    if bytes.len() < 1000 {
        let leaked: &'static [u8] = Box::leak(bytes.into_boxed_slice());
        look(&ConnectionCostMatrix::load_static(leaked)).or_else(|e| viol(&key, format!("embedded loader: {e}"), det()))?;
    }
    st.states += (nf * nb) as u64;
    st.transitions += entries.len() as u64;
    st.traces += 1;
    st.nontrivial += (nf * nb > 1) as u64;
    st.sample(det);
    Ok(())
}

pub fn c11(run: &mut Run) {
    run.rule = "every enumerated table is built and loaded and every cell compared; every sequence of unknown-word lines up to the bound; non-trivial: more than one cell or line. states: cells, transitions: source lines".into();
    run.assumptions = vec!["ids lie in the declared sizes; sizes fit 16 bits".into()];
    let nk = KINDS.len() as u64;
    let m = run.b(8u64, 20);
    let radices = [nk, m, m, 5];
    run.family("table shapes x value patterns", product(&radices), |i, st| {
        let d = digits(i, &radices);
        let (nf, nb) = (d[1] + 1, d[2] + 1);
        let c = crate::worlds::conn_pattern([1, 2, 3, 4, 3][d[3]], nf, nb);
        let mut e = vec![];
        for f in 0..nf {
            for b in 0..nb {
                e.push((f as u32, b as u32, c[f][b]));
            }
        }
        if d[3] == 4 {
            e.reverse();
        }
        check_matrix(format!("c11 shape {:?}", d), &KINDS[d[0]], nf as u32, nb as u32, &e, st)
    });
    // every subset and order of the cells of small tables
    let shapes = [(1u32, 3u32), (2, 2), (3, 1), (1, 4), (4, 1), (2, 1)];
    let perms: Vec<Vec<Vec<usize>>> = (0..=4).map(permutations).collect();
    run.family("cell subsets x line orders", 6 * 16 * 24 * 2, |i, st| {
        let d = digits(i, &[6, 16, 24, 2]);
        let (nf, nb) = shapes[d[0]];
        let cells: Vec<(u32, u32)> = (0..nf).flat_map(|f| (0..nb).map(move |b| (f, b))).enumerate().filter(|(j, _)| d[1] >> j & 1 == 1).map(|x| x.1).collect();
        let p = &perms[cells.len()];
        if d[1] >> (nf * nb) != 0 || d[2] >= p.len() {
            return Ok(());
        }
        let e: Vec<(u32, u32, i16)> = p[d[2]].iter().map(|&j| (cells[j].0, cells[j].1, (j as i16 + 1) * 11 * if d[3] == 1 { -7 } else { 1 })).collect();
        check_matrix(format!("c11 subset {d:?}"), &DictionaryKind::UniDic, nf, nb, &e, st)
    });
    run.family("every 16-bit connection cost", nk * 2, |i, st| {
        let e: Vec<(u32, u32, i16)> = (0..65536u32).map(|v| if i / nk == 0 { (v / 256, v % 256, v as u16 as i16) } else { (v % 512, v / 512, (v as u16).wrapping_mul(40503) as i16) }).collect();
        let (nf, nb) = if i / nk == 0 { (256, 256) } else { (512, 128) };
        check_matrix(format!("c11 all costs {i}"), &KINDS[(i % nk) as usize], nf, nb, &e, st)
    });
    // wide and tall tables, up to the largest ids
    let shapes: Vec<(u32, u32)> = vec![(1, 255), (1, 256), (1, 257), (255, 1), (256, 2), (257, 3), (2, 1316), (1316, 2), (1, 32767), (1, 32768), (2, 32769), (3, 40000), (1, 65534), (2, 65535), (32768, 1), (40000, 2), (65535, 2), (700, 900)];
    run.family("large tables", shapes.len() as u64, |i, st| {
        let (nf, nb) = shapes[i as usize];
        let mut e = vec![];
        for f in 0..nf {
            for b in 0..nb {
                if (f + b) % 3 != 2 {
                    e.push((f, b, ((f * 31 + b * 17) % 65536) as u16 as i16));
                }
            }
        }
        check_matrix(format!("c11 large {nf} {nb}"), &DictionaryKind::UniDic, nf, nb, &e, st)
    });
    // unknown-word lines
    let lines: Vec<(&str, u16, u16, i16)> = vec![("DEFAULT", 0, 0, 100), ("A", 1, 1, -32768), ("A", 65535, 1, 32767), ("B", 0, 65535, -1), ("DEFAULT", 2, 3, 0), ("B", 32768, 32767, 1)];
    let nl = lines.len() as u64;
    let depth = run.b(5, 7);
    let lines = &lines;
    let orders = ["DEFAULT 0 1 0\nA 1 0 0\nB 0 0 2\n", "B 0 0 2\n0x41 A\nDEFAULT 0 1 0\nA 1 0 0\n0x42 B\n"];
    let radices = [strings_upto(nl, depth), 2];
    run.family("every sequence of unknown-word lines", product(&radices), |i, st| {
        let d = digits(i, &radices);
        let kind = &KINDS[(i / 7 % nk) as usize];
        let mut v = vec![];
        nth_string(d[0] as u64, nl, &mut v);
        let seq: Vec<_> = v.iter().map(|&j| lines[j]).collect();
        let text: String = seq.iter().map(|l| { let mut f = vec![l.0.to_string(), l.1.to_string(), l.2.to_string(), l.3.to_string()]; while f.len() < unk_fields(kind) { f.push("*".into()) } f.join(",") + "\n" }).collect();
        let key = format!("c11 unk {} {text:?} {}", kind.as_str(), d[1]);
        let det = || json!({"format": kind.as_str(), "unk.def": text, "char.def": orders[d[1]]});
        let dic = build_part(kind, None, Some(&text), Some(orders[d[1]])).or_else(|e| viol(&key, format!("well-formed source was {e}"), det()))?;
        let ud = &dic.unknown_dictionary;
        for (id, name) in dic.char_definitions.categories().iter().enumerate() {
            let got: Vec<(u16, u16, i16, bool)> = guard(|| ud.lookup_word_ids(lindera_core::character_definition::CategoryId(id)).iter().map(|&w| ud.word_entry(w)).map(|e| (e.left_id, e.right_id, e.word_cost, e.word_id.is_unknown())).collect())
                .or_else(|e| viol(&key, format!("category {name}: panic: {e}"), det()))?;
            let mut got = got;
            got.sort();
            let mut want: Vec<(u16, u16, i16, bool)> = seq.iter().filter(|l| l.0 == name).map(|l| (l.1, l.2, l.3, true)).collect();
            want.sort();
            if got != want {
                return viol(&key, format!("category {name} has unknown-word entries {got:?}, the source says {want:?}"), det());
            }
            st.states += 1;
        }
        st.transitions += seq.len() as u64;
        st.traces += 1;
        st.nontrivial += (seq.len() > 1) as u64;
        st.sample(det);
        Ok(())
    });
    // categories whose names resemble each other
    let names: Vec<&str> = vec!["A", "a", "AA", "B", "A1", "A-1", "A_1", "Ａ", "KANJI", "KANJINUMERIC", "kanji", "漢字", "漢", "か", "が", "DEFAULT2", "default", "A.B", "A:B", "0", "1", "01", "*", "\"A\"", "A\"", "ANJI", "X0x41"];
    let names = &names;
    let nn = names.len() as u64;
    let radices = [nn, nn, 3, nk];
    run.family("categories with similar names", product(&radices), |i, st| {
        let d = digits(i, &radices);
        let (a, b) = (names[d[0]], names[d[1]]);
        if a == b {
            return Ok(());
        }
        let kind = &KINDS[d[3]];
        let chardef = match d[2] {
            0 => format!("DEFAULT 0 1 0\n{a} 1 0 0\n{b} 0 0 2\n0x41 {a}\n0x42 {b}\n0x43 {a} {b}\n0x44 {b} {a}\n"),
            1 => format!("0x44 {b} {a}\n0x41 {a}\n0x42 {b}\n0x43 {a} {b}\n{b} 0 0 2\nDEFAULT 0 1 0\n{a} 1 0 0\n"),
            _ => format!("{b}\t0  0\t2\n0x41\t{a}\n0x42  {b}\n0x43\t{a} \t{b}\n{a} 1 0 0\n0x44 {b}\t{a}\nDEFAULT 0 1 0\n"),
        };
        let tail = ",*".repeat(unk_fields(kind) - 4);
        let text = format!("{b},2,2,200{tail}\nDEFAULT,0,0,7{tail}\n{a},1,1,100{tail}\n{a},3,3,101{tail}\n");
        let key = format!("c11 names {} {a:?} {b:?} {}", kind.as_str(), d[2]);
        let det = || json!({"format": kind.as_str(), "unk.def": text, "char.def": chardef});
        let dic = build_part(kind, None, Some(&text), Some(&chardef)).or_else(|e| viol(&key, format!("well-formed source was {e}"), det()))?;
        let cd = &dic.char_definitions;
        for (c, want) in [('A', vec![a]), ('B', vec![b]), ('C', vec![a, b]), ('D', vec![b, a]), ('E', vec!["DEFAULT"])] {
            let got = guard(|| {
                cd.lookup_categories(c)
                    .iter()
                    .map(|&k| (cd.category_name(k).to_string(), dic.unknown_dictionary.lookup_word_ids(k).iter().map(|&w| dic.unknown_dictionary.word_entry(w).word_cost).collect::<Vec<_>>()))
                    .collect::<Vec<_>>()
            })
            .or_else(|e| viol(&key, format!("character {c}: panic: {e}"), det()))?;
            let want: Vec<(String, Vec<i16>)> = want.iter().map(|w| (w.to_string(), if *w == a { vec![100, 101] } else if *w == b { vec![200] } else { vec![7] })).collect();
            let mut got = got;
            got.iter_mut().for_each(|g| g.1.sort());
            if got != want {
                return viol(&key, format!("character {c} has categories with unknown-word costs {got:?}, the source says {want:?}"), det());
            }
            st.states += 1;
        }
        st.transitions += 4;
        st.traces += 1;
        st.nontrivial += 1;
        st.sample(det);
        Ok(())
    });
    // numbers of lines and of categories
    let mut ns: Vec<usize> = (1..=run.b(100, 400)).collect();
    ns.extend([127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 4096, 65535, 65536, 65537]);
    run.family("numbers of unknown-word lines and categories", ns.len() as u64 * 3, |i, st| {
        let (n, shape) = (ns[i as usize / 3], i % 3);
        let kind = &KINDS[(i / 3 % nk) as usize];
        // every line its own category, all lines one category, or by turns
        let ncat = match shape { 0 => n.min(4096), 1 => 2, _ => 7.min(n) };
        let name = |j: usize| if j == 0 { "DEFAULT".to_string() } else { format!("K{j}") };
        let cat = |j: usize| match shape { 1 => 1, _ => j * 5 % ncat };
        let line = |j: usize| ((j * 3 % 65536) as u16, (j * 7 % 65536) as u16, (j as u16).wrapping_mul(31) as i16);
        let chardef: String = (0..ncat).map(|j| format!("{} {} {} {}\n", name(j), j % 2, j / 2 % 2, j % 3)).collect();
        let tail = ",*".repeat(unk_fields(kind) - 4);
        let text: String = (0..n).map(|j| { let l = line(j); format!("{},{},{},{}{tail}\n", name(cat(j)), l.0, l.1, l.2) }).collect();
        let key = format!("c11 unk sizes {} {n} {shape}", kind.as_str());
        let det = || json!({"format": kind.as_str(), "lines": n, "categories": ncat});
        let dic = build_part(kind, None, Some(&text), Some(&chardef)).or_else(|e| viol(&key, format!("well-formed source was {e}"), det()))?;
        let mut want: Vec<Vec<(u16, u16, i16, bool)>> = vec![vec![]; ncat];
        for j in 0..n {
            let l = line(j);
            want[cat(j)].push((l.0, l.1, l.2, true));
        }
        let ud = &dic.unknown_dictionary;
        for (id, cn) in dic.char_definitions.categories().iter().enumerate() {
            let mut got: Vec<(u16, u16, i16, bool)> = guard(|| ud.lookup_word_ids(lindera_core::character_definition::CategoryId(id)).iter().map(|&w| ud.word_entry(w)).map(|e| (e.left_id, e.right_id, e.word_cost, e.word_id.is_unknown())).collect())
                .or_else(|e| viol(&key, format!("category {cn}: panic: {e}"), det()))?;
            got.sort();
            let j: usize = if cn == "DEFAULT" { 0 } else { cn[1..].parse().unwrap() };
            want[j].sort();
            if got != want[j] {
                return viol(&key, format!("category {cn} has {} unknown-word entries, the source {} (or others)", got.len(), want[j].len()), det());
            }
            st.states += 1;
        }
        st.transitions += n as u64;
        st.traces += 1;
        st.nontrivial += 1;
        Ok(())
    });
}
