//! C23: compression is lossless and transparent.
use crate::cli::{run_bin, In};
use crate::dictkit::{self, tok_json, tokenize, KINDS};
use crate::fw::*;
use crate::kinds::{dict_bytes, dir_files, sources, texts, user_sources};
use lindera::Tokenizer;
use lindera_compress::compress;
use lindera_core::mode::{Mode, Penalty};
use lindera_decompress::{decompress, Algorithm, CompressedData};
use lindera_dictionary::DictionaryLoader;
use serde_json::json;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const ALGS: [Algorithm; 4] = [Algorithm::Deflate, Algorithm::Zlib, Algorithm::Gzip, Algorithm::Raw];

/// `emb dump <dir>`: what this binary's embedded dictionaries are.
pub fn dump(dir: &str) -> i32 {
    for k in KINDS {
        let p = Path::new(dir).join(k.as_str());
        let d = match guard(|| DictionaryLoader::load_dictionary_from_kind(k.clone())) {
            Ok(Ok(d)) => d,
            Ok(Err(e)) => {
                eprintln!("{}: {e}", k.as_str());
                return 1;
            }
            Err(_) => {
                eprintln!("{}: panicked", k.as_str());
                return 1;
            }
        };
        std::fs::write(p.with_extension("dict"), dict_bytes(&d)).unwrap();
        let mut out = String::new();
        for m in [Mode::Normal, Mode::Decompose(Penalty::default())] {
            let tk = Tokenizer::new(d.clone(), None, m);
            for t in texts() {
                match tokenize(&tk, &t) {
                    Ok(v) => out += &format!("{}\n", tok_json(&v)),
                    Err(e) => out += &format!("{e}\n"),
                }
            }
        }
        std::fs::write(p.with_extension("tokens"), out).unwrap();
    }
    0
}

fn roundtrip(name: &str, data: &[u8], st: &mut Stats) -> Res {
    for alg in ALGS {
        for via_file in [false, true] {
            st.states += 1;
            let r = guard(|| -> Result<Vec<u8>, String> {
                let mut c: CompressedData = compress(data, alg).map_err(|e| format!("compress: {e}"))?;
                if via_file {
                    let b = bincode::serialize(&c).map_err(|e| e.to_string())?;
                    c = bincode::deserialize_from(&b[..]).map_err(|e| format!("reading back: {e}"))?;
                } else {
                    c = c.clone();
                }
                decompress(c).map_err(|e| format!("decompress: {e}"))
            });
            let e = match r {
                Ok(Ok(d)) if d == data => continue,
                Ok(Ok(d)) => format!("{} bytes come back, first difference at {:?}", d.len(), d.iter().zip(data).position(|(a, b)| a != b)),
                Ok(Err(e)) => e,
                Err(p) => format!("panicked: {p}"),
            };
            return viol(format!("roundtrip:{alg:?}:{name}"), format!("{alg:?}, {} bytes ({name}): {e}", data.len()), json!({"content": &data[..data.len().min(64)], "through_bincode": via_file}));
        }
    }
    st.traces += 1;
    Ok(())
}

fn xorshift(n: usize) -> Vec<u8> {
    let mut x = 0x9E3779B97F4A7C15u64;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x as u8
        })
        .collect()
}
const PATTERNS: [&str; 9] = ["zeros", "ones", "period 2", "period 3", "period 258", "period 32768", "incompressible", "counters", "incompressible then repeated"];
fn pattern(p: usize, n: usize) -> Vec<u8> {
    match p {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| (i % 2) as u8 * 255).collect(),
        3 => (0..n).map(|i| (i % 3) as u8).collect(),
        4 => {
            let b = xorshift(258);
            (0..n).map(|i| b[i % 258]).collect()
        }
        5 => {
            let b = xorshift(32768);
            (0..n).map(|i| b[i % 32768]).collect()
        }
        6 => xorshift(n),
        7 => (0..n).map(|i| ((i / 4) as u32 * 3).to_le_bytes()[i % 4]).collect(),
        _ => {
            let b = xorshift(n / 2 + 1);
            (0..n).map(|i| b[i % b.len()]).collect()
        }
    }
}

fn gen_exe(feat: &str) -> PathBuf {
    root().join("target").join(format!("gen-{feat}")).join("debug/gen")
}
/// Requests to a generator; answers in order.
fn gen(feat: &str, reqs: &[String]) -> Vec<String> {
    let mut c = Command::new(gen_exe(feat)).arg("stdin").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("generator");
    let mut w = c.stdin.take().unwrap();
    let text = reqs.join("\n") + "\n";
    let h = std::thread::spawn(move || {
        let _ = w.write_all(text.as_bytes());
    });
    let o = c.wait_with_output().unwrap();
    h.join().unwrap();
    String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect()
}

pub fn c23(run: &mut Run) {
    run.rule = "Contents: every byte string of up to 2 bytes, every string of up to n symbols over 4 bytes, and 9 patterns (constant, short and long periods around the match and window limits of the format, incompressible, counters) at every length up to a bound and at every length within 3 of each power of two; each with all four algorithms, directly and through the file encoding. Dictionaries: for every kind and every enumerated source, every file the compressing builder writes, decompressed, against the file the plain builder writes. Embedded: the tool and a harness linked with compressed dictionaries against those linked with plain ones: bytes of every loaded dictionary, tokens of every text of up to 3 chunks in both modes, and the printed output.".into();
    run.assumptions = vec!["The files the dictionary crates embed are made by this machinery with the repository's builders (with and without the compress feature), because the project's build scripts can only make a one-word dummy offline.".into()];
    run.case_limit_s(300);
    run.family("contents of up to 2 bytes", 1 + 256 + 65536, |i, st| {
        let d: Vec<u8> = match i {
            0 => vec![],
            i if i <= 256 => vec![(i - 1) as u8],
            i => vec![((i - 257) / 256) as u8, ((i - 257) % 256) as u8],
        };
        st.nontrivial += (i > 0) as u64;
        roundtrip("short", &d, st)
    });
    let n = run.b(6, 8);
    run.family("strings over four bytes", strings_upto(4, n), |i, st| {
        let mut v = vec![];
        nth_string(i, 4, &mut v);
        let d: Vec<u8> = v.iter().map(|&x| [0u8, 1, 0x1f, 0xff][x]).collect();
        st.nontrivial += (i > 0) as u64;
        roundtrip("four bytes", &d, st)
    });
    let top = run.b(600u64, 3000);
    run.family("patterns, every length", top * 9, |i, st| {
        let (p, n) = ((i % 9) as usize, (i / 9) as usize);
        st.nontrivial += 1;
        roundtrip(PATTERNS[p], &pattern(p, n), st)
    });
    let mut lens = vec![];
    for k in 8..run.b(19, 23) {
        for d in -3i64..=3 {
            lens.push(((1i64 << k) + d) as usize);
        }
    }
    // megabytes for some patterns
    let big: Vec<usize> = [20u32, 21, 22].iter().flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain([3 << 20, 5_000_000, (1 << 23) + 1]).collect();
    run.family("patterns, megabytes", big.len() as u64 * 4, |i, st| {
        let (p, n) = ([0, 5, 6, 7][(i % 4) as usize], big[(i / 4) as usize]);
        st.nontrivial += 1;
        roundtrip(PATTERNS[p], &pattern(p, n), st)
    });
    lens.extend([33026, 32768 + 258, 65535 * 2, 65536 * 3 + 1, 100_000]);
    run.family("patterns, lengths around powers of two", lens.len() as u64 * 9, |i, st| {
        let (p, n) = ((i % 9) as usize, lens[(i / 9) as usize]);
        st.nontrivial += 1;
        roundtrip(PATTERNS[p], &pattern(p, n), st)
    });
    // ---- dictionary files
    let srcs = sources();
    run.family("dictionary files", srcs.len() as u64 * 5, |i, st| {
        let (k, (name, write)) = (&KINDS[i as usize % 5], &srcs[i as usize / 5]);
        let sc = Scratch::new();
        let src = sc.0.join("in");
        write(k, &src);
        let r: Vec<String> = ["embed", "compress"]
            .iter()
            .map(|f| gen(f, &[format!("{}\td\t{}\t{}", k.as_str(), src.display(), sc.0.join(f).display())]).first().cloned().unwrap_or("no answer".into()))
            .collect();
        let key = format!("files:{}:{name}", k.as_str());
        st.states += 1;
        if (r[0] == "ok") != (r[1] == "ok") {
            return viol(key, format!("{name}, {}: without compression {:?}, with compression {:?}", k.as_str(), r[0], r[1]), json!({}));
        }
        if r[0] != "ok" {
            return Ok(());
        }
        st.nontrivial += 1;
        let (plain, packed) = (dir_files(&sc.0.join("embed")), dir_files(&sc.0.join("compress")));
        if plain.keys().ne(packed.keys()) {
            return viol(key, format!("{name}, {}: different files", k.as_str()), json!([plain.keys().collect::<Vec<_>>(), packed.keys().collect::<Vec<_>>()]));
        }
        for (f, want) in &plain {
            let got = guard(|| -> Result<Vec<u8>, String> {
                let c: CompressedData = bincode::deserialize_from(&packed[f][..]).map_err(|e| e.to_string())?;
                decompress(c).map_err(|e| e.to_string())
            })
            .and_then(|r| r);
            st.traces += 1;
            match got {
                Ok(g) if g == *want => {}
                Ok(g) => return viol(key, format!("{name}, {}: {f} decompresses to other bytes ({} instead of {})", k.as_str(), g.len(), want.len()), json!({})),
                Err(e) => return viol(key, format!("{name}, {}: {f} does not decompress: {e}", k.as_str()), json!({})),
            }
        }
        Ok(())
    });
    // dictionaries whose files are larger than the buffers of the compressor
    let sizes = run.b(vec![300usize, 3000], vec![300, 3000, 30_000]);
    run.family("large dictionary files", sizes.len() as u64 * 5, |i, st| {
        let (k, n) = (&KINDS[i as usize % 5], sizes[i as usize / 5]);
        let sc = Scratch::new();
        let src = sc.0.join("in");
        crate::io::large_src(k, n).write(k, &src);
        let r: Vec<String> = ["embed", "compress"]
            .iter()
            .map(|f| gen(f, &[format!("{}\td\t{}\t{}", k.as_str(), src.display(), sc.0.join(f).display())]).first().cloned().unwrap_or("no answer".into()))
            .collect();
        let key = format!("large:{}:{n}", k.as_str());
        st.states += 1;
        if r[0] != "ok" || r[1] != "ok" {
            return viol(key, format!("{n} words, {}: without compression {:?}, with compression {:?}", k.as_str(), r[0], r[1]), json!({}));
        }
        st.nontrivial += 1;
        let (plain, packed) = (dir_files(&sc.0.join("embed")), dir_files(&sc.0.join("compress")));
        for (f, want) in &plain {
            let got = guard(|| -> Result<Vec<u8>, String> {
                let c: CompressedData = bincode::deserialize_from(packed.get(f).map_or(&[][..], |b| b)).map_err(|e| e.to_string())?;
                decompress(c).map_err(|e| e.to_string())
            })
            .and_then(|r| r);
            st.traces += 1;
            if got.as_ref() != Ok(want) {
                return viol(key, format!("{n} words, {}: {f} does not decompress to the file of the plain builder: {:?} instead of {} bytes", k.as_str(), got.map(|g| g.len()), want.len()), json!({}));
            }
        }
        Ok(())
    });
    let us = user_sources();
    run.family("compiled user dictionaries", us.len() as u64 * 5, |i, st| {
        let (k, text) = (&KINDS[i as usize % 5], &us[i as usize / 5]);
        let sc = Scratch::new();
        let src = sc.0.join("u.csv");
        std::fs::write(&src, text).unwrap();
        let r: Vec<String> = ["embed", "compress"]
            .iter()
            .map(|f| gen(f, &[format!("{}\tu\t{}\t{}", k.as_str(), src.display(), sc.0.join(f).display())]).first().cloned().unwrap_or("no answer".into()))
            .collect();
        st.states += 1;
        let key = format!("user:{}:{text:?}", k.as_str());
        if (r[0] == "ok") != (r[1] == "ok") {
            return viol(key, format!("{}: without compression {:?}, with compression {:?}", k.as_str(), r[0], r[1]), json!({"csv": text}));
        }
        if r[0] == "ok" {
            st.nontrivial += 1;
            st.traces += 1;
            let load = |f: &str| guard(|| DictionaryLoader::load_user_dictionary_from_bin(sc.0.join(f)).map(|d| crate::kinds::user_bytes(&d)).map_err(|e| e.to_string())).and_then(|r| r);
            if load("embed") != load("compress") || load("embed").is_err() {
                return viol(key, format!("{}: the user dictionary compiled with compression does not load as the one compiled without", k.as_str()), json!({"csv": text}));
            }
        }
        Ok(())
    });
    // ---- embedded
    let sc = Scratch::new();
    let mut errs = vec![];
    for f in ["embed", "compress"] {
        let d = sc.0.join(f);
        std::fs::create_dir_all(&d).unwrap();
        let o = run_bin(&root().join("target").join(f).join("debug/emb"), &["dump".into(), d.display().to_string()], In::None);
        if o.code != Some(0) {
            errs.push(format!("{f}: exit {:?} {}", o.code, o.err.lines().next().unwrap_or("")));
        }
    }
    let sc = &sc;
    run.family("embedded dictionaries", 5, |i, st| {
        let k = &KINDS[i as usize];
        if !errs.is_empty() {
            return viol("embedded", format!("embedded dictionaries do not load: {}", errs.join("; ")), json!({}));
        }
        let read = |f: &str, ext: &str| std::fs::read(sc.0.join(f).join(k.as_str()).with_extension(ext)).unwrap();
        st.states += 1;
        let (a, b) = (read("embed", "tokens"), read("compress", "tokens"));
        if a != b {
            let (a, b) = (String::from_utf8_lossy(&a).into_owned(), String::from_utf8_lossy(&b).into_owned());
            let n = a.lines().zip(b.lines()).position(|(x, y)| x != y);
            return viol(format!("embedded:{}", k.as_str()), format!("{}: tokens differ with compressed dictionaries", k.as_str()), json!({"text": n.map(|n| texts()[n % texts().len()].clone()), "plain": n.map(|n| a.lines().nth(n)), "compressed": n.map(|n| b.lines().nth(n))}));
        }
        if read("embed", "dict") != read("compress", "dict") {
            return viol(format!("embedded:{}", k.as_str()), format!("{}: the compressed embedded dictionary is not the plain one", k.as_str()), json!({}));
        }
        st.nontrivial += a.iter().filter(|c| **c == b'\n').count() as u64;
        st.traces += 1;
        Ok(())
    });
    // ---- the tool
    let txt = sc.0.join("t.txt");
    std::fs::write(&txt, texts().iter().take(3000).map(|t| t.replace('\n', " ") + "\n").collect::<String>()).unwrap();
    let (csv, src, out) = (sc.0.join("u.csv"), sc.0.join("src"), sc.0.join("made"));
    std::fs::write(&csv, "百二十円,数,ヒャク\n").unwrap();
    for k in KINDS {
        crate::sources::emb_src(&k).write(&k, &src.join(k.as_str()));
    }
    let r = [5u64, 2, 3, 3];
    run.family("the tool with compressed dictionaries", product(&r), |i, st| {
        let d = digits(i, &r);
        let k = KINDS[d[0]].as_str();
        let mut outs = vec![];
        for f in ["embed", "compress"] {
            let exe = root().join("target").join(f).join("debug/lindera");
            let mut a: Vec<String> = vec!["tokenize".into(), "-m".into(), ["normal", "decompose"][d[1]].into(), "-o".into(), ["mecab", "wakati", "json"][d[2]].into()];
            match d[3] {
                0 => a.extend(["-t".into(), k.into()]),
                1 => a.extend(["-t".into(), k.into(), "-u".into(), csv.display().to_string()]),
                _ => {
                    // a dictionary and a user dictionary the same tool built
                    let made = out.join(format!("{f}-{i}"));
                    for a in [vec!["build".to_string(), "-t".into(), k.into(), src.join(k).display().to_string(), made.display().to_string()], vec!["build".into(), "-u".into(), "-t".into(), k.into(), csv.display().to_string(), made.display().to_string()]] {
                        let o = run_bin(&exe, &a, In::None);
                        if o.code != Some(0) {
                            return viol(format!("tool-build:{f}:{k}"), format!("{f}: lindera {}: exit {:?} {}", a[0], o.code, o.err.lines().take(3).collect::<Vec<_>>().join(" ")), json!({}));
                        }
                    }
                    a.extend(["-d".into(), made.display().to_string(), "-u".into(), made.join("u.bin").display().to_string()]);
                }
            }
            a.push(txt.display().to_string());
            let o = run_bin(&exe, &a, In::None);
            outs.push((o.code, o.out, o.err));
        }
        st.states += 2;
        st.nontrivial += 1;
        st.traces += 1;
        if outs[0].0 != Some(0) || outs[0].0 != outs[1].0 || outs[0].1 != outs[1].1 {
            let at = outs[0].1.iter().zip(&outs[1].1).position(|(a, b)| a != b);
            return viol(format!("tool:{i}"), format!("{k}: the tool with compressed dictionaries prints something else (exit {:?} and {:?}, first difference at byte {at:?}) {}", outs[0].0, outs[1].0, outs[1].2.lines().take(3).collect::<Vec<_>>().join(" ")), json!({}));
        }
        Ok(())
    });
    let _ = dictkit::KINDS;
}
