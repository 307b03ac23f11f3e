//! C24: the command line tool prints what the library computes. (And the part of C25 that
//! concerns the command line.)
use crate::dictkit::{self, KINDS};
use crate::fw::*;
use crate::kinds::{dir_files, own_builder, sources, user_sources, world, World};
use crate::near_names;
use crate::rich::{char_sets, token_sets, Set};
use lindera::{Analyzer, Tokenizer};
use lindera_core::mode::{Mode, Penalty};
use lindera_dictionary::DictionaryLoader;
use lindera_filter::character_filter::CharacterFilterLoader;
use lindera_filter::token::Token;
use lindera_filter::token_filter::TokenFilterLoader;
use serde_json::{json, Value};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct Out {
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
}
impl Out {
    fn refused(&self) -> bool {
        // an error, not a crash
        self.code.map_or(false, |c| c != 0 && c != 101)
    }
    fn show(&self) -> String {
        format!("exit {:?}, {} bytes printed, {}", self.code, self.out.len(), self.err.lines().take(4).collect::<Vec<_>>().join(" | ").chars().take(300).collect::<String>())
    }
}
pub fn bin() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("lindera")
}
pub enum In<'a> {
    None,
    File(&'a Path),
    /// standard input through a pipe, in these pieces
    Pipe(Vec<&'a [u8]>),
}
pub fn run_bin(exe: &Path, args: &[String], input: In) -> Out {
    let mut c = Command::new("timeout");
    c.arg("60").arg(exe).args(args).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0");
    match &input {
        In::None => c.stdin(Stdio::null()),
        In::File(p) => c.stdin(Stdio::from(std::fs::File::open(p).unwrap())),
        In::Pipe(_) => c.stdin(Stdio::piped()),
    };
    let mut ch = c.spawn().expect("spawn the command line tool");
    let feeder = if let In::Pipe(parts) = &input {
        let parts: Vec<Vec<u8>> = parts.iter().map(|p| p.to_vec()).collect();
        let mut w = ch.stdin.take().unwrap();
        Some(std::thread::spawn(move || {
            for (i, p) in parts.iter().enumerate() {
                if i > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(3));
                }
                if w.write_all(p).is_err() {
                    return;
                }
                let _ = w.flush();
            }
        }))
    } else {
        None
    };
    let o = ch.wait_with_output().unwrap();
    if let Some(f) = feeder {
        let _ = f.join();
    }
    Out { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
pub fn cli(args: &[String], input: In) -> Out {
    run_bin(&bin(), args, input)
}
fn s(x: &str) -> String {
    x.to_string()
}

/// Lines as the tool reads them: up to and including each line feed.
fn lines_of(bytes: &[u8]) -> Vec<String> {
    let t = std::str::from_utf8(bytes).unwrap();
    t.split_inclusive('\n').map(|l| l.trim().to_string()).collect()
}

/// What the tool must print for these lines; `None` marks a place where nothing or an empty
/// line may be printed (wakati format, no tokens).
fn check_output(format: &str, a: &Analyzer, lines: &[String], got: &[u8], st: &mut Stats) -> Result<(), (usize, String)> {
    let mut want: Vec<Vec<Token>> = vec![];
    for (i, l) in lines.iter().enumerate() {
        match guard(|| a.analyze(l)) {
            Ok(Ok(t)) => want.push(t),
            Ok(Err(e)) => return Err((i, format!("the library refuses the line: {e}"))),
            Err(p) => return Err((i, format!("the library panics on the line: {p}"))),
        }
        st.states += 1;
    }
    st.transitions += want.iter().map(|w| w.len() as u64).sum::<u64>();
    if format == "json" {
        let mut at = 0;
        for v in serde_json::Deserializer::from_slice(got).into_iter::<Value>() {
            let v = v.map_err(|e| (at, format!("what is printed is not JSON: {e}")))?;
            if at >= want.len() {
                return Err((at, "more documents than lines".into()));
            }
            let arr = v.as_array().ok_or((at, "not a JSON array".to_string()))?;
            let w: Vec<Value> = want[at].iter().map(|t| json!({"text": t.text, "details": t.details, "byte_start": t.byte_start, "byte_end": t.byte_end})).collect();
            let g: Vec<Value> = arr
                .iter()
                .map(|t| json!({"text": t["text"], "details": t["details"], "byte_start": t["byte_start"], "byte_end": t["byte_end"]}))
                .collect();
            if w != g {
                return Err((at, format!("printed {}, the library gives {}", json!(g), json!(w))));
            }
            for (t, w) in arr.iter().zip(&want[at]) {
                if t.get("word_id").map_or(false, |i| *i != serde_json::to_value(w.word_id).unwrap()) {
                    return Err((at, format!("word id {} printed for {:?}", t["word_id"], w.word_id)));
                }
            }
            at += 1;
        }
        if at != want.len() {
            return Err((at, format!("{at} documents for {} lines", want.len())));
        }
        st.traces += at as u64;
        return Ok(());
    }
    // text formats: compare piecewise; an empty line of the wakati format may or may not print
    let mut rest = got;
    let mut blank: Option<bool> = None;
    for (i, w) in want.iter().enumerate() {
        let mut exp = String::new();
        if format == "mecab" {
            for t in w {
                exp += &format!("{}\t{}\n", t.text, t.details.join(","));
            }
            exp += "EOS\n";
        } else if w.is_empty() {
            let has = rest.first() == Some(&b'\n');
            match blank {
                None => blank = Some(has),
                Some(b) if b == has => {}
                _ => return Err((i, "lines without tokens are printed in two ways".into())),
            }
            exp = if has { s("\n") } else { String::new() };
        } else {
            exp = w.iter().map(|t| t.text.clone()).collect::<Vec<_>>().join(" ") + "\n";
        }
        if !rest.starts_with(exp.as_bytes()) {
            let n = exp.len().min(rest.len()).max(1);
            return Err((i, format!("expected {exp:?}, printed {:?}", String::from_utf8_lossy(&rest[..(n + 20).min(rest.len())]))));
        }
        rest = &rest[exp.len()..];
        st.traces += 1;
    }
    if !rest.is_empty() {
        return Err((want.len(), format!("printed after the last line: {:?}", String::from_utf8_lossy(&rest[..rest.len().min(80)]))));
    }
    Ok(())
}

/// Where text, dictionary and the rest come from.
#[derive(Clone, Debug)]
struct Conf {
    kind: usize,
    /// dictionary: 0 = embedded by kind, 1 = directory
    dir: bool,
    user: usize, // 0 none, 1 csv, 2 bin
    mode: usize, // 0 default, 1 normal, 2 decompose
    format: usize, // 0 default, 1 mecab, 2 wakati, 3 json
    source: usize, // 0 file, 1 standard input, 2 pipe
    long: bool,
    cs: Vec<Set>,
    ts: Vec<Set>,
}
struct Env<'a> {
    w: &'a World,
    user_csv: PathBuf,
    user_bin: Vec<PathBuf>,
}
impl Env<'_> {
    fn args(&self, c: &Conf, text: &Path) -> Vec<String> {
        let mut a = vec![s("tokenize")];
        let mut opt = |short: &str, long: &str, v: String| {
            if c.long {
                a.push(format!("--{long}={v}"));
            } else {
                a.push(format!("-{short}"));
                a.push(v);
            }
        };
        if c.dir {
            opt("d", "dic-dir", self.w.dirs[c.kind].display().to_string());
        } else {
            opt("t", "dic-type", KINDS[c.kind].as_str().into());
        }
        match c.user {
            1 => opt("u", "user-dic-file", self.user_csv.display().to_string()),
            2 => opt("u", "user-dic-file", self.user_bin[c.kind].display().to_string()),
            _ => {}
        }
        match c.mode {
            1 => opt("m", "mode", s("normal")),
            2 => opt("m", "mode", s("decompose")),
            _ => {}
        }
        if c.format > 0 {
            opt("o", "output-format", s(["", "mecab", "wakati", "json"][c.format]));
        }
        // interleaved: the order within each list is what counts
        for i in 0..c.cs.len().max(c.ts.len()) {
            if let Some(t) = c.ts.get(i) {
                opt("T", "token-filter", flag(t));
            }
            if let Some(f) = c.cs.get(i) {
                opt("C", "character-filter", flag(f));
            }
        }
        if c.source == 0 {
            a.push(text.display().to_string());
        }
        a
    }
    fn analyzer(&self, c: &Conf) -> Analyzer {
        let user = match c.user {
            0 => None,
            _ => Some(own_builder(&KINDS[c.kind]).build_user_dict(&self.user_csv).unwrap()),
        };
        let mode = if c.mode == 2 { Mode::Decompose(Penalty::default()) } else { Mode::Normal };
        Analyzer::new(
            c.cs.iter().map(|f| CharacterFilterLoader::load_from_value(f.0, &f.1).unwrap()).collect(),
            Tokenizer::new(self.w.dicts[c.kind].clone(), user, mode),
            c.ts.iter().map(|f| TokenFilterLoader::load_from_value(f.0, &f.1).unwrap()).collect(),
        )
    }
    fn check(&self, c: &Conf, text: &Path, bytes: &[u8], pieces: Vec<&[u8]>, st: &mut Stats) -> Res {
        let args = self.args(c, text);
        let o = cli(
            &args,
            match c.source {
                0 => In::None,
                1 => In::File(text),
                _ => In::Pipe(pieces),
            },
        );
        let shown = args[1..].iter().map(|a| a.replace(&self.w.sc.0.display().to_string(), "")).collect::<Vec<_>>().join(" ");
        let key = format!("cli:{shown}");
        if o.code != Some(0) {
            return viol(key, format!("lindera {shown}: {}", o.show()), json!({"args": args, "stderr": o.err}));
        }
        let lines = lines_of(bytes);
        if let Err((i, e)) = check_output(["mecab", "mecab", "wakati", "json"][c.format], &self.analyzer(c), &lines, &o.out, st) {
            return viol(key, format!("lindera {shown}: line {}: {e}", i + 1), json!({"args": args, "line": lines.get(i), "previous": i.checked_sub(1).and_then(|i| lines.get(i))}));
        }
        st.nontrivial += 1;
        Ok(())
    }
}
pub fn flag(f: &Set) -> String {
    if f.1.is_null() {
        s(f.0)
    } else {
        format!("{}:{}", f.0, f.1)
    }
}

pub const LINE_CHUNKS: &[&str] = &["百", "二十円が", " ", "\u{3000}", "\t", "\r", "、", "The", "京都は", "。", "\u{feff}", "\"", "ｶﾞ", "カタカナー"];

fn all_lines(n: u32, last_newline: bool) -> Vec<u8> {
    let mut t = String::new();
    for i in 0..strings_upto(LINE_CHUNKS.len() as u64, n) {
        t += &nth_text(i, LINE_CHUNKS);
        t.push('\n');
    }
    t += "\n\n百\n\n二十円";
    if last_newline {
        t.push('\n');
    }
    t.into_bytes()
}

fn env<'a>(w: &'a World, sc: &Scratch) -> Env<'a> {
    let csv = sc.0.join("u.csv");
    std::fs::write(&csv, "百二十円,数,ヒャク\n京都は,地名,キョウ\nカタカナー,記号,カ\n").unwrap();
    let mut user_bin = vec![];
    for k in KINDS {
        let p = sc.0.join(format!("u-{}.bin", k.as_str()));
        let d = own_builder(&k).build_user_dict(&csv).expect("user dictionary");
        std::fs::write(&p, crate::kinds::user_bytes(&d)).unwrap();
        user_bin.push(p);
    }
    Env { w, user_csv: csv, user_bin }
}

pub fn c24(run: &mut Run) {
    run.rule = "Every configuration of a full product (dictionary by kind or directory, user dictionary none/CSV/compiled, mode, output format, input by file, redirected standard input or pipe, short or long options) and every sequence of filters up to a length is run as a process on one file that holds every line of up to n chunks (trimmed characters, delimiters and line ends among the chunks); the printed output is compared line by line with what the library computes. Every way to cut a small input into two writes to the pipe, every position of an undecodable byte, every build command on an enumerated set of sources (files compared byte for byte with the library's), and an enumerated list of invalid invocations, which must fail without a crash.".into();
    run.assumptions = vec![
        "An input line is the text up to a line feed, trimmed of white space at both ends. Whether the wakati format prints an empty line for a line without tokens is left open; it must do the same for all of them.".into(),
        "JSON output is compared as values (text, details, byte_start, byte_end and, if printed, word_id), not as text.".into(),
    ];
    run.case_limit_s(300);
    let w = match world(run) {
        Some(w) => w,
        None => return,
    };
    let w = &w;
    let sc = Scratch::new();
    let e = match guard(|| env(w, &sc)) {
        Ok(e) => e,
        Err(p) => {
            run.family("user dictionaries of the check", 1, |_, _| viol("setup:user", format!("a well-formed user dictionary was not built: {p}"), json!({})));
            return;
        }
    };
    let e = &e;
    let big = all_lines(run.b(3, 4), true);
    let big_path = sc.0.join("big.txt");
    std::fs::write(&big_path, &big).unwrap();
    let small = all_lines(2, false);
    let small_path = sc.0.join("small.txt");
    std::fs::write(&small_path, &small).unwrap();
    let (big, big_path, small, small_path) = (&big, &big_path, &small, &small_path);
    // ---- the product of the options
    let r = [5u64, 2, 3, 3, 4, 3, 2];
    run.family("options", product(&r), |i, st| {
        let d = digits(i, &r);
        if d[1] == 1 && d[2] == 1 {
            return Ok(()); // a CSV user dictionary needs the kind
        }
        let c = Conf { kind: d[0], dir: d[1] == 1, user: d[2], mode: d[3], format: d[4], source: d[5], long: d[6] == 1, cs: vec![], ts: vec![] };
        st.sample(|| json!(e.args(&c, small_path)));
        e.check(&c, small_path, small, vec![small], st)
    });
    // ---- many lines
    let r = [5u64, 3, 3];
    run.family("every line", product(&r), |i, st| {
        let d = digits(i, &r);
        let c = Conf { kind: d[0], dir: false, user: 0, mode: 1, format: d[1] + 1, source: d[2], long: false, cs: vec![], ts: vec![] };
        e.check(&c, big_path, big, vec![big], st)
    });
    // ---- filters: every sequence up to a length
    let (cs, ts) = (char_sets(), token_sets());
    let (cl, tl) = (run.b(2, 3), run.b(2, 2));
    let (cs, ts) = (&cs, &ts);
    run.family("character filters", strings_upto(cs.len() as u64, cl) * 3, |i, st| {
        let mut v = vec![];
        nth_string(i / 3, cs.len() as u64, &mut v);
        let c = Conf { kind: 0, dir: i % 2 == 0, user: 0, mode: 0, format: i as usize % 3 + 1, source: i as usize % 2, long: i % 4 < 2, cs: v.iter().map(|&x| cs[x].clone()).collect(), ts: vec![] };
        e.check(&c, small_path, small, vec![], st)
    });
    run.family("token filters", strings_upto(ts.len() as u64, tl), |i, st| {
        let mut v = vec![];
        nth_string(i, ts.len() as u64, &mut v);
        let c = Conf { kind: i as usize % 2 * 2, dir: false, user: 0, mode: 0, format: i as usize % 3 + 1, source: 0, long: i % 2 == 0, cs: vec![], ts: v.iter().map(|&x| ts[x].clone()).collect() };
        e.check(&c, small_path, small, vec![], st)
    });
    run.family("character and token filters", (cs.len() * ts.len()) as u64, |i, st| {
        let (a, b) = (i as usize % cs.len(), i as usize / cs.len());
        let c = Conf {
            kind: 0,
            dir: false,
            user: (i % 3) as usize,
            mode: 2,
            format: 3 - (i % 2) as usize * 2,
            source: 1,
            long: false,
            cs: vec![cs[a].clone(), cs[(a + 1) % cs.len()].clone()],
            ts: vec![ts[b].clone(), ts[(b + 3) % ts.len()].clone(), ts[b].clone()],
        };
        e.check(&c, small_path, small, vec![], st)
    });
    // ---- a pipe that delivers the input in two pieces, cut anywhere (characters included)
    let piped = "百二十円\n\n京都は\r\nThe、が".as_bytes();
    let pp = sc.0.join("piped.txt");
    std::fs::write(&pp, piped).unwrap();
    let pp = &pp;
    run.family("pipe cuts", (piped.len() as u64 + 1) * 3, |i, st| {
        let k = (i / 3) as usize;
        let c = Conf { kind: 0, dir: false, user: 0, mode: 0, format: (i % 3) as usize + 1, source: 2, long: false, cs: vec![], ts: vec![] };
        e.check(&c, pp, piped, vec![&piped[..k], &piped[k..]], st)
    });
    // ---- line ends and missing last line ends
    let ends: Vec<&[u8]> = vec![b"", b"\n", b"\n\n", b"\r\n", b"a", b"a\r", b"a\r\n", b"\n\na", b"a\rb\nc", b" \n \n", b"\x0b\x0c\n", b"a\xc2\x85\nb", b"a\xe2\x80\xa8b\n", b"\0\na\0b", b"\xef\xbb\xbfa\n"];
    let ep: Vec<PathBuf> = (0..ends.len()).map(|i| sc.0.join(format!("end{i}"))).collect();
    for (p, x) in ep.iter().zip(&ends) {
        std::fs::write(p, x).unwrap();
    }
    run.family("line ends", ends.len() as u64 * 9, |i, st| {
        let d = digits(i, &[3, 3, ends.len() as u64]);
        let c = Conf { kind: 2, dir: false, user: 0, mode: 0, format: d[0] + 1, source: d[1], long: false, cs: vec![], ts: vec![] };
        e.check(&c, &ep[d[2]], ends[d[2]], vec![ends[d[2]]], st)
    });
    // ---- one long line, many lines: buffers of the reader
    let sizes = [4095usize, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, run.b(200_000, 1_000_000)];
    run.family("long input", sizes.len() as u64 * 4 * 2, |i, st| {
        let d = digits(i, &[sizes.len() as u64, 2, 4]);
        let n = sizes[d[0]];
        let unit = ["a", "百、", "百\n", "二十円。"][d[2]];
        let mut t = "x".repeat(n % unit.len());
        while t.len() + unit.len() <= n {
            t += unit;
        }
        if unit == "a" {
            t = t.as_bytes().chunks(700).map(|c| std::str::from_utf8(c).unwrap().to_string() + "、").collect();
        }
        let p = sc.0.join(format!("long-{i}"));
        std::fs::write(&p, &t).unwrap();
        let c = Conf { kind: 0, dir: false, user: 0, mode: 0, format: 1 + d[0] % 3, source: d[1], long: false, cs: vec![], ts: vec![] };
        let r = e.check(&c, &p, t.as_bytes(), vec![], st);
        let _ = std::fs::remove_file(&p);
        r
    });
    // ---- undecodable input: an error, no crash; lines before it are printed
    let good = "百\n二十\n円".as_bytes();
    run.family("undecodable input", (good.len() as u64 + 1) * 3, |i, st| {
        let (k, f) = ((i / 3) as usize, (i % 3) as usize);
        let mut b = good.to_vec();
        b.insert(k, 0xff);
        let p = sc.0.join(format!("bad-{i}"));
        std::fs::write(&p, &b).unwrap();
        let o = cli(&[s("tokenize"), s("-t"), s("ipadic"), s("-o"), s(["mecab", "wakati", "json"][f]), p.display().to_string()], In::None);
        st.states += 1;
        st.nontrivial += 1;
        if !o.refused() {
            return viol(format!("undecodable:{k}:{f}"), format!("a byte 0xFF at {k}: {}", o.show()), json!({"stderr": o.err}));
        }
        Ok(())
    });
    // ---- invalid invocations
    let d0 = w.dirs[0].display().to_string();
    let txt = small_path.display().to_string();
    let sd = sc.0.display().to_string();
    let mut bad: Vec<Vec<String>> = vec![
        vec![],
        vec![s("tokenise")],
        vec![s("tokenize"), txt.clone()],
        vec![s("tokenize"), s("-d"), format!("{sd}/none"), txt.clone()],
        vec![s("tokenize"), s("-d"), sd.clone(), txt.clone()],
        vec![s("tokenize"), s("-d"), txt.clone(), txt.clone()],
        vec![s("tokenize"), s("-t"), s("ipadic"), format!("{sd}/none.txt")],
        vec![s("tokenize"), s("-t"), s("ipadic"), sd.clone()],
        vec![s("tokenize"), s("-d"), d0.clone(), s("-u"), e.user_csv.display().to_string(), txt.clone()],
        vec![s("tokenize"), s("-t"), s("ipadic"), s("-u"), format!("{sd}/none.csv"), txt.clone()],
        vec![s("tokenize"), s("-t"), s("ipadic"), s("-u"), format!("{sd}/none.bin"), txt.clone()],
        vec![s("tokenize"), s("-t"), s("ipadic"), s("-u"), txt.clone(), txt.clone()],
        vec![s("tokenize"), s("-t"), s("ipadic"), s("-u"), d0.clone(), txt.clone()],
        vec![s("tokenize"), s("-t"), s("ipadic"), txt.clone(), txt.clone()],
        vec![s("tokenize"), s("-t"), s("ipadic"), s("-x"), txt.clone()],
        vec![s("build"), s("-t"), s("ipadic"), format!("{sd}/none"), format!("{sd}/out-a")],
        vec![s("build"), s("-t"), s("ipadic"), s("-u"), format!("{sd}/none.csv"), sd.clone()],
        vec![s("build"), format!("{sd}/none"), format!("{sd}/out-b")],
        vec![s("build"), s("-t"), s("ipadic"), s("-u"), s("/"), sd.clone()],
        vec![s("build"), s("-t"), s("ipadic"), s("-u"), s(".."), sd.clone()],
    ];
    for n in near_names("mecab").into_iter().chain(near_names("wakati")).chain(near_names("json")) {
        if !n.contains('\0') && !["mecab", "wakati", "json"].contains(&n.as_str()) {
            bad.push(vec![s("tokenize"), s("-t"), s("ipadic"), format!("--output-format={n}"), txt.clone()]);
        }
    }
    for n in near_names("normal").into_iter().chain(near_names("decompose")) {
        if !n.contains('\0') {
            bad.push(vec![s("tokenize"), s("-t"), s("ipadic"), format!("--mode={n}"), txt.clone()]);
        }
    }
    for (f, o) in [("-C", "-T"), ("-T", "-C")] {
        let sets = if f == "-C" { cs } else { ts };
        for set in sets.iter() {
            for n in [format!("{}x", set.0), format!(" {}", set.0), set.0.to_uppercase()] {
                bad.push(vec![s("tokenize"), s("-t"), s("ipadic"), s(f), flag(&(Box::leak(n.into_boxed_str()), set.1.clone())), txt.clone()]);
            }
            if set.0 != "mapping" {
                bad.push(vec![s("tokenize"), s("-t"), s("ipadic"), s(o), flag(set), txt.clone()]);
            }
            let j = flag(set);
            if j.contains(':') {
                bad.push(vec![s("tokenize"), s("-t"), s("ipadic"), s(f), j[..j.len() - 1].to_string(), txt.clone()]);
                for a in ["[]", "3", "\"x\"", "{\"x\":0}"] {
                    let v: Value = serde_json::from_str(a).unwrap();
                    let refused = if f == "-C" { CharacterFilterLoader::load_from_value(set.0, &v).is_err() } else { TokenFilterLoader::load_from_value(set.0, &v).is_err() };
                    if refused {
                        bad.push(vec![s("tokenize"), s("-t"), s("ipadic"), s(f), format!("{}:{a}", set.0), txt.clone()]);
                    }
                }
                // valid first, invalid second
                bad.push(vec![s("tokenize"), s("-t"), s("ipadic"), s(f), j.clone(), s(f), j[..j.len() - 1].to_string(), txt.clone()]);
            }
        }
    }
    run.family("invalid invocations", bad.len() as u64, |i, st| {
        let a = &bad[i as usize];
        let o = cli(a, In::None);
        st.states += 1;
        st.nontrivial += 1;
        if !o.refused() || !o.out.is_empty() {
            return viol(format!("invalid:{}", a.join(" ").replace(&sd, "").replace(&w.sc.0.display().to_string(), "")), format!("lindera {}: {}", a.join(" "), o.show()), json!({"args": a, "stderr": o.err}));
        }
        Ok(())
    });
    // ---- build
    let srcs = sources();
    run.family("build dictionaries", srcs.len() as u64 * 5, |i, st| {
        let (k, (name, write)) = (&KINDS[i as usize % 5], &srcs[i as usize / 5]);
        let sc = Scratch::new();
        let (src, a) = (sc.0.join("in"), sc.0.join("a"));
        // the tool must create the destination
        let b = if i % 2 == 0 { sc.0.join("b") } else { sc.0.join("x").join("b") };
        if i % 2 == 1 {
            std::fs::create_dir_all(&b).unwrap();
        }
        write(k, &src);
        let ra = dictkit::build_dir(k, &src, &a);
        let o = cli(&[s("build"), if i % 3 == 0 { format!("--dic-type={}", k.as_str()) } else { format!("-t{}", k.as_str()) }, src.display().to_string(), b.display().to_string()], In::None);
        st.states += 1;
        st.traces += 1;
        let key = format!("build:{}:{name}", k.as_str());
        match (&ra, o.code) {
            (Ok(()), Some(0)) => {
                st.nontrivial += 1;
                if dir_files(&a) != dir_files(&b) {
                    return viol(key, format!("{name}: lindera build -t {} writes other files than the library", k.as_str()), json!({}));
                }
                Ok(())
            }
            (Err(_), _) if o.refused() => Ok(()),
            _ => viol(key, format!("{name}: the library {ra:?}, lindera build -t {}: {}", k.as_str(), o.show()), json!({"stderr": o.err})),
        }
    });
    let us = user_sources();
    let unames = ["u.csv", "u", "u.x.csv", "ユーザ辞書.csv"];
    run.family("build user dictionaries", us.len() as u64 * 5 * unames.len() as u64, |i, st| {
        let d = digits(i, &[5, unames.len() as u64, us.len() as u64]);
        let (k, text, name) = (&KINDS[d[0]], &us[d[2]], unames[d[1]]);
        let sc = Scratch::new();
        let src = sc.0.join(name);
        std::fs::write(&src, text).unwrap();
        let out = sc.0.join("out");
        if i % 2 == 0 {
            std::fs::create_dir_all(&out).unwrap();
        }
        let lib = sc.0.join("lib.bin");
        let ra = guard(|| own_builder(k).build_user_dictionary(&src, &lib).map_err(|e| e.to_string())).and_then(|r| r);
        let o = cli(&[s("build"), s(if i % 3 == 0 { "--build-user-dic" } else { "-u" }), s("-t"), s(k.as_str()), src.display().to_string(), out.display().to_string()], In::None);
        st.states += 1;
        st.traces += 1;
        let key = format!("build-user:{}:{name}:{text:?}", k.as_str());
        let want = out.join(Path::new(name).with_extension("bin"));
        match (&ra, o.code) {
            (Ok(()), Some(0)) => {
                st.nontrivial += 1;
                match std::fs::read(&want) {
                    Ok(b) if b == std::fs::read(&lib).unwrap() => Ok(()),
                    Ok(_) => viol(key, format!("lindera build -u -t {} writes another user dictionary than the library", k.as_str()), json!({"csv": text})),
                    Err(_) => viol(key, format!("lindera build -u -t {} {name}: no file {} in the destination", k.as_str(), want.file_name().unwrap().to_string_lossy()), json!({"files": dir_files(&out).keys().collect::<Vec<_>>()})),
                }
            }
            (Err(_), _) if o.refused() => Ok(()),
            _ => viol(key, format!("the library {ra:?}, lindera build -u -t {}: {}", k.as_str(), o.show()), json!({"csv": text, "stderr": o.err})),
        }
    });
    // ---- build, then tokenize with what was built
    run.family("build then tokenize", 5 * 2 * 3, |i, st| {
        let d = digits(i, &[5, 2, 3]);
        let k = d[0];
        let sc2 = Scratch::new();
        let (src, out) = (sc2.0.join("in"), sc2.0.join("out"));
        crate::sources::emb_src(&KINDS[k]).write(&KINDS[k], &src);
        let o = cli(&[s("build"), s("-t"), s(KINDS[k].as_str()), src.display().to_string(), out.display().to_string()], In::None);
        let mut a = vec![s("tokenize"), s("-d"), out.display().to_string(), s("-o"), s(["mecab", "wakati", "json"][d[2]])];
        if d[1] == 1 {
            let o = cli(&[s("build"), s("-u"), s("-t"), s(KINDS[k].as_str()), e.user_csv.display().to_string(), sc2.0.display().to_string()], In::None);
            if o.code != Some(0) {
                return viol(format!("build-use:{i}"), format!("lindera build -u: {}", o.show()), json!({}));
            }
            a.extend([s("-u"), sc2.0.join("u.bin").display().to_string()]);
        }
        a.push(small_path.display().to_string());
        let t = cli(&a, In::None);
        st.states += 1;
        st.nontrivial += 1;
        if o.code != Some(0) || t.code != Some(0) {
            return viol(format!("build-use:{i}"), format!("build: {}; tokenize: {}", o.show(), t.show()), json!({}));
        }
        let c = Conf { kind: k, dir: true, user: d[1] * 2, mode: 0, format: d[2] + 1, source: 0, long: false, cs: vec![], ts: vec![] };
        if let Err((i, m)) = check_output(["mecab", "wakati", "json"][d[2]], &e.analyzer(&c), &lines_of(small), &t.out, st) {
            return viol(format!("build-use:{i}"), format!("tokens with the {} dictionary the tool built: line {}: {m}", KINDS[k].as_str(), i + 1), json!({"args": a}));
        }
        Ok(())
    });
    kind_list(run);
    let _ = DictionaryLoader::load_dictionary_from_kind;
}

fn kind_list(run: &mut Run) {
    run.family("list", 1, |_, st| {
        let o = cli(&[s("list")], In::None);
        let t = String::from_utf8_lossy(&o.out).into_owned();
        let mut got: Vec<&str> = t.lines().collect();
        got.sort();
        let mut want: Vec<&str> = KINDS.iter().map(|k| k.as_str()).collect();
        want.sort();
        st.states += 1;
        st.nontrivial += 1;
        if o.code != Some(0) || got != want {
            return viol("list", format!("lindera list prints {got:?}, built with {want:?}"), json!({}));
        }
        Ok(())
    });
}

/// The command line's part of C25.
pub fn kind_families(run: &mut Run, w: &World) {
    kind_list(run);
    let names = ["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"];
    let mut near: Vec<String> = names.iter().flat_map(|n| near_names(n)).collect();
    near.extend(["IPADIC", "UniDic", "KoDic", "CcCedict", "none"].map(String::from));
    near.retain(|n| !names.contains(&n.as_str()) && !n.contains('\0'));
    near.sort();
    near.dedup();
    let sc = Scratch::new();
    let (src, csv) = (sc.0.join("in"), sc.0.join("u.csv"));
    crate::sources::emb_src(&KINDS[2]).write(&KINDS[2], &src);
    std::fs::write(&csv, "百二十円,数,ヒャク\n").unwrap();
    let txt = sc.0.join("t.txt");
    std::fs::write(&txt, "百二十円が京都大阪は\n").unwrap();
    run.family("command line: names that are no kind", near.len() as u64 * 3, |i, st| {
        let n = &near[i as usize / 3];
        let out = sc.0.join(format!("o{i}"));
        let a = match i % 3 {
            0 => vec![s("tokenize"), format!("--dic-type={n}"), txt.display().to_string()],
            1 => vec![s("build"), format!("--dic-type={n}"), src.display().to_string(), out.display().to_string()],
            _ => vec![s("build"), s("-u"), format!("--dic-type={n}"), csv.display().to_string(), out.display().to_string()],
        };
        let o = cli(&a, In::None);
        st.states += 1;
        st.nontrivial += 1;
        if !o.refused() || !o.out.is_empty() || out.exists() {
            return viol(format!("cli-noname:{}:{n:?}", i % 3), format!("lindera {} --dic-type={n:?}: {}", a[0], o.show()), json!({}));
        }
        Ok(())
    });
    run.family("command line: kinds", 5 * 6, |i, st| {
        let (k, p) = ((i % 5) as usize, (i / 5) as usize);
        // kind alone; kind with the directory of each kind (the kind decides)
        let mut a = vec![s("tokenize"), s("-o"), s("json"), s("-t"), s(names[k])];
        if p > 0 {
            a.extend([s("-d"), w.dirs[p - 1].display().to_string()]);
        }
        a.push(txt.display().to_string());
        let o = cli(&a, In::None);
        st.states += 1;
        st.nontrivial += 1;
        let an = Analyzer::new(vec![], Tokenizer::new(w.dicts[k].clone(), None, Mode::Normal), vec![]);
        if o.code != Some(0) {
            return viol(format!("cli-kind:{k}:{p}"), format!("lindera tokenize -t {}: {}", names[k], o.show()), json!({}));
        }
        if let Err((_, m)) = check_output("json", &an, &lines_of(&std::fs::read(&txt).unwrap()), &o.out, st) {
            return viol(format!("cli-kind:{k}:{p}"), format!("lindera tokenize -t {}: {m}", names[k]), json!({"args": a}));
        }
        Ok(())
    });
}
