//! C26: failing reads and writes are reported, and builds are reproducible.
//!
//! The command line tool runs as a process with `shim/faults.c` preloaded, which numbers its
//! file operations and makes a chosen one fail. A run without faults gives the number of
//! operations; then every operation is made to fail in every way.
use crate::cli::{bin, Out};
use crate::dictkit::{self, build_dir, Src, KINDS};
use crate::fw::*;
use crate::kinds::{dir_files, own_builder, sources};
use crate::sources::emb_src;
use lindera_dictionary::DictionaryKind;
use serde_json::json;
use std::sync::OnceLock;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn s(x: &str) -> String {
    x.to_string()
}
pub fn shim() -> PathBuf {
    root().join("target").join("faults.so")
}
struct Fault<'a> {
    at: u64,
    kind: &'a str,
    seed: Option<u64>,
    trace: Option<&'a Path>,
}
const NONE: Fault = Fault { at: 0, kind: "", seed: None, trace: None };

fn run_faulty(args: &[String], input: Option<&Path>, top: &Path, cwd: Option<&Path>, f: &Fault) -> Out {
    let mut c = Command::new("timeout");
    c.arg("60").arg(bin()).args(args).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0");
    c.env("LD_PRELOAD", shim()).env("VF_ROOT", top).env("VF_STDIO", "1").env("VF_AT", f.at.to_string()).env("VF_KIND", f.kind);
    c.env("VF_SEED", f.seed.unwrap_or(0).to_string());
    if let Some(t) = f.trace {
        c.env("VF_TRACE", t);
    }
    if let Some(d) = cwd {
        c.current_dir(d);
    }
    match input {
        None => c.stdin(Stdio::null()),
        Some(p) => c.stdin(Stdio::from(std::fs::File::open(p).unwrap())),
    };
    let o = c.output().expect("spawn the command line tool");
    Out { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
/// ended by the error path, not by a panic or a signal
fn refused(o: &Out) -> bool {
    o.code.map_or(false, |c| c != 0 && c != 101 && c != 124 && c < 128)
}

/// A source with enough words that every file takes several reads and writes.
pub fn large_src(kind: &DictionaryKind, n: usize) -> Src {
    let mut x = emb_src(kind);
    let base = x.rows[0].clone();
    for i in 0..n {
        let mut r = base.clone();
        r.surface = format!("語{}", i);
        r.cost = i as i16;
        r.left = 0;
        r.right = 0;
        let last = r.details.len() - 1;
        r.details[last] = format!("{}番", i * 7);
        x.rows.push(r);
    }
    let m = x.conn.len();
    for (i, row) in x.conn.iter_mut().enumerate() {
        while row.len() < m + n / 20 {
            row.push((i * 31 + row.len()) as i16);
        }
    }
    let w = x.conn[0].len();
    while x.conn.len() < w {
        let i = x.conn.len();
        x.conn.push((0..w).map(|j| (i * 13 + j * 5) as i16).collect());
    }
    // enough categories that every file is larger than a write buffer
    static NAMES: OnceLock<Vec<String>> = OnceLock::new();
    let names = &NAMES.get_or_init(|| (0..300).map(|i| format!("{}{i}", (b'A' + i as u8 % 26) as char)).collect())[..if n < 2000 { 8 } else { 300 }];
    for (i, name) in names.iter().enumerate() {
        x.cats.push(dictkit::Cat { name: name.as_str(), invoke: i % 2 == 0, group: i % 3 == 0 });
        x.ranges.push((0x3100 + 16 * i as u32, 0x3100 + 16 * i as u32 + 20, vec![name.as_str()]));
        x.unks.push(crate::worlds::u(name, 0, 1, 10 + i as i16));
        x.unks.push(crate::worlds::u(name, 1, 0, 20 + i as i16));
    }
    x
}
fn large_user(n: usize) -> String {
    (0..n).map(|i| format!("自分語{i},名詞,ヨミ{i}\n")).collect()
}

/// A run of the tool: what it does, and what it must leave behind.
struct Job {
    name: String,
    args: Vec<String>, // "{o}" stands for the output directory
    input: Option<PathBuf>,
    /// directory whose files the output directory holds before
    prior: Option<PathBuf>,
    build: bool,
    ops: Vec<(char, String)>,
    files: BTreeMap<String, Vec<u8>>,
    out: Vec<u8>,
}
impl Job {
    fn run(&self, o: &Path, top: &Path, f: &Fault) -> Out {
        let args: Vec<String> = self.args.iter().map(|a| a.replace("{o}", &o.display().to_string())).collect();
        run_faulty(&args, self.input.as_deref(), top, None, f)
    }
    fn prepare(&self, o: &Path) {
        if let Some(p) = &self.prior {
            std::fs::create_dir_all(o).unwrap();
            for (n, b) in dir_files(p) {
                std::fs::write(o.join(n), b).unwrap();
            }
        }
    }
    /// The files this job has to write, as they are in `o`.
    fn written(&self, o: &Path) -> BTreeMap<String, Vec<u8>> {
        let mut m = dir_files(o);
        m.retain(|n, _| self.files.contains_key(n));
        m
    }
}
fn differs(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> String {
    let mut v = vec![];
    for (n, x) in a {
        match b.get(n) {
            None => v.push(format!("{n} is missing")),
            Some(y) if x != y => v.push(format!("{n} has {} bytes, expected {} bytes{}", y.len(), x.len(), if x.len() == y.len() { " (others)" } else { "" })),
            _ => {}
        }
    }
    for n in b.keys() {
        if !a.contains_key(n) {
            v.push(format!("{n} is there"));
        }
    }
    v.join(", ")
}

pub fn c26(run: &mut Run) {
    run.level = "fault_enumeration";
    run.rule = "Faults: a run of the command line tool without faults lists its file operations (open, read, write, make or list a directory, rename, on source, output, dictionary and input files and on standard input and output). Then the tool is run once for every operation and every way it can go wrong: it fails (once; it and all later ones of its sort), is interrupted, transfers one byte, half of the bytes, at most one or seven bytes from there on, or the process ends before it or in the middle of a write. After a fault: exit code 0 only if exactly the files and the output of the run without faults are there; otherwise a non-zero exit code without a crash (a crash is accepted when standard output fails) and printed output that is a beginning of the right output; partial transfers change nothing. Then the same build is run again without faults and must leave exactly the files of a build into a fresh directory. Reproducibility: every build over every order in which the source files were created, over every subset of output files that exist before, over every history of up to three builds (good, bad and large sources) into one directory, over an enumerated list of spellings of the directories, and for a number of seeds of the hash tables; files compared byte for byte, sources unchanged.".into();
    run.assumptions = vec![
        "Failures are injected where the tool calls the C library; failures to close a file or to ask for the status of a file are not injected.".into(),
        "Every file operation of a run is numbered; the run without faults and the run with a fault make the same operations up to the fault (checked: the file names of the operations before the fault are compared).".into(),
        "An interrupted (EINTR) transfer may be repeated or reported.".into(),
    ];
    run.case_limit_s(300);
    let sc = Scratch::new();
    let top = sc.0.join("top");
    std::fs::create_dir_all(&top).unwrap();
    let top = &top;
    let traces = sc.0.join("traces");
    std::fs::create_dir_all(&traces).unwrap();
    let traces = &traces;
    // ---- sources
    let thorough = !run.quick();
    let large = run.b(2100, 4200) as usize;
    let mut jobs: Vec<Job> = vec![];
    let job = |name: String, args: Vec<String>, input: Option<PathBuf>, prior: Option<PathBuf>, build: bool| Job { name, args, input, prior, build, ops: vec![], files: BTreeMap::new(), out: vec![] };
    let mut setup = None;
    for k in KINDS {
        let (small, big) = (top.join(format!("s-{}", k.as_str())), top.join(format!("l-{}", k.as_str())));
        emb_src(&k).write(&k, &small);
        large_src(&k, large).write(&k, &big);
        // two more word files, so that the directory matters
        let line = dictkit::encode(&k, &emb_src(&k).rows_text().lines().take(2).map(|l| format!("又{l}\n")).collect::<String>());
        std::fs::write(small.join("b.csv"), &line).unwrap();
        std::fs::write(small.join("zz.csv"), &line).unwrap();
        let us = top.join(format!("us-{}.csv", k.as_str()));
        std::fs::write(&us, "百二十円,数,ヒャク\n京都は,地名,キョウ\nカタカナー,記号,カ\n").unwrap();
        let ul = top.join(format!("ul-{}.csv", k.as_str()));
        std::fs::write(&ul, large_user(large)).unwrap();
        let (ds, dl) = (top.join(format!("ds-{}", k.as_str())), top.join(format!("dl-{}", k.as_str())));
        let ub = top.join(format!("ub-{}.bin", k.as_str()));
        for (a, b) in [(&small, &ds), (&big, &dl)] {
            if let Err(e) = build_dir(&k, a, b) {
                setup = Some(format!("the {} source: {e}", k.as_str()));
            }
        }
        match guard(|| own_builder(&k).build_user_dictionary(&us, &ub).map_err(|e| e.to_string())) {
            Ok(Ok(())) => {}
            e => setup = Some(format!("the {} user dictionary: {e:?}", k.as_str())),
        }
        let dp = |p: &Path| p.display().to_string();
        for (n, src, prior) in [("small", &small, None), ("large", &big, None), ("small over large", &small, Some(dl.clone())), ("large over small", &big, Some(ds.clone()))] {
            jobs.push(job(format!("build {} {n}", k.as_str()), vec![s("build"), s("-t"), s(k.as_str()), dp(src), s("{o}")], None, prior, true));
        }
        for (n, src) in [("small", &us), ("large", &ul)] {
            jobs.push(job(format!("build -u {} {n}", k.as_str()), vec![s("build"), s("-u"), s("-t"), s(k.as_str()), dp(src), s("{o}")], None, None, true));
        }
        // tokenize: lines enough for several reads and writes
        let text = top.join("text.txt");
        if !text.exists() {
            let mut t = String::new();
            for i in 0..30u64 {
                t += &nth_text(i * 3, crate::kinds::EMB_CHUNKS);
                t.push('\n');
            }
            // longer than the buffers of the reader
            for c in ["百二十円が、走った", "The カタカナー", " "] {
                t += &c.repeat(if thorough { 9000 } else { 4500 } / c.len() / 8);
                t.push('\n');
            }
            t += &" ".repeat(9000);
            t += "語12は自分語3";
            std::fs::write(&text, t).unwrap();
        }
        for (f, user, dir, stdin) in [("mecab", 0, &ds, false), ("wakati", 1, &dl, true), ("json", 2, &ds, false)] {
            if user == 1 {
                // a user dictionary in CSV needs the kind, which selects the embedded dictionary
                let a = vec![s("tokenize"), s("-o"), s(f), s("-t"), s(k.as_str()), s("-u"), dp(&ul)];
                jobs.push(job(format!("tokenize {} {f} with user CSV", k.as_str()), a, Some(text.clone()), None, false));
            }
            let mut a = vec![s("tokenize"), s("-o"), s(f), s("-d"), dp(dir)];
            if user == 2 {
                a.extend([s("-u"), dp(&ub)]);
            }
            if !stdin {
                a.push(dp(&text));
            }
            jobs.push(job(format!("tokenize {} {f}", k.as_str()), a, stdin.then(|| text.clone()), None, false));
        }
    }
    jobs.push(job(s("list"), vec![s("list")], None, None, false));
    let source_state = |top: &Path| -> BTreeMap<String, BTreeMap<String, Vec<u8>>> {
        let mut m = BTreeMap::new();
        m.insert(String::new(), dir_files(top));
        for e in std::fs::read_dir(top).unwrap().flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if e.path().is_dir() && !n.starts_with("o-") {
                m.insert(n, dir_files(&e.path()));
            }
        }
        m
    };
    let before = source_state(top);
    for (i, j) in jobs.iter_mut().enumerate() {
        if setup.is_some() {
            break;
        }
        let (o, t) = (top.join(format!("o-setup{i}")), traces.join(format!("setup{i}")));
        // the files to write are those a build into a fresh directory leaves
        let r = j.run(&o, top, &Fault { trace: Some(&t), ..NONE });
        if r.code != Some(0) {
            setup = Some(format!("{}: exit {:?}: {}", j.name, r.code, r.err.chars().take(300).collect::<String>()));
            break;
        }
        j.files = dir_files(&o);
        j.out = r.out;
        let _ = std::fs::remove_dir_all(&o);
        if j.prior.is_some() {
            let _ = std::fs::remove_file(&t);
            j.prepare(&o);
            j.run(&o, top, &Fault { trace: Some(&t), ..NONE });
            let _ = std::fs::remove_dir_all(&o);
        }
        let tr = std::fs::read_to_string(&t).unwrap_or_default();
        let on = format!("o-setup{i}");
        for l in tr.lines() {
            let mut p = l.splitn(3, ' ');
            p.next();
            let c = p.next().unwrap().chars().next().unwrap();
            j.ops.push((c, p.next().unwrap_or("").replace(&on, "{o}")));
        }
    }
    if let Some(e) = setup {
        run.family("dictionaries of the check", 1, |_, _| viol("setup:dictionary", format!("a well-formed source was not built or used: {e}"), json!({})));
        return;
    }
    let jobs = &jobs;
    run.family("sources are only read", 1, |_, st| {
        st.states += jobs.len() as u64;
        st.nontrivial += 1;
        let now = source_state(top);
        if now != before {
            let n: Vec<_> = before.keys().filter(|n| now.get(*n) != before.get(*n)).collect();
            return viol("sources", format!("a run changed the files it reads: {n:?}"), json!({}));
        }
        Ok(())
    });
    // ---- every fault at every operation
    let mut cases: Vec<(usize, u64, &'static str)> = vec![];
    for (ji, j) in jobs.iter().enumerate() {
        for (k, (c, _)) in j.ops.iter().enumerate() {
            let k = k as u64 + 1;
            cases.push((ji, k, "err"));
            cases.push((ji, k, "from"));
            if *c == 'r' || *c == 'w' {
                cases.push((ji, k, "eintr"));
                cases.push((ji, k, "short"));
                cases.push((ji, k, "half"));
            }
            if j.build {
                if *c != 'r' && *c != 'd' && *c != 'o' || thorough {
                    cases.push((ji, k, "exit"));
                }
                if *c == 'w' {
                    cases.push((ji, k, "torn"));
                }
            }
            if k == 1 || thorough {
                cases.push((ji, k, "all1"));
                cases.push((ji, k, "all7"));
            }
        }
    }
    let cases = &cases;
    run.family("faults", cases.len() as u64, |i, st| {
        let (ji, k, kind) = cases[i as usize];
        let j = &jobs[ji];
        let (o, t) = (top.join(format!("o-{i}")), traces.join(format!("t{i}")));
        j.prepare(&o);
        let r = j.run(&o, top, &Fault { at: k, kind, seed: None, trace: Some(&t) });
        let (sort, name) = &j.ops[k as usize - 1];
        let what = format!(
            "{}: operation {k} ({} {}), {}",
            j.name,
            match sort {
                'o' => "open",
                'c' => "create",
                'r' => "read",
                'w' => "write",
                'm' => "make directory",
                'd' => "list directory",
                _ => "rename or sync",
            },
            name,
            match kind {
                "err" => "fails",
                "from" => "and all later ones of its sort fail",
                "eintr" => "is interrupted",
                "short" => "transfers one byte",
                "half" => "transfers half of the bytes",
                "all1" => "and all later ones transfer at most one byte",
                "all7" => "and all later ones transfer at most seven bytes",
                "exit" => "is where the process ends",
                _ => "is where the process ends, half of the bytes written",
            }
        );
        let key = format!("fault:{}:{k}:{kind}", j.name);
        // the same operations up to the fault
        let tr = std::fs::read_to_string(&t).unwrap_or_default();
        let _ = std::fs::remove_file(&t);
        let reached = tr.lines().count() as u64;
        st.transitions += reached;
        st.states += 1;
        let on = format!("o-{i}");
        let same = reached >= k && tr.lines().take(k as usize).zip(&j.ops).all(|(l, op)| l.splitn(3, ' ').nth(2).unwrap_or("").replace(&on, "{o}") == op.1);
        st.traces += same as u64;
        let files = j.written(&o);
        let partial = matches!(kind, "short" | "half" | "all1" | "all7");
        let mut bad = None;
        match r.code {
            Some(0) => {
                if files != j.files {
                    bad = Some(format!("the tool reports success, but {}", differs(&j.files, &files)));
                } else if r.out != j.out {
                    bad = Some(format!("the tool reports success, but prints {} of {} bytes or others", r.out.len(), j.out.len()));
                }
            }
            Some(137) if kind == "exit" || kind == "torn" => {}
            _ if partial => bad = Some(format!("nothing failed, but exit {:?}: {}", r.code, r.err.chars().take(200).collect::<String>())),
            Some(101) if name == "<out>" => {}
            _ if refused(&r) => {}
            c => bad = Some(format!("exit {c:?}: {}", r.err.chars().take(200).collect::<String>())),
        }
        if bad.is_none() && !j.build && !j.out.starts_with(&r.out) {
            bad = Some(format!("what is printed ({} bytes) is no beginning of the right output", r.out.len()));
        }
        if bad.is_none() && j.build && r.code != Some(0) {
            // once more, undisturbed
            let r2 = j.run(&o, top, &NONE);
            let now = j.written(&o);
            st.states += 1;
            if r2.code != Some(0) || now != j.files {
                bad = Some(format!("a second build into the same directory: exit {:?}, {}", r2.code, differs(&j.files, &now)));
            }
        }
        let _ = std::fs::remove_dir_all(&o);
        st.nontrivial += (r.code != Some(0)) as u64;
        match bad {
            Some(b) => viol(key, format!("{what}: {b}"), json!({"args": j.args, "stderr": r.err})),
            None => Ok(()),
        }
    });
    // ---- hash seeds
    let seeds = run.b(12, 64);
    run.family("seeds of the hash tables", jobs.len() as u64 * seeds, |i, st| {
        let j = &jobs[(i / seeds) as usize];
        let o = top.join(format!("o-h{i}"));
        j.prepare(&o);
        let r = j.run(&o, top, &Fault { seed: Some(i % seeds + 1), ..NONE });
        let files = j.written(&o);
        let _ = std::fs::remove_dir_all(&o);
        st.states += 1;
        st.nontrivial += 1;
        if r.code != Some(0) || files != j.files || r.out != j.out {
            return viol(format!("seed:{}:{}", j.name, i % seeds), format!("{}: with other hash seeds exit {:?}, {}", j.name, r.code, differs(&j.files, &files)), json!({"stderr": r.err}));
        }
        Ok(())
    });
    orders(run);
    priors(run);
    histories(run);
    places(run, top);
}

/// Every order in which the files of the source were created.
fn orders(run: &mut Run) {
    let perms = permutations(6);
    let perms = &perms;
    run.family("orders of creation", perms.len() as u64 * 5, |i, st| {
        let (k, p) = (&KINDS[i as usize % 5], &perms[i as usize / 5]);
        let sc = Scratch::new();
        let (full, src, a, b) = (sc.0.join("full"), sc.0.join("src"), sc.0.join("a"), sc.0.join("b"));
        emb_src(k).write(k, &full);
        let words = emb_src(k).rows_text();
        // the same surfaces in three files with other costs
        for (n, c) in [("a.csv", 100), ("b.csv", 50), ("c.csv", 1)] {
            let t: String = words.lines().take(4).map(|l| {
                let mut f: Vec<String> = l.split(',').map(String::from).collect();
                f[3] = c.to_string();
                f.join(",") + "\n"
            }).collect();
            std::fs::write(full.join(n), dictkit::encode(k, &t)).unwrap();
        }
        let mut files: Vec<(String, Vec<u8>)> = dir_files(&full).into_iter().collect();
        if files.len() == 7 {
            // char.def, matrix.def, unk.def and three word files
            let w = files.iter().position(|(n, _)| n.ends_with(".csv") && n.len() > 5).unwrap();
            files.remove(w);
        }
        let _ = std::fs::remove_dir_all(&full);
        for (d, order) in [(&full, (0..6).collect::<Vec<_>>()), (&src, p.clone())] {
            std::fs::create_dir_all(d).unwrap();
            for x in order {
                std::fs::write(d.join(&files[x].0), &files[x].1).unwrap();
            }
        }
        let (ra, rb) = (build_dir(k, &full, &a), build_dir(k, &src, &b));
        st.states += 2;
        st.nontrivial += 1;
        let (fa, fb) = (dir_files(&a), dir_files(&b));
        if ra.is_err() || rb.is_err() || fa != fb || fa.is_empty() {
            return viol(format!("order:{}:{p:?}", k.as_str()), format!("{}: source files created in the order {p:?}: {ra:?}, {rb:?}, {}", k.as_str(), differs(&fa, &fb)), json!({}));
        }
        Ok(())
    });
}

/// Every subset of the output files, with other contents, before the build.
fn priors(run: &mut Run) {
    run.family("what the output directory held", 128 * 3 * 5, |i, st| {
        let d = digits(i, &[5, 3, 128]);
        let (k, how, set) = (&KINDS[d[0]], d[1], d[2]);
        let sc = Scratch::new();
        let (src, a, b) = (sc.0.join("src"), sc.0.join("a"), sc.0.join("b"));
        emb_src(k).write(k, &src);
        let source = dir_files(&src);
        let ra = build_dir(k, &src, &a);
        let fa = dir_files(&a);
        std::fs::create_dir_all(&b).unwrap();
        for (x, (n, bytes)) in fa.iter().enumerate() {
            if set >> x & 1 == 1 {
                let c = match how {
                    0 => vec![],
                    1 => bytes.iter().map(|b| b ^ 0x55).chain(std::iter::repeat(0x5a).take(5000)).collect(),
                    _ => bytes[..bytes.len() / 2].to_vec(),
                };
                std::fs::write(b.join(n), c).unwrap();
            }
        }
        std::fs::write(b.join("other.txt"), "mine").unwrap();
        let rb = build_dir(k, &src, &b);
        let mut fb = dir_files(&b);
        let other = fb.remove("other.txt");
        st.states += 2;
        st.nontrivial += 1;
        if ra.is_err() || rb.is_err() || fa != fb || other.as_deref() != Some(b"mine") || dir_files(&src) != source {
            return viol(format!("prior:{}:{how}:{set}", k.as_str()), format!("{}: building over old files ({how}, set {set:b}): {ra:?}, {rb:?}, {}", k.as_str(), differs(&fa, &fb)), json!({}));
        }
        Ok(())
    });
    run.family("what the user dictionary file held", 4 * 5 * 3, |i, st| {
        let d = digits(i, &[5, 4, 3]);
        let (k, how) = (&KINDS[d[0]], d[1]);
        let sc = Scratch::new();
        let (src, a, b) = (sc.0.join("u.csv"), sc.0.join("a.bin"), sc.0.join("b.bin"));
        std::fs::write(&src, ["百二十円,数,ヒャク\n".to_string(), String::new(), large_user(300)][d[2]].clone()).unwrap();
        let make = |o: &Path| guard(|| own_builder(k).build_user_dictionary(&src, o).map_err(|e| e.to_string())).and_then(|r| r);
        let ra = make(&a);
        let fa = std::fs::read(&a).unwrap_or_default();
        std::fs::write(&b, [vec![], vec![0xff; 200_000], fa[..fa.len() / 2].to_vec(), fa.iter().map(|b| !b).chain(0..9).collect()][how].clone()).unwrap();
        let rb = make(&b);
        st.states += 2;
        st.nontrivial += 1;
        if ra != rb || (ra.is_ok() && fa != std::fs::read(&b).unwrap()) {
            return viol(format!("prior-user:{i}"), format!("{}: building a user dictionary over an old file: {ra:?}, {rb:?}, {} and {} bytes", k.as_str(), fa.len(), std::fs::metadata(&b).map(|m| m.len()).unwrap_or(0)), json!({}));
        }
        Ok(())
    });
}

/// Every history of builds into one directory; what the last good one leaves.
fn histories(run: &mut Run) {
    let n = run.b(3, 4) as u32;
    let nsrc = sources().len().min(5) as u64 + 3;
    run.family("histories of builds into one directory", 5 * (1..=n).map(|l| nsrc.pow(l)).sum::<u64>(), |i, st| {
        let k = &KINDS[i as usize % 5];
        let mut x = i / 5;
        let mut len = 1;
        while x >= nsrc.pow(len) {
            x -= nsrc.pow(len);
            len += 1;
        }
        let hist: Vec<usize> = (0..len).map(|_| { let d = (x % nsrc) as usize; x /= nsrc; d }).collect();
        let sc = Scratch::new();
        let write = |h: usize, d: &Path| match h {
            0 => emb_src(k).write(k, d),
            1 => large_src(k, 60).write(k, d),
            2 => {
                // a bad last line of the connection table
                emb_src(k).write(k, d);
                let m = d.join("matrix.def");
                let mut b = std::fs::read(&m).unwrap();
                b.extend(b"0 0 x\n");
                std::fs::write(&m, b).unwrap();
            }
            _ => (sources()[h - 3].1)(k, d),
        };
        let o = sc.0.join("o");
        let mut last = None;
        for (n, h) in hist.iter().enumerate() {
            let src = sc.0.join(format!("s{n}"));
            write(*h, &src);
            last = Some((build_dir(k, &src, &o), src));
            st.transitions += 1;
        }
        let (r, src) = last.unwrap();
        let f = sc.0.join("f");
        let rf = build_dir(k, &src, &f);
        st.states += 1;
        let (fo, ff) = (dir_files(&o), dir_files(&f));
        let names = |r: &Result<(), String>| r.as_ref().err().map(|e| e.replace(&sc.0.display().to_string(), "")).is_some();
        if names(&r) != names(&rf) || (r.is_ok() && fo != ff) {
            return viol(format!("history:{}:{hist:?}", k.as_str()), format!("{}: the build after {:?}: {r:?}, fresh: {rf:?}, {}", k.as_str(), &hist[..hist.len() - 1], differs(&ff, &fo)), json!({"history": hist}));
        }
        st.nontrivial += r.is_ok() as u64;
        Ok(())
    });
}

/// Spellings of the source and output directories.
fn places(run: &mut Run, top: &Path) {
    let names = ["d", "d d", "辞書", "d[1]", "[d]", "d*", "d?", "{d}", "d!", "d\\x", "-d", "d.csv", ".d", "d,e", "d'e", "d\"e", "d%20", "~d", "$d", "d#", "**", "[", "]", "[!d]", "d\ne", "\u{301}d"];
    let names = &names;
    run.family("names of directories", names.len() as u64 * 5 * 4, |i, st| {
        let d = digits(i, &[5, 4, names.len() as u64]);
        let (k, place, name) = (&KINDS[d[0]], d[1], names[d[2]]);
        let sc = Scratch::new();
        let (plain, po) = (sc.0.join("plain"), sc.0.join("po"));
        emb_src(k).write(k, &plain);
        let ra = build_dir(k, &plain, &po);
        let fa = dir_files(&po);
        let src = sc.0.join(if place == 2 { "plain" } else { name });
        if place != 2 {
            emb_src(k).write(k, &src);
        }
        // a sibling which a pattern could also reach
        let sib = sc.0.join("d1");
        if !sib.exists() {
            large_src(k, 20).write(k, &sib);
        }
        let out = match place {
            0 => sc.0.join("out"),
            1 => src.clone(), // into the source directory
            2 => sc.0.join("deep").join(name).join("er"),
            _ => sc.0.join("out"),
        };
        let source = dir_files(&src);
        let rb = if place == 3 {
            // as a relative path, through the command line
            let o = run_faulty(&[s("build"), format!("--dic-type={}", k.as_str()), format!("./{name}"), s("./out/")], None, top, Some(&sc.0), &NONE);
            if o.code == Some(0) { Ok(()) } else { Err(format!("exit {:?}: {}", o.code, o.err)) }
        } else {
            build_dir(k, &src, &out)
        };
        let mut fb = dir_files(&out);
        let mut after = dir_files(&src);
        if place == 1 {
            fb.retain(|n, _| !source.contains_key(n));
            after.retain(|n, _| source.contains_key(n));
        }
        st.states += 2;
        st.nontrivial += 1;
        if ra.is_err() || rb.is_err() || fa != fb || after != source {
            return viol(format!("place:{}:{place}:{name:?}", k.as_str()), format!("{}: source or output directory named {name:?} ({place}): {rb:?}, {}", k.as_str(), differs(&fa, &fb)), json!({}));
        }
        if place != 3 {
            // and the dictionary can be used from there
            match dictkit::load_dir(&out) {
                Ok(_) => {}
                Err(e) => return viol(format!("place-load:{}:{place}:{name:?}", k.as_str()), format!("{}: dictionary in a directory named {name:?}: {e}", k.as_str()), json!({})),
            }
        }
        Ok(())
    });
    run.family("spellings of paths", 7 * 5, |i, st| {
        let (k, how) = (&KINDS[i as usize % 5], i / 5);
        let sc = Scratch::new();
        let (src, po) = (sc.0.join("in"), sc.0.join("po"));
        emb_src(k).write(k, &src);
        let ra = build_dir(k, &src, &po);
        let (a, b, cwd) = match how {
            0 => (s("in"), s("out"), sc.0.clone()),
            1 => (s("in/"), s("out//"), sc.0.clone()),
            2 => (s("../in"), s("../out"), { let c = sc.0.join("c"); std::fs::create_dir(&c).unwrap(); c }),
            3 => (s("."), s("../out"), src.clone()),
            4 => {
                std::os::unix::fs::symlink(&src, sc.0.join("l")).unwrap();
                (s("l"), s("out"), sc.0.clone())
            }
            5 => {
                std::fs::create_dir(sc.0.join("out")).unwrap();
                std::os::unix::fs::symlink(sc.0.join("out"), sc.0.join("lo")).unwrap();
                (s("in"), s("lo"), sc.0.clone())
            }
            _ => {
                // every source file is a link
                let l = sc.0.join("links");
                std::fs::create_dir(&l).unwrap();
                for n in dir_files(&src).keys() {
                    std::os::unix::fs::symlink(src.join(n), l.join(n)).unwrap();
                }
                (s("links"), s("out"), sc.0.clone())
            }
        };
        let o = run_faulty(&[s("build"), s("-t"), s(k.as_str()), a.clone(), b.clone()], None, top, Some(&cwd), &NONE);
        let (fa, fb) = (dir_files(&po), dir_files(&sc.0.join("out")));
        st.states += 2;
        st.nontrivial += 1;
        if ra.is_err() || o.code != Some(0) || fa != fb {
            return viol(format!("spelling:{}:{how}", k.as_str()), format!("{}: lindera build {a} {b}: exit {:?}, {}, {}", k.as_str(), o.code, o.err.chars().take(200).collect::<String>(), differs(&fa, &fb)), json!({}));
        }
        Ok(())
    });
}
