//! Histories. Each tree node is a process that has executed exactly the operations on the path
//! to it (the process is forked at every branching point), so that state kept anywhere in the
//! process belongs to that history alone.
use crate::fw::guard;
use crate::objects::*;
use lindera_filter::character_filter::{BoxCharacterFilter, CharacterFilter};
use lindera_filter::token::Token as FToken;
use lindera_filter::token_filter::{BoxTokenFilter, TokenFilter};
use lindera_core::error::LinderaErrorKind;
use lindera_core::LinderaResult;
use lindera_analyzer::analyzer::Analyzer;
use lindera_tokenizer::token::Token;
use lindera_tokenizer::tokenizer::Tokenizer;
use std::collections::HashMap;
use std::path::{Path, PathBuf};

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn write(fd: i32, p: *const u8, n: usize) -> isize;
    pub fn alarm(s: u32) -> u32;
}
pub fn say(s: &str) {
    let mut s: String = s.chars().take(1200).collect();
    s = s.replace('\n', " | ");
    s.push('\n');
    unsafe {
        write(1, s.as_ptr(), s.len());
    }
}
/// Runs `f` in a forked copy of this process.
pub fn forked(f: impl FnOnce()) -> i32 {
    unsafe {
        let p = fork();
        if p == 0 {
            let ok = guard(f).is_ok();
            _exit(if ok { 0 } else { 9 });
        }
        if p < 0 {
            return 0x900;
        }
        let mut st = 0;
        waitpid(p, &mut st, 0);
        st
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    Orig,
    /// a clone made for the call
    Clone,
    /// a clone made at the first such call and kept
    Kept,
    /// a new instance from the configuration, dropped after the call
    Fresh,
    /// details are not asked yet
    Later,
    /// a copy of the object whose last filter fails / panics; the call fails
    Failing,
    Panicking,
    /// one object of the process whose public fields are set to the configuration for the call
    Set,
}
#[derive(Clone, Copy, Debug)]
pub enum Op {
    Call { conf: usize, text: usize, via: Via },
    /// the details of all tokens kept so far, last token first, each twice
    AskKept,
}
pub fn ops_of(set: &str) -> Vec<Op> {
    let mut v = vec![];
    let mut add = |confs: &[usize], texts: &[usize], vias: &[Via]| {
        for &conf in confs {
            for &text in texts {
                for &via in vias {
                    if via == Via::Later && is_analyzer(conf) || matches!(via, Via::Failing | Via::Panicking) && !is_analyzer(conf) {
                        continue;
                    }
                    v.push(Op::Call { conf, text, via });
                }
            }
        }
    };
    use Via::*;
    match set {
        "wide" => {
            add(&[0, 1, 2, 3, 4, 5, 6, 7], &[0, 3, 5, 9], &[Orig, Fresh, Clone]);
            add(&[0, 1, 2, 3, 6], &[2, 4, 7, 8], &[Orig, Later, Kept]);
            add(&[4, 5, 7], &[1, 2, 7, 11, 12], &[Orig, Kept, Failing, Panicking]);
            add(&[8, 9], &[6, 10], &[Orig, Fresh, Later]);
            add(&[0, 1, 2, 3, 6], &[0, 5], &[Set]);
            add(&[8, 9], &[10], &[Set]);
            add(&[4, 5, 7], &[3, 7], &[Set]);
        }
        "all" => add(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], &[Orig, Clone, Kept, Fresh, Later, Failing, Panicking, Set]),
        "middle" => {
            add(&[0, 2, 3, 4, 7], &[0, 3], &[Orig, Kept]);
            add(&[0, 2, 3], &[0, 6], &[Later]);
            add(&[1, 5, 6], &[0], &[Orig]);
            add(&[4, 5], &[0], &[Failing, Panicking]);
            add(&[4], &[0], &[Fresh]);
            add(&[8, 9], &[10], &[Orig]);
        }
        "set" => {
            add(&[0, 1, 2, 3, 6], &[0], &[Set]);
            add(&[8, 9], &[10], &[Set]);
            add(&[4, 5, 7], &[3], &[Set]);
            add(&[0], &[0], &[Orig, Kept]);
        }
        "deep" => {
            add(&[0, 2, 3], &[0, 6], &[Orig]);
            add(&[2], &[0], &[Later]);
            add(&[4], &[0], &[Kept]);
        }
        _ => add(&[0, 3], &[0, 6], &[Orig]),
    }
    v.push(Op::AskKept);
    v
}
pub fn op_text(o: &Op) -> String {
    match o {
        Op::AskKept => "ask the kept tokens for their details".into(),
        Op::Call { conf, text, via } => format!("configuration {conf} ({via:?}): {:?}", TEXTS[*text]),
    }
}

#[derive(Clone)]
struct Bad(bool);
impl CharacterFilter for Bad {
    fn name(&self) -> &str {
        "bad"
    }
    fn apply(&self, _: &str) -> LinderaResult<(String, Vec<usize>, Vec<i64>)> {
        if self.0 {
            panic!("a custom filter panics");
        }
        Err(LinderaErrorKind::Content.with_error(std::fmt::Error))
    }
}
impl TokenFilter for Bad {
    fn name(&self) -> &str {
        "bad"
    }
    fn apply(&self, _: &mut Vec<FToken>) -> LinderaResult<()> {
        if self.0 {
            panic!("a custom filter panics");
        }
        Err(LinderaErrorKind::Content.with_error(std::fmt::Error))
    }
}

pub struct Ctx {
    dir: PathBuf,
    orig: HashMap<usize, &'static Obj>,
    kept: HashMap<usize, &'static Obj>,
    tokens: Vec<(usize, usize, Vec<Token<'static>>)>,
    set_t: Option<Tokenizer>,
    set_a: Option<Analyzer>,
    /// results of each call as the only one of a process
    refs: HashMap<(usize, usize), (String, String)>,
}
fn without_details(s: &str) -> String {
    s.lines().map(|l| l.split(" Some(").next().unwrap().split(" None").next().unwrap().to_string() + " -\n").collect()
}
impl Ctx {
    fn new(dir: &Path) -> Ctx {
        Ctx { dir: dir.into(), orig: HashMap::new(), kept: HashMap::new(), tokens: vec![], set_t: None, set_a: None, refs: HashMap::new() }
    }
    fn orig(&mut self, c: usize) -> &'static Obj {
        let d = self.dir.clone();
        self.orig.entry(c).or_insert_with(|| Box::leak(Box::new(load(&d, c))))
    }
    /// Executes an operation; Err((got, expected)).
    fn exec(&mut self, op: &Op) -> Result<(), (String, String)> {
        match op {
            Op::Call { conf, text, via } => {
                let t = TEXTS[*text];
                let want = self.refs[&(*conf, *text)].clone();
                let got = match via {
                    Via::Orig => self.orig(*conf).call(t),
                    Via::Clone => {
                        let o = self.orig(*conf).clone();
                        o.call(t)
                    }
                    Via::Kept => {
                        let o = self.orig(*conf);
                        let k: &'static Obj = self.kept.entry(*conf).or_insert_with(|| Box::leak(Box::new(o.clone())));
                        k.call(t)
                    }
                    Via::Set => match load(&self.dir, *conf) {
                        Obj::T(n) => {
                            let o = match self.set_t.take() {
                                None => n,
                                Some(mut o) => {
                                    o.dictionary = n.dictionary;
                                    o.user_dictionary = n.user_dictionary;
                                    o.mode = n.mode;
                                    o
                                }
                            };
                            let w = Obj::T(o);
                            let r = w.call(t);
                            if let Obj::T(x) = w {
                                self.set_t = Some(x);
                            }
                            r
                        }
                        Obj::A(n) => {
                            let o = match self.set_a.take() {
                                None => n,
                                Some(mut o) => {
                                    o.character_filters = n.character_filters;
                                    o.tokenizer.dictionary = n.tokenizer.dictionary;
                                    o.tokenizer.user_dictionary = n.tokenizer.user_dictionary;
                                    o.tokenizer.mode = n.tokenizer.mode;
                                    o.token_filters = n.token_filters;
                                    o
                                }
                            };
                            let w = Obj::A(o);
                            let r = w.call(t);
                            if let Obj::A(x) = w {
                                self.set_a = Some(x);
                            }
                            r
                        }
                    },
                    Via::Fresh => load(&self.dir, *conf).call(t),
                    Via::Later => {
                        let o = self.orig(*conf);
                        let r = guard(|| o.tokenizer().tokenize(t).map_err(|e| e.to_string())).and_then(|r| r);
                        match r {
                            Ok(mut v) => {
                                let s: String = v.iter_mut().map(|t| show_token(t, false)).collect();
                                self.tokens.push((*conf, *text, v));
                                if s != want.1 {
                                    return Err((s, want.1));
                                }
                                return Ok(());
                            }
                            Err(e) => return Err((e, want.1)),
                        }
                    }
                    Via::Failing | Via::Panicking => {
                        let mut o = self.orig(*conf).clone();
                        if let Obj::A(a) = &mut o {
                            let b = Bad(*via == Via::Panicking);
                            if text % 2 == 0 {
                                a.token_filters.insert(2.min(a.token_filters.len()), BoxTokenFilter::from(b));
                            } else {
                                a.character_filters.insert(2.min(a.character_filters.len()), BoxCharacterFilter::from(b));
                            }
                        }
                        let s = o.call(t);
                        if !s.starts_with("error") && !s.starts_with("panic: a custom filter panics") {
                            return Err((s, "the failure of the custom filter".into()));
                        }
                        return Ok(());
                    }
                };
                if got != want.0 {
                    return Err((got, want.0));
                }
                Ok(())
            }
            Op::AskKept => {
                for (c, t, v) in self.tokens.iter_mut().rev() {
                    let mut lines: Vec<String> = vec![];
                    for t in v.iter_mut().rev() {
                        let a = show_token(t, true);
                        let b = show_token(t, true);
                        if a != b {
                            return Err((b, a));
                        }
                        lines.push(a);
                    }
                    lines.reverse();
                    let got = lines.concat();
                    let want = &self.refs[&(*c, *t)].0;
                    if got != *want {
                        return Err((got, want.clone()));
                    }
                }
                Ok(())
            }
        }
    }
}
fn explore(ctx: &mut Ctx, ops: &[Op], path: &mut Vec<usize>, depth: usize, first: Option<usize>) {
    for (i, op) in ops.iter().enumerate() {
        if first.is_some_and(|f| f != i) {
            continue;
        }
        path.push(i);
        let st = forked(|| {
            unsafe { alarm(120) };
            let r = guard(|| ctx.exec(op));
            unsafe { alarm(0) };
            match r {
                Ok(Ok(())) => {
                    if depth > 1 {
                        explore(ctx, ops, path, depth - 1, None);
                    }
                }
                Ok(Err((got, want))) => report(path, ops, &got, &want),
                Err(p) => report(path, ops, &format!("panic: {p}"), ""),
            }
        });
        if st != 0 {
            report(path, ops, &format!("the process ended with status {st:#x}"), "");
        }
        path.pop();
    }
}
fn report(path: &[usize], ops: &[Op], got: &str, want: &str) {
    let h: Vec<String> = path.iter().map(|i| op_text(&ops[*i])).collect();
    let c = |s: &str| s.chars().take(300).collect::<String>();
    say(&format!("V\t{}\t{}\t{}", h.join(" ; "), c(got), c(want)));
}

/// The result of a call as the first and only call of a process.
pub fn reference(dir: &Path, conf: usize, text: usize) -> String {
    let f = dir.join(format!("ref-{}-{conf}-{text}", std::process::id()));
    forked(|| {
        let o = load(dir, conf);
        std::fs::write(&f, o.call(TEXTS[text])).unwrap();
    });
    let s = std::fs::read_to_string(&f).unwrap_or_else(|_| "no result".into());
    let _ = std::fs::remove_file(&f);
    s
}

/// tree <dir> <operation set> <depth> <first operation>
pub fn serve(a: &[String]) {
    crate::fw::install_panic_hook();
    let dir = PathBuf::from(&a[0]);
    let ops = ops_of(&a[1]);
    let mut ctx = Ctx::new(&dir);
    for c in 0..NCONF {
        for t in 0..TEXTS.len() {
            if ops.iter().any(|o| matches!(o, Op::Call { conf, text, .. } if *conf == c && *text == t)) {
                let r = reference(&dir, c, t);
                let w = without_details(&r);
                ctx.refs.insert((c, t), (r, w));
            }
        }
    }
    explore(&mut ctx, &ops, &mut vec![], a[2].parse().unwrap(), Some(a[3].parse().unwrap()));
    say("END");
}

/// Texts of the long histories.
pub fn long_text(kind: usize, i: u64) -> String {
    const CH: &[&str] = &["百", "二十", "円", "会社", "株式会社", "x", "走った", "。", "カタカナー", "壱"];
    match kind {
        0 => crate::fw::nth_text(i, CH),
        // every length
        _ => ["百x円", "壱", "会社。"][(i % 3) as usize].chars().cycle().take((i / 3) as usize).collect(),
    }
}
/// long <dir> <conf> <kind> <n> <order> <out>: a long history on one object, its clone or new
/// objects; the hash of every result. Each text is asked twice.
pub fn long(a: &[String]) {
    use std::hash::{Hash, Hasher};
    crate::fw::install_panic_hook();
    let dir = PathBuf::from(&a[0]);
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (conf, kind, n, order) = (n(1) as usize, n(2) as usize, n(3), n(4));
    let o = load(&dir, conf);
    let other = load(&dir, (conf + 3) % NCONF);
    let mut seen: Vec<u64> = vec![0; n as usize];
    let mut visit = |i: u64, o: &Obj| {
        let t = long_text(kind, i);
        let s = o.call(&t);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        let h = h.finish() | 1;
        let e = &mut seen[i as usize];
        if *e == 0 {
            *e = h;
        } else if *e != h {
            say(&format!("V\t{t}\t{s}"));
        }
    };
    match order {
        0 => {
            for i in 0..n {
                visit(i, &o);
            }
            for i in 0..n {
                visit(i, &o);
            }
        }
        1 => {
            for i in (0..n).rev() {
                visit(i, &o);
            }
            let c = o.clone();
            for i in 0..n {
                visit(i, &c);
            }
        }
        2 => {
            // another object of another configuration sees every text first
            for i in 0..n {
                let _ = other.call(&long_text(kind, i));
                visit(i, &o);
                visit(n - 1 - i, &o);
            }
        }
        _ => {
            // every pair of texts in succession (small n)
            for i in 0..n {
                for j in 0..n {
                    visit(i, &o);
                    visit(j, &o);
                }
            }
        }
    }
    let b: Vec<u8> = seen.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(&a[5], b).unwrap();
    say("END");
}
