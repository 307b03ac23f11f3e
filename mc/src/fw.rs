//! Exploration framework: exhaustive families of numbered cases, run on all cores, with a
//! watchdog for non-termination, counters, replay files, known findings and evidence.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(true) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit("/registry/src/").next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} [{loc}]"));
    }));
}

/// Runs the code under test; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// A violated property: `key` names the specific input or history that fails.
#[derive(Debug)]
pub struct Viol {
    pub key: String,
    pub what: String,
    pub detail: Value,
}
pub type Res = Result<(), Viol>;

pub fn viol<T>(key: impl Into<String>, what: impl Into<String>, detail: Value) -> Result<T, Viol> {
    Err(Viol { key: key.into(), what: what.into(), detail })
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub extra: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.extra.entry(k).or_insert(0) += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.nontrivial += o.nontrivial;
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, v) in o.extra {
            *self.extra.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Slot {
    busy: AtomicBool,
    idx: AtomicU64,
    since_ms: AtomicU64,
}

struct Shared {
    family: Mutex<String>,
    slots: Vec<Slot>,
    t0: Instant,
    limit_ms: AtomicU64,
}

pub struct Run {
    pub prop: String,
    pub tier: Tier,
    pub replay: Option<(String, u64)>,
    pub only_family: Option<String>,
    threads: usize,
    t0: Instant,
    pub total: Stats,
    families: Vec<Value>,
    findings: Vec<(String, String)>, // known (key, what)
    known_hit: BTreeMap<String, String>,
    violations: Vec<(String, u64, Viol)>,
    shared: std::sync::Arc<Shared>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub level: &'static str,
    replay_hit: bool,
}

const MAX_VIOL: usize = 3;

impl Run {
    pub fn new(prop: &str, tier: Tier, replay: Option<(String, u64)>) -> Run {
        let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
        });
        let mut findings = vec![];
        if let Ok(s) = std::fs::read_to_string(root().join("known_findings.jsonl")) {
            for l in s.lines().filter(|l| !l.trim().is_empty()) {
                let v: Value = serde_json::from_str(l).expect("known_findings.jsonl");
                if v["property"] == prop && v["status"] == "known" {
                    findings.push((
                        v["key"].as_str().unwrap().to_string(),
                        v["what"].as_str().unwrap_or("").to_string(),
                    ));
                }
            }
        }
        let shared = std::sync::Arc::new(Shared {
            family: Mutex::new(String::new()),
            slots: (0..threads)
                .map(|_| Slot { busy: AtomicBool::new(false), idx: AtomicU64::new(0), since_ms: AtomicU64::new(0) })
                .collect(),
            t0: Instant::now(),
            limit_ms: AtomicU64::new(60_000),
        });
        let run = Run {
            prop: prop.into(),
            tier,
            replay,
            only_family: std::env::var("MC_FAMILY").ok(),
            threads,
            t0: Instant::now(),
            total: Stats::default(),
            families: vec![],
            findings,
            known_hit: BTreeMap::new(),
            violations: vec![],
            shared: shared.clone(),
            rule: String::new(),
            assumptions: vec![],
            level: "model_checking",
            replay_hit: false,
        };
        let p = prop.to_string();
        let is_replay = run.replay.is_some();
        std::thread::spawn(move || watchdog(shared, p, is_replay));
        run
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Chooses a bound by tier.
    pub fn b<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() { quick } else { thorough }
    }
    pub fn case_limit_s(&self, s: u64) {
        self.shared.limit_ms.store(s * 1000, SeqCst);
    }

    /// Runs cases 0..n of a family. Every case is executed: nothing is sampled.
    pub fn family<F>(&mut self, name: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Stats) -> Res + Sync,
    {
        if let Some(of) = &self.only_family {
            if !name.contains(of.as_str()) {
                return;
            }
        }
        let (lo, hi) = match &self.replay {
            Some((fam, idx)) => {
                if fam != name {
                    return;
                }
                self.replay_hit = true;
                (*idx, *idx + 1)
            }
            None => (0, n),
        };
        if self.violations.len() >= MAX_VIOL {
            return;
        }
        let t = Instant::now();
        *self.shared.family.lock().unwrap() = name.to_string();
        let next = AtomicU64::new(lo);
        let chunk = ((hi - lo) / (self.threads as u64 * 32)).clamp(1, 4096);
        let stop = AtomicBool::new(false);
        let out: Mutex<Vec<(u64, Viol)>> = Mutex::new(vec![]);
        let known: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
        let total: Mutex<Stats> = Mutex::new(Stats::default());
        let findings = &self.findings;
        let shared = &self.shared;
        std::thread::scope(|s| {
            for th in 0..self.threads.min(((hi - lo) as usize).max(1)) {
                let (next, stop, out, total, f, known) = (&next, &stop, &out, &total, &f, &known);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let slot = &shared.slots[th];
                        let mut st = Stats::default();
                        loop {
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= hi || stop.load(SeqCst) {
                                break;
                            }
                            for i in a..(a + chunk).min(hi) {
                                slot.idx.store(i, SeqCst);
                                slot.since_ms.store(shared.t0.elapsed().as_millis() as u64, SeqCst);
                                slot.busy.store(true, SeqCst);
                                st.evals += 1;
                                let r = match guard(|| f(i, &mut st)) {
                                    Ok(r) => r,
                                    Err(p) => viol(
                                        format!("{name}#{i}"),
                                        format!("the code under test panicked: {p}"),
                                        json!({}),
                                    ),
                                };
                                slot.busy.store(false, SeqCst);
                                if let Err(v) = r {
                                    if let Some((_, what)) = findings.iter().find(|(k, _)| *k == v.key) {
                                        known.lock().unwrap().insert(v.key.clone(), what.clone());
                                    } else {
                                        let mut o = out.lock().unwrap();
                                        o.push((i, v));
                                        let max = std::env::var("MC_MAX_VIOL").ok().and_then(|s| s.parse().ok()).unwrap_or(MAX_VIOL);
                                        if o.len() >= max {
                                            stop.store(true, SeqCst);
                                        }
                                    }
                                }
                                if stop.load(SeqCst) {
                                    break;
                                }
                            }
                        }
                        total.lock().unwrap().merge(st);
                    })
                    .unwrap();
            }
        });
        let mut st = total.into_inner().unwrap();
        st.samples.truncate(2);
        for s in st.samples.iter_mut() {
            *s = json!({"family": name, "case": s.clone()});
        }
        self.families.push(json!({"family": name, "cases": n, "executed": st.evals, "complete": st.evals == n,
            "nontrivial": st.nontrivial, "wall_s": (t.elapsed().as_secs_f64()*1000.0).round()/1000.0}));
        let mut v = out.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        for (i, x) in v {
            self.violations.push((name.to_string(), i, x));
        }
        self.known_hit.extend(known.into_inner().unwrap());
        self.total.merge(st);
    }

    /// Writes evidence, reports, and returns the exit code.
    pub fn finish(mut self) -> i32 {
        if self.replay.is_some() && !self.replay_hit {
            println!("replay: no such family in this tier");
            return 2;
        }
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let exhaustive = self.families.iter().all(|f| f["complete"] == true);
        let mut cov = serde_json::Map::new();
        let t = &self.total;
        // the first four samples, spread over families
        let mut samples = vec![];
        let step = (t.samples.len() / 6).max(1);
        for s in t.samples.iter().step_by(step).take(8) {
            samples.push(s.clone());
        }
        cov.insert("evaluations".into(), json!(t.evals));
        cov.insert("distinct_nontrivial".into(), json!(t.nontrivial));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(samples));
        cov.insert("exhaustive".into(), json!(exhaustive));
        if self.level == "model_checking" {
            cov.insert("states".into(), json!(t.states));
            cov.insert("transitions".into(), json!(t.transitions));
            cov.insert("traces_validated_against_impl".into(), json!(t.traces));
        }
        for (k, v) in &t.extra {
            cov.insert(k.to_string(), json!(v));
        }
        cov.insert("families".into(), json!(self.families));
        let tier = match self.tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        };
        let ev = json!({"property": self.prop, "tier": tier, "seed": seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions, "wall_s": self.t0.elapsed().as_secs_f64(),
            "violations": self.violations.len(), "known_findings_seen": self.known_hit.len()});
        if self.replay.is_none() && self.only_family.is_none() {
            let dir = root().join("evidence");
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
            // a listed finding that no longer occurs is worth knowing, but is not an alarm
            for (k, _) in &self.findings {
                if !self.known_hit.contains_key(k) {
                    println!("note: listed finding not seen in this run: {k}");
                }
            }
        }
        for (k, what) in &self.known_hit {
            println!("KNOWN-FINDING: property={} {} ({})", self.prop, what, k);
        }
        println!(
            "{} {}: {} cases, {} non-trivial, {} states, {} transitions, {} traces, {:.1}s{}",
            self.prop, tier, t.evals, t.nontrivial, t.states, t.transitions, t.traces,
            self.t0.elapsed().as_secs_f64(), if exhaustive { "" } else { " (stopped early)" }
        );
        if std::env::var("MC_VERBOSE").is_ok() {
            for f in &self.families {
                println!("  {}", f);
            }
        }
        if self.violations.is_empty() {
            return 0;
        }
        for (fam, i, v) in std::mem::take(&mut self.violations) {
            report(&self.prop, tier, &fam, i, &v, self.replay.is_some());
        }
        1
    }
}

pub fn report(prop: &str, tier: &str, fam: &str, idx: u64, v: &Viol, is_replay: bool) {
    let dir = root().join("out");
    let _ = std::fs::create_dir_all(&dir);
    let safe: String = fam.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
    let path = dir.join(format!("{prop}-{safe}-{idx}.json"));
    let body = json!({"property": prop, "tier": tier, "family": fam, "case": idx, "key": v.key, "what": v.what, "detail": v.detail,
        "how": format!("/verif/check.sh replay {}", path.display())});
    if !is_replay {
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap() + "\n");
    }
    println!("{} [{}#{}] key={}", shortened(&v.what), fam, idx, shortened(&v.key));
    println!("VIOLATION property={} replay={}", prop, path.display());
    let _ = std::io::stdout().flush();
}

/// What is printed of a text; the replay file has all of it.
fn shortened(s: &str) -> String {
    match s.char_indices().nth(1500) {
        Some((i, _)) => format!("{}… ({} bytes in all)", &s[..i], s.len()),
        None => s.to_string(),
    }
}

fn rss_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4096
}

fn watchdog(sh: std::sync::Arc<Shared>, prop: String, is_replay: bool) {
    loop {
        std::thread::sleep(Duration::from_millis(100));
        let now = sh.t0.elapsed().as_millis() as u64;
        let mut worst: Option<(u64, u64)> = None;
        for s in &sh.slots {
            if s.busy.load(SeqCst) {
                let since = s.since_ms.load(SeqCst);
                let d = now.saturating_sub(since);
                if worst.map_or(true, |w| d > w.0) {
                    worst = Some((d, s.idx.load(SeqCst)));
                }
            }
        }
        if let Some((d, idx)) = worst {
            let mem = rss_bytes();
            let what = if d > sh.limit_ms.load(SeqCst) {
                format!("the code under test did not finish within {} s", d / 1000)
            } else if mem > 16 << 30 {
                format!("the code under test used {} MB of memory without finishing", mem >> 20)
            } else {
                continue;
            };
            let fam = sh.family.lock().unwrap().clone();
            let v = Viol { key: format!("{fam}#{idx}:hang"), what, detail: json!({"note": "non-termination; replay runs the case again"}) };
            report(&prop, "quick", &fam, idx, &v, is_replay);
            std::process::exit(1);
        }
    }
}

/// Scratch directory removed on drop.
pub struct Scratch(pub PathBuf);
static SEQ: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let base = std::env::var("MC_SCRATCH").unwrap_or_else(|_| "/dev/shm".into());
        let base = if std::path::Path::new(&base).is_dir() { PathBuf::from(base) } else { std::env::temp_dir() };
        let p = base.join(format!("lindera-mc-{}-{}", std::process::id(), SEQ.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---- enumeration helpers -------------------------------------------------------------

/// Number of strings over `k` symbols of length 0..=n.
pub fn strings_upto(k: u64, n: u32) -> u64 {
    (0..=n).map(|l| k.pow(l)).sum()
}
/// The idx-th string (as symbol indices) in length-lexicographic order.
pub fn nth_string(mut idx: u64, k: u64, out: &mut Vec<usize>) {
    out.clear();
    let mut len = 0u32;
    while idx >= k.pow(len) {
        idx -= k.pow(len);
        len += 1;
    }
    for _ in 0..len {
        out.push((idx % k) as usize);
        idx /= k;
    }
    out.reverse();
}
pub fn nth_text(idx: u64, alphabet: &[&str]) -> String {
    let mut v = vec![];
    nth_string(idx, alphabet.len() as u64, &mut v);
    v.iter().map(|&i| alphabet[i]).collect()
}
/// Mixed-radix digits of idx.
pub fn digits(mut idx: u64, radices: &[u64]) -> Vec<usize> {
    radices
        .iter()
        .map(|&r| {
            let d = idx % r;
            idx /= r;
            d as usize
        })
        .collect()
}
pub fn product(radices: &[u64]) -> u64 {
    radices.iter().product()
}
/// All permutations of 0..n, in order.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == used.len() {
            out.push(cur.clone());
            return;
        }
        for i in 0..used.len() {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                rec(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = vec![];
    rec(&mut vec![], &mut vec![false; n], &mut out);
    out
}

// ---- command line of the checks ----
/// Runs the exploration in a child process so that an abort of the code under test
/// (stack overflow, allocation failure) is reported as a violation.
fn supervise(args: &[String], prop: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let st = std::process::Command::new(std::env::current_exe().unwrap()).args(args).env("MC_CHILD", "1").status().expect("spawn");
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    if sig == 15 || sig == 2 {
        return 2;
    }
    let v = Viol { key: format!("{prop}:abort"), what: format!("the code under test killed the process (signal {sig})"), detail: json!({}) };
    report(prop, "quick", "process abort", 0, &v, false);
    1
}

pub fn main_with(dispatch: fn(&mut Run) -> bool) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut replay = None;
    let (prop, tier);
    if args.first().map(|s| s.as_str()) == Some("replay") {
        let v: Value = serde_json::from_slice(&std::fs::read(&args[1]).expect("replay file")).expect("replay json");
        prop = v["property"].as_str().unwrap().to_string();
        tier = v["tier"].as_str().unwrap_or("quick").to_string();
        replay = Some((v["family"].as_str().unwrap().to_string(), v["case"].as_u64().unwrap()));
    } else {
        prop = args[0].clone();
        tier = args.get(1).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    }
    if std::env::var("MC_CHILD").is_err() {
        std::process::exit(supervise(&args, &prop));
    }
    install_panic_hook();
    let mut run = Run::new(&prop, if tier == "thorough" { Tier::Thorough } else { Tier::Quick }, replay);
    if !dispatch(&mut run) {
        eprintln!("no such check: {prop}");
        std::process::exit(2);
    }
    let code = run.finish();
    std::process::exit(code);
}
