//! Schedules of two concurrent calls. The project's crates call back at every basic block, load
//! and store, and every allocation is a call back too; the scheduler lets one thread run at a
//! time and switches where the schedule says. Every schedule runs in a forked process of its own.
use crate::objects::*;
use crate::tree::{forked, reference, say};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

/// A place where a thread gives way: its n-th block or store, its n-th allocation, or its n-th
/// block, store or load.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Step,
    Alloc,
    Access,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct At {
    pub kind: Kind,
    pub n: u64,
}
struct Ctl {
    id: usize,
    busy: Cell<bool>,
    /// steps, allocations, accesses so far
    n: [Cell<u64>; 3],
    plan: Vec<At>,
    pos: Cell<usize>,
    record: bool,
    /// address and 1 if a store, point number
    log: std::cell::UnsafeCell<Vec<(usize, bool, u64)>>,
}
thread_local! {
    static ME: Cell<*const Ctl> = const { Cell::new(std::ptr::null()) };
}
static TURN: AtomicUsize = AtomicUsize::new(0);
static DONE: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];
static TID: [AtomicI64; 2] = [AtomicI64::new(0), AtomicI64::new(0)];
static LEAK: AtomicBool = AtomicBool::new(false);
static SWITCHES: AtomicUsize = AtomicUsize::new(0);
static BLOCKED: AtomicUsize = AtomicUsize::new(0);
static M: Mutex<()> = Mutex::new(());
static CV: Condvar = Condvar::new();

fn sleeping(tid: i64) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) {
        Ok(s) => s.rsplit(") ").next().is_some_and(|r| r.starts_with('S') || r.starts_with('D')),
        Err(_) => false,
    }
}
fn wait_turn(id: usize) {
    let mut g = M.lock().unwrap();
    let mut asleep = 0;
    while TURN.load(SeqCst) != id {
        let (g2, to) = CV.wait_timeout(g, Duration::from_millis(1)).unwrap();
        g = g2;
        if to.timed_out() && TURN.load(SeqCst) == 1 - id && sleeping(TID[1 - id].load(SeqCst)) {
            asleep += 1;
            if asleep >= 3 {
                // the other thread waits for something this one holds
                BLOCKED.fetch_add(1, SeqCst);
                TURN.store(id, SeqCst);
            }
        } else if to.timed_out() {
            asleep = 0;
        }
    }
}
fn give(to: usize) {
    let _g = M.lock().unwrap();
    TURN.store(to, SeqCst);
    CV.notify_all();
}
#[inline]
fn point(kind: Kind, addr: usize, store: bool) {
    let me = ME.with(|m| m.get());
    if me.is_null() {
        return;
    }
    let c = unsafe { &*me };
    if c.busy.get() {
        return;
    }
    c.busy.set(true);
    let count = |k: Kind| c.n[k as usize].set(c.n[k as usize].get() + 1);
    count(kind);
    if kind == Kind::Step {
        count(Kind::Access);
    }
    if c.record {
        if addr != 0 {
            let log = unsafe { &mut *c.log.get() };
            log.push((addr, store, c.n[2].get()));
        }
    } else {
        if TURN.load(SeqCst) != c.id {
            wait_turn(c.id);
        }
        if let Some(a) = c.plan.get(c.pos.get()) {
            if (a.kind == kind || a.kind == Kind::Access && kind == Kind::Step) && a.n == c.n[a.kind as usize].get() {
                c.pos.set(c.pos.get() + 1);
                if !DONE[1 - c.id].load(SeqCst) {
                    SWITCHES.fetch_add(1, SeqCst);
                    give(1 - c.id);
                    wait_turn(c.id);
                }
            }
        }
    }
    c.busy.set(false);
}

struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point(Kind::Alloc, 0, false);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point(Kind::Alloc, 0, false);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point(Kind::Alloc, 0, false);
        if LEAK.load(SeqCst) {
            let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            return q;
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point(Kind::Alloc, 0, false);
        if !LEAK.load(SeqCst) {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
    point(Kind::Step, 0, false);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *mut u32, _b: *mut u32) {}
macro_rules! access {
    ($store:expr, $($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(a: *const u8) { point(if $store { Kind::Step } else { Kind::Access }, a as usize, $store); })* };
}
access!(false, __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
access!(true, __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ---------------------------------------------------------------------------------------

struct Shared(*const Obj);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

struct Outcome {
    res: [String; 2],
    n: [[u64; 3]; 2],
    logs: [Vec<(usize, bool, u64)>; 2],
}
/// Runs the two calls in two threads under a schedule.
fn run_pair(objs: [&Obj; 2], texts: [&str; 2], first: usize, plans: [Vec<At>; 2], record: bool) -> Outcome {
    TURN.store(first, SeqCst);
    DONE[0].store(false, SeqCst);
    DONE[1].store(false, SeqCst);
    SWITCHES.store(0, SeqCst);
    LEAK.store(record, SeqCst);
    let mut out = Outcome { res: Default::default(), n: [[0; 3]; 2], logs: Default::default() };
    let [p0, p1] = plans;
    let mut plans = [Some(p0), Some(p1)];
    let hs: Vec<_> = (0..2)
        .map(|id| {
            let o = Shared(objs[id]);
            let t = texts[id].to_string();
            let plan = plans[id].take().unwrap();
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    let o = o;
                    let link = std::fs::read_link("/proc/thread-self").unwrap();
                    TID[id].store(link.file_name().unwrap().to_str().unwrap().parse().unwrap(), SeqCst);
                    let c = Ctl { id, busy: Cell::new(false), n: Default::default(), plan, pos: Cell::new(0), record, log: std::cell::UnsafeCell::new(Vec::new()) };
                    wait_turn(id);
                    ME.with(|m| m.set(&c));
                    let r = unsafe { &*o.0 }.call(&t);
                    ME.with(|m| m.set(std::ptr::null()));
                    DONE[id].store(true, SeqCst);
                    give(1 - id);
                    (r, [c.n[0].get(), c.n[1].get(), c.n[2].get()], c.log.into_inner())
                })
                .unwrap()
        })
        .collect();
    for (i, h) in hs.into_iter().enumerate() {
        match h.join() {
            Ok((r, n, l)) => {
                out.res[i] = r;
                out.n[i] = n;
                out.logs[i] = l;
            }
            Err(_) => out.res[i] = "the thread panicked".into(),
        }
    }
    out
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub confs: [usize; 2],
    pub texts: [usize; 2],
    /// 0: the same object; 1: an object and its clone; 2: separate instances
    pub share: usize,
    /// other calls were made before
    pub warm: bool,
}
impl Scenario {
    pub fn write(&self) -> String {
        format!("{} {} {} {} {} {}", self.confs[0], self.confs[1], self.texts[0], self.texts[1], self.share, self.warm as usize)
    }
    fn read(s: &str) -> Scenario {
        let v: Vec<usize> = s.split(' ').map(|x| x.parse().unwrap()).collect();
        Scenario { confs: [v[0], v[1]], texts: [v[2], v[3]], share: v[4], warm: v[5] == 1 }
    }
    pub fn text(&self) -> String {
        format!(
            "{}: configuration {} on {:?} and configuration {} on {:?}{}",
            ["one object", "an object and its clone", "two instances"][self.share],
            self.confs[0],
            TEXTS[self.texts[0]],
            self.confs[1],
            TEXTS[self.texts[1]],
            if self.warm { ", after other calls" } else { "" }
        )
    }
}
/// The shortest text which two configurations cut differently, else one on which they differ.
fn apart(refs: &dyn Fn(usize, usize) -> String, a: usize, b: usize, skip: usize) -> Option<usize> {
    let cut = |c: usize, t: usize| refs(c, t).lines().map(|l| l.split(' ').take(3).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>();
    let mut t: Vec<usize> = (0..TEXTS.len()).filter(|t| refs(a, *t) != refs(b, *t) && TEXTS[*t].len() < 40).collect();
    t.sort_by_key(|t| (cut(a, *t) == cut(b, *t), TEXTS[*t].len()));
    t.get(skip.min(t.len().saturating_sub(1))).cloned()
}
pub fn scenarios(thorough: bool, refs: &dyn Fn(usize, usize) -> String) -> Vec<Scenario> {
    let mut v = vec![];
    for c in 0..NCONF {
        let an = is_analyzer(c);
        let pairs: &[[usize; 2]] = match (an, thorough) {
            (false, false) => &[[8, 9], [0, 6]],
            (true, false) => &[[6, 9], [11, 6]],
            (false, true) => &[[8, 9], [0, 6], [10, 2], [6, 3], [0, 5]],
            (true, true) => &[[8, 9], [11, 6], [6, 12], [0, 11], [12, 12]],
        };
        for (i, p) in pairs.iter().enumerate() {
            v.push(Scenario { confs: [c, c], texts: *p, share: 0, warm: i % 2 == 1 });
            if thorough {
                v.push(Scenario { confs: [c, c], texts: *p, share: 0, warm: i % 2 == 0 });
                v.push(Scenario { confs: [c, c], texts: *p, share: 1, warm: i % 2 == 1 });
            }
        }
        if !an || thorough {
            v.push(Scenario { confs: [c, c], texts: [8, 9], share: 1, warm: true });
        }
    }
    // two configurations that give different results
    for a in 0..NCONF {
        for b in 0..NCONF {
            if a == b || (is_analyzer(a) || is_analyzer(b)) && !thorough && !matches!((a, b), (4, 7) | (4, 5) | (0, 4)) {
                continue;
            }
            if !thorough && !is_analyzer(b) && a > b && (a, b) != (9, 8) {
                continue;
            }
            if let Some(t) = apart(refs, a, b, 0) {
                v.push(Scenario { confs: [a, b], texts: [t, t], share: 2, warm: a != 0 });
            }
            if thorough {
                if let Some(t) = apart(refs, a, b, 1) {
                    v.push(Scenario { confs: [a, b], texts: [t, t], share: 2, warm: true });
                }
                v.push(Scenario { confs: [a, b], texts: [6, 9], share: 2, warm: (a + b) % 2 == 0 });
            }
        }
    }
    v
}

fn sched_text(first: usize, plans: &[Vec<At>; 2]) -> String {
    let at = |v: &Vec<At>| v.iter().map(|a| format!("{:?} {}", a.kind, a.n)).collect::<Vec<_>>().join(", ");
    format!("thread {first} first; thread 0 gives way at [{}], thread 1 at [{}]", at(&plans[0]), at(&plans[1]))
}

/// schedules <dir> <scenario> <thorough> : explores all schedules of a scenario.
pub fn serve(a: &[String]) {
    crate::fw::install_panic_hook();
    let dir = PathBuf::from(&a[0]);
    let thorough = a[2] == "1";
    let sc = Scenario::read(&a[1]);
    let want = [reference(&dir, sc.confs[0], sc.texts[0]), reference(&dir, sc.confs[1], sc.texts[1])];
    let texts = [TEXTS[sc.texts[0]], TEXTS[sc.texts[1]]];
    let o0 = load(&dir, sc.confs[0]);
    let o1 = match sc.share {
        0 => None,
        1 => Some(o0.clone()),
        _ => Some(load(&dir, sc.confs[1])),
    };
    let objs: [&Obj; 2] = [&o0, o1.as_ref().unwrap_or(&o0)];
    if sc.warm {
        for t in [7, 5, 9] {
            let _ = objs[0].call(TEXTS[t]);
            let _ = objs[1].call(TEXTS[t]);
        }
    }
    // a run of one after the other: numbers of points, and accesses that conflict
    let f = dir.join(format!("points-{}", std::process::id()));
    let st = forked(|| {
        let o = run_pair(objs, texts, 0, [vec![], vec![]], true);
        let mut by: HashMap<usize, [(bool, bool); 2]> = HashMap::new();
        for i in 0..2 {
            for (a, s, _) in &o.logs[i] {
                let e = by.entry(a >> 3).or_default();
                e[i].0 = true;
                e[i].1 |= s;
            }
        }
        let hot: Vec<Vec<u64>> = (0..2)
            .map(|i| {
                let mut v: Vec<u64> = o.logs[i].iter().filter(|(a, _, _)| { let e = by[&(a >> 3)]; e[0].0 && e[1].0 && (e[0].1 || e[1].1) }).map(|x| x.2).collect();
                v.dedup();
                v
            })
            .collect();
        let ok = o.res == want;
        std::fs::write(&f, serde_json::to_vec(&serde_json::json!({"n": [o.n[0][0], o.n[1][0]], "m": [o.n[0][1], o.n[1][1]], "a": [o.n[0][2], o.n[1][2]], "hot": hot, "ok": ok, "res": o.res, "accesses": o.logs[0].len() + o.logs[1].len()})).unwrap()).unwrap();
    });
    let v: serde_json::Value = match std::fs::read(&f).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => {
            say(&format!("V\tone call after the other\tthe process ended with status {st:#x}\t"));
            return;
        }
    };
    let _ = std::fs::remove_file(&f);
    let num = |k: &str, i: usize| v[k][i].as_u64().unwrap();
    let hot: Vec<Vec<u64>> = serde_json::from_value(v["hot"].clone()).unwrap();
    let mut count = 0u64;
    let mut bad = 0;
    let mut blocked = 0u64;
    let blocked_file = dir.join(format!("blocked-{}", std::process::id()));
    // Where other calls were made before anyway, a process executes several schedules.
    let batch = if sc.warm { 64 } else { 1 };
    let mut pending: Vec<(usize, [Vec<At>; 2])> = vec![];
    let mut run = |list: &mut Vec<(usize, [Vec<At>; 2])>| {
        if bad >= 3 || list.is_empty() {
            list.clear();
            return;
        }
        count += list.len() as u64;
        let bf = &blocked_file;
        let st = forked(|| {
            unsafe { crate::tree::alarm(300) };
            for (first, plan) in list.iter() {
                let o = run_pair(objs, texts, *first, plan.clone(), false);
                for i in 0..2 {
                    if o.res[i] != want[i] {
                        let c = |s: &str| s.chars().take(300).collect::<String>();
                        say(&format!("V\t{}; the call of thread {i}\t{}\t{}", sched_text(*first, plan), c(&o.res[i]), c(&want[i])));
                        unsafe { crate::tree::_exit(7) };
                    }
                }
            }
            if BLOCKED.load(SeqCst) > 0 {
                std::fs::write(bf, "x").unwrap();
                unsafe { crate::tree::_exit(8) };
            }
        });
        match st {
            0 => {}
            0x700 => bad += 1,
            0x800 => blocked += 1,
            st => {
                bad += 1;
                say(&format!("V\t{}\tthe process ended with status {st:#x}\t", sched_text(list[0].0, &list[0].1)));
            }
        }
        list.clear();
    };
    let mut one = |first: usize, plans: [Vec<At>; 2]| {
        pending.push((first, plans));
        if pending.len() >= batch {
            run(&mut pending);
        }
    };
    let p = |n: u64| At { kind: Kind::Access, n };
    let al = |n: u64| At { kind: Kind::Alloc, n };
    // steps suffice where nothing conflicts: between two of them there are only loads
    let (one_kind, one_key) = if thorough { (Kind::Access, "a") } else { (Kind::Step, "n") };
    // one preemption, at every point and every allocation of either thread
    for first in 0..2 {
        for n in 0..=num(one_key, first) + 2 {
            let mut pl: [Vec<At>; 2] = [vec![], vec![]];
            pl[first] = if n == 0 { vec![] } else { vec![At { kind: one_kind, n }] };
            one(first, pl);
        }
        for n in 1..=num("m", first) + 1 {
            let mut pl: [Vec<At>; 2] = [vec![], vec![]];
            pl[first] = vec![al(n)];
            one(first, pl);
        }
    }
    // two and three preemptions, at allocations
    let (ma, mb) = (num("m", 0), num("m", 1));
    let cap: u64 = if thorough { 4_500 } else { 600 };
    // the bound on the number of allocations that are switch points: the first and last ones
    let lim = ((cap as f64).sqrt() as u64).max(1);
    let pick = |m: u64| -> Vec<u64> { (1..=m).filter(|n| *n <= lim / 2 || *n + lim / 2 > m).collect() };
    for i in pick(ma) {
        for j in pick(mb) {
            one(0, [vec![al(i)], vec![al(j)]]);
            if thorough {
                one(1, [vec![al(i)], vec![al(j)]]);
            }
        }
    }
    // at accesses that conflict: two preemptions, then three
    let lim = if thorough { 200 } else { 60 };
    let h: Vec<Vec<u64>> = hot.iter().map(|v| if v.len() <= lim { v.clone() } else { v[..lim / 2].iter().chain(&v[v.len() - lim / 2..]).cloned().collect() }).collect();
    for &i in &h[0] {
        for &j in &h[1] {
            one(0, [vec![p(i)], vec![p(j)]]);
            one(1, [vec![p(i)], vec![p(j)]]);
            for &k in h[0].iter().filter(|k| **k > i).take(if thorough { 12 } else { 4 }) {
                one(0, [vec![p(i), p(k)], vec![p(j)]]);
            }
        }
    }
    run(&mut pending);
    let _ = std::fs::remove_file(&blocked_file);
    if v["ok"] != true {
        say(&format!("V\tone call after the other\t{}\t{}", v["res"][0].as_str().unwrap_or(""), want[0]));
    }
    say(&format!("END {} {} {} {} {} {}", count, num(one_key, 0) + num(one_key, 1), ma + mb, hot[0].len() + hot[1].len(), v["accesses"], blocked));
}
