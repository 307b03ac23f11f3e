//! C08: results do not depend on history, clones, instances or threads.
use crate::fw::*;
use crate::objects::*;
use crate::tree::ops_of;
use crate::{threads, tree};
use lindera_analyzer::analyzer::Analyzer;
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::json;
use std::marker::PhantomData;
use std::process::{Command, Stdio};

struct Probe<T>(PhantomData<T>);
trait NotShared {
    const SHARED: bool = false;
}
impl<T> NotShared for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    const SHARED: bool = true;
}

/// One processor for each explorer: its threads only ever run one at a time.
static BUSY: std::sync::Mutex<u64> = std::sync::Mutex::new(0);
fn child(args: &[String]) -> Result<Vec<Vec<String>>, String> {
    let cpu = {
        let mut b = BUSY.lock().unwrap();
        let c = b.trailing_ones().min(63);
        *b |= 1 << c;
        c
    };
    let r = child_on(cpu, args);
    *BUSY.lock().unwrap() &= !(1 << cpu);
    r
}
fn child_on(cpu: u32, args: &[String]) -> Result<Vec<Vec<String>>, String> {
    let o = Command::new(std::env::current_exe().unwrap()).args(args).env("SCHED_CPU", cpu.to_string()).stdin(Stdio::null()).stderr(Stdio::piped()).output().map_err(|e| e.to_string())?;
    let s = String::from_utf8_lossy(&o.stdout).into_owned();
    let lines: Vec<Vec<String>> = s.lines().map(|l| l.split('\t').map(|x| x.to_string()).collect()).collect();
    if !lines.last().is_some_and(|l| l[0].starts_with("END")) && !lines.iter().any(|l| l[0] == "V") {
        return Err(format!("{args:?}: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>()));
    }
    Ok(lines)
}
fn first_violation(lines: &[Vec<String>]) -> Option<&Vec<String>> {
    lines.iter().find(|l| l[0] == "V")
}

pub fn c08(run: &mut Run) {
    run.rule = "Histories: the tree of all sequences of calls (configuration x text x original, kept clone, new clone, new instance, one object whose public fields are set to the configuration, tokens kept for later, calls that fail or panic in a custom filter, asking kept tokens for their details) up to a depth; every node is a process of its own, forked from its parent, so each history has its own process state; the result of every call is compared with the result of that call as the only one of a process. Long histories: every text of up to n chunks and every length, in four orders, each in its own process, with each text asked repeatedly; every result equal within and between the orders. Schedules: two concurrent calls, one thread running at a time; the real code calls back at every basic block, load, store and allocation, and every schedule with one preemption at any of them, every schedule with two at allocations, and every schedule with two or three at memory accesses that conflict between the threads is executed in a process of its own. An access log shows how many accesses of the two calls conflict: where none does, all interleavings of the logged accesses are equivalent.".into();
    run.assumptions = vec![
        "Switch points are in the project's crates and at allocations; code of other crates runs without interruption between them. Atomic read-modify-write instructions and block copies are not in the access log (they lie between switch points).".into(),
        "Memory is explored as sequentially consistent; reorderings of a weak memory model are not.".into(),
    ];
    run.case_limit_s(600);
    let sc = Scratch::new();
    let dir = sc.0.clone();
    if let Err(e) = guard(|| write_world(&dir)).and_then(|r| r) {
        run.family("objects of the check", 1, |_, _| viol("setup", format!("a well-formed dictionary was not built: {e}"), json!({})));
        return;
    }
    // every object loads
    for c in 0..NCONF {
        if let Err(p) = guard(|| load(&dir, c)) {
            run.family("objects of the check", 1, |_, _| viol("setup", format!("a well-formed configuration was refused: {p}"), json!({})));
            return;
        }
    }
    let d = dir.display().to_string();
    let shared = Probe::<Tokenizer>::SHARED && Probe::<Analyzer>::SHARED;
    run.family("objects can be shared between threads", 1, |_, st| {
        st.nontrivial += 1;
        if !shared {
            return viol("shared", "Tokenizer or Analyzer can no longer be shared between threads (Send and Sync)", json!({"Tokenizer": Probe::<Tokenizer>::SHARED, "Analyzer": Probe::<Analyzer>::SHARED}));
        }
        Ok(())
    });
    // ---- histories
    let plans: Vec<(&str, u32)> = run.b(vec![("wide", 2), ("middle", 3), ("set", 3), ("deep", 4), ("narrow", 6)], vec![("all", 2), ("middle", 3), ("set", 4), ("deep", 5), ("narrow", 7)]);
    for (set, depth) in plans {
        let k = ops_of(set).len() as u64;
        let per: u64 = (0..depth).map(|i| k.pow(i)).sum();
        run.family(&format!("histories, {set} set, depth {depth}"), k, |i, st| {
            let lines = match child(&["tree".into(), d.clone(), set.into(), depth.to_string(), i.to_string()]) {
                Ok(l) => l,
                Err(e) => return viol(format!("tree:{set}:{i}"), format!("the explorer failed: {e}"), json!({})),
            };
            if let Some(v) = first_violation(&lines) {
                let g = |i: usize| v.get(i).cloned().unwrap_or_default();
                return viol(format!("history:{}", g(1)), format!("after this history a call gives another result: {}", g(1)), json!({"got": g(2), "alone": g(3)}));
            }
            st.states += per;
            st.transitions += per;
            st.traces += k.pow(depth - 1);
            st.nontrivial += per;
            Ok(())
        });
    }
    // ---- long histories
    let confs: Vec<usize> = run.b(vec![0, 2, 5, 7], (0..NCONF).collect());
    for (kind, n, orders) in [(0u64, strings_upto(10, run.b(4, 5)), 3u64), (1, run.b(3 * 150, 3 * 600), 3), (1, run.b(3 * 30, 3 * 60), 4), (0, run.b(111, 300), 4)] {
        // every configuration and order in a process of its own; then the comparison
        let res: Vec<std::sync::Mutex<Vec<u8>>> = (0..confs.len() as u64 * orders).map(|_| Default::default()).collect();
        let name = format!("long histories, {} {}", n, ["texts", "lengths"][kind as usize]);
        run.family(&name, confs.len() as u64 * orders, |i, st| {
            let (c, order) = (confs[(i / orders) as usize], i % orders);
            let out = sc.0.join(format!("long-{kind}-{n}-{c}-{order}"));
            let lines = match child(&["long".into(), d.clone(), c.to_string(), kind.to_string(), n.to_string(), order.to_string(), out.display().to_string()]) {
                Ok(l) => l,
                Err(e) => return viol(format!("long:{kind}:{c}:{order}"), format!("the explorer failed: {e}"), json!({})),
            };
            if let Some(v) = first_violation(&lines) {
                return viol(format!("long:{kind}:{c}:{order}:{}", v[1]), format!("configuration {c}, order {order}: the same text gives different results within a history: {}", v[1].chars().take(60).collect::<String>()), json!({"got": v.get(2)}));
            }
            *res[i as usize].lock().unwrap() = std::fs::read(&out).unwrap_or_default();
            let _ = std::fs::remove_file(&out);
            st.states += n;
            st.transitions += 2 * n;
            st.traces += 1;
            st.nontrivial += n;
            Ok(())
        });
        run.family(&(name + ", compared"), confs.len() as u64, |i, st| {
            let get = |o: u64| {
                let j = i * orders + o;
                let b = res[j as usize].lock().unwrap().clone();
                if !b.is_empty() {
                    return b;
                }
                // a replay of this case alone
                let out = sc.0.join(format!("long-{kind}-{n}-{i}-{o}"));
                let _ = child(&["long".into(), d.clone(), confs[i as usize].to_string(), kind.to_string(), n.to_string(), o.to_string(), out.display().to_string()]);
                std::fs::read(&out).unwrap_or_default()
            };
            let first = get(0);
            st.nontrivial += n;
            for o in 1..orders {
                let b = get(o);
                if b != first {
                    let i = b.chunks(8).zip(first.chunks(8)).position(|(a, b)| a != b).unwrap_or(0) as u64;
                    return viol(format!("long:{kind}:{i}:{}", tree::long_text(kind as usize, i)), format!("a text gives one result in order 0 and another in order {o}: {:?}", tree::long_text(kind as usize, i).chars().take(60).collect::<String>()), json!({}));
                }
            }
            Ok(())
        });
    }
    // ---- details in any order, repeatedly
    let o = load(&dir, 2);
    let tk = o.tokenizer();
    let text = "百円百二十円あいz走った";
    let base: Vec<String> = match tk.tokenize(text) {
        Ok(v) => v.into_iter().map(|mut t| tree_details(&mut t)).collect(),
        Err(_) => vec![],
    };
    let n = base.len() as u64;
    let len = run.b(4, 5);
    run.family("details asked in every order", strings_upto(2 * n, len), |i, st| {
        let mut v = vec![];
        nth_string(i, 2 * n, &mut v);
        let mut toks = tk.tokenize(text).map_err(|e| Viol { key: "details".into(), what: e.to_string(), detail: json!({}) })?;
        for (at, &x) in v.iter().enumerate() {
            let t = x / 2;
            let got = if x % 2 == 0 {
                tree_details(&mut toks[t])
            } else {
                let mut c = toks[t].clone();
                tree_details(&mut c)
            };
            st.transitions += 1;
            if got != base[t] {
                return viol(format!("details:{v:?}"), format!("details asked in the order {v:?}: answer {at} is {got}, alone it is {}", base[t]), json!({"text": text}));
            }
        }
        st.states += 1;
        st.nontrivial += (v.len() > 1) as u64;
        Ok(())
    });
    if !shared {
        return;
    }
    // ---- schedules
    let thorough = !run.quick();
    let refs: Vec<Vec<String>> = (0..NCONF).map(|c| (0..TEXTS.len()).map(|t| tree::reference(&dir, c, t)).collect()).collect();
    let scen = threads::scenarios(thorough, &|c, t| refs[c][t].clone());
    let log = std::sync::Mutex::new(vec![]);
    run.family("schedules of two threads", scen.len() as u64, |i, st| {
        let s = &scen[i as usize];
        let lines = match child(&["schedules".into(), d.clone(), s.write(), (thorough as u8).to_string()]) {
            Ok(l) => l,
            Err(e) => return viol(format!("schedules:{i}"), format!("the explorer failed: {e}"), json!({})),
        };
        if let Some(v) = first_violation(&lines) {
            let g = |i: usize| v.get(i).cloned().unwrap_or_default();
            return viol(format!("schedule:{}:{}", s.text(), g(1)), format!("{}: {}", s.text(), g(1)), json!({"got": g(2), "alone": g(3)}));
        }
        let nums: Vec<u64> = lines.last().unwrap()[0].split(' ').skip(1).map(|x| x.parse().unwrap()).collect();
        log.lock().unwrap().push((i, nums.clone()));
        st.states += nums[1] + nums[2];
        st.transitions += nums[4];
        st.traces += nums[0];
        st.nontrivial += nums[0];
        st.sample(|| json!({"scenario": s.text(), "schedules": nums[0], "switch points": nums[1], "allocations": nums[2], "conflicting accesses": nums[3], "logged accesses": nums[4], "schedules in which a thread had to wait": nums[5]}));
        Ok(())
    });
    if std::env::var("MC_VERBOSE").is_ok() {
        for (i, n) in log.into_inner().unwrap() {
            println!("{} -> {n:?}", scen[i as usize].text());
        }
    }
}
fn tree_details(t: &mut lindera_tokenizer::token::Token) -> String {
    format!("{:?}", t.get_details())
}
