//! Command line, parallel exploration, evidence.
use crate::exec;
use crate::gen;
use vcore::kern::KStats;
use crate::oracle::Verdict;
use vcore::scenario::*;
use crate::shrink;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

#[derive(Clone, Serialize, Deserialize)]
struct Found {
    seed: u64,
    sig: String,
    msg: String,
    rec: vcore::kern::Trace,
}
#[derive(Default, Serialize, Deserialize)]
struct Agg {
    runs: u64,
    stats: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    sim_ns: u64,
    reqs: u64,
    resps: u64,
    conns: u64,
    panics: u64,
    ends: BTreeMap<String, u64>,
    inter: BTreeSet<u64>,
    outcomes: BTreeSet<u64>,
    nontrivial: u64,
    found: Vec<Found>,
    other: BTreeMap<String, (u64, u64, String)>,
    harness: Vec<String>,
    known: BTreeMap<String, u64>,
    cpu_ms: u64,
    feats: BTreeMap<String, u64>,
    rt: [u64; 6],
    edges: (u64, u64),
}
fn add(m: &mut BTreeMap<String, u64>, k: &str, n: u64) {
    if n > 0 {
        *m.entry(k.into()).or_default() += n;
    }
}
fn to_map(s: &KStats) -> BTreeMap<String, u64> {
    serde_json::from_value(serde_json::to_value(s).unwrap()).unwrap()
}
fn features(s: &Scenario, m: &mut BTreeMap<String, u64>) {
    let mut f = |k: &str, n: usize| add(m, k, n as u64);
    for c in &s.conns {
        f("client send stall", c.send_stalls.len());
        f("client read stall", c.rd_stalls.len());
        f("slow reader", (c.rd_delay > 0) as usize);
        f("fragmented sender", (c.seg.iter().any(|x| *x < 64)) as usize);
        f("client reset instead of close", c.rst_close as usize);
        for q in &c.reqs {
            f("malformed request", q.garbage.is_some() as usize);
            f("broken request framing", q.broken() as usize);
            f("scripted panic", crate::oracle::has_panic(&q.plan) as usize);
            f("aborted response stream", matches!(q.plan.out, Out::Stream { abort: Some(_), .. }) as usize);
            f("invalid header value", matches!(q.plan.out, Out::BadHeader(_)) as usize);
            f("other response shape", matches!(q.plan.out, Out::Shape(_)) as usize);
            f("scripted error", matches!(q.plan.out, Out::Err(_)) as usize);
        }
    }
    f("file replaced or removed while serving", s.fs_swaps.len());
}

impl Agg {
    fn take(&mut self, s: &Scenario, v: &Verdict, prop: &str, kf: &[Known]) {
        self.runs += 1;
        for (k, n) in to_map(&v.stats) {
            add(&mut self.stats, &k, n);
        }
        for (k, n) in &v.cuts {
            add(&mut self.faults, &format!("connection cut ({k})"), *n);
        }
        features(s, &mut self.feats);
        self.rt[s.workers.min(5)] += 1;
        self.sim_ns += v.now;
        self.reqs += v.reqs;
        self.resps += v.resps;
        self.conns += v.conns;
        self.panics += v.panics;
        add(&mut self.ends, &v.end, 1);
        if v.resps > 0 && self.inter.insert(v.inter) {
            self.nontrivial += 1;
        }
        self.outcomes.insert(v.outcome);
        for h in &v.harness {
            if self.harness.len() < 20 {
                self.harness.push(format!("seed {}: {h}", s.seed));
            }
        }
        if v.harness.is_empty() {
            for x in v.viol.iter() {
                if let Some(i) = listed(kf, x, prop) {
                    add(&mut self.known, &kf[i].text, 1);
                } else if x.props.iter().any(|p| p == prop) || prop == "all" {
                    if self.found.len() < 60 && !self.found.iter().any(|f| f.sig == x.sig && f.seed == s.seed) {
                        self.found.push(Found { seed: s.seed, sig: x.sig.clone(), msg: format!("[{}] {}", x.props.join(" "), x.msg), rec: v.rec.clone() });
                    }
                } else {
                    let e = self.other.entry(x.sig.clone()).or_insert((0, s.seed, x.msg.clone()));
                    e.0 += 1;
                }
            }
        }
    }
    fn merge(&mut self, o: Agg) {
        self.runs += o.runs;
        for (k, n) in o.stats {
            add(&mut self.stats, &k, n);
        }
        for (k, n) in o.faults {
            add(&mut self.faults, &k, n);
        }
        for (k, n) in o.feats {
            add(&mut self.feats, &k, n);
        }
        for (k, n) in o.ends {
            add(&mut self.ends, &k, n);
        }
        for i in 0..6 {
            self.rt[i] += o.rt[i];
        }
        self.sim_ns += o.sim_ns;
        self.reqs += o.reqs;
        self.resps += o.resps;
        self.conns += o.conns;
        self.panics += o.panics;
        self.nontrivial += o.nontrivial;
        self.inter.extend(o.inter);
        self.outcomes.extend(o.outcomes);
        self.found.extend(o.found);
        for (k, e) in o.other {
            self.other.entry(k).or_insert((0, e.1, e.2.clone())).0 += e.0;
        }
        for (k, n) in o.known {
            add(&mut self.known, &k, n);
        }
        self.harness.extend(o.harness);
        self.cpu_ms += o.cpu_ms;
    }
}
/// The listed finding that this violation is, for the property checked.
fn listed(kf: &[Known], x: &crate::oracle::Viol, prop: &str) -> Option<usize> {
    kf.iter().position(|k| {
        (k.prop == prop || prop == "all")
            && x.props.contains(&k.prop)
            && !k.contains.is_empty()
            && k.contains.iter().all(|c| x.sig.contains(c) || x.msg.contains(c))
    })
}
fn seed_of(base: u64, i: u64) -> u64 {
    // printable, and different for every (base, i)
    let mut r = vcore::rng::Rng::new(base.wrapping_mul(0x9e3779b97f4a7c15) ^ i);
    r.next() >> 11
}

fn explore(prop: &str, base: u64, from: u64, n: u64, workers: u64, until: Instant, stop_after: usize, kf: &[Known]) -> Agg {
    let mut shms = vec![];
    let map = exec::shm_new(vcore::cov::MAX_EDGES);
    vcore::cov::set_map(map);
    for w in 0..workers {
        let out = exec::shm_new(exec::SHM);
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let shm = exec::shm_new(exec::SHM);
            let mut a = Agg::default();
            let mut i = from + w;
            while i < from + n && Instant::now() < until && a.found.len() < stop_after {
                let s = gen::generate(prop, seed_of(base, i));
                let v = exec::run(&s, shm);
                a.take(&s, &v, prop, kf);
                i += workers;
            }
            let mut ru: libc::rusage = unsafe { std::mem::zeroed() };
            unsafe { libc::getrusage(libc::RUSAGE_CHILDREN, &mut ru) };
            a.cpu_ms = (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) as u64 * 1000;
            exec::put(out, &serde_json::to_vec(&a).unwrap());
            vcore::sys::exit_group(0);
        }
        shms.push((pid, out));
    }
    let mut all = Agg::default();
    for (pid, out) in shms {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        match serde_json::from_slice::<Agg>(&exec::shm_get(out)) {
            Ok(a) => all.merge(a),
            Err(e) => all.harness.push(format!("worker lost: {e} (status {st:x})")),
        }
        unsafe { libc::munmap(out as *mut libc::c_void, exec::SHM) };
    }
    all.found.sort_by_key(|f| f.seed);
    unsafe {
        all.edges = (std::slice::from_raw_parts(map, vcore::cov::MAX_EDGES).iter().filter(|x| **x != 0).count() as u64, vcore::cov::edges() as u64);
        if let Ok(f) = std::env::var("VSIM_UNREACHED") {
            // addresses, for addr2line
            let m = std::slice::from_raw_parts(map, vcore::cov::MAX_EDGES);
            let base = vcore::cov::__sanitizer_cov_trace_pc_guard as usize;
            let t: Vec<String> = (1..=vcore::cov::edges()).map(|i| format!("{} {}", m[i], vcore::cov::pc(i) as i64 - base as i64)).collect();
            std::fs::write(f, t.join("\n")).unwrap();
        }
        vcore::cov::set_map(std::ptr::null_mut());
        libc::munmap(map as *mut libc::c_void, vcore::cov::MAX_EDGES);
    }
    all
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    sig: String,
    message: String,
    origin_seed: u64,
    digest: u64,
    scenario: Scenario,
}

struct Known {
    prop: String,
    contains: Vec<String>,
    text: String,
}
fn known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        // finding: property=C02 match="sig"|"text" description
        if let Some(r) = l.strip_prefix("finding: property=") {
            let (p, r) = r.split_once(' ').unwrap_or((r, ""));
            let mut contains = vec![];
            let mut rest = r;
            while let Some(x) = rest.strip_prefix("match=\"") {
                let Some((m, t)) = x.split_once('"') else { break };
                contains.push(m.to_string());
                rest = t.trim_start();
            }
            v.push(Known { prop: p.into(), contains, text: rest.into() });
        }
    }
    v
}

fn arg(a: &[String], n: &str) -> Option<String> {
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned())
}
fn no_aslr(a: &[String]) {
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var("VSIM_NOASLR").is_err() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
                std::env::set_var("VSIM_NOASLR", "1");
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(&a[1..]).exec();
                let _ = e;
            }
        }
    }
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    no_aslr(&a);
    std::env::set_var("ASYNC_STD_THREAD_COUNT", "1");
    std::env::set_var("NO_COLOR", "1");
    std::env::remove_var("CLICOLOR_FORCE");
    std::env::remove_var("RUST_BACKTRACE");
    // what a process sets up on first use must not depend on what this one did before a run
    let _ = std::io::Write::flush(&mut std::io::stdout());
    let _ = std::io::Write::flush(&mut std::io::stderr());
    let _ = std::thread::current();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("replay") => replay(&a),
        Some("one") => one(&a),
        Some("min") => min(&a),
        Some("literals") => {
            crate::dict::literals().iter().for_each(|l| println!("{l}"));
            0
        }
        Some("dict") => {
            println!("{:?}", crate::dict::dict());
            0
        }
        Some("gen") => {
            let s = gen::generate(&arg(&a, "--profile").unwrap(), arg(&a, "--seed").unwrap().parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&s).unwrap());
            0
        }
        Some("explore") => explore_cmd(&a),
        Some("determinism") => determinism(&a),
        _ => {
            eprintln!("vsim check|replay|one|gen|explore|determinism");
            2
        }
    };
    std::process::exit(code)
}

fn show(v: &Verdict) {
    for l in &v.log {
        println!("{l}");
    }
    println!(
        "end {} now {} ms, {} reqs {} resps, digest {:016x}, sps {} switches {} preempts {}",
        v.end,
        v.now / 1_000_000,
        v.reqs,
        v.resps,
        v.digest,
        v.stats.sps,
        v.stats.switches,
        v.stats.preempts
    );
    for h in &v.harness {
        println!("HARNESS {h}");
    }
    for x in &v.viol {
        println!("VIOL {:?} {}: {}", x.props, x.sig, x.msg);
    }
}
/// Minimises the first (or the named) violation of a generated scenario and prints what is left.
fn min(a: &[String]) -> i32 {
    let s = gen::generate(&arg(a, "--profile").unwrap(), arg(a, "--seed").unwrap().parse().unwrap());
    let shm = exec::shm_new(exec::SHM);
    let v = exec::run(&s, shm);
    let want = arg(a, "--sig");
    let Some(v0) = v.viol.iter().find(|x| want.as_ref().map_or(true, |w| x.sig == *w)).cloned() else {
        show(&v);
        return 0;
    };
    let prop = v0.props[0].clone();
    let (m, v1, _) = shrink::minimise(&s, &prop, &v0, v.rec.clone(), shm, Duration::from_secs(40));
    if let Some(f) = arg(a, "--out") {
        let fin = exec::run(&m, shm);
        let r = ReplayFile { property: prop.clone(), sig: v1.sig.clone(), message: v1.msg.clone(), origin_seed: s.seed, digest: fin.digest, scenario: m.clone() };
        std::fs::write(f, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
    }
    let mut j = serde_json::to_value(&m).unwrap();
    if a.iter().any(|x| x == "--brief") {
        for k in ["fs", "sched"] {
            j.as_object_mut().unwrap().remove(k);
        }
    }
    println!("{}", serde_json::to_string(&j).unwrap());
    println!("VIOL {:?} {}: {}", v1.props, v1.sig, v1.msg);
    std::env::set_var("VSIM_SHOW", "1");
    let fin = exec::run(&m, shm);
    for l in &fin.log {
        println!("{l}");
    }
    1
}
fn one(a: &[String]) -> i32 {
    let s = gen::generate(&arg(a, "--profile").unwrap(), arg(a, "--seed").unwrap().parse().unwrap());
    let shm = exec::shm_new(exec::SHM);
    let t = Instant::now();
    let v = exec::run(&s, shm);
    show(&v);
    println!("{} ms", t.elapsed().as_millis());
    (!v.viol.is_empty()) as i32
}
fn replay(a: &[String]) -> i32 {
    let f: ReplayFile = match std::fs::read(&a[2]).ok().and_then(|d| serde_json::from_slice(&d).ok()) {
        Some(f) => f,
        None => {
            eprintln!("cannot read {}", a[2]);
            return 2;
        }
    };
    let shm = exec::shm_new(exec::SHM);
    let v = exec::run(&f.scenario, shm);
    show(&v);
    match shrink::same(&v, &f.property, &f.sig) {
        Some(x) => {
            println!("REPRODUCED property={} {}: {}", f.property, x.sig, x.msg);
            if v.digest != f.digest {
                println!("note: digest {:016x} differs from the recorded {:016x} (the code changed)", v.digest, f.digest);
            }
            1
        }
        None => {
            println!("NOT REPRODUCED property={} {}", f.property, f.sig);
            0
        }
    }
}
fn explore_cmd(a: &[String]) -> i32 {
    let prof = arg(a, "--profile").unwrap_or("C01".into());
    let n: u64 = arg(a, "--runs").map(|x| x.parse().unwrap()).unwrap_or(2000);
    let base: u64 = arg(a, "--seed").map(|x| x.parse().unwrap()).unwrap_or(1);
    let t = Instant::now();
    let secs: u64 = arg(a, "--secs").map(|x| x.parse().unwrap()).unwrap_or(600);
    let ag = explore(&prof, base, 0, n, 8, t + Duration::from_secs(secs), usize::MAX, &known("/verif/known_findings.txt"));
    println!("{} runs {} distinct in {:?}; {} reqs {} resps; {:?}", ag.runs, ag.inter.len(), t.elapsed(), ag.reqs, ag.resps, ag.ends);
    println!("{:?}\n{:?}\n{:?}", ag.stats, ag.faults, ag.feats);
    println!("known {:?} edges {:?} cov {:?}", ag.known, ag.edges, ag.stats.get("cov"));
    for h in ag.harness.iter().take(12) {
        println!("HARNESS {h}");
    }
    let mut by: BTreeMap<String, Vec<&Found>> = BTreeMap::new();
    for f in &ag.found {
        by.entry(f.sig.clone()).or_default().push(f);
    }
    for (s, f) in by {
        println!("== {s}: {}", f.len());
        for x in f.iter().take(4) {
            println!("   seed {} {}", x.seed, x.msg.chars().take(900).collect::<String>());
        }
    }
    println!("-- other properties");
    for (s, (n, seed, m)) in &ag.other {
        println!("== {s}: {n}, seed {seed}: {}", m.chars().take(500).collect::<String>());
    }
    0
}
fn determinism(a: &[String]) -> i32 {
    let n: u64 = arg(a, "--runs").map(|x| x.parse().unwrap()).unwrap_or(300);
    let base: u64 = arg(a, "--seed").map(|x| x.parse().unwrap()).unwrap_or(1);
    let shm = exec::shm_new(exec::SHM);
    let mut bad = 0;
    for i in 0..n {
        let prof = format!("C{:02}", 1 + i % 14);
        let s = gen::generate(&prof, seed_of(base, i));
        let v1 = exec::run(&s, shm);
        let v2 = exec::run(&s, shm);
        let mut t = s.clone();
        t.sched.replay = Some(v1.rec.clone());
        let v3 = exec::run(&t, shm);
        if a.iter().any(|x| x == "--print") {
            println!("{prof} {} {:016x}", s.seed, v1.digest);
        } else if i == 0 {
            println!("determinism: {n} scenarios");
        }
        if v1.digest != v2.digest || v1.digest != v3.digest {
            bad += 1;
            println!("DIFFERENT {prof} seed {}: {:016x} {:016x} replay {:016x} {:?} {:?}", s.seed, v1.digest, v2.digest, v3.digest, v1.stats, v2.stats);
        }
    }
    println!("{n} scenarios, {bad} not repeatable");
    (bad > 0) as i32
}

fn check(a: &[String]) -> i32 {
    let prop = arg(a, "--property").expect("--property");
    let tier = arg(a, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = arg(a, "--root").unwrap_or("/verif".into());
    let (runs, secs): (u64, u64) = if tier == "quick" { (36_000, 120) } else { (1_000_000, 3000) };
    let runs = arg(a, "--runs").map(|x| x.parse().unwrap()).unwrap_or(runs);
    let secs = arg(a, "--secs").map(|x| x.parse().unwrap()).unwrap_or(secs);
    let kf = known(&format!("{root}/known_findings.txt"));
    let t0 = Instant::now();
    let workers = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(2, 16);
    let mut ag = explore(&prop, base, 0, runs, workers, t0 + Duration::from_secs(secs), 3, &kf);
    let explored = t0.elapsed();
    let shm = exec::shm_new(exec::SHM);
    let mut code = 0;
    let mut nviol = 0;
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut reports = vec![];
    let mut lost: Vec<u64> = vec![];
    for f in &ag.found {
        nviol += 1;
        if done.contains(&f.sig) || done.len() >= 3 {
            continue;
        }
        done.insert(f.sig.clone());
        let s = gen::generate(&prop, f.seed);
        let v = exec::run(&s, shm);
        let Some(v0) = shrink::same(&v, &prop, &f.sig) else {
            // a process that a signal ended once, and that repeats to a normal end, shows nothing
            // about the server: what is not repeatable is never reported, see DESIGN.md
            if f.sig == "server process died" && lost.len() < 2 && exec::run(&s, shm).end != "died" {
                nviol -= 1;
                lost.push(f.seed);
                done.remove(&f.sig);
                println!("NOTE: the run of seed {} was ended by a signal once and not again", f.seed);
                continue;
            }
            ag.harness.push(format!("seed {}: {} did not happen again ({}, {:016x}, {:?})", f.seed, f.sig, v.end, v.digest, v.harness));
            continue;
        };
        let (m, v1, tries) = shrink::minimise(&s, &prop, &v0, v.rec.clone(), shm, Duration::from_secs(if tier == "quick" { 40 } else { 120 }));
        let fin = exec::run(&m, shm);
        let (m, v1, fin) = match shrink::same(&fin, &prop, &f.sig) {
            Some(_) => (m, v1, fin),
            None => (s, v0, v),
        };
        let dir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{}.json", f.seed);
        let rf = ReplayFile {
            property: prop.clone(),
            sig: f.sig.clone(),
            message: v1.msg.clone(),
            origin_seed: f.seed,
            digest: fin.digest,
            scenario: m,
        };
        let path = if done.len() > 1 { path.replace(".json", &format!("-{}.json", done.len())) } else { path };
        std::fs::write(&path, serde_json::to_vec_pretty(&rf).unwrap()).unwrap();
        // a fresh process must reproduce it
        let out = std::process::Command::new("/proc/self/exe").args(["replay", &path]).output();
        let ok = out.map(|o| String::from_utf8_lossy(&o.stdout).contains("REPRODUCED property=") && o.status.code() == Some(1)).unwrap_or(false);
        if !ok {
            ag.harness.push(format!("replay of {path} does not reproduce"));
            continue;
        }
        code = 1;
        println!("VIOLATION property={prop} replay={path}");
        println!("  seed {} ({}): {} [{} shrinking runs]", f.seed, f.sig, v1.msg, tries);
        reports.push(json!({"seed": f.seed, "signature": f.sig, "message": v1.msg, "replay": path}));
    }
    for k in kf.iter().filter(|k| k.prop == prop) {
        // a listed finding is announced whether or not this exploration met it
        println!("KNOWN-FINDING: property={prop} {} [met in {} runs]", k.text, ag.known.get(&k.text).copied().unwrap_or(0));
    }
    if !ag.harness.is_empty() {
        for h in ag.harness.iter().take(10) {
            println!("HARNESS-ERROR {h}");
        }
        if code == 0 {
            code = 2;
        }
    }
    if ag.runs < 50 && code == 0 {
        println!("HARNESS-ERROR only {} runs", ag.runs);
        code = 2;
    }
    // samples: written-out scenarios of this run
    let samples: Vec<Value> = (0..3)
        .map(|i| {
            let s = gen::generate(&prop, seed_of(base, i));
            let v = exec::run(&s, shm);
            let txt: Vec<String> = s
                .conns
                .iter()
                .take(3)
                .map(|c| {
                    let rq: Vec<String> = c.reqs.iter().take(4).map(|q| format!("{} {}", q.method, q.target.chars().take(60).collect::<String>())).collect();
                    format!("cut={:?} window={} seg={:?} reqs={rq:?}", c.cut, c.window, c.seg)
                })
                .collect();
            json!({"seed": s.seed, "runtime_workers": s.workers, "registrations": s.app.steps.len(), "connections": txt,
                   "end": v.end, "requests": v.reqs, "responses": v.resps, "context_switches": v.stats.switches,
                   "preemptions": v.stats.preempts, "simulated_ms": v.now / 1_000_000, "digest": format!("{:016x}", v.digest)})
        })
        .collect();
    let mut faults = ag.faults.clone();
    for (k, n) in [
        ("accept error", "accept_faults"),
        ("file operation error", "fs_err"),
        ("file operation stall", "fs_stall"),
        ("short file read", "fs_short"),
        ("epoll_wait EINTR", "epoll_intr"),
        ("standard output error or short write", "stdout_faults"),
        ("standard error error", "stderr_faults"),
        ("wall clock jump", "clock_jumps"),
        ("send buffer full", "eagain_tx"),
        ("short socket write", "short_tx"),
        ("forced preemption", "preempts"),
    ] {
        add(&mut faults, k, ag.stats.get(n).copied().unwrap_or(0));
    }
    for (k, n) in &ag.feats {
        add(&mut faults, k, *n);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": ag.runs,
            "distinct_nontrivial": ag.inter.len(),
            "rule": "a case is one simulated run of a generated application, client population, fault plan and schedule (seed -> scenario); non-trivial: at least one complete response was received; distinct: hash of the order of thread switches, network and fault events and of the application's history (times left out)",
            "samples": samples,
            "runs_per_hour": (ag.runs as f64 / explored.as_secs_f64() * 3600.0) as u64,
            "seeds_per_hour": (ag.runs as f64 / explored.as_secs_f64() * 3600.0) as u64,
            "simulated_seconds": ag.sim_ns / 1_000_000_000,
            "requests_sent": ag.reqs, "responses_received": ag.resps, "connections": ag.conns, "panics_seen": ag.panics,
            "distinct_outcome_vectors": ag.outcomes.len(),
            "control_flow_edges_of_obsidian_and_application": {"reached": ag.edges.0, "instrumented": ag.edges.1},
            "faults_injected": faults,
            "scheduling": {"scheduling_points": ag.stats.get("sps"), "of_them_inside_obsidian": ag.stats.get("cov"), "context_switches": ag.stats.get("switches"), "preemptions": ag.stats.get("preempts"), "threads_started": ag.stats.get("threads"), "epoll_waits": ag.stats.get("epoll_waits")},
            "runs_by_runtime_workers": {"current_thread": ag.rt[0], "1": ag.rt[1], "2": ag.rt[2], "3": ag.rt[3], "4": ag.rt[4]},
            "run_ends": ag.ends,
            "known_findings_met": ag.known,
            "violations_of_other_properties_seen": ag.other.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
            "violations": reports,
            "runs_ended_by_a_signal_once_and_not_again": lost,
            "real_components": ["obsidian (all of /repo/src, unmodified)", "hyper 0.14 server", "tokio runtime (current-thread and multi-thread), mio", "async-std file I/O and its blocking pool", "Rust std (threads, locks, println!)"],
            "stubbed_components": ["Linux kernel interface: TCP sockets, epoll, eventfd, futex, thread creation order and scheduling, clocks, files, stdio, randomness", "HTTP clients (scripted byte streams with an independent response parser)", "application handlers and middlewares (scripted, recording)"]
        },
        "assumptions": [
            "preemption happens at every branch, load and store of obsidian and of the application compiled on it, and elsewhere (hyper, tokio, std) at allocations, system calls and lock operations; memory is sequentially consistent",
            "the simulated kernel follows Linux semantics for the calls the server's layers make"
        ],
        "wall_s": wall,
        "violations": nviol
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{prop}.json"), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{prop} {tier}: {} runs, {} distinct interleavings, {} requests, {:.1} s, exit {code}",
        ag.runs,
        ag.inter.len(),
        ag.reqs,
        wall
    );
    code
}
