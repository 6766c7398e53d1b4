//! Seeded search over executions, shrinking, replay and evidence.
use crate::proj::*;
use crate::tape::{hash, mix, Tape};
use crate::world::*;
use crate::{known, props_db, props_fs};
use serde_json::{json, Value as Json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Scenario = fn(&mut Ctx) -> Res;
pub const PROPS: &[(&str, Scenario)] = &[
    ("P01", props_fs::p01),
    ("P02", props_fs::p02),
    ("P03", props_fs::p03),
    ("P04", props_fs::p04),
    ("P05", props_fs::p05),
    ("P06", props_fs::p06),
    ("P07", props_db::p07),
    ("P08", props_db::p08),
    ("P09", props_db::p09),
    ("P10", props_db::p10),
    ("P11", props_db::p11),
    ("P12", props_db::p12),
    ("P13", props_db::p13),
    ("P14", props_db::p14),
    ("P15", props_db::p15),
    ("P16", props_fs::p16),
    ("P17", props_fs::p17),
    ("P18", props_db::p18),
    ("P19", props_fs::p19),
    ("P20", props_db::p20),
];
pub fn scenario(p: &str) -> Option<Scenario> {
    PROPS.iter().find(|x| x.0 == p).map(|x| x.1)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Held,
    Violation(String),
    Setup(String),
    Broken(String),
}
pub struct Run {
    pub verdict: Verdict,
    pub tape: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    pub hash: u64,
    pub trace: Vec<String>,
    pub stats: Stats,
    pub checks: u64,
}
pub fn bins() -> Bins {
    let v = std::env::var("PODOSIM_HOME").unwrap_or_else(|_| "/verif".into());
    let podo = std::env::var("PODOSIM_PODO").map(PathBuf::from).unwrap_or_else(|_| Path::new(&v).join("target/podo/release/podo"));
    let shim = std::env::var("PODOSIM_SHIM").map(PathBuf::from).unwrap_or_else(|_| Path::new(&v).join("build/shim.so"));
    Bins { podo, shim }
}
pub fn home() -> PathBuf {
    PathBuf::from(std::env::var("PODOSIM_HOME").unwrap_or_else(|_| "/verif".into()))
}
/// one execution: everything that happens is a function of the tape and the program under test
pub fn execute(b: &Bins, f: Scenario, tape: Tape, base: &Path, deep: bool, tracing: bool) -> Run {
    let mut w = World::new(b, base, tape);
    w.tracing = tracing;
    let mut c = Ctx::new(w, deep);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)));
    let mut verdict = match r {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(Fail::Violation(m))) => Verdict::Violation(m),
        Ok(Err(Fail::Setup(m))) => Verdict::Setup(m),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Verdict::Broken(format!("panic: {} at {}", m, PANIC.with(|p| p.borrow().clone())))
        }
    };
    if let Some(m) = c.w.broken.clone() {
        verdict = Verdict::Broken(m);
    }
    let mut t = std::mem::take(&mut c.w.tape);
    while t.is_open() {
        t.end();
    }
    let h = mix(c.w.hash ^ hash(format!("{:?}", verdict).as_bytes()));
    Run { verdict, tape: t.rec.clone(), spans: t.spans.clone(), hash: h, trace: std::mem::take(&mut c.w.trace), stats: std::mem::take(&mut c.w.stats), checks: c.checks }
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = Default::default();
}
/// where the last panic of this thread happened
pub fn note_panic(at: String) {
    PANIC.with(|p| *p.borrow_mut() = at);
}
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let shm = Path::new("/dev/shm");
        let dir = if shm.is_dir() && std::fs::write(shm.join(format!(".probe{}", std::process::id())), b"x").is_ok() {
            let _ = std::fs::remove_file(shm.join(format!(".probe{}", std::process::id())));
            shm.to_path_buf()
        } else {
            std::env::temp_dir()
        };
        let p = dir.join(format!("podosim-{:07}", std::process::id()));
        let _ = std::fs::create_dir_all(&p);
        Scratch(p)
    }
    pub fn worker(&self, k: usize) -> PathBuf {
        self.0.join(format!("w{:02}", k))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn violates(v: &Verdict) -> Option<&str> {
    match v {
        Verdict::Violation(m) => Some(m),
        _ => None,
    }
}

/// makes a violating tape smaller as long as it violates
fn shrink(b: &Bins, f: Scenario, scratch: &Scratch, first: Run, deep: bool, budget: Duration) -> Run {
    let t0 = Instant::now();
    let mut best = first;
    let workers = 8;
    // the candidates of a round are tried in parallel and the first that works is taken
    let try_all = |best: &Run, cands: Vec<Vec<u64>>| -> Option<Run> {
        for chunk in cands.chunks(workers) {
            if t0.elapsed() > budget {
                return None;
            }
            let mut out: Vec<Option<Run>> = vec![];
            std::thread::scope(|s| {
                let hs: Vec<_> = chunk
                    .iter()
                    .enumerate()
                    .map(|(k, v)| {
                        let base = scratch.worker(k);
                        let v = v.clone();
                        s.spawn(move || {
                            let r = execute(b, f, Tape::replay(v), &base, deep, false);
                            if violates(&r.verdict).is_some() {
                                Some(r)
                            } else {
                                None
                            }
                        })
                    })
                    .collect();
                for h in hs {
                    out.push(h.join().ok().flatten());
                }
            });
            let key = |r: &Run| (r.tape.len(), r.tape.iter().map(|x| *x as u128).sum::<u128>());
            let mut ok: Vec<Run> = out.into_iter().flatten().filter(|r| key(r) < key(best)).collect();
            ok.sort_by_key(|r| key(r));
            if !ok.is_empty() {
                return Some(ok.remove(0));
            }
        }
        None
    };
    loop {
        let mut improved = false;
        // drop whole groups of choices, the large ones first
        loop {
            let mut sp = best.spans.clone();
            sp.sort_by_key(|(a, b)| (std::cmp::Reverse(b - a), *a));
            sp.dedup();
            let mut cands = vec![];
            for (a, z) in &sp {
                let mut v = best.tape.clone();
                v.drain(*a..*z);
                cands.push(v);
                let mut v = best.tape.clone();
                for x in &mut v[*a..*z] {
                    *x = 0;
                }
                cands.push(v);
            }
            match try_all(&best, cands) {
                Some(r) => {
                    best = r;
                    improved = true;
                }
                None => break,
            }
        }
        // zero or drop blocks, then lower single choices
        for size in [32usize, 8, 2, 1] {
            loop {
                let n = best.tape.len();
                let mut cands = vec![];
                let mut i = 0;
                while i < n {
                    let e = (i + size).min(n);
                    if best.tape[i..e].iter().any(|x| *x != 0) {
                        let mut v = best.tape.clone();
                        for x in &mut v[i..e] {
                            *x = 0;
                        }
                        cands.push(v);
                        if size == 1 {
                            let mut v = best.tape.clone();
                            v[i] /= 2;
                            cands.push(v);
                        }
                    }
                    if size > 1 {
                        let mut v = best.tape.clone();
                        v.drain(i..e);
                        cands.push(v);
                    }
                    i = e;
                }
                match try_all(&best, cands) {
                    Some(r) => {
                        best = r;
                        improved = true;
                    }
                    None => break,
                }
            }
        }
        if !improved || t0.elapsed() > budget {
            return best;
        }
    }
}

pub fn write_replay(prop: &str, seed: u64, run_seed: u64, r: &Run, original: &str, deep: bool) -> PathBuf {
    let dir = home().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{:016x}.json", prop, seed, run_seed));
    let j = json!({
        "property": prop,
        "verif_seed": seed,
        "run_seed": format!("{:016x}", run_seed),
        "deep": deep,
        "message": violates(&r.verdict).unwrap_or(""),
        "message_before_minimising": original,
        "choices": r.tape,
        "hash": format!("{:016x}", r.hash),
        "trace": r.trace,
        "how": "podosim replay FILE runs these choices again against the podo built from /repo and compares the hash of the execution",
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p
}
pub fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("read the replay file");
    let j: Json = serde_json::from_str(&t).expect("parse the replay file");
    let p = j["property"].as_str().unwrap();
    let tape: Vec<u64> = j["choices"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect();
    let s = Scratch::new();
    let r = execute(&bins(), scenario(p).unwrap(), Tape::replay(tape), &s.worker(0), j["deep"].as_bool().unwrap_or(false), true);
    for l in &r.trace {
        println!("{}", l);
    }
    println!("{:?}", r.verdict);
    let same = format!("{:016x}", r.hash) == j["hash"].as_str().unwrap_or("");
    println!("{}", if same { "the execution is exactly the recorded one" } else { "the execution differs from the recorded one" });
    match r.verdict {
        Verdict::Violation(_) => {
            println!("VIOLATION property={} replay={}", p, file);
            1
        }
        Verdict::Broken(_) => 2,
        _ => 0,
    }
}
/// one run with its trace
pub fn one(p: &str, run_seed: u64, deep: bool) -> i32 {
    let s = Scratch::new();
    let r = execute(&bins(), scenario(p).unwrap(), Tape::seeded(run_seed), &s.worker(0), deep, true);
    for l in &r.trace {
        println!("{}", l);
    }
    println!("{:?} checks {} hash {:016x} choices {}", r.verdict, r.checks, r.hash, r.tape.len());
    0
}
/// the same seeds, twice and on different workers, give the same executions
pub fn selftest(n: u64, seed: u64) -> i32 {
    let b = bins();
    let scratch = Arc::new(Scratch::new());
    let bad = AtomicU64::new(0);
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for w in 0..8usize {
            let (b, scratch, bad, next) = (&b, &scratch, &bad, &next);
            s.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n * PROPS.len() as u64 {
                    return;
                }
                let (p, f) = PROPS[(i % PROPS.len() as u64) as usize];
                let rs = mix(seed ^ mix(hash(p.as_bytes()) ^ i));
                let a = execute(b, f, Tape::seeded(rs), &scratch.worker(w), false, true);
                let z = execute(b, f, Tape::replay(a.tape.clone()), &scratch.worker((w + 3) % 8 + 10 * (w + 1)), false, true);
                if a.hash != z.hash || a.tape != z.tape || a.trace != z.trace {
                    bad.fetch_add(1, Ordering::SeqCst);
                    println!("{} seed {:016x} is not reproducible: {:?} / {:?}", p, rs, a.verdict, z.verdict);
                    if let Some(k) = (0..a.trace.len().min(z.trace.len())).find(|k| a.trace[*k] != z.trace[*k]) {
                        println!("   {}\n   {}", a.trace[k], z.trace[k]);
                    }
                }
            });
        }
    });
    println!("{} executions run twice, {} differ", n * PROPS.len() as u64, bad.load(Ordering::SeqCst));
    (bad.load(Ordering::SeqCst) > 0) as i32
}

#[derive(Default)]
struct Total {
    stats: Stats,
    runs: u64,
    held: u64,
    setup: BTreeMap<String, u64>,
    broken: Vec<String>,
    unstable: Vec<String>,
    checks: u64,
    hashes: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    samples: BTreeMap<u64, Json>,
}
fn squeeze(m: &str) -> String {
    let m: String = m.chars().take(160).collect();
    m.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect()
}

/// a short look for any violation of the given properties; prints the first and stops (for development)
pub fn scan(props: &[&str], secs: u64, seed: u64) -> i32 {
    let b = bins();
    let scratch = Scratch::new();
    for p in props {
        let Some(f) = scenario(p) else { return 2 };
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let hit: Mutex<Option<String>> = Mutex::new(None);
        let held = AtomicU64::new(0);
        let deadline = Instant::now() + Duration::from_secs(secs);
        std::thread::scope(|s| {
            for k in 0..8usize {
                let (b, scratch, next, stop, hit, held) = (&b, &scratch, &next, &stop, &hit, &held);
                s.spawn(move || loop {
                    if stop.load(Ordering::SeqCst) || Instant::now() > deadline {
                        return;
                    }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i > 40 && held.load(Ordering::SeqCst) == 0 {
                        stop.store(true, Ordering::SeqCst);
                        hit.lock().unwrap().get_or_insert("nothing could be decided".into());
                        return;
                    }
                    let rs = mix(seed ^ mix(hash(p.as_bytes()) ^ i));
                    let r = execute(b, f, Tape::seeded(rs), &scratch.worker(k), false, false);
                    match r.verdict {
                        Verdict::Violation(m) => {
                            stop.store(true, Ordering::SeqCst);
                            hit.lock().unwrap().get_or_insert(format!("seed {:016x} run {}: {}", rs, i, m));
                        }
                        Verdict::Held => {
                            held.fetch_add(1, Ordering::SeqCst);
                        }
                        _ => {}
                    }
                });
            }
        });
        if let Some(m) = hit.into_inner().unwrap() {
            println!("HIT {} {}", p, m.lines().next().unwrap_or(""));
            return 1;
        }
    }
    println!("SURVIVED");
    0
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub secs: u64,
    pub max_runs: u64,
    pub keep_going: bool,
}
pub fn check(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let b = bins();
    let Some(f) = scenario(&o.prop) else {
        eprintln!("unknown property {}", o.prop);
        return 2;
    };
    let deep = o.tier == "thorough";
    // failures that are recorded as known
    let mut known_lines = 0;
    for f in known::probes(&b, &o.prop) {
        match f.holds {
            Some(false) => {
                println!("KNOWN-FINDING: property={} {} {}", o.prop, f.id, f.text);
                known_lines += 1;
            }
            Some(true) => println!("note: the recorded finding {} no longer shows", f.id),
            None => println!("note: the recorded finding {} could not be shown again", f.id),
        }
    }
    let scratch = Scratch::new();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Total::default());
    let found: Mutex<Vec<(u64, u64, Run)>> = Mutex::new(vec![]);
    let deadline = t0 + Duration::from_secs(o.secs);
    std::thread::scope(|s| {
        for k in 0..8usize {
            let (b, scratch, next, stop, total, found) = (&b, &scratch, &next, &stop, &total, &found);
            let o = &o;
            s.spawn(move || loop {
                if stop.load(Ordering::SeqCst) || Instant::now() > deadline {
                    return;
                }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= o.max_runs {
                    return;
                }
                let rs = mix(o.seed ^ mix(hash(o.prop.as_bytes()) ^ i));
                let mut r = execute(b, f, Tape::seeded(rs), &scratch.worker(k), deep, i < 3);
                let mut unstable = None;
                if let Verdict::Violation(m) = r.verdict.clone() {
                    // a violation counts when the same seed leads to it again
                    let r2 = execute(b, f, Tape::replay(r.tape.clone()), &scratch.worker(k), deep, false);
                    if violates(&r2.verdict).is_none() || r2.hash != r.hash {
                        unstable = Some(format!("seed {:016x}: {} / {:?}", rs, m, r2.verdict));
                    } else {
                        if !o.keep_going {
                            stop.store(true, Ordering::SeqCst);
                        } else {
                            println!("seed {:016x}: {}", rs, m);
                        }
                        r.stats = std::mem::take(&mut r.stats);
                    }
                }
                let mut t = total.lock().unwrap();
                t.runs += 1;
                t.checks += r.checks;
                t.stats.merge(std::mem::take(&mut r.stats));
                t.hashes.insert(r.hash);
                if r.checks > 0 {
                    t.nontrivial.insert(r.hash);
                }
                if i < 3 {
                    let lines: Vec<String> = r.trace.iter().filter(|l| !l.is_empty()).take(40).map(|l| l.chars().take(300).collect()).collect();
                    t.samples.insert(i, json!({"run_seed": format!("{:016x}", rs), "choices": r.tape.len(), "verdict": format!("{:?}", r.verdict), "trace": lines, "trace_lines": r.trace.len()}));
                }
                match &r.verdict {
                    Verdict::Held => t.held += 1,
                    Verdict::Setup(m) => {
                        *t.setup.entry(squeeze(m)).or_default() += 1;
                        if o.keep_going && t.setup[&squeeze(m)] == 1 {
                            println!("setup {:016x}: {}", rs, m);
                        }
                    }
                    Verdict::Broken(m) => {
                        t.broken.push(format!("seed {:016x}: {}", rs, m));
                        if o.keep_going {
                            println!("broken {:016x}: {}", rs, m);
                        }
                    }
                    Verdict::Violation(_) => {
                        if let Some(u) = unstable {
                            if o.keep_going {
                                println!("unstable {}", u);
                            }
                            t.unstable.push(u);
                        } else {
                            found.lock().unwrap().push((i, rs, r));
                        }
                    }
                }
            });
        }
    });
    let search = t0.elapsed().as_secs_f64();
    let mut t = total.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|x| x.0);
    let violations = found.len();
    let mut code = 0;
    if let Some((_, rs, r)) = found.into_iter().next() {
        let msg = violates(&r.verdict).unwrap().to_string();
        println!("violated (seed {:016x}): {}", rs, msg);
        let budget = if o.keep_going { 5 } else { 60 };
        let small = shrink(&b, f, &scratch, r, deep, Duration::from_secs(budget));
        let full = execute(&b, f, Tape::replay(small.tape.clone()), &scratch.worker(0), deep, true);
        let last = if violates(&full.verdict).is_some() { full } else { small };
        let p = write_replay(&o.prop, o.seed, rs, &last, &msg, deep);
        println!("minimised to {} choices: {}", last.tape.len(), violates(&last.verdict).unwrap());
        println!("VIOLATION property={} replay={}", o.prop, p.display());
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let info = crate::info::of(&o.prop);
    let per_hour = |n: u64| (n as f64 / search.max(0.001) * 3600.0) as u64;
    let setup_total: u64 = t.setup.values().sum();
    let ev = json!({
        "property": o.prop,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": violations,
        "assumptions": info.assumptions,
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": info.rule,
            "samples": t.samples.values().cloned().collect::<Vec<_>>(),
            "comparisons_that_decided_something": t.checks,
            "runs_that_held": t.held,
            "runs_whose_situation_could_not_be_set_up": setup_total,
            "reasons_for_that": t.setup.iter().take(20).map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
            "runs_the_simulator_could_not_complete": t.broken.len(),
            "violations_that_did_not_reproduce": t.unstable.len(),
            "known_findings_that_still_show": known_lines,
            "runs_per_hour_each_with_its_own_seed": per_hour(t.runs),
            "podo_processes_run": t.stats.commands,
            "operations_of_them_decided_by_the_simulator": t.stats.ops,
            "database_messages_simulated": t.stats.msgs,
            "simulated_seconds": t.stats.sim_ns / 1_000_000_000,
            "simulated_seconds_per_wall_second": (t.stats.sim_ns as f64 / 1e9 / search.max(0.001)) as u64,
            "faults_injected_by_kind": t.stats.faults,
            "faults_injected": t.stats.faults.values().sum::<u64>(),
            "distinct_executions_by_hash_of_their_events": t.hashes.len(),
            "distinct_states_of_files_and_database_between_commands": t.stats.states.len(),
            "distinct_interleavings_of_concurrent_commands": t.stats.schedules.len(),
            "deadlocks_of_the_simulated_server": t.stats.deadlocks,
            "lock_waits_of_the_simulated_server": t.stats.lock_waits,
            "situations_reached": t.stats.counts,
            "real_code": ["the podo binary built from /repo in release mode, unmodified: command line, configuration, project files, parsing, diffing, SQL generation, statement execution", "its libraries: tokio-postgres, postgres, tokio (current-thread runtime), chrono, serde_yaml, clap"],
            "simulated": ["PostgreSQL: wire protocol, parser, catalog, DDL, constraints, transactions and table locks (sim/src/pg)", "TCP connection and name resolution", "clocks and time zones", "randomness (getrandom)", "durability of files: what survives a loss of power is decided by a model of writes, renames and fsyncs; reads and writes of the running process go to a scratch directory"],
        }
    });
    let dir = home().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", o.prop)), serde_json::to_string_pretty(&ev).unwrap() + "\n");
    println!(
        "{}: {} runs in {:.1} s, {} decided ({} comparisons), {} set aside, {} faults, {} violations",
        o.prop,
        t.runs,
        wall,
        t.nontrivial.len(),
        t.checks,
        setup_total,
        t.stats.faults.values().sum::<u64>(),
        violations
    );
    if o.keep_going {
        let mut v: Vec<_> = t.setup.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.into_iter().take(15) {
            println!("  {:5} {}", n, k);
        }
    }
    for u in t.unstable.iter().take(3) {
        println!("not reproducible: {}", u);
    }
    for u in t.broken.iter().take(3) {
        println!("not completed: {}", u);
    }
    if code == 0 && !t.unstable.is_empty() && t.unstable.len() as u64 * 20 > t.runs {
        println!("too many executions are not reproducible");
        return 2;
    }
    if code == 0 && t.broken.len() as u64 * 4 > t.runs {
        println!("too many executions could not be completed");
        return 2;
    }
    if code == 0 && t.nontrivial.is_empty() {
        println!("no execution decided anything");
        return 2;
    }
    let _ = std::mem::take(&mut t);
    code
}
