//! Deterministic simulation of midi2spc: checks one property by seeded search, or replays a file.
#![allow(dead_code)]
mod ctl;
mod gen;
mod minimise;
mod model;
mod rng;
mod scen;
mod sim;
mod spec;

use scen::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use sim::*;
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn repo() -> String {
    std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into())
}
fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()))
}
fn build_dir() -> PathBuf {
    std::env::var("VH_BUILD").map_or_else(|_| verif().join("build"), PathBuf::from)
}
/// (command line tool, library driver), each as [release build, build with run-time checks]
fn bins() -> ([PathBuf; 2], [PathBuf; 2]) {
    let b = build_dir();
    let t = |dir: &str, bin: &str| b.join(dir).join("x86_64-unknown-linux-gnu/release").join(bin);
    ([t("target", "midi2spc"), t("chktarget", "midi2spc")], [t("drvtarget", "vdriver"), t("drvchktarget", "vdriver")])
}

/// the scratch disks live here; removed when dropped
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() && std::fs::create_dir_all("/dev/shm/.vsimtest").is_ok() {
            let _ = std::fs::remove_dir("/dev/shm/.vsimtest");
            "/dev/shm"
        } else {
            "/var/tmp"
        };
        let p = PathBuf::from(format!("{}/vsim{:08x}", base, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    message: String,
    seed: u64,
    index: u64,
    /// fold of the execution hashes of every simulated process of the scenario
    execution: String,
    scenario: Scenario,
}

struct Known {
    property: String,
    pattern: String,
    text: String,
}
fn known() -> Vec<Known> {
    // lines: KNOWN property=<id> match=<substring of the message> :: <what fails>
    let t = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("KNOWN property=")?;
            let (id, rest) = l.split_once(" match=")?;
            let (pat, text) = rest.split_once(" :: ")?;
            Some(Known { property: id.into(), pattern: pat.into(), text: text.into() })
        })
        .collect()
}

fn quick_count(prop: &str) -> u64 {
    match prop {
        "C01" => 4000,
        "C02" => 4000,
        "C03" => 3000,
        "C04" => 4000,
        "C05" => 4000,
        "C06" => 3000,
        "C07" => 5000,
        "C08" => 4000,
        "C09" => 4000,
        "C10" => 8000,
        "C11" => 1100,
        "C12" => 1500,
        "C13" => 3000,
        "C14" => 3000,
        "C15" => 4000,
        "C16" => 6000,
        "C18" => 3000,
        "C19" => 6000,
        "C20" => 3000,
        "C21" => 3000,
        _ => 0,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], a.iter().any(|x| x == "thorough") || std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")),
        Some("replay") => replay(&a[2], a.iter().any(|x| x == "--trace")),
        Some("one") => one(&a[2], a[3].parse().unwrap()),
        Some("twice") => twice(&a[2], a[3].parse().unwrap()),
        Some("survey") => survey(&a[2..]),
        _ => {
            eprintln!("usage: vharness check ID [thorough] | replay FILE [--trace] | one ID INDEX");
            2
        }
    };
    std::process::exit(code);
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn world(s: &Scratch, i: usize) -> World {
    let (c, d) = bins();
    World::new(&s.0, &format!("w{:02}", i), c, d)
}

fn one(prop: &str, idx: u64) -> i32 {
    let s = Scratch::new();
    let mut w = world(&s, 0);
    w.target = prop.into();
    let sc = gen::generate(prop, seed(), idx, &mut w);
    let _ = std::fs::write("/tmp/one.json", serde_json::to_vec_pretty(&sc).unwrap());
    if let Ok(d) = std::env::var("VH_FILES") {
        let _ = std::fs::create_dir_all(&d);
        for (n, b) in scen::disk_of(&sc) {
            let _ = std::fs::write(std::path::Path::new(&d).join(n.replace('/', "_")), b.as_slice());
        }
    }
    if let Ok(t) = std::env::var("VH_TRACE") {
        w.trace = Some(PathBuf::from(t));
    }
    let f = evaluate(&sc, &mut w);
    for x in &f {
        println!("{} {}", x.prop, x.msg);
    }
    println!("{:?} {:?} {:?}", w.stats.ends, w.stats.faults, w.stats.counters);
    0
}

/// executes a scenario twice and compares every process (development aid)
fn twice(prop: &str, idx: u64) -> i32 {
    let s = Scratch::new();
    let mut w = world(&s, 0);
    w.target = prop.into();
    let sc = gen::generate(prop, seed(), idx, &mut w);
    let mut hs = vec![];
    for k in 0..2 {
        w.forget();
        w.hashes = Some(vec![]);
        w.trace = std::env::var("VH_TRACE").ok().map(|t| PathBuf::from(format!("{}.{}", t, k)));
        let _ = evaluate(&sc, &mut w);
        hs.push(w.hashes.take().unwrap());
    }
    for i in 0..hs[0].len().max(hs[1].len()) {
        if hs[0].get(i) != hs[1].get(i) {
            println!("process {} of {}/{} differs", i, hs[0].len(), hs[1].len());
            return 1;
        }
    }
    println!("{} processes identical", hs[0].len());
    0
}

/// runs scenarios of a property and lists the distinct messages (development aid)
fn survey(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let from: u64 = a.get(1).map_or(0, |x| x.parse().unwrap());
    let n: u64 = a.get(2).map_or(200, |x| x.parse().unwrap());
    let s = Scratch::new();
    let next = AtomicU64::new(from);
    let all = Mutex::new(std::collections::BTreeMap::<String, Vec<u64>>::new());
    let stats = Mutex::new(Stats::default());
    let slow = Mutex::new(vec![]);
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        for wi in 0..8 {
            let (s, next, all, stats, prop, slow) = (&s, &next, &all, &stats, &prop, &slow);
            sc.spawn(move || {
                let mut w = world(s, wi);
                w.target = prop.clone();
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= from + n {
                        break;
                    }
                    let t = Instant::now();
                    let sc = gen::generate(prop, seed(), i, &mut w);
                    let f = evaluate(&sc, &mut w);
                    slow.lock().unwrap().push((t.elapsed().as_millis(), i));
                    for x in f {
                        let key: String = x.msg.chars().take(170).collect::<String>();
                        let key: String = key.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
                        all.lock().unwrap().entry(format!("{} {}", x.prop, key)).or_default().push(i);
                    }
                }
                stats.lock().unwrap().merge(&w.stats);
            });
        }
    });
    for (k, v) in all.lock().unwrap().iter() {
        println!("{:5} {}  {:?}", v.len(), k, &v[..v.len().min(4)]);
    }
    let st = stats.lock().unwrap();
    println!("{} runs {:.1}s ends {:?}\nfaults {:?}\ncounters {:?} edges covered {} schedules {}", st.runs, t0.elapsed().as_secs_f64(), st.ends, st.faults, st.counters, st.covered(), st.scheds.len());
    let mut sl = slow.lock().unwrap().clone();
    sl.sort();
    sl.reverse();
    println!("slowest {:?}", &sl[..sl.len().min(6)]);
    0
}

fn check(prop: &str, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let seed = seed();
    let n = quick_count(prop) * if thorough { 20 } else { 1 };
    if n == 0 {
        eprintln!("no check for {}", prop);
        return 2;
    }
    let n = std::env::var("VH_COUNT").ok().and_then(|x| x.parse().ok()).unwrap_or(n);
    let cap = Duration::from_secs(if thorough { 3 * 3600 } else { 420 });
    let s = Scratch::new();
    let next = AtomicU64::new(0);
    let best = Mutex::new(None::<(u64, Scenario, Finding)>);
    let stats = Mutex::new(Stats::default());
    let done = AtomicU64::new(0);
    let nontrivial = Mutex::new(HashSet::<u64>::new());
    let samples = Mutex::new(vec![]);
    let repeat = AtomicU64::new(0);
    let diverge = AtomicU64::new(0);
    let harness = Mutex::new(None::<String>);
    let hits = Mutex::new(std::collections::BTreeMap::<String, u64>::new());
    let kn = known();
    let workers = std::thread::available_parallelism().map_or(4, |x| x.get()).min(16);
    std::thread::scope(|scope| {
        for wi in 0..workers {
            let (s, next, best, stats, done, nontrivial, samples, repeat, diverge, harness, kn, hits) =
                (&s, &next, &best, &stats, &done, &nontrivial, &samples, &repeat, &diverge, &harness, &kn, &hits);
            scope.spawn(move || {
                let mut w = world(s, wi);
                w.target = prop.into();
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n || t0.elapsed() > cap {
                        break;
                    }
                    if best.lock().unwrap().as_ref().map_or(false, |b| b.0 < i) {
                        break;
                    }
                    let sc = gen::generate(prop, seed, i, &mut w);
                    w.active = false;
                    let f = evaluate(&sc, &mut w);
                    done.fetch_add(1, SeqCst);
                    let h = w.hashlog;
                    if w.active {
                        nontrivial.lock().unwrap().insert(h);
                    }
                    if i < 3 {
                        let v = json!({"index": i, "mode": sc.mode, "steps": sc.steps, "calls": sc.calls,
                            "files": sc.files.iter().map(|(k, v)| (k.clone(), v.bytes().len())).collect::<std::collections::BTreeMap<_, _>>()});
                        samples.lock().unwrap().push((i, v));
                    }
                    // one in sixteen is executed again: a seed must be one exact execution
                    if i % 16 == 5 && f.is_empty() {
                        w.forget();
                        let _ = evaluate(&sc, &mut w);
                        repeat.fetch_add(1, SeqCst);
                        if w.hashlog != h {
                            diverge.fetch_add(1, SeqCst);
                        }
                    }
                    for x in f {
                        if x.prop == "HARNESS" {
                            *harness.lock().unwrap() = Some(format!("scenario {}: {}", i, x.msg));
                        }
                        if x.prop != prop {
                            continue;
                        }
                        if let Some(k) = kn.iter().find(|k| k.property == prop && x.msg.contains(&k.pattern)) {
                            *hits.lock().unwrap().entry(k.text.clone()).or_default() += 1;
                            continue;
                        }
                        let mut b = best.lock().unwrap();
                        if b.as_ref().map_or(true, |b| i < b.0) {
                            *b = Some((i, sc.clone(), x));
                        }
                        break;
                    }
                }
                stats.lock().unwrap().merge(&w.stats);
            });
        }
    });
    let search = t0.elapsed().as_secs_f64();
    let mut violation = None;
    if let Some((i, sc, f)) = best.into_inner().unwrap() {
        let mut w = world(&s, 0);
        w.target = prop.into();
        println!("scenario {} violates {}: {}", i, prop, f.msg);
        let (small, tried) = minimise::minimise(&sc, prop, &mut w, Duration::from_secs(60));
        w.forget();
        let fs = evaluate(&small, &mut w);
        let (small, msg) = match fs.iter().find(|x| x.prop == prop) {
            Some(x) => (small, x.msg.clone()),
            None => {
                w.forget();
                let _ = evaluate(&sc, &mut w);
                (sc, f.msg)
            }
        };
        let rp = Replay { property: prop.into(), message: msg.clone(), seed, index: i, execution: format!("{:016x}", w.hashlog), scenario: small };
        let dir = verif().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.json", prop, seed, i));
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&rp).unwrap());
        println!("minimised with {} executions: {}", tried, msg);
        violation = Some(path);
        stats.lock().unwrap().merge(&w.stats);
    }
    let st = stats.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let evals = done.load(SeqCst);
    let mut smp = samples.into_inner().unwrap();
    smp.sort_by_key(|x| x.0);
    let per_h = |x: f64| (x / search.max(0.001) * 3600.0).round();
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontrivial.into_inner().unwrap().len(),
            "rule": "a case is one scenario: generated input files, a history of commands, and for each command a schedule and a fault sequence, all drawn from splitmix64(VERIF_SEED, property, index). Non-trivial: at least one fault, split transfer, forced preemption or crash took effect, or more than one thread was scheduled, or the output was compared note by note or slot by slot with the model. Distinct: the fold of the execution hashes (every intercepted call, its result, the thread making it, every switch) differs from all others.",
            "samples": smp.into_iter().map(|x| x.1).collect::<Vec<_>>(),
            "simulated_processes": st.processes,
            "simulated_processes_per_hour": per_h(st.processes as f64),
            "seeds_per_hour": per_h(evals as f64),
            "simulated_time_s": st.simtime as f64 / 1e9,
            "intercepted_calls": st.ops,
            "instrumented_edges_executed": st.edges,
            "thread_switches": st.switches,
            "scheduling_policies_of_multithreaded_runs": st.policies,
            "faults_injected": st.faults,
            "distinct_interleavings": {"count": st.scheds.len(), "measure": "hash of the sequence of (thread, call number) at every switch of one process"},
            "distinct_executions": {"count": st.hashes.len(), "measure": "hash of every intercepted call with result of one process"},
            "basic_block_edges_reached": st.covered(),
            "process_endings": st.ends,
            "judgements": st.counters,
            "executed_twice": repeat.load(SeqCst),
            "executed_twice_and_diverged": diverge.load(SeqCst),
            "known_findings_met": hits.lock().unwrap().clone(),
            "real_code": ["all of /repo (CLI and library) with clap, ghakuf, pbr, serde_json, byteorder, itertools and the Rust standard library, built from the working tree"],
            "stubbed": ["libc calls: files pass through to a scratch disk, faults decided by the plan; threads run one at a time under the plan's scheduler; futex, clock, sleep, randomness, terminal simulated; stdout and stderr captured", "console sound driver and bank upload: executable model in harness/src/model.rs"],
        },
        "assumptions": [
            "the disk model for power loss: un-synced 512-byte sectors survive independently, names survive in order",
            "edges of the standard library are not instrumented, so preemption inside it happens only at its system calls",
            "memory is sequentially consistent: one thread runs at a time",
        ],
        "wall_s": wall,
        "violations": violation.is_some() as u64,
    });
    let evdir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let evp = evdir.join(format!("{}.json", prop));
    if let Err(e) = std::fs::write(&evp, serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("cannot write {}: {}", evp.display(), e);
        return 2;
    }
    for k in kn.iter().filter(|k| k.property == prop) {
        println!("KNOWN-FINDING: property={} {}", prop, k.text);
    }
    println!(
        "{}: {} scenarios, {} simulated processes, {} distinct interleavings, {:.0} s simulated, {:.1} s; repeated {} diverged {}",
        prop,
        evals,
        st.processes,
        st.scheds.len(),
        st.simtime as f64 / 1e9,
        wall,
        repeat.load(SeqCst),
        diverge.load(SeqCst)
    );
    if let Some(p) = violation {
        println!("VIOLATION property={} replay={}", prop, p.display());
        return 1;
    }
    if let Some(h) = harness.into_inner().unwrap() {
        println!("simulator could not decide: {}", h);
        return 2;
    }
    if evals == 0 {
        return 2;
    }
    0
}

fn replay(file: &str, trace: bool) -> i32 {
    let b = match std::fs::read(file) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let r: Replay = match serde_json::from_slice(&b) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let s = Scratch::new();
    let mut w = world(&s, 0);
    w.target = r.property.clone();
    if trace {
        w.trace = Some(PathBuf::from(format!("{}.trace", file)));
    }
    let f = evaluate(&r.scenario, &mut w);
    let exec = format!("{:016x}", w.hashlog);
    println!("execution {} ({})", exec, if exec == r.execution { "identical to the recorded one" } else { "differs from the recorded one" });
    match f.iter().find(|x| x.prop == r.property) {
        Some(x) => {
            println!("{}", x.msg);
            println!("VIOLATION property={} replay={}", r.property, file);
            1
        }
        None => {
            println!("property {} holds on this replay", r.property);
            0
        }
    }
}
