mod checks;
mod disk;
mod dut;
mod evl;
mod exec;
mod gen;
mod model;
mod plan;
mod rng;
mod runner;
mod sched;
mod seam;
mod shrink;
mod tables;

use plan::Plan;
use rng::{mix, mix2};
use runner::{die, isolated, pipe};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

#[global_allocator]
static ALLOC: seam::Counting = seam::Counting;

/// Simulated runs per check: quick, thorough.
fn runs(prop: &str, thorough: bool) -> u64 {
    let (q, t) = match prop {
        "C01" => (10000, 150_000),
        "C02" => (5000, 150_000),
        "C03" => (14000, 120_000),
        "C04" => (12000, 200_000),
        "C05" => (24000, 300_000),
        "C06" => (4000, 90_000),
        "C07" => (2600, 60_000),
        "C08" => (8000, 150_000),
        "C09" => (6000, 110_000),
        "C10" => (4000, 120_000),
        "C11" => (8000, 130_000),
        "C12" => (24000, 400_000),
        _ => die("unknown property"),
    };
    if thorough { t } else { q }
}

#[derive(Serialize, Deserialize)]
struct Record {
    run: u64,
    viol: Option<(String, String)>,
    executions: u64,
    compared: u64,
    trace: u64,
    counters: BTreeMap<String, u64>,
    sim_ms: u64,
    flavor: String,
    events: u64,
}

/// Replay file of C12.
#[derive(Serialize, Deserialize)]
struct EvlReplay {
    property: String,
    class: String,
    detail: String,
    seed: u64,
    run: u64,
    original_size: usize,
    shrink_steps: u32,
    evl: evl::EvlPlan,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    detail: String,
    seed: u64,
    run: u64,
    original_events: usize,
    shrink_steps: u32,
    plan: Plan,
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn num(name: &str, default: u64) -> u64 {
    arg(name).and_then(|v| v.parse().ok()).unwrap_or(default)
}

/// Addresses of code, statics and stacks that are the same in every process.
fn fixed_layout() {
    use std::os::unix::process::CommandExt;
    const FIXED: libc::c_ulong = libc::ADDR_NO_RANDOMIZE as libc::c_ulong;
    let now = unsafe { libc::personality(0xffff_ffff) };
    if now < 0 || now as libc::c_ulong & FIXED != 0 || std::env::var_os("HLLSIM_LAYOUT").is_some() {
        return;
    }
    if unsafe { libc::personality(now as libc::c_ulong | FIXED) } < 0 {
        return;
    }
    // Where this is not allowed the check goes on without it.
    let _ = std::process::Command::new("/proc/self/exe")
        .args(std::env::args_os().skip(1))
        .env("HLLSIM_LAYOUT", "fixed")
        .exec();
}

fn main() {
    fixed_layout();
    exec::install_panic_hook();
    match std::env::args().nth(1).as_deref() {
        Some("check") => cmd_check(),
        Some("replay") => cmd_replay(),
        Some("digest") => cmd_digest(),
        Some("plan") if arg("--prop").as_deref() == Some("C12") => {
            println!("{:?}", evl::generate(num("--seed", 1), num("--run", 0)));
        }
        Some("plan") => {
            let p = gen::generate(&arg("--prop").unwrap(), num("--seed", 1), num("--run", 0), false);
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
        }
        _ => die("usage: hllsim check|replay|digest|plan"),
    }
}

fn evl_env() -> evl::Env {
    let path = |n: &str| std::path::PathBuf::from(arg(n).unwrap_or_else(|| die(&format!("{} PATH", n))));
    evl::Env { evl: path("--evl"), shim: path("--shim"), scratch: path("--scratch") }
}

fn one(prop: &str, seed: u64, run: u64, thorough: bool) -> Record {
    if prop == "C12" {
        let p = evl::generate(seed, run);
        let v = evl::check(&evl_env(), &p);
        let events = v.counters.get("file_operations").copied().unwrap_or(0);
        return Record {
            run,
            viol: v.viol,
            executions: v.executions,
            compared: v.compared,
            trace: v.trace,
            counters: v.counters,
            sim_ms: 0,
            flavor: p.flavor,
            events,
        };
    }
    let p = gen::generate(prop, seed, run, thorough);
    let mut v = checks::check(&p, &mut |p, m| isolated(p, m));
    for (k, n) in &p.stats {
        *v.counters.entry(format!("net_{}", k)).or_default() += n;
    }
    Record {
        run,
        viol: v.viol,
        executions: v.executions,
        compared: v.compared,
        trace: v.trace,
        counters: v.counters,
        sim_ms: p.sim_ms(),
        flavor: p.flavor,
        events: p.events.len() as u64,
    }
}

/// Everything an execution recorded, hashed: to diff runs against each other.
fn cmd_digest() {
    let (prop, seed) = (arg("--prop").unwrap(), num("--seed", 1));
    for run in num("--from", 0)..num("--to", 100) {
        if prop == "C12" {
            let v = evl::check(&evl_env(), &evl::generate(seed, run));
            println!("{} {} {:016x} {:?}", prop, run, v.trace, v.viol);
            continue;
        }
        let p = gen::generate(&prop, seed, run, false);
        let mut d = 0u64;
        let v = checks::check(&p, &mut |p, m| {
            let r = isolated(p, m);
            if let checks::Ran::Done(o) = &r {
                for b in bincode::serialize(&**o).unwrap() {
                    d = d.wrapping_mul(0x100_0000_01b3) ^ b as u64;
                }
                d = mix(d);
            }
            r
        });
        println!("{} {} {:016x} {:016x} {:?}", prop, run, d, v.trace, v.viol);
    }
}

fn cmd_replay() {
    let file = std::env::args().nth(2).unwrap_or_else(|| die("replay FILE"));
    let text = std::fs::read_to_string(&file).unwrap_or_else(|e| die(&format!("{}: {}", file, e)));
    let verdict = |found: Option<(String, String)>, prop: &str, class: &str, detail: &str| match found {
        Some((c, d)) => {
            println!("class: {}\n{}", c, d);
            println!("VIOLATION property={} replay={}", prop, file);
            std::process::exit(if c == class && d == detail { 1 } else { 3 });
        }
        None => println!("no violation: property {} held on this schedule", prop),
    };
    if let Ok(r) = serde_json::from_str::<EvlReplay>(&text) {
        return verdict(evl::check(&evl_env(), &r.evl).viol, &r.property, &r.class, &r.detail);
    }
    let r: Replay = serde_json::from_str(&text).unwrap_or_else(|e| die(&format!("{}: {}", file, e)));
    verdict(shrink::classify(&r.plan), &r.property, &r.class, &r.detail)
}
fn shared_u64(init: u64) -> &'static AtomicU64 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0,
        );
        if p == libc::MAP_FAILED {
            die("mmap failed");
        }
        let a = &*(p as *const AtomicU64);
        a.store(init, SeqCst);
        a
    }
}

fn cmd_check() {
    let prop = arg("--prop").unwrap_or_else(|| die("--prop"));
    let tier = arg("--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let seed = num("--seed", 1);
    let workers = num("--workers", 8);
    let total = num("--runs", runs(&prop, thorough));
    let cap_s = num("--seconds", if thorough { 3600 } else { 400 });
    let verif = arg("--verif").unwrap_or("/verif".into());
    println!("property={} tier={} VERIF_SEED={} runs={} workers={}", prop, tier, seed, total, workers);
    let start = Instant::now();
    // The lowest failing run decides, whatever the workers' speed.
    let lowest = shared_u64(u64::MAX);
    let mut pipes = vec![];
    let mut pids = vec![];
    for w in 0..workers {
        let (rd, mut wr) = pipe();
        let _ = std::io::stdout().flush();
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            die("fork failed");
        }
        if pid == 0 {
            drop(rd);
            pipes.clear();
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let mut run = w;
            while run < total && run < lowest.load(SeqCst) && start.elapsed().as_secs() < cap_s {
                let r = one(&prop, seed, run, thorough);
                if r.viol.is_some() {
                    lowest.fetch_min(run, SeqCst);
                }
                let line = serde_json::to_string(&r).unwrap();
                if wr.write_all(line.as_bytes()).and_then(|_| wr.write_all(b"\n")).is_err() {
                    break;
                }
                run += workers;
            }
            drop(wr);
            unsafe { libc::_exit(0) };
        }
        drop(wr);
        pipes.push(rd);
        pids.push(pid);
    }
    let readers: Vec<_> = pipes
        .into_iter()
        .map(|rd| {
            std::thread::spawn(move || {
                let mut v = vec![];
                for l in BufReader::new(rd).lines() {
                    let Ok(l) = l else { break };
                    if l.starts_with("HARNESS") {
                        println!("{}", l);
                        continue;
                    }
                    match serde_json::from_str::<Record>(&l) {
                        Ok(r) => v.push(r),
                        Err(_) => break,
                    }
                }
                v
            })
        })
        .collect();
    let mut all: Vec<Record> = readers.into_iter().flat_map(|t| t.join().unwrap_or_default()).collect();
    let mut bad = false;
    for pid in pids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        bad |= st != 0;
    }
    if bad {
        die("a worker ended abnormally");
    }
    all.sort_by_key(|r| r.run);
    let search_s = start.elapsed().as_secs_f64();
    let first = all.iter().find(|r| r.viol.is_some());
    let mut violation = None;
    if let Some(r) = first {
        let (class, detail) = r.viol.clone().unwrap();
        println!("run {} ({}): {}: {}", r.run, r.flavor, class, detail);
        violation = Some(report(&verif, &prop, seed, r.run, thorough, &class, &detail));
    }
    evidence(&verif, &prop, &tier, seed, total, workers, &all, search_s, start, violation.as_deref());
    if let Some(path) = violation {
        println!("VIOLATION property={} replay={}", prop, path);
        std::process::exit(1);
    }
    println!("property {} held on {} simulated runs", prop, all.len());
}

fn report(verif: &str, prop: &str, seed: u64, run: u64, thorough: bool, class: &str, detail: &str) -> String {
    let dir = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-s{}-r{}.json", dir, prop, seed, run);
    let save = |text: String| std::fs::write(&path, text).unwrap_or_else(|e| die(&format!("{}: {}", path, e)));
    // A fresh process must fail in exactly the same way.
    let again = || {
        let mut a: Vec<String> = std::env::args().skip(2).collect();
        a.insert(0, path.clone());
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .arg("replay").args(a).stdout(std::process::Stdio::null()).status();
        st.ok().and_then(|s| s.code()) == Some(1)
    };
    if prop == "C12" {
        let plan = evl::generate(seed, run);
        let env = evl_env();
        let (small, steps) = evl::shrink(&env, &plan, class, 90);
        for p in [small, plan.clone()] {
            let Some((c, d)) = evl::check(&env, &p).viol else { continue };
            let r = EvlReplay {
                property: prop.into(), class: c, detail: d, seed, run,
                original_size: plan.size(), shrink_steps: steps, evl: p,
            };
            save(serde_json::to_string_pretty(&r).unwrap());
            if again() {
                println!("minimised from size {} to {} in {} steps; replayed identically in a fresh process",
                    plan.size(), r.evl.size(), steps);
                println!("{}: {}", r.class, r.detail);
                return path;
            }
        }
        let fails = || evl::check(&env, &plan).viol;
        let Some((c, d, n)) = recurs(class, fails) else {
            die(&format!("run {} failed ({}: {}) but did not replay", run, class, detail))
        };
        let r = EvlReplay {
            property: prop.into(), class: c, detail: d, seed, run,
            original_size: plan.size(), shrink_steps: steps, evl: plan.clone(),
        };
        save(serde_json::to_string_pretty(&r).unwrap());
        println!("{}: {} (in {} of {} repetitions: it depends on more than the simulator decides)", r.class, r.detail, n, AGAIN);
        return path;
    }
    let plan = gen::generate(prop, seed, run, thorough);
    let slow = class == "hang";
    let mut s = shrink::Shrink::new(class, if slow { 3 } else { 1500 }, if slow { 200 } else { 60 });
    let small = s.run(&plan);
    let mut candidates = vec![small, plan.clone()];
    while !candidates.is_empty() {
        let p = candidates.remove(0);
        let (c, d) = match shrink::classify(&p) {
            Some(x) => x,
            None => continue,
        };
        let r = Replay {
            property: prop.into(),
            class: c,
            detail: d,
            seed,
            run,
            original_events: plan.events.len(),
            shrink_steps: s.tried,
            plan: p,
        };
        save(serde_json::to_string_pretty(&r).unwrap());
        if again() {
            println!("minimised from {} to {} events in {} steps; replayed identically in a fresh process",
                plan.events.len(), r.plan.events.len(), s.tried);
            println!("{}: {}", r.class, r.detail);
            return path;
        }
    }
    let Some((c, d, n)) = recurs(class, || shrink::classify(&plan)) else {
        die(&format!("run {} failed ({}: {}) but did not replay", run, class, detail))
    };
    println!("{}: {} (in {} of {} repetitions: it depends on more than the simulator decides)", c, d, n, AGAIN);
    let r = Replay {
        property: prop.into(), class: c, detail: d, seed, run,
        original_events: plan.events.len(), shrink_steps: s.tried, plan,
    };
    save(serde_json::to_string_pretty(&r).unwrap());
    path
}

const AGAIN: usize = 8;

/// A failure that differs from one execution to the next, which on a tree
/// whose inputs the simulator all decides does not happen: whether it fails
/// in the same class at least twice more.
fn recurs(class: &str, fails: impl Fn() -> Option<(String, String)>) -> Option<(String, String, usize)> {
    if class == "hang" {
        return None;
    }
    let all: Vec<_> = (0..AGAIN).filter_map(|_| fails()).filter(|v| v.0 == class).collect();
    let n = all.len();
    all.into_iter().next().filter(|_| n > 1).map(|(c, d)| (c, d, n))
}

#[allow(clippy::too_many_arguments)]
fn evidence(verif: &str, prop: &str, tier: &str, seed: u64, total: u64, workers: u64, all: &[Record],
            search_s: f64, start: Instant, violation: Option<&str>) {
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut flavors: BTreeMap<String, u64> = BTreeMap::new();
    let (mut execs, mut sim, mut compared, mut events) = (0, 0u64, 0, 0);
    let mut traces = BTreeSet::new();
    let mut nontrivial = BTreeSet::new();
    for r in all {
        execs += r.executions;
        sim += r.sim_ms;
        compared += r.compared;
        events += r.events;
        *flavors.entry(r.flavor.clone()).or_default() += 1;
        for (k, v) in &r.counters {
            *counters.entry(k.clone()).or_default() += v;
        }
        let t = mix2(r.trace, r.events);
        traces.insert(t);
        if r.compared > 0 && r.events > 1 {
            nontrivial.insert(t);
        }
    }
    let is_fault = |k: &str| {
        ["fault_", "stale_", "net_", "panic_", "write_", "read_", "flush_", "torn_", "merge_refused", "nested_calls", "op_crash", "failed_calls", "extra_"]
            .iter().any(|p| k.starts_with(p))
    };
    let faults: BTreeMap<_, _> = counters.iter().filter(|(k, _)| is_fault(k)).collect();
    let reach: BTreeMap<_, _> = counters.iter().filter(|(k, _)| !is_fault(k)).collect();
    let samples: Vec<serde_json::Value> = all.iter().take(2).map(|r| {
        if prop == "C12" {
            let mut p = evl::generate(seed, r.run);
            if let evl::Task::Hashes { files, .. } = &mut p.task {
                files.iter_mut().for_each(|f| f.values.truncate(4));
            }
            return serde_json::json!({"run": r.run, "flavor": r.flavor, "plan (values cut to 4)": format!("{:?}", p)});
        }
        let p = gen::generate(prop, seed, r.run, tier == "thorough");
        let ev: Vec<_> = p.events.iter().take(12).map(|e| format!("t={} a={} {:?}", e.t, e.a, e.op)).collect();
        serde_json::json!({"run": r.run, "flavor": r.flavor, "slots": format!("{:?}", p.slots),
            "events": p.events.len(), "first_events": ev, "trace": format!("{:016x}", r.trace)})
    }).collect();
    let wall = start.elapsed().as_secs_f64();
    let j = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": execs,
            "distinct_nontrivial": nontrivial.len(),
            "rule": "one case is a simulated run with its own seed: a plan drawn from (property, VERIF_SEED, run number), executed in processes of its own (one per compared history; for C12 the tool with faults and again without); evaluations counts executions. Non-trivial: two or more events and at least one oracle comparison made. Distinct by the hash of executed events in order, plus the thread interleaving.",
            "samples": samples,
            "runs": all.len(),
            "runs_planned": total,
            "runs_per_hour": (all.len() as f64 / search_s.max(0.001) * 3600.0) as u64,
            "simulated_seconds": sim / 1000,
            "events": events,
            "oracle_comparisons": compared,
            "distinct_interleavings": traces.len(),
            "interleaving_measure": if prop == "C12" { "hash over the sequence of the tool's file operations with the faults that fired and its exit statuses" }
                else { "hash over the sequence of executed events and every thread switch with its scheduling point" },
            "flavors": flavors,
            "faults_fired": faults,
            "reach": reach,
            "components_real": if prop == "C12" { vec!["evl: all of /repo/evaluation/src and /repo/src", "clap", "rayon", "rand", "std::fs, std::io"] }
                else { vec!["hyperloglogplus (all of /repo/src, built from the working tree)", "serde_json", "bincode", "std HashSet"] },
            "components_stubbed": if prop == "C12" { vec!["open/read/write (preloaded shim over scratch files)", "getrandom: seeded", "order of the workers' file operations"] }
                else { vec!["network: message table", "disk: in-memory files with faults", "scheduler: baton over OS threads", "getrandom, clock, process number, number of processors: seeded", "addresses of the library's heap blocks: seeded", "memory that runs out", "caller's hasher"] },
            "workers": workers,
        },
        "assumptions": [
            "the caller's hasher is a pure function of its key and the value",
            "sampling: a clean batch is evidence, not proof"
        ],
        "wall_s": wall,
        "violations": if violation.is_some() { 1 } else { 0 },
        "replay": violation,
    });
    let dir = format!("{}/evidence", verif);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&j).unwrap()) {
        die(&format!("evidence: {}", e));
    }
}
