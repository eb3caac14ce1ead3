//! C12: the evaluation tool as a process whose file operations are simulated
//! by the preloaded seam (evl/shim.c).
use crate::dut::Kind;
use crate::exec::accuracy;
use crate::rng::{mix, mix2, Rng};
use crate::runner::die;
use hyperloglogplus::{HyperLogLog, HyperLogLogPF, HyperLogLogPlus};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{BuildHasher, Hasher};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

const HANG_S: u64 = 60;

/// Parallel stages that could not be run in turns: a tool of a structure the
/// turnstile does not fit. After two of them its threads run freely.
static STALLS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Input {
    pub name: String,
    pub values: Vec<u64>,
    pub newline: bool,
    pub crlf: bool,
    /// Numbers filled up with zeros to one width.
    #[serde(default)]
    pub padded: bool,
    /// A line that is no number, before the value of this index.
    #[serde(default)]
    pub bad: Option<(u64, String)>,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum Task {
    Hashes { plus: bool, p: u8, files: Vec<Input> },
    Cards { plus: bool, p: u8, runs: u64, cards: Input },
    Gen { bits: u8, count: u64, runs: u64 },
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Fault {
    pub file: String,
    pub op: String,
    pub first: u64,
    pub last: u64,
    pub action: String,
    pub arg: i64,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct EvlPlan {
    pub task: Task,
    pub jobs: u64,
    pub seed: u64,
    pub faults: Vec<Fault>,
    /// Output files of an earlier experiment: (index, bytes), or zero bytes
    /// for one of as many lines as this experiment's.
    pub stale: Vec<(u64, u64)>,
    pub flavor: String,
}

impl EvlPlan {
    fn outputs(&self) -> Vec<String> {
        match &self.task {
            Task::Hashes { p, files, .. } => files.iter().map(|f| format!("est-p{}-{}", p, f.name)).collect(),
            Task::Cards { plus, p, runs, .. } => {
                (0..*runs).map(|r| format!("est-p{}-cards-s{}-r{}.dat", p, if *plus { 64 } else { 32 }, r)).collect()
            }
            Task::Gen { bits, runs, .. } => (0..*runs).map(|r| format!("hashes-s{}-r{}.dat", bits, r)).collect(),
        }
    }

    fn inputs(&self) -> Vec<&Input> {
        match &self.task {
            Task::Hashes { files, .. } => files.iter().collect(),
            Task::Cards { cards, .. } => vec![cards],
            Task::Gen { .. } => vec![],
        }
    }

    fn width(&self) -> u64 {
        match &self.task {
            Task::Hashes { files, .. } => files.len() as u64,
            Task::Cards { runs, .. } | Task::Gen { runs, .. } => *runs,
        }
    }

    pub fn size(&self) -> usize {
        self.faults.len() + self.stale.len() + self.inputs().iter().map(|i| i.values.len() + 1 + i.bad.is_some() as usize).sum::<usize>()
            + self.width() as usize + self.jobs as usize
    }

    /// No jobs given as zero: as many as RAYON_NUM_THREADS says.
    fn pool_decides(&self) -> bool {
        mix2(self.seed, 0x6a6f6273) % 6 == 0
    }

    /// The arguments, with input and output directories below this one.
    fn args(&self, dir: &Path) -> Vec<String> {
        // How the same request is spelt is the user's choice: short or long
        // options, paths from the root or from here, options in any order.
        let how = mix2(self.seed, 0x7370656c);
        let d = match how >> 8 & 3 {
            0 => "".to_string(),
            1 => "./".to_string(),
            _ => format!("{}/", dir.to_str().unwrap()),
        };
        let o = |short: &str, long: &str| if how & 1 == 1 { format!("--{}", long) } else { format!("-{}", short) };
        // One job is the default.
        let mut a = if self.jobs == 1 && self.seed & 1 == 1 {
            vec![]
        } else {
            vec![o("j", "jobs"), if self.pool_decides() { "0".to_string() } else { self.jobs.to_string() }]
        };
        let mut opts: Vec<Vec<String>> = vec![];
        match &self.task {
            Task::Gen { bits, count, runs } => {
                a.push("gen".into());
                opts.push(vec![o("s", "size"), bits.to_string()]);
                opts.push(vec![o("c", "count"), count.to_string()]);
                opts.push(vec![o("r", "runs"), runs.to_string()]);
            }
            Task::Hashes { plus, p, files } => {
                a.push("run".into());
                opts.push(vec![o("t", "type"), if *plus { "hllp" } else { "hll" }.into()]);
                opts.push(vec![o("m", "mode"), "hashes".into()]);
                opts.push(vec![o("p", "precision"), p.to_string()]);
                let names = files.iter().map(|f| format!("{}in/{}", d, f.name));
                opts.push(if how >> 1 & 1 == 1 {
                    names.flat_map(|n| [o("i", "input"), n]).collect()
                } else {
                    std::iter::once(o("i", "input")).chain(names).collect()
                });
            }
            Task::Cards { plus, p, runs, cards } => {
                a.push("run".into());
                opts.push(vec![o("t", "type"), if *plus { "hllp" } else { "hll" }.into()]);
                opts.push(vec![o("m", "mode"), "cardinalities".into()]);
                opts.push(vec![o("p", "precision"), p.to_string()]);
                opts.push(vec![o("r", "runs"), runs.to_string()]);
                opts.push(vec![o("c", "cardinalities"), format!("{}in/{}", d, cards.name)]);
            }
        }
        opts.push(vec![o("o", "output"), format!("{}out{}", d, if how >> 2 & 1 == 1 { "/" } else { "" })]);
        if how >> 3 & 1 == 1 {
            let mut g = Rng::new(how);
            for i in (1..opts.len()).rev() {
                opts.swap(i, g.below(i as u64 + 1) as usize);
            }
        }
        a.extend(opts.into_iter().flatten());
        a
    }
}

fn values(g: &mut Rng, plus: bool, n: u64) -> Vec<u64> {
    let shape = g.below(6);
    let top = g.range(4, 18);
    let dup = g.range(1, n.max(2));
    let mask = if plus { u64::MAX } else { u32::MAX as u64 };
    (0..n)
        .map(|i| {
            let v = match shape {
                0 | 1 => g.next(),
                2 => mix(g.below(dup)),
                3 => g.next() >> g.below(64),
                // Registers at random, the greatest ranks.
                5 => {
                    let w = if plus { 64 } else { 32 };
                    g.next() >> (64 - top) << (w - top) | if g.pct(70) { 0 } else { 1 << g.below(w - top) }
                }
                _ => g.pick(&[0, u64::MAX, u32::MAX as u64, 1, i, 1 << 63]),
            };
            v & mask
        })
        .collect()
}

const ODD: [&str; 24] = [
    " ", "_", "-", "+", "#", "%", ",", "~", ":", "(", "*", "?", "\"", "'", "\\", "|", "&", ";", "=", "@",
    "%20", "  ", ".", "\u{df}",
];

pub fn generate(seed: u64, run: u64) -> EvlPlan {
    let mut g = Rng::new(mix2(mix2(seed, 0xC12), run));
    let plus = g.pct(50);
    let p_of = |g: &mut Rng| match g.below(10) {
        0..=6 => g.range(4, 9),
        7 | 8 => g.range(10, 12),
        _ => g.range(13, if plus { 18 } else { 16 }),
    } as u8;
    let p = p_of(&mut g);
    let cap = if p <= 9 { 3000 } else if p <= 12 { 600 } else { 40 };
    let family = g.below(8);
    let odd = g.below(1000);
    let name = |g: &mut Rng, i: u64| match if family < 4 { 6 + family } else { g.below(6) } {
        // Names with unusual characters, and very long ones.
        8 => format!("a{}b", ODD[(odd + i) as usize % ODD.len()]),
        9 => format!("{}{}", "long".repeat(odd as usize % 59), i),
        // Names of one plan that differ in little.
        6 => format!("k{}.{}", i / 2, ["dat", "DAT"][i as usize & 1]),
        7 => format!("{}{}", &"000000000"[..i as usize], g.pick(&["7", "7.0"])),
        // Names that differ after the last dot, in case, or in no letter.
        3 => format!("set.{}", i),
        4 => format!("{}{}.\u{e9}t\u{e9}", ["a", "A", "aa", "Aa"][i as usize & 3], &"zzz"[..i as usize / 4]),
        0 => format!("hashes-s{}-r{}.dat", if plus { 64 } else { 32 }, i),
        1 => format!("h{}.{}", i, g.pick(&["dat", "txt", "dat.1"])),
        2 => format!("x{}", i),
        _ => format!("set-{}-{}", i, g.below(1000)),
    };
    let len = |g: &mut Rng, cap: u64| if g.pct(12) { g.below(3) } else { g.log(1, cap) };
    let task = match g.below(40) {
        // More than fits any buffer of the tool.
        0 => {
            let p = g.range(4, 6) as u8;
            // A fifth of them beyond a megabyte and 2^16 lines.
            let n = match g.below(20) {
                0..=15 => g.range(9_900, 25_000),
                16..=18 => g.range(65_000, 70_000),
                // Rarely beyond 100 000 or 2^17 lines.
                _ => g.range(99_000, 140_000),
            };
            let v = values(&mut g, plus, n);
            return finish(g, Task::Hashes { plus, p, files: vec![Input { name: "large.dat".into(), values: v, newline: true, crlf: false, padded: false, bad: None }] });
        }
        1 => {
            let count = g.range(9_900, 40_000);
            return finish(g, Task::Gen { bits: if plus { 64 } else { 32 }, count, runs: 1 });
        }
        2..=24 => {
            let k = if g.pct(50) { 1 } else if g.pct(90) { g.range(2, 4) } else { g.range(5, 9) };
            let files = (0..k)
                .map(|i| {
                    let n = len(&mut g, cap / k.min(2));
                    Input { name: name(&mut g, i), values: values(&mut g, plus, n), newline: g.pct(80), crlf: g.pct(5), padded: g.pct(4), bad: None }
                })
                .collect();
            Task::Hashes { plus, p, files }
        }
        25..=31 => {
            let n = len(&mut g, 900).min(cap);
            let top = if n < 12 { g.log(1, 400_000) } else { g.log(1, 5000) };
            let sorted = g.pct(80);
            let mut v: Vec<u64> = (0..n).map(|_| g.below(top + 1)).collect();
            if sorted {
                v.sort_unstable();
            }
            let cards = Input { name: "cards.dat".into(), values: v, newline: g.pct(80), crlf: false, padded: false, bad: None };
            let runs = if g.pct(4) && n < 40 { g.range(10, 12) } else { g.range(1, 3) };
            Task::Cards { plus, p, runs, cards }
        }
        _ if g.pct(6) => Task::Gen { bits: if plus { 64 } else { 32 }, count: len(&mut g, 100), runs: g.range(10, 12) },
        _ => Task::Gen { bits: if plus { 64 } else { 32 }, count: len(&mut g, 3000), runs: g.range(1, 3) },
    };
    finish(g, task)
}

fn finish(mut g: Rng, task: Task) -> EvlPlan {
    let mut plan = EvlPlan { task, jobs: 1, seed: g.next(), faults: vec![], stale: vec![], flavor: String::new() };
    // The runs of a cardinalities experiment read one file: which worker has
    // which cannot be told apart before the end, so they run on one worker.
    if plan.width() > 1 && g.pct(50) && !matches!(plan.task, Task::Cards { .. }) {
        plan.jobs = plan.width();
    }
    // Fewer workers than files: what a worker does after a failure elsewhere
    // is the pool's choice, so only faults that a run survives; and so is
    // which of three or more workers takes the next file.
    let few = plan.width() > 2 && plan.jobs == 1 && !matches!(plan.task, Task::Cards { .. }) && g.pct(70);
    if few {
        plan.jobs = 2;
    }
    // More workers than there is work for.
    if (plan.width() == 1 || plan.jobs > 1) && !few && g.pct(20) {
        plan.jobs = plan.width() + g.log(1, 40);
    }
    let outs = plan.outputs();
    let ins: Vec<String> = plan.inputs().iter().map(|i| i.name.clone()).collect();
    for i in 0..outs.len() as u64 {
        if g.pct(20) {
            plan.stale.push((i, if g.pct(30) { 0 } else { g.log(1, 60_000) }));
        }
    }
    // Noise anywhere, and at most a few faults that end the run.
    let noisy = g.pct(70);
    let deadly = if few { 0 } else { g.below(3) };
    for f in ins.iter().chain(&outs) {
        let input = ins.contains(f);
        let op = if input { "read" } else { "write" };
        if noisy && g.pct(70) {
            for _ in 0..g.range(1, 4) {
                let first = g.below(12);
                let last = first + if g.pct(30) { g.log(1, 4000) } else { g.below(3) };
                let short = g.pct(60);
                let arg = if short { g.log(1, 9000) as i64 } else { 4 };
                // An endless run of interruptions would be a hang of our making.
                let last = if short { last } else { last.min(first + 3) };
                plan.faults.push(Fault {
                    file: f.clone(), op: op.into(), first, last,
                    action: if short { "short" } else { "eintr" }.into(), arg,
                });
            }
        }
        if noisy && g.pct(5) {
            plan.faults.push(Fault { file: f.clone(), op: "open".into(), first: 0, last: g.below(2), action: "eintr".into(), arg: 4 });
        }
    }
    if deadly > 0 {
        let all: Vec<&String> = ins.iter().chain(&outs).collect();
        let f = all[g.below(all.len() as u64) as usize].clone();
        let input = ins.contains(&f);
        let rw = if input { "read" } else { "write" };
        let op = if g.pct(15) { "open" } else { rw };
        let at = match (op, g.below(3)) {
            ("open", _) => 0,
            (_, 0) => 0,
            (_, 1) => g.below(4),
            _ => g.below(12),
        };
        let (action, arg) = if op == "read" && g.pct(25) {
            ("corrupt", g.below(10_000) as i64)
        } else if deadly == 1 {
            let e = match (op, input) {
                ("open", true) => g.pick(&[2, 13, 24]),
                ("open", false) => g.pick(&[13, 24, 28]),
                (_, true) => g.pick(&[5, 21]),
                _ => g.pick(&[5, 28, 122]),
            };
            // Once: the operation would succeed if tried again. Whether the
            // tool retries or gives up, it must not lose anything and succeed.
            (if g.pct(35) { "once" } else { "fail" }, e)
        } else {
            ("crash", g.log(1, 9000) as i64 - 1)
        };
        plan.faults.insert(0, Fault { file: f, op: op.into(), first: at, last: at, action: action.into(), arg });
    }
    if g.pct(12) && !few {
        let bad = (g.next(), g.pick(&["", "", "", "abc", "-", "1.5x", "#1", "nan", "\u{663}", "-7", "18446744073709551616", "wide"]).to_string());
        let hll = matches!(plan.task, Task::Hashes { plus: false, .. });
        let files: Vec<&mut Input> = match &mut plan.task {
            Task::Hashes { files, .. } => files.iter_mut().collect(),
            Task::Cards { cards, .. } => vec![cards],
            Task::Gen { .. } => vec![],
        };
        let k = files.len() as u64;
        if k > 0 {
            let f = files.into_iter().nth(g.below(k) as usize).unwrap();
            // At the end an empty line needs its line end.
            f.newline = true;
            let wide = bad.1 == "wide";
            let at = bad.0 % (f.values.len() as u64 + 1);
            // Too wide for the hashes of HyperLogLog.
            f.bad = Some((at, if !wide { bad.1 } else if hll { "4294967296".into() } else { "1e3".into() }));
        }
    }
    plan.flavor = format!(
        "{}{}",
        match plan.task { Task::Hashes { .. } => "hashes", Task::Cards { .. } => "cards", Task::Gen { .. } => "gen" },
        if plan.jobs == 1 { "" } else if plan.jobs < plan.width() { "-pool" } else if plan.jobs > plan.width() { "-idle" } else { "-parallel" }
    );
    plan
}

pub struct Env {
    pub evl: PathBuf,
    pub shim: PathBuf,
    pub scratch: PathBuf,
}

pub struct EvlVerdict {
    pub viol: Option<(String, String)>,
    pub executions: u64,
    pub compared: u64,
    pub trace: u64,
    pub counters: BTreeMap<String, u64>,
}

struct Stage {
    /// Exit code, or the signal that ended it, or a hang.
    code: Option<i32>,
    signal: Option<i32>,
    hung: bool,
    log: String,
}

fn stage(env: &Env, plan: &EvlPlan, dir: &Path, faults: &[Fault], spoilt: &str, tag: &str) -> Stage {
    let (rules, log) = (dir.join(format!("plan-{}", tag)), dir.join(format!("log-{}", tag)));
    let text: String = faults
        .iter()
        .map(|f| format!("{} {} {} {} {} {}\n", f.file.replace(' ', "\u{1}"), f.op, f.first, f.last, f.action, f.arg))
        .collect();
    write(&rules, text.as_bytes());
    let mut c = Command::new(&env.evl);
    c.args(plan.args(dir))
        .env_clear()
        .env("LD_PRELOAD", &env.shim)
        .env("SHIM_DIR", dir)
        .env("SHIM_PLAN", &rules)
        .env("SHIM_LOG", &log)
        .env("SHIM_SPOILT", spoilt)
        .env("SHIM_JOBS", if STALLS.load(Relaxed) < 2 { plan.jobs.min(plan.width()) } else { 1 }.to_string())
        .env("SHIM_FILES", plan.width().to_string())
        .env("RAYON_NUM_THREADS", if plan.pool_decides() { plan.jobs } else { 1 + plan.seed % 3 }.to_string())
        .env("SHIM_SEED", mix2(plan.seed, tag.len() as u64).to_string())
        .current_dir(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            let lim = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            Ok(())
        });
    }
    let mut child = c.spawn().unwrap_or_else(|e| die(&format!("{}: {}", env.evl.display(), e)));
    let start = Instant::now();
    let mut nap = Duration::from_micros(500);
    let (mut hung, status) = (false, loop {
        match child.try_wait().unwrap_or_else(|e| die(&format!("wait: {}", e))) {
            Some(s) => break Some(s),
            None if start.elapsed().as_secs() >= HANG_S => break None,
            None => {
                std::thread::sleep(nap);
                nap = (nap * 2).min(Duration::from_millis(5));
            }
        }
    });
    if status.is_none() {
        hung = true;
        let _ = child.kill();
        let _ = child.wait();
    }
    Stage {
        code: status.and_then(|s| s.code()),
        signal: status.and_then(|s| s.signal()),
        hung,
        log: std::fs::read_to_string(&log).unwrap_or_default(),
    }
}

fn write(p: &Path, b: &[u8]) {
    std::fs::write(p, b).unwrap_or_else(|e| die(&format!("{}: {}", p.display(), e)));
}

struct Pass(u64);
impl Hasher for Pass {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u32(&mut self, i: u32) {
        self.0 = u64::from(i);
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
    }
}
struct PassBuilder;
impl BuildHasher for PassBuilder {
    type Hasher = Pass;
    fn build_hasher(&self) -> Pass {
        Pass(0)
    }
}

/// The library's running estimates, or None where the library itself fails.
fn running(plus: bool, p: u8, v: &[u64]) -> Option<Vec<f64>> {
    std::panic::catch_unwind(|| {
        if plus {
            let mut h: HyperLogLogPlus<u64, _> = HyperLogLogPlus::new(p, PassBuilder).unwrap();
            v.iter().map(|x| { h.insert(x); h.count() }).collect()
        } else {
            let mut h: HyperLogLogPF<u32, _> = HyperLogLogPF::new(p, PassBuilder).unwrap();
            v.iter().map(|x| { h.insert(&(*x as u32)); h.count() }).collect()
        }
    })
    .ok()
}

fn pairs(text: &str) -> Option<Vec<(u64, u64)>> {
    if !text.is_empty() && !text.ends_with('\n') {
        return None;
    }
    text.lines()
        .map(|l| {
            let (a, b) = l.split_once(' ')?;
            Some((a.parse().ok()?, b.parse().ok()?))
        })
        .collect()
}

/// What is wrong with the outputs of a run that reported success.
fn judge(plan: &EvlPlan, dir: &Path, compared: &mut u64, known: &mut BTreeMap<usize, Option<Vec<f64>>>) -> Option<(String, String)> {
    let outs = plan.outputs();
    for (i, name) in outs.iter().enumerate() {
        let text = match std::fs::read(dir.join("out").join(name)) {
            Ok(b) => String::from_utf8_lossy(&b).into_owned(),
            Err(e) => return Some(("missing".into(), format!("output {} cannot be read: {}", name, e.kind()))),
        };
        *compared += 1;
        let bad = |why: String| Some(("content".into(), format!("output {}: {}", name, why)));
        match &plan.task {
            Task::Gen { bits, count, .. } => {
                if !text.is_empty() && !text.ends_with('\n') {
                    return bad("its last line is cut short".into());
                }
                let max = if *bits == 32 { u32::MAX as u64 } else { u64::MAX };
                let v: Vec<Option<u64>> = text.lines().map(|l| l.parse().ok().filter(|x| *x <= max)).collect();
                if v.len() as u64 != *count {
                    return bad(format!("{} lines instead of {}", v.len(), count));
                }
                if let Some(at) = v.iter().position(|x| x.is_none()) {
                    return bad(format!("line {} is not a {}-bit number: {:?}", at + 1, bits, text.lines().nth(at).unwrap()));
                }
                // Random values: 64 of them are not all alike or all small.
                if *count >= 64 {
                    let set: BTreeSet<u64> = v.iter().map(|x| x.unwrap()).collect();
                    if set.len() < 32 || *set.last().unwrap() < max >> 1 {
                        return bad("its values are not random".into());
                    }
                }
            }
            Task::Cards { plus, p, cards, .. } => {
                let Some(v) = pairs(&text) else { return bad("a malformed line".into()) };
                if v.len() != cards.values.len() {
                    return bad(format!("{} lines instead of {}", v.len(), cards.values.len()));
                }
                let mut c = 0;
                for (k, (got, x)) in v.iter().zip(&cards.values).enumerate() {
                    c = c.max(*x);
                    if got.0 != c {
                        return bad(format!("line {} is for cardinality {} instead of {}", k + 1, got.0, c));
                    }
                    // Truncated, and drawn with repetitions.
                    let (lo, hi) = accuracy(if *plus { Kind::Pp } else { Kind::Pf }, *p, c as f64);
                    let e = got.1 as f64;
                    if e < lo - 3.0 || e > hi {
                        return bad(format!("line {} estimates {} for {}", k + 1, got.1, c));
                    }
                }
            }
            Task::Hashes { plus, p, files } => {
                let f = &files[i];
                let Some(v) = pairs(&text) else { return bad("a malformed line".into()) };
                if v.len() != f.values.len() {
                    return bad(format!("{} lines instead of {}", v.len(), f.values.len()));
                }
                let Some(want) = known.entry(i).or_insert_with(|| running(*plus, *p, &f.values)) else { continue };
                for (k, (got, e)) in v.iter().zip(want.iter()).enumerate() {
                    let t = e.trunc() as u64;
                    let near = (e - e.round()).abs() < 1e-6 && got.1.abs_diff(e.round() as u64) <= 1;
                    if got.0 != k as u64 + 1 || (got.1 != t && !near) {
                        return bad(format!("line {} is '{} {}' where the library estimates {} after {} values",
                            k + 1, got.0, got.1, e, k + 1));
                    }
                }
            }
        }
    }
    None
}

pub fn check(env: &Env, plan: &EvlPlan) -> EvlVerdict {
    let mut v = EvlVerdict { viol: None, executions: 0, compared: 0, trace: 0, counters: BTreeMap::new() };
    let dir = env.scratch.join(format!("c12-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("in")).and_then(|_| std::fs::create_dir(dir.join("out")))
        .unwrap_or_else(|e| die(&format!("{}: {}", dir.display(), e)));
    v.viol = inner(env, plan, &dir, &mut v.executions, &mut v.compared, &mut v.trace, &mut v.counters);
    let _ = std::fs::remove_dir_all(&dir);
    v
}

fn inner(env: &Env, plan: &EvlPlan, dir: &Path, executions: &mut u64, compared: &mut u64, trace: &mut u64,
         counters: &mut BTreeMap<String, u64>) -> Option<(String, String)> {
    let stage_inputs = |spoilt: bool| {
        for f in plan.inputs() {
            let nl = if f.crlf { "\r\n" } else { "\n" };
            let mut lines: Vec<String> = f.values.iter().map(|x| if f.padded { format!("{:020}", x) } else { x.to_string() }).collect();
            if let (Some((at, bad)), true) = (&f.bad, spoilt) {
                lines.insert((*at as usize).min(lines.len()), bad.clone());
            }
            let mut t = lines.join(nl);
            if f.newline && !lines.is_empty() {
                t.push_str(nl);
            }
            write(&dir.join("in").join(&f.name), t.as_bytes());
        }
    };
    let spoilt = plan.inputs().iter().find(|f| f.bad.is_some()).map(|f| f.name.clone());
    let outs = plan.outputs();
    for (i, n) in &plan.stale {
        if let Some(name) = outs.get(*i as usize) {
            let lines = match &plan.task {
                _ if *n > 0 => *n as usize / 6 + 1,
                Task::Hashes { files, .. } => files.get(*i as usize).map_or(1, |f| f.values.len()),
                Task::Cards { cards, .. } => cards.values.len(),
                Task::Gen { count, .. } => *count as usize,
            };
            let old: String = match &plan.task {
                Task::Gen { .. } => (0..lines).map(|k| format!("{}\n", k)).collect(),
                Task::Hashes { .. } => (0..lines).map(|k| format!("{} {}\n", k + 1, k * 7)).collect(),
                Task::Cards { cards, .. } => (0..lines).map(|k| format!("{} {}\n", cards.values.get(k).unwrap_or(&1), k * 7)).collect(),
            };
            write(&dir.join("out").join(name), old.as_bytes());
            *counters.entry("stale_outputs".into()).or_default() += 1;
        }
    }
    let mut known = BTreeMap::new();
    for (tag, faults) in [("1", &plan.faults[..]), ("22", &[])] {
        let spoilt = spoilt.as_ref().filter(|_| tag == "1");
        // The rerun finds the input files untouched unless one has to be mended.
        if tag == "1" || plan.inputs().iter().any(|f| f.bad.is_some()) {
            stage_inputs(spoilt.is_some());
        }
        let s = stage(env, plan, dir, faults, spoilt.map_or("", |s| s.as_str()), tag);
        *executions += 1;
        if spoilt.is_some() {
            *counters.entry("fault_bad_line".into()).or_default() += 1;
        }
        let (mut broken, mut crashed) = (None, false);
        for l in s.log.lines() {
            if l == "free" {
                STALLS.fetch_add(1, Relaxed);
                *counters.entry("turnstile_released".into()).or_default() += 1;
                continue;
            }
            for b in l.bytes() {
                *trace = (*trace ^ b as u64).wrapping_mul(0x100_0000_01b3);
            }
            let w: Vec<&str> = l.split(' ').collect();
            if w.len() != 5 || w[3] == "ok" {
                *counters.entry("file_operations".into()).or_default() += 1;
                continue;
            }
            *counters.entry(format!("fault_{}_{}", w[1], w[3])).or_default() += 1;
            if (w[3] == "fail" || w[3] == "corrupt") && broken.is_none() {
                broken = Some(l.to_string());
            }
            crashed |= w[3] == "crash";
        }
        *trace = mix2(*trace, s.code.unwrap_or(-1) as u64);
        *counters.entry(format!("stage_{}", if s.code == Some(0) { "completed" } else if crashed { "crashed" } else { "refused" })).or_default() += 1;
        if s.hung {
            return Some(("hang".into(), format!("the tool did not end within {} s", HANG_S)));
        }
        if s.code == Some(0) {
            if let Some(b) = broken {
                return Some(("reported success".into(), format!("exit status 0 although an operation failed for good or read what is no number ({})", b)));
            }
            if let Some(f) = spoilt {
                return Some(("reported success".into(), format!("exit status 0 although a line of {} is no number", f)));
            }
            if let Some((c, d)) = judge(plan, dir, compared, &mut known) {
                return Some((c, format!("{} (exit status 0, {})", d, if faults.is_empty() { "run without faults" } else { "run with faults" })));
            }
        } else if faults.is_empty() && spoilt.is_none() {
            return Some(("no success".into(), format!("a run without faults ended with status {:?}, signal {:?}", s.code, s.signal)));
        }
    }
    None
}

/// Smaller plans that fail in the same way.
pub fn shrink(env: &Env, plan: &EvlPlan, class: &str, secs: u64) -> (EvlPlan, u32) {
    let until = Instant::now() + Duration::from_secs(secs);
    let mut tried = 0;
    let mut p = plan.clone();
    let mut fails = |q: &EvlPlan| {
        if Instant::now() > until || tried > 400 {
            return false;
        }
        tried += 1;
        check(env, q).viol.is_some_and(|v| v.0 == class)
    };
    loop {
        let before = p.size();
        let mut cands: Vec<EvlPlan> = vec![];
        let with = |f: &dyn Fn(&mut EvlPlan)| {
            let mut q = p.clone();
            f(&mut q);
            q
        };
        cands.push(with(&|q| q.faults.clear()));
        cands.push(with(&|q| q.stale.clear()));
        cands.push(with(&|q| q.jobs = 1));
        cands.push(with(&|q| q.jobs = q.jobs.min(q.width() + 1)));
        for i in 0..p.faults.len() {
            cands.push(with(&|q| { q.faults.remove(i); }));
        }
        for i in 0..p.stale.len() {
            cands.push(with(&|q| { q.stale.remove(i); }));
        }
        if p.inputs().iter().any(|i| i.bad.is_some()) {
            cands.push(with(&|q| match &mut q.task {
                Task::Hashes { files, .. } => files.iter_mut().for_each(|f| f.bad = None),
                Task::Cards { cards, .. } => cards.bad = None,
                Task::Gen { .. } => {}
            }));
        }
        for k in 0..p.inputs().len() {
            for part in [2usize, 4, 8, 16, 64] {
                for at in 0..part.min(8) {
                    cands.push(with(&|q| {
                        let v = match &mut q.task {
                            Task::Hashes { files, .. } => &mut files[k].values,
                            Task::Cards { cards, .. } => &mut cards.values,
                            Task::Gen { .. } => return,
                        };
                        let step = v.len().div_ceil(part);
                        let (a, b) = ((at * step).min(v.len()), ((at + 1) * step).min(v.len()));
                        v.drain(a..b);
                    }));
                }
            }
            cands.push(with(&|q| if let Task::Hashes { files, .. } = &mut q.task {
                if files.len() > 1 {
                    files.remove(k);
                    if q.jobs <= files.len() as u64 + 1 {
                        q.jobs = q.jobs.min(files.len() as u64);
                    }
                }
            }));
        }
        cands.push(with(&|q| match &mut q.task {
            Task::Cards { runs, .. } | Task::Gen { runs, .. } => { q.jobs = if q.jobs > *runs { 2 } else { 1 }; *runs = 1 }
            _ => {}
        }));
        cands.push(with(&|q| if let Task::Gen { count, .. } = &mut q.task { *count /= 2 }));
        let mut better = None;
        for q in cands {
            let gen_smaller = matches!((&q.task, &p.task), (Task::Gen { count: a, .. }, Task::Gen { count: b, .. }) if a < b);
            if (q.size() < before || gen_smaller) && fails(&q) {
                better = Some(q);
                break;
            }
        }
        match better {
            Some(q) => p = q,
            None => return (p, tried),
        }
    }
}
