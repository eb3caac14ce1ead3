//! What decides each property: which executions of a plan are made and what
//! is compared.
use crate::exec::*;
use crate::plan::*;
use crate::rng::{mix, mix2, Rng};
use std::collections::{BTreeMap, BTreeSet};

/// Outcome of one isolated execution.
pub enum Ran {
    Done(Box<Out>),
    /// The process died or did not end: (class, details).
    Died(String, String),
}

#[derive(Default)]
pub struct Verdict {
    pub viol: Option<(String, String)>,
    pub executions: u64,
    pub counters: BTreeMap<String, u64>,
    pub trace: u64,
    pub compared: u64,
}

pub type Runner<'a> = &'a mut dyn FnMut(&Plan, &Mode) -> Ran;

impl Verdict {
    fn fail(&mut self, class: &str, detail: String) {
        if self.viol.is_none() {
            self.viol = Some((class.into(), detail));
        }
    }

    fn exec(&mut self, run: &mut Runner, plan: &Plan, mode: &Mode, what: &str) -> Option<Out> {
        self.executions += 1;
        match run(plan, mode) {
            Ran::Died(class, detail) => {
                self.fail(&class, format!("{}{}", detail, what));
                None
            }
            Ran::Done(o) => {
                for (k, v) in &o.counters {
                    *self.counters.entry(k.clone()).or_default() += v;
                }
                self.trace = mix2(self.trace, o.trace);
                if let Some((class, detail, ev)) = o.viol.first() {
                    let at = match plan.events.get(*ev as usize) {
                        Some(e) => format!("event {} {:?}: ", ev, e.op),
                        None => String::new(),
                    };
                    self.fail(class, format!("{}{}{}", at, detail, what));
                    return None;
                }
                Some(*o)
            }
        }
    }

    fn compare(&mut self, class: &str, a: &Out, b: &Out, what: &str, exact: bool) {
        let eq = |x: &[u64], y: &[u64]| if exact { x == y } else { same(x, y) };
        for (ev, x) in &a.log {
            if let Some(y) = b.log.get(ev) {
                self.compared += 1;
                if !eq(&[*x], &[*y]) {
                    return self.fail(class, format!(
                        "estimate at event {} is {:?}, {} it is {:?}",
                        ev, f64::from_bits(*x), what, f64::from_bits(*y)));
                }
            }
        }
        for (s, x) in &a.deep {
            if let Some(y) = b.deep.get(s) {
                self.compared += 1;
                if !eq(x, y) {
                    return self.fail(class, format!(
                        "sketch {} ends as {}, {} as {}", s, show(x), what, show(y)));
                }
            }
        }
    }
}

fn all_slots(p: &Plan) -> Option<Vec<u8>> {
    Some((0..p.slots.len() as u8).collect())
}

pub fn check(plan: &Plan, mut run: Runner) -> Verdict {
    let mut v = Verdict::default();
    let run = &mut run;
    let base = Mode::default();
    match plan.prop.as_str() {
        "C01" => {
            let m = Mode { twin: true, ..base };
            v.exec(run, plan, &m, "");
            v.compared += v.counters.get("deep_checks").copied().unwrap_or(0);
        }
        "C02" => c02(plan, run, &mut v),
        "C03" => {
            let m = Mode { pair: true, ..base };
            v.exec(run, plan, &m, "");
            v.compared += v.counters.get("deep_checks").copied().unwrap_or(0)
                + v.counters.get("torn_refused").copied().unwrap_or(0);
        }
        "C04" => {
            let m = Mode { deep: all_slots(plan), ..base };
            let Some(a) = v.exec(run, plan, &m, "") else { return v };
            let order = a.order.iter().copied().filter(|e| !a.failed.contains(e)).collect();
            let m = Mode { order: Some(order), ..m };
            let Some(b) = v.exec(run, plan, &m, " (in the history without the failed calls)") else { return v };
            v.compare("failure-left-trace", &a, &b, "without the failed calls", false);
            *v.counters.entry("failed_calls".into()).or_default() += a.failed.len() as u64;
        }
        "C05" => {
            let m = Mode { deep: all_slots(plan), ..base };
            let Some(a) = v.exec(run, plan, &m, "") else { return v };
            let mut r = Rng::new(mix(plan.os));
            let mut slots: Vec<u8> = all_slots(plan).unwrap();
            r.shuffle(&mut slots);
            for s in slots.into_iter().take(3) {
                let order = slice(plan, &a, s);
                let m = Mode { order: Some(order), deep: Some(vec![s]), os: Some(mix(plan.os + 1)), ..Mode::default() };
                let what = format!(" (sketch {} alone)", s);
                let Some(b) = v.exec(run, plan, &m, &what) else { return v };
                v.compare("not-independent", &a, &b, &format!("with only the operations of sketch {}", s), false);
            }
        }
        "C06" => {
            let m = Mode { model: true, ..base };
            v.exec(run, plan, &m, "");
            v.compared += v.counters.iter().filter(|(k, _)| k.starts_with("branch_")).map(|x| *x.1).sum::<u64>();
        }
        "C07" => {
            let m = Mode { truth: true, ..base };
            v.exec(run, plan, &m, "");
            v.compared += v.counters.get("accuracy_checks").copied().unwrap_or(0);
        }
        "C08" => {
            let m = Mode { heap: true, ..base };
            v.exec(run, plan, &m, "");
            v.compared += v.counters.iter().filter(|(k, _)| k.starts_with("op_")).map(|x| *x.1).sum::<u64>();
        }
        "C09" => {
            let m = Mode { builds: vec![1, 2, 3, crate::dut::SHIP], linear: true, ..base };
            v.exec(run, plan, &m, "");
            v.compared += v.counters.get("op_count").copied().unwrap_or(0)
                + v.counters.get("deep_checks").copied().unwrap_or(0);
        }
        "C10" => {
            let m = Mode { deep: all_slots(plan), ..base };
            let Some(a) = v.exec(run, plan, &m, "") else { return v };
            for k in 1..=3u64 {
                let m = Mode { os: Some(mix2(plan.os, k)), ..m.clone() };
                let Some(b) = v.exec(run, plan, &m, " (under other process randomness)") else { return v };
                v.compare("randomness-shows", &a, &b, "under other process randomness", true);
                if v.viol.is_some() {
                    break;
                }
            }
        }
        "C11" => {
            let m = Mode { finite: true, ..base };
            v.exec(run, plan, &m, "");
            v.compared += v.counters.get("op_count").copied().unwrap_or(0)
                + v.counters.get("deep_checks").copied().unwrap_or(0);
        }
        p => panic!("no such property {}", p),
    }
    v
}

fn c02(plan: &Plan, run: &mut Runner, v: &mut Verdict) {
    let base = Mode { deep: all_slots(plan), ..Mode::default() };
    if plan.flavor == "values" {
        let counts: BTreeSet<u32> = (0..plan.events.len() as u32)
            .filter(|i| matches!(plan.events[*i as usize].op, Op::Count { .. }))
            .collect();
        let m = Mode { linear: true, skip: counts, ..base.clone() };
        let Some(a) = v.exec(run, plan, &m, "") else { return };
        let Some(b) = v.exec(run, plan, &base, " (concurrent callers)") else { return };
        // Logs differ by design; the final states must not.
        let strip = |mut o: Out| {
            o.log.clear();
            o
        };
        let a = strip(a);
        v.compare("schedule-shows", &a, &strip(b), "with concurrent callers and estimates taken", false);
        for k in 0..3 {
            let q = permuted(plan, mix2(plan.os, 100 + k), k == 2);
            let m = Mode { linear: true, extra: if k == 1 { Some(mix2(plan.os, k)) } else { None }, ..base.clone() };
            let what = format!("with the same values permuted and repeated (variant {})", k);
            let Some(b) = v.exec(run, &q, &m, &format!(" ({})", what)) else { return };
            v.compare("schedule-shows", &a, &strip(b), &what, false);
        }
    } else {
        let Some(a) = v.exec(run, plan, &base, "") else { return };
        let m = Mode { order: Some(a.order.clone()), quiet: true, ..base.clone() };
        let Some(b) = v.exec(run, plan, &m, " (estimates taken on copies)") else { return };
        v.compare("query-shows", &a, &b, "with all estimates taken on copies", false);
        let m = Mode { order: Some(a.order.clone()), extra: Some(mix(plan.os)), ..base };
        let Some(b) = v.exec(run, plan, &m, " (with extra estimates)") else { return };
        v.compare("query-shows", &a, &b, "with extra estimates in between", false);
    }
}

/// The same values per sketch in another order, cut differently, some twice.
fn permuted(plan: &Plan, seed: u64, sorted: bool) -> Plan {
    let mut r = Rng::new(seed);
    let mut q = plan.clone();
    q.threaded = false;
    q.events.clear();
    q.chunks.clear();
    for s in 0..plan.slots.len() as u8 {
        let mut vals = vec![];
        for e in &plan.events {
            if let Op::Insert { s: t, ch, .. } = e.op {
                if t == s {
                    if let Some(c) = plan.chunks.get(ch as usize) {
                        vals.extend(c.values());
                    }
                }
            }
        }
        let n = vals.len() as u64;
        if n > 0 {
            for _ in 0..r.below(n / 4 + 2) {
                let i = r.below(n) as usize;
                vals.push(vals[i]);
            }
        }
        if sorted {
            vals.sort();
            if r.pct(50) {
                vals.reverse();
            }
        } else {
            r.shuffle(&mut vals);
        }
        let pieces = r.range(1, 12);
        let mut at = 0usize;
        for i in 0..pieces {
            let end = if i + 1 == pieces { vals.len() } else { (at + r.below(n / 3 + 2) as usize).min(vals.len()) };
            q.chunks.push(Chunk::list(vals[at..end].to_vec()));
            at = end;
            let ch = q.chunks.len() as u32 - 1;
            q.events.push(Event { t: 0, a: 0, op: Op::Insert { s, ch, entry: r.below(5) as u8 } });
            if r.pct(30) {
                q.events.push(Event { t: 0, a: 0, op: Op::Count { s } });
            }
        }
    }
    q
}

/// The operations that sketch `s`, as it ends, owes its state to.
fn slice(plan: &Plan, a: &Out, s: u8) -> Vec<u32> {
    let mut need = BTreeSet::from([s]);
    let mut msgs = BTreeSet::new();
    let mut files = BTreeSet::new();
    let mut out = vec![];
    for ev in a.order.iter().rev() {
        let failed = a.failed.contains(ev);
        let keep = match &plan.events[*ev as usize].op {
            Op::Insert { s, .. } | Op::InsertFail { s, .. } | Op::InsertNested { s, .. } | Op::Count { s } => need.contains(s),
            Op::Crash { s } => need.remove(s),
            Op::Merge { d, s } => {
                let k = need.contains(d) && d != s;
                if k {
                    need.insert(*s);
                }
                k
            }
            Op::Clone { d, s } => {
                let k = d != s && need.remove(d);
                if k {
                    need.insert(*s);
                }
                k
            }
            Op::Send { s, msg, .. } => {
                let k = msgs.remove(msg);
                if k {
                    need.insert(*s);
                }
                k
            }
            Op::Recv { d, msg } => {
                let k = need.contains(d);
                if k {
                    msgs.insert(*msg);
                }
                k
            }
            Op::Save { s, f, .. } => {
                if files.contains(f) && !failed {
                    files.remove(f);
                    need.insert(*s);
                    true
                } else {
                    need.contains(s)
                }
            }
            Op::Load { s, f, .. } => {
                let k = need.contains(s);
                if k {
                    if !failed {
                        need.remove(s);
                    }
                    files.insert(*f);
                }
                k
            }
            Op::LoadTorn { .. } | Op::Check { .. } | Op::Barrier | Op::Crowd { .. } | Op::Disperse { .. } => false,
        };
        if keep {
            out.push(*ev);
        }
    }
    out.reverse();
    out
}
