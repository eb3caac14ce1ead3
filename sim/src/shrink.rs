//! Minimises a failing plan while the same class of violation persists.
use crate::checks::check;
use crate::disk::IoFault;
use crate::dut::Vt;
use crate::plan::*;
use crate::runner::isolated;
use std::time::{Duration, Instant};

pub struct Shrink {
    class: String,
    left: u32,
    until: Instant,
    pub tried: u32,
}

pub fn classify(plan: &Plan) -> Option<(String, String)> {
    check(plan, &mut |p, m| isolated(p, m)).viol
}

impl Shrink {
    pub fn new(class: &str, budget: u32, secs: u64) -> Self {
        Shrink { class: class.into(), left: budget, until: Instant::now() + Duration::from_secs(secs), tried: 0 }
    }

    fn spent(&self) -> bool {
        self.left == 0 || Instant::now() > self.until
    }

    fn fails(&mut self, p: &Plan) -> bool {
        if self.spent() {
            return false;
        }
        self.left -= 1;
        self.tried += 1;
        classify(p).is_some_and(|v| v.0 == self.class)
    }

    pub fn run(&mut self, plan: &Plan) -> Plan {
        let mut p = plan.clone();
        p.stats.clear();
        if !self.fails(&p) {
            return plan.clone();
        }
        loop {
            let before = size(&p);
            self.events(&mut p);
            self.schedule(&mut p);
            self.chunks(&mut p);
            self.simplify(&mut p);
            if self.spent() || size(&p) >= before {
                break;
            }
        }
        drop_unused(&mut p);
        p
    }

    fn try_keep(&mut self, p: &mut Plan, q: Plan) -> bool {
        if self.fails(&q) {
            *p = q;
            true
        } else {
            false
        }
    }

    fn events(&mut self, p: &mut Plan) {
        let mut step = (p.events.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < p.events.len() && !self.spent() {
                let end = (at + step).min(p.events.len());
                let q = without(p, at, end);
                if !self.try_keep(p, q) {
                    at = end;
                }
            }
            if step == 1 || self.spent() {
                break;
            }
            step /= 2;
        }
    }

    fn schedule(&mut self, p: &mut Plan) {
        if !p.threaded {
            return;
        }
        let mut q = p.clone();
        q.threaded = false;
        q.sched.clear();
        q.steps.clear();
        q.shared.clear();
        q.heap.clear();
        if self.try_keep(p, q) {
            return;
        }
        // What is left switches where it did before.
        let thin = |v: &mut Vec<(u32, u8)>, from: usize, to: usize| {
            let gone: u32 = v.drain(from..to).map(|(gap, _)| gap + 1).fold(0, u32::saturating_add);
            if let Some(next) = v.get_mut(from) {
                next.0 = next.0.saturating_add(gone);
            }
        };
        let lists: [fn(&mut Plan) -> &mut Vec<(u32, u8)>; 4] = [|p| &mut p.steps, |p| &mut p.shared, |p| &mut p.heap, |p| &mut p.sched];
        for list in lists {
            let mut q = p.clone();
            list(&mut q).clear();
            if self.try_keep(p, q) {
                continue;
            }
            let mut step = (list(p).len() / 2).max(1);
            loop {
                let mut at = 0;
                while at < list(p).len() && !self.spent() {
                    let end = (at + step).min(list(p).len());
                    let mut q = p.clone();
                    thin(list(&mut q), at, end);
                    if !self.try_keep(p, q) {
                        at = end;
                    }
                }
                if step == 1 || self.spent() {
                    break;
                }
                step /= 2;
            }
        }
    }

    fn chunks(&mut self, p: &mut Plan) {
        for i in 0..p.chunks.len() {
            if !used(p, i as u32) {
                continue;
            }
            if p.chunks[i].times > 0 {
                let mut q = p.clone();
                q.chunks[i].times = 0;
                self.try_keep(p, q);
            }
            // Prefixes by halving, then by smaller steps, then single values.
            let mut cut = p.chunks[i].len() / 2;
            while cut > 0 && !self.spent() {
                let n = p.chunks[i].len();
                if n <= cut {
                    cut = n / 2;
                    continue;
                }
                let mut q = p.clone();
                match &mut q.chunks[i].list {
                    Some(l) => l.truncate((n - cut) as usize),
                    None => q.chunks[i].n = n - cut,
                }
                if !self.try_keep(p, q) {
                    cut /= 2;
                }
            }
            let n = p.chunks[i].len();
            if n > 1 && n <= 5000 {
                if p.chunks[i].list.is_none() {
                    let mut q = p.clone();
                    q.chunks[i] = Chunk::list(p.chunks[i].values());
                    *p = q;
                }
                let mut step = (n as usize / 2).max(1);
                loop {
                    let mut at = 0;
                    while !self.spent() {
                        let len = p.chunks[i].len() as usize;
                        if at >= len || len <= 1 {
                            break;
                        }
                        let end = (at + step).min(len);
                        let mut q = p.clone();
                        q.chunks[i].list.as_mut().unwrap().drain(at..end);
                        if !self.try_keep(p, q) {
                            at = end;
                        }
                    }
                    if step == 1 || self.spent() {
                        break;
                    }
                    step /= 2;
                }
            }
        }
    }

    fn simplify(&mut self, p: &mut Plan) {
        if p.key != 0 {
            let mut q = p.clone();
            q.key = 0;
            self.try_keep(p, q);
        }
        if p.slots.iter().any(|s| s.vt != Vt::U64) {
            let mut q = p.clone();
            q.slots.iter_mut().for_each(|s| s.vt = Vt::U64);
            self.try_keep(p, q);
        }
        for i in 0..p.alloc.len() {
            let mut q = p.clone();
            q.alloc[i] = AllocFault { skip: q.alloc[i].skip, ev: q.alloc[i].ev, min: 0, times: 1 };
            self.try_keep(p, q);
        }
        for i in (0..p.alloc.len()).rev() {
            let mut q = p.clone();
            q.alloc.remove(i);
            self.try_keep(p, q);
        }
        for i in 0..p.events.len() {
            if self.spent() {
                return;
            }
            let mut q = p.clone();
            let changed = match &mut q.events[i].op {
                Op::Insert { entry, .. } | Op::InsertNested { entry, .. } if *entry != 0 => {
                    *entry = 0;
                    true
                }
                Op::Send { via, .. } if !matches!(via, Via::Clone) => {
                    *via = Via::Clone;
                    true
                }
                Op::Save { fault, .. } | Op::Load { fault, .. } if !fault.is_none() => {
                    *fault = IoFault::default();
                    true
                }
                _ => false,
            };
            if changed {
                self.try_keep(p, q);
            }
        }
    }
}

fn used(p: &Plan, i: u32) -> bool {
    p.events.iter().any(|e| {
        matches!(e.op, Op::Insert { ch, .. } | Op::InsertFail { ch, .. } | Op::InsertNested { ch, .. } | Op::Disperse { ch } if ch == i)
    })
}

fn drop_unused(p: &mut Plan) {
    for i in 0..p.chunks.len() {
        if !used(p, i as u32) {
            p.chunks[i] = Chunk::list(vec![]);
        }
    }
}

pub fn size(p: &Plan) -> usize {
    let vals: u64 = (0..p.chunks.len()).filter(|i| used(p, *i as u32)).map(|i| p.chunks[i].len()).sum();
    p.events.len() * 20 + (p.sched.len() + p.steps.len() + p.shared.len() + p.heap.len()) * 2 + vals as usize
}

fn without(p: &Plan, from: usize, to: usize) -> Plan {
    let mut q = p.clone();
    q.events.drain(from..to);
    for e in q.events.iter_mut() {
        if let Op::InsertNested { s, ch, entry, inner } = e.op.clone() {
            let k = inner as usize;
            e.op = if k >= from && k < to {
                Op::Insert { s, ch, entry }
            } else if k >= to {
                Op::InsertNested { s, ch, entry, inner: (k - (to - from)) as u32 }
            } else {
                e.op.clone()
            };
        }
    }
    q.alloc.retain(|f| (f.ev as usize) < from || f.ev as usize >= to);
    for f in q.alloc.iter_mut() {
        if f.ev as usize >= to {
            f.ev -= (to - from) as u32;
        }
    }
    q
}
