//! Plan generators. Every choice comes from (property, VERIF_SEED, run).
use crate::disk::IoFault;
use crate::dut::*;
use crate::model::Model;
use crate::plan::*;
use crate::rng::{mix2, Rng};
use std::cmp::Reverse;
use std::collections::BinaryHeap;

pub fn generate(prop: &str, seed: u64, run: u64, thorough: bool) -> Plan {
    let id = prop.bytes().fold(7u64, |a, b| mix2(a, b as u64));
    let mut r = Rng::new(mix2(mix2(id, seed), run));
    let mut g = Gen::new(prop, seed, run, &mut r);
    g.big = if thorough { 4 } else { 1 };
    let r = &mut r;
    let pending = match prop {
        "C01" | "C02" | "C03" | "C08" | "C09" => 24,
        "C06" | "C11" => 40,
        "C10" => 16,
        _ => 0,
    };
    let hub = match prop {
        "C01" | "C06" => 25,
        "C02" | "C03" | "C07" | "C10" | "C11" => 50,
        "C09" => 60,
        _ => 0,
    };
    let alike = match prop {
        "C01" => 9,
        "C06" | "C09" => 17,
        "C02" | "C03" | "C10" | "C11" => 35,
        _ => 0,
    };
    let sweep = match prop {
        "C06" => 15,
        "C09" | "C11" => 30,
        "C02" | "C10" => 100,
        _ => 0,
    };
    match prop {
        "C06" | "C11" if run == 6 || run == 27 => g.soak(r, run == 6),
        _ if sweep > 0 && run % sweep == 6 => g.sweep(r, run / sweep),
        _ if alike > 0 && run % alike == 5 => g.lookalike(r),
        _ if hub > 0 && run % hub == hub - 2 => g.hub(r),
        _ if pending > 0 && run % pending == pending - 1 => g.pending(r),
        "C01" => match run % 8 {
            7 => g.pairs(r),
            _ => g.fleet(r, Fleet { crash: run % 3 == 0, ..Fleet::default() }),
        },
        "C02" => match run % 2 {
            0 => g.values(r),
            _ => match r.below(4) {
                0 => g.threads(r, Threads { nest: false, fail: false, io: true }),
                1 => g.pairs(r),
                2 => g.twins(r),
                _ => g.fleet(r, Fleet { counts: 4, check: false, ..Fleet::default() }),
            },
        },
        "C03" => match run % 3 {
            0 => g.disk(r),
            1 => g.disk(r),
            _ => g.fleet(r, Fleet { crash: true, saves: 6, faulty_io: true, check: true, ..Fleet::default() }),
        },
        "C04" => match run % 3 {
            0 => g.threads(r, Threads { nest: false, fail: true, io: true }),
            1 => g.failures(r),
            _ => g.fleet(r, Fleet { crash: true, saves: 4, faulty_io: true, fails: 5, odd_p: true, counts: 3, check: false, ..Fleet::default() }),
        },
        "C05" if run % 40 == 22 => g.crowd(r),
        "C05" => match run % 4 {
            0 => g.threads(r, Threads { nest: false, fail: false, io: true }),
            1 => g.threads(r, Threads { nest: true, fail: true, io: true }),
            2 => g.clones(r),
            _ if run % 8 == 7 => g.twins(r),
            _ => g.threads(r, Threads { nest: true, fail: false, io: false }),
        },
        "C06" if run % 12 == 11 => {
            match r.below(3) {
                0 => g.growth(r, run / 12, r.clone().pct(50)),
                1 => g.fleet(r, Fleet { crash: true, saves: 3, counts: 4, adversarial: true, check: true, ..Fleet::default() }),
                _ => g.pairs(r),
            }
            g.short_of_memory(r);
        }
        "C06" => match run % 4 {
            0 => g.growth(r, run / 4, false),
            1 => g.fleet(r, Fleet { crash: true, saves: 3, counts: 4, fails: 1, vts: true, adversarial: true, check: true, ..Fleet::default() }),
            2 => g.pairs(r),
            _ => g.growth(r, run / 4 + 13, true),
        },
        "C07" if run % 325 == 7 => g.huge(r),
        "C07" => match run % 3 {
            0 => g.growth(r, run / 3, false),
            1 => g.fleet(r, Fleet { crash: true, saves: 3, counts: 4, vts: true, uniform: true, check: false, ..Fleet::default() }),
            _ => g.fleet(r, Fleet { crash: false, counts: 4, vts: true, uniform: true, check: false, ..Fleet::default() }),
        },
        "C08" => match run % 4 {
            0 => g.growth(r, run / 4, false),
            1 if run % 12 == 1 => g.hub(r),
            1 => g.long(r),
            2 if run % 24 == 2 => g.grind(r),
            2 if run % 8 == 2 => g.marathon(r),
            2 => g.long(r),
            _ => g.fleet(r, Fleet { crash: true, saves: 3, counts: 2, vts: true, adversarial: true, check: false, ..Fleet::default() }),
        },
        "C09" => match run % 3 {
            0 => g.growth(r, run / 3, run % 2 == 1),
            _ => g.fleet(r, Fleet { crash: true, saves: 4, counts: 4, pf_heavy: true, adversarial: true, check: true, u64_only: true, ..Fleet::default() }),
        },
        "C10" => match run % 3 {
            0 => g.threads(r, Threads { nest: true, fail: true, io: true }),
            1 => g.fleet(r, Fleet { crash: true, saves: 3, counts: 4, vts: true, adversarial: true, check: false, ..Fleet::default() }),
            _ => g.pairs(r),
        },
        "C11" => match run % 4 {
            0 => g.hostile(r),
            1 => g.fleet(r, Fleet { crash: true, saves: 3, counts: 5, vts: true, adversarial: true, check: true, ..Fleet::default() }),
            2 => g.growth(r, run / 4, true),
            _ if run % 12 == 3 => g.twins(r),
            _ => g.threads(r, Threads { nest: true, fail: true, io: true }),
        },
        _ => panic!("no such property {}", prop),
    }
    // Every other run is of the build users ship.
    if prop != "C09" && mix2(seed, run) & 1 == 1 && g.plan.flavor != "soak" {
        g.plan.slots.iter_mut().for_each(|s| s.build = SHIP);
    }
    // A third of the runs with threads switch between any two steps. (How many
    // steps a call makes may depend on the randomness that C10 varies.)
    if g.plan.threaded && prop != "C10" && (g.plan.flavor == "twins" || mix2(seed, run ^ 0x5354_4550) % 3 == 0) && g.plan.alloc.is_empty() {
        g.stepped(&mut Rng::new(mix2(seed ^ 0x5354_4550, run)));
    }
    if prop == "C08" {
        // Documents and buffers of the caller are not the sketch's memory.
        let plain = |f: &mut Fmt| match *f {
            Fmt::Mem | Fmt::Tree => *f = Fmt::Json,
            Fmt::BinMem => *f = Fmt::Bin,
            _ => {}
        };
        for e in g.plan.events.iter_mut() {
            match &mut e.op {
                Op::Save { fmt, .. } | Op::Send { via: Via::Wire(fmt), .. } => plain(fmt),
                _ => {}
            }
        }
    }
    if prop == "C04" {
        // A failed save must not change what a later restart finds, or the
        // history without it would differ for a reason of its own.
        for e in g.plan.events.iter_mut() {
            if let Op::Save { in_place, .. } = &mut e.op {
                *in_place = false;
            }
        }
    }
    g.plan
}

#[derive(Default)]
struct Fleet {
    crash: bool,
    /// Rates, in events per node.
    saves: u64,
    counts: u64,
    fails: u64,
    faulty_io: bool,
    /// One more sketch of another precision in the fleet.
    odd_p: bool,
    vts: bool,
    u64_only: bool,
    uniform: bool,
    adversarial: bool,
    pf_heavy: bool,
    check: bool,
}

struct Threads {
    nest: bool,
    fail: bool,
    io: bool,
}

struct Gen {
    plan: Plan,
    t: u64,
    big: u64,
    /// Chunks generated so far by (kind, p).
    pool: Vec<u32>,
    universe: u64,
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Work(u8),
    Gossip(u8),
    Arrive(u8, u32),
    Persist(u8),
    Crash(u8),
    Restart(u8),
    Partition,
    Heal,
}

impl Gen {
    fn new(prop: &str, seed: u64, run: u64, r: &mut Rng) -> Gen {
        Gen {
            plan: Plan {
                prop: prop.into(),
                seed,
                run,
                flavor: String::new(),
                key: if r.pct(30) { 0 } else { r.next() },
                os: r.next(),
                slots: vec![],
                chunks: vec![],
                events: vec![],
                sched: vec![],
                steps: vec![],
                shared: vec![],
                heap: vec![],
                threaded: false,
                alloc: vec![],
                stats: Default::default(),
            },
            t: 0,
            big: 1,
            pool: vec![],
            universe: r.next(),
        }
    }

    /// The stepped build, and where to switch in it: here and there, or again
    /// and again in some stretches.
    fn stepped(&mut self, r: &mut Rng) {
        self.plan.slots.iter_mut().for_each(|s| s.build = STEP);
        let n = self.plan.actors() as u64;
        let mut steps = vec![];
        let twins = self.plan.flavor == "twins";
        for _ in 0..r.log(1, 8) {
            steps.push((r.log(1, 1 << if twins { 15 } else { 18 }) as u32, r.below(n) as u8));
            if twins || r.pct(50) {
                let wide = r.log(2, if twins { 1500 } else { 400 });
                for _ in 0..r.log(1, 300) {
                    steps.push((r.below(wide) as u32, r.below(n) as u8));
                }
            }
        }
        self.plan.steps = steps;
        let wide = r.log(1, if twins { 4 } else { 20 });
        self.plan.shared = (0..400).map(|_| (r.below(wide) as u32, r.below(n) as u8)).collect();
        let wide = r.log(1, if twins { 20 } else { 200 });
        self.plan.heap = (0..400).map(|_| (r.below(wide) as u32, r.below(n) as u8)).collect();
    }

    fn ev(&mut self, a: u8, op: Op) -> u32 {
        self.plan.events.push(Event { t: self.t, a, op });
        self.plan.events.len() as u32 - 1
    }

    fn chunk(&mut self, c: Chunk) -> u32 {
        self.plan.chunks.push(c);
        self.plan.chunks.len() as u32 - 1
    }

    fn slot(&mut self, kind: Kind, p: u8, vt: Vt) -> u8 {
        self.plan.slots.push(Spec { kind, p, vt, build: 0 });
        self.plan.slots.len() as u8 - 1
    }

    /// Values from a shared universe, so that chunks overlap.
    fn overlap(&mut self, r: &mut Rng, kind: Kind, p: u8, n: u64) -> u32 {
        let start = if r.pct(60) { self.plan.chunks.len() as u64 * 10_000_000 } else { r.below(n + 50) };
        let c = Chunk { dist: Dist::Uniform, kind, p, seed: self.universe, start, n, list: None, times: 0 };
        self.chunk(c)
    }

    fn any_chunk(&mut self, r: &mut Rng, kind: Kind, p: u8, n: u64, uniform: bool) -> u32 {
        if !self.pool.is_empty() && r.pct(22) {
            return r.pick(&self.pool.clone());
        }
        let d = if uniform { Dist::Uniform } else { pick_dist(r) };
        let ch = if d == Dist::Uniform {
            self.overlap(r, kind, p, n)
        } else {
            let c = pick_chunk(r, kind, p, d, n);
            self.chunk(c)
        };
        self.pool.push(ch);
        ch
    }

    fn one(&mut self, r: &mut Rng) -> u32 {
        let v = if r.pct(20) { r.next() & !0u64 << r.below(64) } else { r.next() };
        self.chunk(Chunk::list(vec![v]))
    }

    /// A fleet of nodes, each holding one sketch, under discrete-event time.
    fn fleet(&mut self, r: &mut Rng, o: Fleet) {
        self.plan.flavor = "fleet".into();
        let kind = if o.pf_heavy { r.pick(&[Kind::Pf, Kind::Pf, Kind::Pp]) } else { pick_kind(r) };
        let p = pick_p(r, kind);
        let n = r.range(2, 5) as u8;
        let mixed = !o.u64_only && (o.vts && r.pct(50) || r.pct(15));
        for _ in 0..n {
            let vt = pick_vt(r, mixed);
            self.slot(kind, p, vt);
        }
        let odd = if o.odd_p && r.pct(70) {
            let q = if p > 4 && r.pct(50) { p - 1 } else { (p + 1).min(max_p(kind)) };
            let vt = pick_vt(r, mixed);
            Some(self.slot(kind, q, vt))
        } else {
            None
        };
        // Swarm: each run enables its own subset of faults and rates.
        let drop = if r.pct(60) { r.range(5, 50) } else { 0 };
        let dup = if r.pct(60) { r.range(5, 50) } else { 0 };
        let crash = o.crash && r.pct(80);
        let parts = r.pct(40);
        let slow = r.pct(30);
        let lat = r.log(1, 400);
        let work = r.range(2, 7);
        let cap = ((1u64 << p) * 3).min(150_000 * self.big).max(40);
        let horizon = 10_000;
        let mut q: BinaryHeap<Reverse<(u64, u64, Ev)>> = BinaryHeap::new();
        let mut seq = 0u64;
        let mut push = |q: &mut BinaryHeap<Reverse<(u64, u64, Ev)>>, t: u64, e: Ev| {
            seq += 1;
            q.push(Reverse((t, seq, e)));
        };
        for i in 0..n {
            for _ in 0..work {
                push(&mut q, r.below(horizon), Ev::Work(i));
            }
            for _ in 0..r.range(1, 5) {
                push(&mut q, r.below(horizon), Ev::Gossip(i));
            }
            for _ in 0..o.saves {
                push(&mut q, r.below(horizon), Ev::Persist(i));
            }
            if crash && r.pct(60) {
                for _ in 0..r.range(1, 2) {
                    let t = r.below(horizon);
                    push(&mut q, t, Ev::Crash(i));
                    push(&mut q, t + r.log(1, 3000), Ev::Restart(i));
                }
            }
        }
        if parts {
            let t = r.below(horizon);
            push(&mut q, t, Ev::Partition);
            push(&mut q, t + r.log(100, 8000), Ev::Heal);
        }
        let mut up = vec![true; n as usize];
        let mut side = vec![0u8; n as usize];
        let mut saved = vec![false; n as usize];
        let mut msg = 0u32;
        while let Some(Reverse((t, _, e))) = q.pop() {
            self.t = t;
            match e {
                Ev::Work(i) if up[i as usize] => {
                    let k = r.range(1, 3);
                    for _ in 0..k {
                        match r.below(8 + o.counts + o.fails) {
                            0..=7 => {
                                let n = pick_n(r, kind, p, cap);
                                let plain = o.uniform || !(o.adversarial || r.pct(40));
                                let ch = self.any_chunk(r, kind, p, n, plain);
                                let entry = r.below(5) as u8;
                                self.ev(i, Op::Insert { s: i, ch, entry });
                            }
                            x if x < 8 + o.counts => {
                                self.ev(i, Op::Count { s: i });
                            }
                            _ => self.failing(r, i, odd),
                        }
                    }
                    if let (Some(od), true) = (odd, r.pct(30)) {
                        let q = self.plan.slots[od as usize].p;
                        let n = pick_n(r, kind, q, cap.min(2000));
                        let ch = self.any_chunk(r, kind, q, n, true);
                        self.ev(i, Op::Insert { s: od, ch, entry: 0 });
                    }
                    if o.counts > 0 && r.pct(30) {
                        self.ev(i, Op::Count { s: i });
                    }
                    if o.check && r.pct(4) {
                        self.ev(i, Op::Check { s: i });
                    }
                }
                Ev::Gossip(i) if up[i as usize] => {
                    let j = (i + r.range(1, n as u64 - 1) as u8) % n;
                    msg += 1;
                    let via = pick_via(r);
                    self.ev(i, Op::Send { s: i, msg, via });
                    if side[i as usize] != side[j as usize] {
                        self.plan.stat("partition_drop");
                        // The sender retries after a timeout.
                        if r.pct(60) {
                            push(&mut q, t + 2000, Ev::Gossip(i));
                        }
                        continue;
                    }
                    if r.below(100) < drop {
                        self.plan.stat("message_drop");
                        if r.pct(60) {
                            push(&mut q, t + 1000, Ev::Gossip(i));
                        }
                        continue;
                    }
                    let mut d = 1 + r.below(lat);
                    if slow && r.pct(20) {
                        d += r.log(1000, 20_000);
                        self.plan.stat("message_stalled");
                    }
                    push(&mut q, t + d, Ev::Arrive(j, msg));
                    while r.below(100) < dup {
                        self.plan.stat("message_duplicate");
                        push(&mut q, t + d + r.below(4 * lat + 1), Ev::Arrive(j, msg));
                    }
                    // A forwarder delivers it to somebody else as well.
                    if n > 2 && r.pct(10) {
                        let k = r.below(n as u64) as u8;
                        self.plan.stat("message_misrouted");
                        push(&mut q, t + d, Ev::Arrive(k, msg));
                    }
                }
                Ev::Arrive(j, m) => {
                    if up[j as usize] {
                        self.ev(j, Op::Recv { d: j, msg: m });
                        if r.below(10) < o.counts {
                            self.ev(j, Op::Count { s: j });
                        }
                        if o.check && r.pct(15) {
                            self.ev(j, Op::Check { s: j });
                        }
                    } else {
                        self.plan.stat("message_to_dead_node");
                    }
                }
                Ev::Persist(i) if up[i as usize] => {
                    let f = if o.faulty_io && r.pct(25) { pick_io_failure(r, 1 << p) } else { pick_io_noise(r) };
                    if f.fail_at.is_none() && !f.flush_fails {
                        saved[i as usize] = true;
                    }
                    let fmt = pick_fmt(r);
                    let in_place = r.pct(40);
                    self.ev(i, Op::Save { s: i, f: i as u32, fmt, fault: f, in_place });
                    if o.faulty_io && r.pct(50) {
                        let cut = r.below(65536) as u16;
                        self.ev(i, Op::LoadTorn { f: i as u32, cut });
                    }
                }
                Ev::Crash(i) if up[i as usize] => {
                    up[i as usize] = false;
                    self.plan.stat("node_crash");
                    self.ev(i, Op::Crash { s: i });
                }
                Ev::Restart(i) if !up[i as usize] => {
                    up[i as usize] = true;
                    self.plan.stat("node_restart");
                    if saved[i as usize] {
                        if o.faulty_io && r.pct(30) {
                            let fault = pick_io_failure(r, 1 << p);
                            self.ev(i, Op::Load { s: i, f: i as u32, fault });
                        }
                        let fault = pick_io_noise(r);
                        self.ev(i, Op::Load { s: i, f: i as u32, fault });
                    }
                }
                Ev::Partition => {
                    self.plan.stat("partition");
                    for s in side.iter_mut() {
                        *s = r.below(2) as u8;
                    }
                }
                Ev::Heal => side.iter_mut().for_each(|s| *s = 0),
                // A node that is down does nothing.
                _ => {}
            }
        }
        self.t += 1000;
        // Faults stop: everybody's state reaches everybody, by all-to-all,
        // along a ring, or through a hub.
        let topo = r.below(3);
        let mut hops: Vec<(u8, u8)> = vec![];
        match topo {
            0 => {
                for i in 0..n {
                    for j in 0..n {
                        if i != j {
                            hops.push((i, j));
                        }
                    }
                }
                r.shuffle(&mut hops);
                // Bulk exchange: sends first, then deliveries.
                let mut ms = vec![];
                for (i, j) in &hops {
                    msg += 1;
                    let via = pick_via(r);
                    self.ev(*i, Op::Send { s: *i, msg, via });
                    ms.push((*j, msg));
                }
                r.shuffle(&mut ms);
                for (j, m) in ms {
                    self.ev(j, Op::Recv { d: j, msg: m });
                }
                hops.clear();
            }
            1 => {
                for _ in 0..2 {
                    for i in 0..n {
                        hops.push((i, (i + 1) % n));
                    }
                }
            }
            _ => {
                for i in 1..n {
                    hops.push((i, 0));
                }
                for i in 1..n {
                    hops.push((0, i));
                }
            }
        }
        for (i, j) in hops {
            if r.pct(50) {
                self.ev(j, Op::Merge { d: j, s: i });
            } else {
                msg += 1;
                let via = pick_via(r);
                self.ev(i, Op::Send { s: i, msg, via });
                self.ev(j, Op::Recv { d: j, msg });
            }
        }
        for i in 0..n {
            self.t += 1;
            if o.check {
                self.ev(i, Op::Check { s: i });
            }
            self.ev(i, Op::Count { s: i });
        }
        if self.plan.prop == "C01" {
            for i in 0..n {
                self.ev(i, Op::Check { s: i });
            }
        }
    }

    /// An operation that is meant to fail.
    fn failing(&mut self, r: &mut Rng, s: u8, odd: Option<u8>) {
        match (r.below(4), odd) {
            (0, Some(o)) => {
                let (d, s) = if r.pct(50) { (s, o) } else { (o, s) };
                self.ev(0, Op::Merge { d, s });
            }
            (1, _) => {
                let fault = pick_io_failure(r, 200);
                let fmt = pick_fmt(r);
                self.ev(0, Op::Save { s, f: 900, fmt, fault, in_place: true });
            }
            _ => {
                let ch = self.one(r);
                let entry = r.below(5) as u8;
                let stage = r.below(3) as u8;
                let skip = if r.pct(80) { 0 } else { r.below(3) as u8 };
                self.ev(0, Op::InsertFail { s, ch, entry, stage, skip });
            }
        }
        let last = self.plan.events.len() - 1;
        self.plan.events[last].a = s;
    }

    /// Two or three sketches in chosen state classes, merged every way.
    fn pairs(&mut self, r: &mut Rng) {
        self.plan.flavor = "pairs".into();
        let kind = if r.pct(85) { Kind::Pp } else { Kind::Pf };
        let p = pick_p(r, kind);
        let mixed = r.pct(25);
        let n = r.range(2, 4) as u8;
        let tr = transition(p);
        for i in 0..n {
            let vt = pick_vt(r, mixed);
            self.slot(kind, p, vt);
            for _ in 0..r.range(0, 3) {
                let k = match r.below(7) {
                    0 => r.range(0, 3),
                    1 => r.range(1, 10),
                    2 => tr / 4 + r.below(tr / 4 + 1),
                    3 => tr / 2 + r.below(tr / 2 + 1),
                    4 => tr * 9 / 10 + r.below(tr / 5 + 2),
                    5 => tr * 2,
                    _ => pick_n(r, kind, p, 1 << 16),
                };
                let uni = r.pct(60);
                let ch = self.any_chunk(r, kind, p, k, uni);
                let entry = r.below(5) as u8;
                self.ev(i, Op::Insert { s: i, ch, entry });
                if r.pct(40) {
                    self.ev(i, Op::Count { s: i });
                }
            }
        }
        for _ in 0..r.range(2, 10) {
            self.t += 1;
            let d = r.below(n as u64) as u8;
            let s = (d + r.range(1, n as u64 - 1) as u8) % n;
            match r.below(10) {
                0..=4 => {
                    self.ev(d, Op::Merge { d, s });
                }
                5 => {
                    self.ev(d, Op::Clone { d, s });
                }
                6 => {
                    self.ev(d, Op::Count { s: d });
                }
                7 => {
                    let (f, fmt, fault) = (d as u32, pick_fmt(r), pick_io_noise(r));
                    self.ev(d, Op::Save { s, f, fmt, fault, in_place: false });
                    let fault = pick_io_noise(r);
                    self.ev(d, Op::Load { s: d, f, fault });
                }
                _ => {
                    let k = match r.below(4) {
                        0 => 1,
                        1 => tr / 100 + 1,
                        2 => tr / 5 + 1,
                        _ => r.below(tr + 2),
                    };
                    let ch = self.any_chunk(r, kind, p, k, true);
                    let entry = r.below(5) as u8;
                    self.ev(d, Op::Insert { s: d, ch, entry });
                }
            }
            if r.pct(30) {
                self.ev(d, Op::Count { s: d });
            }
        }
        for s in 0..n {
            self.ev(s, Op::Check { s });
            self.ev(s, Op::Count { s });
        }
    }

    /// Large sketches with many values not yet flushed into the compact form,
    /// exchanged before anything flushes them, and then fed the same values.
    fn pending(&mut self, r: &mut Rng) {
        self.plan.flavor = "pending".into();
        let kind = Kind::Pp;
        let p = r.pick(&[9u8, 10, 11, 12, 12, 13, 13, 14, 15, 16, 17, 18]);
        let n = r.range(2, 3) as u8;
        let flush = 4 * (1u64 << p) / 5 / 100;
        let tr = transition(p);
        let vt = if self.plan.prop == "C09" || r.pct(70) { Vt::U64 } else { pick_vt(r, true) };
        let mut own: Vec<Vec<u32>> = vec![];
        for s in 0..n {
            self.slot(kind, p, vt);
            let mut mine = vec![];
            if r.pct(40) {
                let k = if r.pct(40) && p <= 15 { r.below(tr) } else { flush * r.range(1, 4) };
                mine.push(self.overlap(r, kind, p, k));
            }
            let k = match r.below(4) {
                0 => r.range(1, flush / 3 + 1),
                1 => flush.max(2) - r.below(flush / 20 + 2).min(flush.max(2) - 1),
                _ => r.range(flush / 3 + 1, flush + 1),
            };
            mine.push(self.overlap(r, kind, p, k));
            for ch in &mine {
                let entry = r.below(5) as u8;
                self.ev(s, Op::Insert { s, ch: *ch, entry });
                if *ch != mine[mine.len() - 1] && r.pct(70) {
                    self.ev(s, Op::Count { s });
                }
            }
            own.push(mine);
        }
        let mut msg = 0;
        for _ in 0..r.range(1, 6) {
            self.t += 1;
            let s = r.below(n as u64) as u8;
            let d = (s + r.range(1, n as u64 - 1) as u8) % n;
            match r.below(10) {
                0..=4 => {
                    self.ev(d, Op::Merge { d, s });
                }
                5 => {
                    msg += 1;
                    let via = pick_via(r);
                    self.ev(s, Op::Send { s, msg, via });
                    self.ev(d, Op::Recv { d, msg });
                }
                6 => {
                    self.ev(d, Op::Clone { d, s });
                }
                7 => {
                    let (f, fmt, fault) = (s as u32, pick_fmt(r), pick_io_noise(r));
                    self.ev(s, Op::Save { s, f, fmt, fault, in_place: false });
                    let fault = pick_io_noise(r);
                    self.ev(s, Op::Load { s, f, fault });
                }
                8 => {
                    self.ev(s, Op::Count { s });
                }
                _ => {
                    let ch = self.one(r);
                    self.ev(s, Op::Insert { s, ch, entry: 0 });
                }
            }
        }
        // Values lost or invented above show when all are offered again.
        for s in 0..n {
            if r.pct(70) {
                self.ev(s, Op::Count { s });
            }
            for ch in own[r.below(n as u64) as usize].clone() {
                self.ev(s, Op::Insert { s, ch, entry: 0 });
                self.ev(s, Op::Count { s });
            }
        }
        for s in 0..n {
            if p <= 14 {
                self.ev(s, Op::Check { s });
            }
            self.ev(s, Op::Count { s });
        }
    }

    /// Sketches that look the same from outside (as many values, the same
    /// extremes, sizes, ranks or estimate) but hold different values, merged.
    fn lookalike(&mut self, r: &mut Rng) {
        self.plan.flavor = "lookalike".into();
        let kind = pick_kind(r);
        let p = pick_p(r, kind).min(14);
        let w = if kind == Kind::Pf { 32u32 } else { 64 };
        let n = r.range(2, 4) as u8;
        let tr = transition(p);
        let k = match r.below(6) {
            0 => r.range(2, 5),
            1 | 2 => r.range(4, 40),
            3 => (tr * r.range(1, 9) / 10).max(3),
            4 => tr * 2 + 3,
            _ => (1 << p) * r.range(1, 4),
        }
        .min(40_000);
        let c = if r.pct(75) {
            Chunk { dist: Dist::Uniform, kind, p, seed: r.next(), start: 0, n: k, list: None, times: 0 }
        } else {
            let d = pick_dist(r);
            pick_chunk(r, kind, p, d, k)
        };
        let low = |h: u64| if w == 32 { h & 0xffff_ffff } else { h };
        let mut base = c.values();
        base.sort_by_key(|h| low(*h));
        base.dedup();
        // Bit positions: the lowest index bit, the lowest bit of the prefix.
        let idx = w - p as u32;
        let pre = if w == 64 { 39 } else { idx };
        let mut own = vec![];
        for s in 0..n {
            self.slot(kind, p, Vt::U64);
            let mut v = base.clone();
            let last = v.len() - 1;
            if s > 0 {
                match r.below(8) {
                    // Some values but the extremes are neighbours instead.
                    0..=2 if last > 1 => {
                        for _ in 0..r.range(1, last as u64) {
                            let i = r.range(1, last as u64 - 1) as usize;
                            let b = pre + if r.pct(50) { 0 } else { r.below((w - pre).min(8) as u64) as u32 };
                            v[i] ^= 1 << b.min(w - 1);
                        }
                    }
                    // The same ranks in other registers.
                    0..=3 => {
                        let x = r.range(1, (1 << p) - 1) << idx;
                        v.iter_mut().for_each(|h| *h ^= x);
                    }
                    4 => {
                        let x = r.below(1 << p) << idx;
                        v.iter_mut().skip(1).for_each(|h| *h ^= x);
                    }
                    // The same prefixes, other ranks.
                    5 => v.iter_mut().for_each(|h| *h ^= r.next() & ((1 << pre) - 1)),
                    // One missing, one more.
                    6 => {
                        v.remove(r.below(last as u64 + 1) as usize);
                        v.push(r.next());
                    }
                    _ => {}
                }
            }
            if r.pct(50) {
                r.shuffle(&mut v);
            }
            let ch = self.chunk(Chunk::list(v));
            self.ev(s, Op::Insert { s, ch, entry: r.below(5) as u8 });
            own.push(ch);
        }
        let flushed = r.pct(70);
        for s in 0..n {
            if flushed || r.pct(40) {
                self.ev(s, Op::Count { s });
            }
            if r.pct(15) {
                let ch = self.one(r);
                self.ev(s, Op::Insert { s, ch, entry: 0 });
            }
        }
        let mut msg = 0;
        for _ in 0..r.range(2, 8) {
            self.t += 1;
            let s = r.below(n as u64) as u8;
            let d = (s + r.range(1, n as u64 - 1) as u8) % n;
            match r.below(8) {
                0..=4 => {
                    self.ev(d, Op::Merge { d, s });
                }
                5 => {
                    msg += 1;
                    let via = pick_via(r);
                    self.ev(s, Op::Send { s, msg, via });
                    self.ev(d, Op::Recv { d, msg });
                    if r.pct(50) {
                        self.ev(d, Op::Recv { d, msg });
                    }
                }
                6 => {
                    let (f, fmt, fault) = (s as u32, pick_fmt(r), pick_io_noise(r));
                    self.ev(s, Op::Save { s, f, fmt, fault, in_place: false });
                    let fault = pick_io_noise(r);
                    self.ev(d, Op::Load { s: d, f, fault });
                }
                _ => {
                    let ch = own[r.below(n as u64) as usize];
                    self.ev(d, Op::Insert { s: d, ch, entry: 0 });
                }
            }
            if r.pct(50) {
                self.ev(d, Op::Count { s: d });
            }
        }
        for s in 0..n {
            self.ev(s, Op::Check { s });
            self.ev(s, Op::Count { s });
        }
    }

    /// Concurrent callers on shared and private sketches.
    fn threads(&mut self, r: &mut Rng, o: Threads) {
        self.plan.flavor = "threads".into();
        self.plan.threaded = true;
        let actors = r.range(2, 4) as u8;
        let kind = pick_kind(r);
        let p = pick_p(r, kind).min(12);
        let ns = r.range(2, 5) as u8;
        let mixed = r.pct(50);
        for i in 0..ns {
            let (k, q) = match r.below(10) {
                0 => {
                    let k = pick_kind(r);
                    (k, pick_p(r, k).min(12))
                }
                1 if o.fail || o.nest => (kind, if p > 4 { p - 1 } else { 5 }),
                _ => (kind, p),
            };
            let vt = pick_vt(r, mixed);
            self.slot(k, q, vt);
            let _ = i;
        }
        let mut msg = 0;
        let total = r.range(6, 40);
        let mut points = 0;
        for _ in 0..total {
            self.t += 1;
            let a = r.below(actors as u64) as u8;
            // Callers favour a sketch of their own.
            let s = if r.pct(40) { a % ns } else { r.below(ns as u64) as u8 };
            let spec = self.plan.slots[s as usize];
            let d = r.below(ns as u64) as u8;
            let entry = r.below(5) as u8;
            match r.below(22) {
                0..=8 => {
                    let cap = if r.pct(15) { 2000 } else { 60 };
                    let n = pick_n(r, spec.kind, spec.p, cap);
                    let uni = r.pct(70);
                    let ch = self.any_chunk(r, spec.kind, spec.p, n, uni);
                    points += 3 * n;
                    if o.nest && r.pct(40) {
                        let t = (s + 1 + r.below(ns as u64 - 1) as u8) % ns;
                        let ch2 = self.one(r);
                        let inner = match r.below(5) {
                            0 => Op::Count { s: t },
                            1 => Op::Merge { d: t, s: (t + 1) % ns },
                            2 => Op::Clone { d: t, s: (t + 1) % ns },
                            _ => Op::Insert { s: t, ch: ch2, entry: r.below(5) as u8 },
                        };
                        let inner = self.ev(255, inner);
                        self.ev(a, Op::InsertNested { s, ch, entry, inner });
                    } else {
                        self.ev(a, Op::Insert { s, ch, entry });
                    }
                }
                9..=11 => {
                    self.ev(a, Op::Count { s });
                }
                12..=14 => {
                    self.ev(a, Op::Merge { d, s });
                }
                15 => {
                    self.ev(a, Op::Clone { d, s });
                }
                16 | 17 => {
                    msg += 1;
                    let via = pick_via(r);
                    self.ev(a, Op::Send { s, msg, via });
                    let b = r.below(actors as u64) as u8;
                    self.ev(b, Op::Recv { d, msg });
                }
                18 | 19 if o.io => {
                    let f = r.below(3) as u32;
                    let (fmt, fault) = (pick_fmt(r), pick_io_noise(r));
                    self.ev(a, Op::Save { s, f, fmt, fault, in_place: false });
                    if r.pct(60) {
                        let fault = pick_io_noise(r);
                        self.ev(a, Op::Load { s: d, f, fault });
                    }
                }
                20 | 21 if o.fail => {
                    self.failing(r, s, Some(d).filter(|d| *d != s));
                    let last = self.plan.events.len() - 1;
                    self.plan.events[last].a = a;
                }
                _ => {
                    let ch = self.one(r);
                    points += 3;
                    self.ev(a, Op::Insert { s, ch, entry });
                }
            }
        }
        // Each sketch is looked at in the end by some caller.
        for s in 0..ns {
            let a = r.below(actors as u64) as u8;
            self.ev(a, Op::Count { s });
        }
        self.plan.sched = gen_sched(r, actors as usize, points + 2 * total);
    }

    /// Callers with a sketch each that hold nearly the same, and that look at
    /// them and change them a little again and again: what calls might keep
    /// for each other is kept for nearly the same thing.
    fn twins(&mut self, r: &mut Rng) {
        self.plan.flavor = "twins".into();
        self.plan.threaded = true;
        let kind = if r.pct(75) { Kind::Pp } else { Kind::Pf };
        let actors = r.range(2, 4) as u8;
        let p = r.range(4, 9).min(r.range(4, 9)) as u8;
        let m = 1u64 << p;
        let vt = if r.pct(70) { Vt::U64 } else { pick_vt(r, false) };
        for _ in 0..actors {
            let q = if r.pct(8) { r.range(4, 9) as u8 } else { p };
            self.slot(kind, q, vt);
        }
        // Not yet registers, registers some of which are empty, or none.
        let n = match r.below(6) {
            0 => r.range(1, 1 + m / 8),
            1 => r.range(1, m),
            _ => r.range(m, 5 * m),
        };
        let uni = r.pct(85);
        let origin = self.any_chunk(r, kind, p, n, uni);
        for a in 0..actors {
            if a == 0 || r.pct(60) {
                self.ev(a, Op::Insert { s: a, ch: origin, entry: 0 });
            } else {
                self.ev(a, Op::Clone { d: a, s: 0 });
            }
        }
        let few: Vec<u32> = (0..4).map(|_| self.one(r)).collect();
        for _ in 0..r.range(8, 48) {
            self.t += 1;
            let a = r.below(actors as u64) as u8;
            match r.below(16) {
                0..=8 => {
                    for _ in 0..r.range(1, 3) {
                        self.ev(a, Op::Count { s: a });
                    }
                }
                9..=12 => {
                    let ch = if r.pct(70) { r.pick(&few) } else { self.one(r) };
                    self.ev(a, Op::Insert { s: a, ch, entry: r.below(5) as u8 });
                }
                13 => {
                    let n = r.range(2, 2 + m / 4);
                    let ch = self.any_chunk(r, kind, p, n, uni);
                    self.ev(a, Op::Insert { s: a, ch, entry: 0 });
                }
                14 => {
                    self.ev(a, Op::Merge { d: a, s: r.below(actors as u64) as u8 });
                }
                _ => {
                    self.ev(a, Op::Clone { d: a, s: r.below(actors as u64) as u8 });
                }
            }
        }
        for a in 0..actors {
            self.ev(a, Op::Count { s: a });
        }
        self.plan.sched = gen_sched(r, actors as usize, 300);
    }

    /// C02, values: phases of inserts, to be permuted and repeated.
    fn values(&mut self, r: &mut Rng) {
        self.plan.flavor = "values".into();
        self.plan.threaded = true;
        let kind = pick_kind(r);
        let p = pick_p(r, kind);
        let actors = r.range(1, 4) as u8;
        let ns = r.range(1, 2) as u8;
        let mixed = r.pct(30);
        for _ in 0..ns {
            let vt = pick_vt(r, mixed);
            self.slot(kind, p, vt);
        }
        let cap = (3u64 << p).min(40_000 * self.big);
        let mut points = 0;
        for _ in 0..r.range(1, 8) {
            let a = r.below(actors as u64) as u8;
            let s = r.below(ns as u64) as u8;
            let n = pick_n(r, kind, p, cap);
            points += n;
            let uni = r.pct(55);
            let ch = self.any_chunk(r, kind, p, n, uni);
            let entry = r.below(5) as u8;
            self.ev(a, Op::Insert { s, ch, entry });
            if r.pct(40) {
                self.ev(a, Op::Count { s });
            }
        }
        self.plan.sched = gen_sched(r, actors as usize, points.min(3000));
    }

    /// C03: save, continue, crash, restore, continue.
    fn disk(&mut self, r: &mut Rng) {
        self.plan.flavor = "disk".into();
        let kind = if r.pct(80) { Kind::Pp } else { Kind::Pf };
        let p = pick_p(r, kind);
        let n = r.range(1, 3) as u8;
        let mixed = r.pct(40);
        for _ in 0..n {
            let vt = pick_vt(r, mixed);
            self.slot(kind, p, vt);
        }
        let cap = (2u64 << p).min(60_000 * self.big);
        let mut files: Vec<u32> = vec![];
        for _ in 0..r.range(4, 24) {
            self.t += r.log(1, 1000);
            let s = r.below(n as u64) as u8;
            match r.below(14) {
                0..=4 => {
                    let k = pick_n(r, kind, p, cap);
                    let uni = r.pct(60);
                    let ch = self.any_chunk(r, kind, p, k, uni);
                    let entry = r.below(5) as u8;
                    self.ev(s, Op::Insert { s, ch, entry });
                }
                5 => {
                    self.ev(s, Op::Count { s });
                }
                6 => {
                    let d = r.below(n as u64) as u8;
                    self.ev(s, Op::Merge { d, s });
                }
                7..=10 => {
                    let f = r.below(4) as u32;
                    let fault = match r.below(10) {
                        0..=2 => pick_io_failure(r, 1 << p),
                        3..=6 => pick_io_noise(r),
                        _ => IoFault::default(),
                    };
                    if fault.fail_at.is_none() && !fault.flush_fails && !files.contains(&f) {
                        files.push(f);
                    }
                    let fmt = pick_fmt(r);
                    let in_place = r.pct(40);
                    self.ev(s, Op::Save { s, f, fmt, fault, in_place });
                    for _ in 0..r.range(0, 3) {
                        let cut = match r.below(4) {
                            0 => 65535 - r.below(2000),
                            1 => r.below(400),
                            _ => r.below(65536),
                        } as u16;
                        self.ev(s, Op::LoadTorn { f, cut });
                    }
                    if r.pct(40) {
                        let fault = pick_io_noise(r);
                        self.ev(s, Op::Load { s, f, fault });
                    }
                }
                11 if !files.is_empty() => {
                    let f = r.pick(&files.clone());
                    let fault = if r.pct(50) { pick_io_failure(r, 1 << p) } else { pick_io_noise(r) };
                    self.ev(s, Op::Load { s, f, fault });
                    if r.pct(60) {
                        let ch = self.one(r);
                        self.ev(s, Op::Insert { s, ch, entry: 0 });
                    }
                    self.ev(s, Op::Count { s });
                }
                _ => {
                    self.plan.stat("node_crash");
                    self.ev(s, Op::Crash { s });
                    if !files.is_empty() {
                        let f = r.pick(&files.clone());
                        let fault = pick_io_noise(r);
                        self.ev(s, Op::Load { s, f, fault });
                        self.plan.stat("node_restart");
                    }
                }
            }
        }
        for s in 0..n {
            self.ev(s, Op::Check { s });
            self.ev(s, Op::Count { s });
        }
    }

    /// C04: histories in which many calls fail at chosen moments.
    fn failures(&mut self, r: &mut Rng) {
        self.plan.flavor = "failures".into();
        let kind = pick_kind(r);
        let p = pick_p(r, kind).min(14);
        let mixed = r.pct(40);
        let n = r.range(2, 4) as u8;
        for i in 0..n {
            let q = if i > 0 && r.pct(45) { pick_p(r, kind).min(14) } else { p };
            let vt = pick_vt(r, mixed);
            self.slot(kind, q, vt);
        }
        for _ in 0..r.range(5, 30) {
            self.t += 1;
            let s = r.below(n as u64) as u8;
            let q = self.plan.slots[s as usize].p;
            match r.below(10) {
                0..=2 => {
                    let k = pick_n(r, kind, q, (2u64 << q).min(30_000));
                    let uni = r.pct(60);
                    let ch = self.any_chunk(r, kind, q, k, uni);
                    let entry = r.below(5) as u8;
                    self.ev(s, Op::Insert { s, ch, entry });
                }
                3 => {
                    self.ev(s, Op::Count { s });
                }
                4 | 5 => {
                    let d = (s + r.range(1, n as u64 - 1) as u8) % n;
                    self.ev(s, Op::Merge { d, s });
                }
                6 => {
                    let (fmt, fault) = (pick_fmt(r), pick_io_failure(r, 1 << q));
                    self.ev(s, Op::Save { s, f: 1, fmt, fault, in_place: false });
                }
                _ => {
                    let ch = self.one(r);
                    let entry = r.below(5) as u8;
                    let stage = r.below(3) as u8;
                    self.ev(s, Op::InsertFail { s, ch, entry, stage, skip: 0 });
                }
            }
            if r.pct(25) {
                self.ev(s, Op::Count { s });
            }
        }
        for s in 0..n {
            self.ev(s, Op::Count { s });
        }
    }

    /// C05: families of clones going separate ways.
    fn clones(&mut self, r: &mut Rng) {
        self.plan.flavor = "clones".into();
        self.plan.threaded = r.pct(60);
        let kind = pick_kind(r);
        let p = pick_p(r, kind).min(13);
        let vt = pick_vt(r, true);
        let n = r.range(2, 5) as u8;
        let actors = r.range(1, 4) as u8;
        for _ in 0..n {
            self.slot(kind, p, vt);
        }
        let mut points = 0;
        for _ in 0..r.range(6, 30) {
            self.t += 1;
            let a = r.below(actors as u64) as u8;
            let s = r.below(n as u64) as u8;
            let d = r.below(n as u64) as u8;
            match r.below(9) {
                0..=3 => {
                    let cap = if r.pct(30) { 3 << p } else { 40 };
                    let k = pick_n(r, kind, p, cap.min(20_000));
                    points += k;
                    let uni = r.pct(60);
                    let ch = self.any_chunk(r, kind, p, k, uni);
                    let entry = r.below(5) as u8;
                    self.ev(a, Op::Insert { s, ch, entry });
                }
                4 | 5 => {
                    self.ev(a, Op::Clone { d, s });
                }
                6 => {
                    self.ev(a, Op::Merge { d, s });
                }
                7 => {
                    self.ev(a, Op::Crash { s });
                }
                _ => {
                    self.ev(a, Op::Count { s });
                }
            }
        }
        for s in 0..n {
            self.ev(0, Op::Count { s });
        }
        self.plan.sched = gen_sched(r, actors as usize, points.min(2000) + 60);
    }

    /// One sketch (and a second merged in now and then) growing through every
    /// regime of the estimator; the run number walks through all precisions.
    /// One sketch whose registers are raised one by one, looked at on both
    /// sides of every decision its estimator makes.
    fn sweep(&mut self, r: &mut Rng, k: u64) {
        self.plan.flavor = "sweep".into();
        let k = k % 28;
        let (kind, p) = if k < 15 { (Kind::Pp, 4 + k as u8) } else { (Kind::Pf, 4 + (k - 15) as u8) };
        self.slot(kind, p, Vt::U64);
        self.slot(kind, p, Vt::U64);
        let m = 1u64 << p;
        let mf = m as f64;
        let w = if kind == Kind::Pf { 32 } else { 64u32 };
        let below = w - p as u32;
        let mut regs = vec![0u32; m as usize];
        let mut sum = mf;
        let mut zeros = m;
        // Index and rank of a value.
        let low = |h: u64| if w == 32 { h & 0xffff_ffff } else { h };
        let part = |h: u64| {
            let rest = low(h) & ((1 << below) - 1);
            ((low(h) >> below) as usize, if rest == 0 { below + 1 } else { below - (63 - rest.leading_zeros()) })
        };
        // Raw estimates and numbers of empty registers to stop at.
        let mut stops: Vec<f64> = vec![];
        let mut zero_stop = 0;
        if kind == Kind::Pp {
            let t = crate::tables::RAW[p as usize - 4];
            let all = p < 13;
            stops.extend(t.iter().enumerate().filter(|(i, _)| all || *i < 3 || *i + 3 > t.len() || r.pct(20)).map(|x| *x.1));
            stops.push(5.0 * mf);
            zero_stop = (mf / (Model::threshold(p) / mf).exp()) as u64;
        } else {
            stops.extend([2.5 * mf, 4294967296.0 / 30.0, 4294967296.0]);
        }
        let top = if kind == Kind::Pf { 4294967296.0 } else { mf * 7.0 };
        for _ in 0..r.range(5, 40) {
            let at = mf * (r.below(1 << 20) as f64 / (1 << 20) as f64 * (1.2 * top / mf).ln()).exp();
            stops.push(at);
        }
        stops.sort_by(|a, b| a.total_cmp(b));
        let put = |regs: &mut Vec<u32>, h: u64, sum: &mut f64, zeros: &mut u64| {
            let (i, z) = part(h);
            if z > regs[i] {
                *sum += (-(z as f64)).exp2() - (-(regs[i] as f64)).exp2();
                *zeros -= (regs[i] == 0) as u64;
                regs[i] = z;
            }
        };
        let base = match r.below(4) {
            0 => Some(Chunk { dist: Dist::Cluster, kind, p, seed: r.next(), start: 0, n: m, list: None, times: 0 }),
            1 => Some(Chunk { dist: Dist::Uniform, kind, p, seed: r.next(), start: 0, n: r.log(1, m / 2 + 1), list: None, times: 0 }),
            _ => None,
        };
        if let Some(c) = base {
            c.values().into_iter().for_each(|h| put(&mut regs, h, &mut sum, &mut zeros));
            let ch = self.chunk(c);
            self.ev(0, Op::Insert { s: 0, ch, entry: 0 });
        }
        let raw = |sum: f64| Model::alpha(mf) * mf * mf / sum;
        let (odd, off) = (r.next() | 1, r.next());
        let hole = r.pct(50) as u64;
        let extra = 60 + m;
        let mut next = stops.iter().position(|s| *s > raw(sum)).unwrap_or(stops.len());
        let mut batch = vec![];
        for level in 1..=below + 1 {
            for j in 0..m - hole {
                let i = j.wrapping_mul(odd).wrapping_add(off) & (m - 1);
                if regs[i as usize] >= level {
                    continue;
                }
                let rest = if level > below { 0 } else { 1u64 << (below - level) | r.next() & ((1 << (below - level)) - 1) };
                let h = i << below | rest | if w == 32 { r.next() << 32 } else { 0 };
                let (raw0, zeros0) = (raw(sum), zeros);
                put(&mut regs, h, &mut sum, &mut zeros);
                let mut stop = zeros0 > zero_stop && zeros <= zero_stop;
                while next < stops.len() && stops[next] <= raw(sum) {
                    stop |= stops[next] > raw0;
                    next += 1;
                }
                stop |= r.below(extra) < 20;
                if stop {
                    self.sweep_look(r, &mut batch, p);
                    batch.push(h);
                    self.sweep_look(r, &mut batch, p);
                } else {
                    batch.push(h);
                }
            }
            if next == stops.len() {
                break;
            }
        }
        self.sweep_look(r, &mut batch, p);
    }

    fn sweep_look(&mut self, r: &mut Rng, batch: &mut Vec<u64>, p: u8) {
        self.t += r.log(1, 10_000);
        if !batch.is_empty() {
            let ch = self.chunk(Chunk::list(std::mem::take(batch)));
            let entry = r.below(5) as u8;
            let s = r.pct(10) as u8;
            self.ev(0, Op::Insert { s, ch, entry });
            if s == 1 {
                self.ev(0, Op::Merge { d: 0, s: 1 });
            }
        }
        self.ev(0, Op::Count { s: 0 });
        if p < 12 && r.pct(2) {
            self.ev(0, Op::Save { s: 0, f: 0, fmt: pick_fmt(r), fault: IoFault::default(), in_place: false });
            self.ev(0, Op::Crash { s: 0 });
            self.ev(0, Op::Load { s: 0, f: 0, fault: IoFault::default() });
            self.ev(0, Op::Count { s: 0 });
        }
    }

    fn growth(&mut self, r: &mut Rng, k: u64, adversarial: bool) {
        self.plan.flavor = "growth".into();
        let k = k % 28;
        let (kind, p) = if k < 15 { (Kind::Pp, 4 + k as u8) } else { (Kind::Pf, 4 + (k - 15) as u8) };
        let u64_only = self.plan.prop == "C09";
        let vt = if u64_only || p > 13 { Vt::U64 } else { pick_vt(r, true) };
        self.slot(kind, p, vt);
        self.slot(kind, p, vt);
        let m = 1u64 << p;
        let cap = if self.plan.prop == "C08" || p > 15 { 6 * m } else { 7 * m };
        let mut n = 0u64;
        let mut pos = 0u64;
        let mut step = 0;
        while n < cap && step < 90 {
            step += 1;
            self.t += r.log(1, 10_000);
            // Dense steps near the thresholds, growing steps elsewhere.
            let tr = transition(p);
            let k = if n < tr + tr / 4 {
                r.range(1, tr / 8 + 2)
            } else {
                r.range(1, m / 6 + 2)
            };
            let ch = if adversarial && r.pct(30) {
                let d = pick_dist(r);
                let c = pick_chunk(r, kind, p, d, k);
                self.chunk(c)
            } else {
                let c = Chunk { dist: Dist::Uniform, kind, p, seed: self.universe, start: pos, n: k, list: None, times: 0 };
                pos += k;
                self.chunk(c)
            };
            n += k;
            let entry = r.below(5) as u8;
            let s = if r.pct(12) { 1 } else { 0 };
            self.ev(0, Op::Insert { s, ch, entry });
            if r.pct(12) {
                // Values seen before.
                let ch = r.below(self.plan.chunks.len() as u64) as u32;
                self.ev(0, Op::Insert { s: 0, ch, entry: 0 });
            }
            if r.pct(75) {
                self.ev(0, Op::Count { s: 0 });
            }
            match r.below(24) {
                0 => {
                    self.ev(0, Op::Merge { d: 0, s: 1 });
                    self.ev(0, Op::Count { s: 0 });
                }
                1 if p < 14 => {
                    let (fmt, fault) = (pick_fmt(r), pick_io_noise(r));
                    self.ev(0, Op::Save { s: 0, f: 0, fmt, fault, in_place: false });
                    if r.pct(60) {
                        self.ev(0, Op::Crash { s: 0 });
                    }
                    self.ev(0, Op::Load { s: 0, f: 0, fault: IoFault::default() });
                    self.ev(0, Op::Count { s: 0 });
                }
                2 => {
                    self.ev(0, Op::Count { s: 1 });
                }
                3 => {
                    self.ev(0, Op::Merge { d: 1, s: 0 });
                }
                4 => {
                    let ch = self.one(r);
                    self.ev(0, Op::InsertFail { s: 0, ch, entry: 0, stage: r.below(3) as u8, skip: 0 });
                }
                _ => {}
            }
        }
        self.ev(0, Op::Count { s: 0 });
        self.ev(0, Op::Count { s: 1 });
        if p < 13 && self.plan.prop != "C07" {
            self.ev(0, Op::Check { s: 0 });
        }
        // Saturation, one large-rank value per register.
        if adversarial {
            for boost in [6, 12, 20, 27] {
                if r.pct(50) {
                    let c = Chunk { dist: Dist::Boost, kind, p, seed: r.next(), start: boost, n: m, list: None, times: 0 };
                    let ch = self.chunk(c);
                    self.ev(0, Op::Insert { s: 0, ch, entry: 0 });
                    self.ev(0, Op::Count { s: 0 });
                }
            }
            if r.pct(50) {
                let c = Chunk { dist: Dist::MaxRank, kind, p, seed: r.next(), start: 0, n: 12 * m, list: None, times: 0 };
                let ch = self.chunk(c);
                self.ev(0, Op::Insert { s: 0, ch, entry: 0 });
                self.ev(0, Op::Count { s: 0 });
            }
        }
    }

    /// C07: cardinalities near the size of a 32-bit hash space.
    fn huge(&mut self, r: &mut Rng) {
        self.plan.flavor = "huge".into();
        let kind = if r.pct(75) { Kind::Pf } else { Kind::Pp };
        let p = r.range(if kind == Kind::Pf { 12 } else { 7 }, 16) as u8;
        for _ in 0..2 {
            self.slot(kind, p, Vt::U64);
        }
        let total = if kind == Kind::Pp {
            r.log(20_000_000, 80_000_000 * self.big)
        } else {
            // Nothing is promised beyond 2^30 values.
            if r.pct(25) { r.range(130_000_000, 600_000_000) } else { r.range(600_000_000, 1_073_000_000) }
        };
        let parts = r.range(3, 8);
        for i in 0..parts {
            self.t += r.log(1, 10_000);
            let n = total / parts;
            let c = Chunk { dist: Dist::Uniform, kind, p, seed: self.universe, start: (i + 1) << 40, n, list: None, times: 0 };
            let ch = self.chunk(c);
            let s = r.below(2) as u8;
            self.ev(s, Op::Insert { s, ch, entry: r.below(5) as u8 });
            self.ev(s, Op::Count { s });
            let few = Chunk { dist: Dist::Uniform, kind, p, seed: self.universe, start: r.below(3) * 500, n: 1000, list: None, times: 0 };
            let ch = self.chunk(few);
            self.ev(s, Op::Insert { s, ch, entry: 0 });
            match r.below(4) {
                0 => {
                    self.ev(s, Op::Merge { d: 1 - s, s });
                }
                1 => {
                    let (fmt, fault) = (pick_fmt(r), pick_io_noise(r));
                    self.ev(s, Op::Save { s, f: 0, fmt, fault, in_place: false });
                    self.ev(s, Op::Crash { s });
                    self.ev(s, Op::Load { s, f: 0, fault: IoFault::default() });
                }
                _ => {}
            }
            self.ev(0, Op::Count { s: 0 });
        }
        self.ev(1, Op::Merge { d: 1, s: 0 });
        self.ev(1, Op::Count { s: 1 });
    }

    /// C08: long lives with much repetition.
    fn long(&mut self, r: &mut Rng) {
        self.plan.flavor = "long".into();
        let kind = if r.pct(85) { Kind::Pp } else { Kind::Pf };
        let p = pick_p(r, kind).min(14);
        let n = r.range(2, 3) as u8;
        let mixed = r.pct(30);
        for _ in 0..n {
            let vt = pick_vt(r, mixed);
            self.slot(kind, p, vt);
        }
        let tr = transition(p);
        let counts = r.pick(&[0u64, 1, 10]);
        // Some runs keep every sketch in compact form.
        let small = r.pct(50);
        for i in 0..n {
            let k = if small { tr / 3 + 1 } else { r.range(tr / 2, 3 * tr) };
            let uni = small || r.pct(50);
            let ch = self.any_chunk(r, kind, p, k, uni);
            self.ev(i, Op::Insert { s: i, ch, entry: 0 });
        }
        let mut msg = 0;
        let mut budget = 400_000u64 * self.big;
        for _ in 0..r.range(50, 400) {
            self.t += 10;
            let s = r.below(n as u64) as u8;
            let d = (s + r.range(1, n as u64 - 1) as u8) % n;
            match r.below(20 + counts) {
                0..=8 => {
                    let ch = if small || r.pct(60) {
                        r.pick(&self.pool.clone())
                    } else {
                        let k = pick_n(r, kind, p, 20_000);
                        self.any_chunk(r, kind, p, k, false)
                    };
                    let len = self.plan.chunks[ch as usize].len();
                    if len > budget {
                        continue;
                    }
                    budget -= len;
                    self.ev(s, Op::Insert { s, ch, entry: 0 });
                }
                9..=14 => {
                    self.ev(s, Op::Merge { d, s });
                }
                15 => {
                    self.ev(s, Op::Clone { d, s });
                }
                16 => {
                    let (fmt, f) = (pick_fmt(r), s as u32);
                    self.ev(s, Op::Save { s, f, fmt, fault: IoFault::default(), in_place: false });
                    self.ev(s, Op::Load { s: d, f, fault: IoFault::default() });
                }
                17 | 18 => {
                    msg += 1;
                    let via = pick_via(r);
                    self.ev(s, Op::Send { s, msg, via });
                    for _ in 0..r.range(1, 4) {
                        self.ev(d, Op::Recv { d, msg });
                    }
                }
                19 => {
                    let ch = self.one(r);
                    self.ev(s, Op::InsertFail { s, ch, entry: 0, stage: r.below(3) as u8, skip: 0 });
                }
                _ => {
                    self.ev(s, Op::Count { s });
                }
            }
        }
    }

    /// One sketch collecting many short-lived small ones, seldom looked at.
    fn hub(&mut self, r: &mut Rng) {
        self.plan.flavor = "hub".into();
        let kind = if r.pct(85) { Kind::Pp } else { Kind::Pf };
        let p = r.pick(&[4u8, 5, 6, 7, 8, 9, 10, 10, 11, 12, 13]);
        let mixed = r.pct(20) && self.plan.prop != "C09";
        for _ in 0..3 {
            let vt = if self.plan.prop == "C09" { Vt::U64 } else { pick_vt(r, mixed) };
            self.slot(kind, p, vt);
        }
        let tr = transition(p);
        let flush = (4 * (1u64 << p) / 5 / 100).max(1);
        let size = match r.below(5) {
            0 => flush,
            1 => (tr / 10).max(1),
            2 => (tr / 2).max(1),
            3 => 2 * tr,
            _ => r.range(1, tr),
        };
        // The hub starts empty, small, or large.
        let k = r.pick(&[0, 0, 1, size, 2 * tr]);
        if k > 0 {
            let ch = self.overlap(r, kind, p, k);
            self.ev(0, Op::Insert { s: 0, ch, entry: 0 });
        }
        let long = self.plan.prop == "C08";
        // Very many sources: whatever a merge leaves behind adds up.
        let many = long && p <= 6 && r.pct(40);
        let target = (r.range(1, if long { 60 } else { 14 }) << p).max(if long { 4000 } else { 0 }).min(if long { 130_000 } else { 60_000 } * self.big);
        let target = if many { 200_000 } else { target };
        let looks = r.pick(&[0u64, 0, 0, 2, 20]);
        let again = r.pick(&[0u64, 10, 50]);
        let mut msg = 0;
        let mut held = 0;
        let mut n = 0;
        while held < target && n < if many { 6000 } else if long { 1500 } else { 150 } {
            n += 1;
            self.t += r.log(1, 1000);
            let s = 1 + r.below(2) as u8;
            self.ev(s, Op::Crash { s });
            let k = (size / 2 + r.below(size + 1)).max(1);
            let ch = if r.below(100) < again && !self.plan.chunks.is_empty() {
                r.below(self.plan.chunks.len() as u64) as u32
            } else {
                held += k;
                let start = self.plan.chunks.len() as u64 * 10_000_000;
                let c = Chunk { dist: Dist::Uniform, kind, p, seed: self.universe, start, n: k, list: None, times: 0 };
                self.chunk(c)
            };
            let entry = r.below(5) as u8;
            self.ev(s, Op::Insert { s, ch, entry });
            if r.pct(30) {
                self.ev(s, Op::Count { s });
            }
            if r.pct(60) {
                self.ev(0, Op::Merge { d: 0, s });
            } else {
                msg += 1;
                let via = pick_via(r);
                self.ev(s, Op::Send { s, msg, via });
                self.ev(0, Op::Recv { d: 0, msg });
            }
            if r.below(100) < looks {
                self.ev(0, Op::Count { s: 0 });
            }
            if r.pct(3) && !many {
                // The hub is handed on.
                self.ev(s, Op::Merge { d: s, s: 0 });
                self.ev(s, Op::Clone { d: 0, s });
            }
        }
        self.ev(0, Op::Count { s: 0 });
        if self.plan.prop != "C07" {
            self.ev(0, Op::Check { s: 0 });
        }
        let ch = self.one(r);
        self.ev(0, Op::Insert { s: 0, ch, entry: 0 });
        self.ev(0, Op::Count { s: 0 });
    }

    /// C08: very many cheap calls of every kind on small sketches.
    fn marathon(&mut self, r: &mut Rng) {
        self.plan.flavor = "marathon".into();
        let kind = if r.pct(70) { Kind::Pp } else { Kind::Pf };
        let p = r.pick(&[4u8, 4, 5, 6, 7, 9]);
        let mixed = r.pct(30);
        for i in 0..3 {
            let vt = pick_vt(r, mixed);
            self.slot(kind, if i == 2 && r.pct(70) { p + 1 } else { p }, vt);
        }
        let tr = transition(p);
        for _ in 0..r.range(1, 4) {
            let top = if r.pct(50) { tr / 3 + 2 } else { 3 * tr };
            let k = r.range(1, top);
            self.any_chunk(r, kind, p, k, true);
        }
        for _ in 0..4 {
            let c = self.one(r);
            self.pool.push(c);
        }
        for s in 0..3 {
            if r.pct(85) {
                let ch = r.pick(&self.pool.clone());
                self.ev(s, Op::Insert { s, ch, entry: 0 });
            }
        }
        // Swarm: most runs favour a few kinds of calls.
        let mut w: Vec<u64> = (0..9).map(|_| if r.pct(50) { r.range(1, 10) } else { 0 }).collect();
        if r.pct(85) {
            w[0] += 2;
        }
        let sum: u64 = w.iter().sum::<u64>().max(1);
        let mut msg = 0;
        let calls = if r.pct(15) { 20_000 } else { r.range(2500, 5000) };
        for _ in 0..calls {
            self.t += 10;
            let s = r.below(3) as u8;
            let d = (s + r.range(1, 2) as u8) % 3;
            let mut x = r.below(sum);
            let mut what = 0;
            while what < 8 && x >= w[what] {
                x -= w[what];
                what += 1;
            }
            match what {
                0 => {
                    let ch = r.pick(&self.pool.clone());
                    let entry = r.below(5) as u8;
                    self.ev(s, Op::Insert { s, ch, entry });
                }
                1 => {
                    self.ev(s, Op::Count { s });
                }
                // Refused when the precisions differ.
                2 => {
                    self.ev(s, Op::Merge { d, s });
                }
                3 => {
                    self.ev(s, Op::Merge { d: s / 2, s: 1 - s / 2 });
                }
                4 => {
                    self.ev(s, Op::Clone { d: s / 2, s: 1 - s / 2 });
                }
                5 => {
                    let fault = if r.pct(50) { pick_io_failure(r, 1 << p) } else { pick_io_noise(r) };
                    let fmt = pick_fmt(r);
                    self.ev(s, Op::Save { s, f: s as u32, fmt, fault, in_place: false });
                }
                6 => {
                    let fault = if r.pct(30) { pick_io_failure(r, 1 << p) } else { IoFault::default() };
                    self.ev(s, Op::Load { s, f: s as u32, fault });
                }
                7 => {
                    let ch = self.pool[self.pool.len() - 1 - r.below(4) as usize];
                    self.ev(s, Op::InsertFail { s, ch, entry: 0, stage: r.below(3) as u8, skip: 0 });
                }
                _ => {
                    msg += 1;
                    let via = pick_via(r);
                    self.ev(s, Op::Send { s, msg, via });
                    self.ev(d, Op::Recv { d, msg });
                }
            }
        }
    }

    /// C08: one kind of call, made tens of thousands of times on end.
    fn grind(&mut self, r: &mut Rng) {
        self.plan.flavor = "grind".into();
        let kind = if r.pct(60) { Kind::Pp } else { Kind::Pf };
        let p = r.pick(&[4u8, 4, 4, 5, 6, 8, 10]);
        for i in 0..3 {
            let vt = pick_vt(r, false);
            self.slot(kind, if i == 2 { p + 1 } else { p }, vt);
        }
        let tr = transition(p);
        for s in 0..3 {
            let k = if r.pct(60) { r.log(1, tr / 2 + 1) } else { r.log(1, 3 * tr) };
            let ch = self.any_chunk(r, kind, p, k, true);
            self.ev(s, Op::Insert { s, ch, entry: 0 });
            if r.pct(60) {
                self.ev(s, Op::Count { s });
            }
        }
        let what = r.below(11);
        let fmt = pick_fmt(r);
        let chs: Vec<u32> = (0..3).map(|_| self.one(r)).collect();
        self.ev(0, Op::Save { s: 0, f: 0, fmt, fault: IoFault::default(), in_place: false });
        let via = pick_via(r);
        self.ev(1, Op::Send { s: 1, msg: 1, via });
        let long = r.pct(60);
        let n = match what {
            1 | 2 | 8 if p > 6 => 3000,
            1 | 2 | 8 => 9000,
            _ if long => r.range(17_000, 40_000),
            _ => r.range(2000, 10_000),
        };
        let rare = r.pick(&[0u64, 0, 1, 200]);
        for i in 0..n {
            self.t += 10;
            let s = 0;
            match what {
                0 => {
                    self.ev(s, Op::Merge { d: 0, s: 2 });
                }
                1 => {
                    self.ev(s, Op::Save { s, f: 0, fmt, fault: IoFault::default(), in_place: false });
                    self.ev(s, Op::Load { s, f: 0, fault: IoFault::default() });
                }
                2 => {
                    let fault = pick_io_failure(r, 1 << p);
                    self.ev(s, Op::Save { s, f: 0, fmt, fault, in_place: false });
                }
                3 => {
                    let ch = r.pick(&chs);
                    self.ev(s, Op::InsertFail { s, ch, entry: 0, stage: r.below(3) as u8, skip: 0 });
                }
                4 => {
                    self.ev(s, Op::Clone { d: (i & 1) as u8, s: (i & 1) as u8 ^ 1 });
                }
                5 => {
                    self.ev(s, Op::Merge { d: 0, s: 1 });
                }
                6 => {
                    self.ev(s, Op::Recv { d: 0, msg: 1 });
                }
                7 => {
                    self.ev(s, Op::Count { s });
                }
                8 => {
                    self.ev(s, Op::Load { s, f: 0, fault: IoFault::default() });
                }
                9 => {
                    let ch = r.pick(&chs);
                    self.ev(s, Op::Insert { s, ch, entry: r.below(5) as u8 });
                }
                _ => {
                    self.ev(s, Op::Insert { s, ch: chs[0], entry: 0 });
                    self.ev(s, Op::Count { s });
                }
            }
            if r.below(2000) < rare {
                self.ev(s, Op::Count { s });
            }
        }
    }

    /// C05: hundreds of clones of one sketch alive at once.
    fn crowd(&mut self, r: &mut Rng) {
        self.plan.flavor = "crowd".into();
        let kind = pick_kind(r);
        let p = pick_p(r, kind).min(9);
        let mixed = r.pct(20);
        let vt = pick_vt(r, mixed);
        for _ in 0..3 {
            self.slot(kind, p, vt);
        }
        for s in 0..2 {
            let n = pick_n(r, kind, p, 3000);
            let plain = r.pct(70);
            let ch = self.any_chunk(r, kind, p, n, plain);
            self.ev(s, Op::Insert { s, ch, entry: 0 });
            if r.pct(60) {
                self.ev(s, Op::Count { s });
            }
        }
        for _ in 0..r.range(1, 2) {
            let crowds = r.range(1, 3);
            let n = r.pick(&[126u16, 127, 254, 255, 256, 257, 300, 520]);
            for _ in 0..crowds {
                self.t += 1;
                let s = r.below(3) as u8;
                self.ev(s, Op::Crowd { s, n: n + r.below(4) as u16 });
                for _ in 0..r.range(1, 4) {
                    let s = if r.pct(70) { s } else { r.below(3) as u8 };
                    match r.below(5) {
                        0 | 1 => {
                            let n = pick_n(r, kind, p, 2000);
                            let plain = r.pct(70);
            let ch = self.any_chunk(r, kind, p, n, plain);
                            self.ev(s, Op::Insert { s, ch, entry: r.below(5) as u8 });
                        }
                        2 => {
                            self.ev(s, Op::Count { s });
                        }
                        3 => {
                            self.ev(s, Op::Merge { d: s, s: (s + 1) % 3 });
                        }
                        _ => {
                            self.ev(s, Op::Clone { d: (s + 1) % 3, s });
                        }
                    }
                }
            }
            let ch = self.one(r);
            self.ev(0, Op::Disperse { ch });
            for s in 0..3 {
                self.ev(s, Op::Count { s });
            }
        }
    }

    /// C06, C11: more inserts than 32 bits can count.
    fn soak(&mut self, r: &mut Rng, pf: bool) {
        self.plan.flavor = "soak".into();
        let kind = if pf { Kind::Pf } else { Kind::Pp };
        let p = r.range(4, 8) as u8;
        let s = self.slot(kind, p, Vt::U64);
        for n in [3, 4u64 << p] {
            let ch = self.any_chunk(r, kind, p, n, true);
            self.ev(0, Op::Insert { s, ch, entry: 0 });
            self.ev(0, Op::Count { s });
        }
        let mut c = Chunk::list((0..1 << 12).map(|_| r.next()).collect());
        c.times = (1 << 20) + r.below(64);
        let ch = self.chunk(c);
        self.ev(0, Op::Insert { s, ch, entry: 0 });
        self.ev(0, Op::Count { s });
        for _ in 0..3 {
            let n = r.log(1, 16 << p);
            let ch = self.any_chunk(r, kind, p, n, true);
            self.ev(0, Op::Insert { s, ch, entry: 0 });
            self.ev(0, Op::Count { s });
        }
        self.ev(0, Op::Check { s });
    }

    /// Memory runs out in one of the calls.
    fn short_of_memory(&mut self, r: &mut Rng) {
        self.plan.flavor = "short-of-memory".into();
        let calls: Vec<u32> = (0..self.plan.events.len() as u32)
            .filter(|i| !matches!(self.plan.events[*i as usize].op, Op::Check { .. } | Op::Barrier | Op::Crash { .. }))
            .collect();
        if calls.is_empty() {
            return;
        }
        for _ in 0..r.range(2, 6) {
            let ev = r.pick(&calls);
            let skip = if r.pct(70) { r.below(4) } else { r.log(1, 60) } as u32;
            let min = if r.pct(50) { 0 } else { r.log(1, 100_000) };
            let times = if r.pct(60) { 1 } else { r.log(2, 1000) as u32 };
            self.plan.alloc.push(AllocFault { ev, skip, min, times });
        }
    }

    /// C11: the worst hash values one can think of, looked at all the time.
    fn hostile(&mut self, r: &mut Rng) {
        self.plan.flavor = "hostile".into();
        let kind = pick_kind(r);
        let p = if r.pct(15) { r.range(4, max_p(kind) as u64) as u8 } else { pick_p(r, kind).min(13) };
        for _ in 0..2 {
            self.slot(kind, p, Vt::U64);
        }
        self.ev(0, Op::Count { s: 0 });
        let m = 1u64 << p;
        for _ in 0..r.range(2, 14) {
            self.t += 1;
            let s = r.below(2) as u8;
            let d = r.pick(&[
                Dist::MaxRank, Dist::Cluster, Dist::Flagged, Dist::Dense, Dist::Wide,
                Dist::Bits, Dist::Boost, Dist::Boost, Dist::Uniform, Dist::Echo,
            ]);
            let mut n = pick_n(r, kind, p, 200_000 * self.big);
            if d == Dist::Boost && r.pct(50) {
                n = m;
            }
            if d == Dist::MaxRank && r.pct(40) {
                n = (10 * m).min(1 << 20);
            }
            let c = pick_chunk(r, kind, p, d, n);
            let ch = self.chunk(c);
            self.ev(0, Op::Insert { s, ch, entry: r.below(5) as u8 });
            self.ev(0, Op::Count { s });
            match r.below(6) {
                0 => {
                    self.ev(0, Op::Merge { d: 1 - s, s });
                    self.ev(0, Op::Count { s: 1 - s });
                }
                1 => {
                    let (fmt, fault) = (pick_fmt(r), pick_io_noise(r));
                    self.ev(0, Op::Save { s, f: 0, fmt, fault, in_place: false });
                    self.ev(0, Op::Load { s: 1 - s, f: 0, fault: IoFault::default() });
                    self.ev(0, Op::Count { s: 1 - s });
                }
                2 => {
                    self.ev(0, Op::Clone { d: 1 - s, s });
                }
                _ => {}
            }
        }
        self.ev(0, Op::Check { s: 0 });
        self.ev(0, Op::Check { s: 1 });
    }
}
