//! A plan is one complete simulated execution: values, operations, faults,
//! messages and the thread schedule. Running it involves no further choice.
use crate::disk::IoFault;
use crate::dut::{Fmt, Kind, Spec, Vt};
use crate::rng::{mix2, Rng};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Dist {
    Uniform,
    /// Random index bits, nothing but zeros below: the largest rank.
    MaxRank,
    /// Few registers, many different remainders.
    Cluster,
    /// Zero bits between the two precisions: rank-carrying compact codes.
    Flagged,
    /// Neighbouring 25-bit prefixes: one-byte differences.
    Dense,
    /// Far-apart prefixes: five-byte differences.
    Wide,
    /// All zeros, all ones, single bits and their complements.
    Bits,
    /// One value per register in turn with the ranks of 2^start values each.
    Boost,
    /// Each hash resembles the one before it: the same upper half, the same
    /// low bits, halves swapped, one bit flipped.
    Echo,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Chunk {
    pub dist: Dist,
    pub kind: Kind,
    pub p: u8,
    pub seed: u64,
    pub start: u64,
    pub n: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub list: Option<Vec<u64>>,
    /// The list is inserted so many times over (0: once).
    #[serde(default)]
    pub times: u64,
}

/// Memory runs out in the library call made by event `ev`: after `skip`
/// allocations of at least `min` bytes the next `times` of them fail.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct AllocFault {
    pub ev: u32,
    pub skip: u32,
    pub min: u64,
    pub times: u32,
}

impl Chunk {
    pub fn list(v: Vec<u64>) -> Chunk {
        Chunk { dist: Dist::Uniform, kind: Kind::Pp, p: 4, seed: 0, start: 0, n: 0, list: Some(v), times: 0 }
    }
    pub fn len(&self) -> u64 {
        self.list.as_ref().map_or(self.n, |l| l.len() as u64)
    }
    pub fn values(&self) -> Vec<u64> {
        match &self.list {
            Some(l) => l.clone(),
            None => (0..self.n).map(|i| self.value(self.start + i)).collect(),
        }
    }

    // `width` bits: register index, rank r, then random bits.
    fn build(p: u32, width: u32, idx: u64, r: u32, rnd: u64) -> u64 {
        let rest_w = width - p;
        let rest = if r > rest_w {
            0
        } else {
            let below = rest_w - r;
            (1u64 << below) | (rnd & ((1u64 << below) - 1))
        };
        (idx & ((1 << p) - 1)) << rest_w | rest
    }

    pub fn value(&self, i: u64) -> u64 {
        let (a, b) = (mix2(self.seed, i), mix2(self.seed ^ 0x5555, i));
        let p = self.p as u32;
        // What the algorithm looks at: 32 or 64 bits.
        let w = if self.kind == Kind::Pf { 32 } else { 64 };
        let v = match self.dist {
            Dist::Uniform => return a,
            Dist::MaxRank => Self::build(p, w, a >> 40, w, 0),
            Dist::Cluster => {
                let few = mix2(self.seed, a % 3);
                Self::build(p, w, few, 1 + b.leading_zeros(), a)
            }
            Dist::Flagged if w == 64 => {
                let rank = match b & 7 {
                    0 => 40,
                    1 => 39,
                    _ => 1 + (b >> 8).trailing_zeros().min(38),
                };
                Self::build(p, w, a, (25 - p) + rank, b)
            }
            Dist::Flagged => Self::build(p, w, a, w - p - (b % 3) as u32, b),
            Dist::Dense => {
                let step = if w == 64 { 39 } else { 8 };
                (self.seed & 0xff).wrapping_add(i) << step | (a & ((1 << step) - 1))
            }
            Dist::Wide => (i.wrapping_mul(0x9) & 31) << (w - 5) | (a & 1),
            Dist::Bits => {
                let k = (i % (2 * w as u64 + 2)) as u32;
                match k {
                    0 => 0,
                    1 => !0,
                    _ if k % 2 == 0 => 1u64 << (k / 2 - 1),
                    _ => !(1u64 << (k / 2 - 1)),
                }
            }
            Dist::Echo => {
                let (g, e) = (mix2(self.seed ^ 0xEC40, i / 4), i % 4);
                let idx = g & !(!0 >> (p + 64 - w)) >> (64 - w);
                let k = (b % (w - p) as u64) as u32;
                match (g >> 8) % 5 {
                    // One register, ranks in any order.
                    0 => idx | 1 << k,
                    1 => idx | 1 << (k & !7),
                    // One bit after another.
                    2 => mix2(self.seed, i / 4) ^ (1 << (b % 64) as u32) * (e > 0) as u64,
                    3 => g.rotate_left(32 * (e & 1) as u32) >> (e >> 1),
                    _ => (g & 0xffff_ffff_0000_00ff) | a & 0xffff_ff00,
                }
            }
            Dist::Boost => {
                let j = i - self.start;
                let idx = j.wrapping_mul(0x9E37_79B1 | 1).wrapping_add(self.seed);
                let boost = (self.start & 63) as u32;
                // Largest of about 2^boost geometric ranks.
                let e = b.leading_zeros();
                let o = (a >> 7) & 1;
                let r = (boost + e + 1).saturating_sub(o as u32).max(1);
                Self::build(p, w, idx, r.min(w - p + 1), a)
            }
        };
        if self.dist == Dist::Echo {
            return v;
        }
        if w == 32 {
            (v & 0xffff_ffff) | (a << 32)
        } else {
            v
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Via {
    Clone,
    Wire(Fmt),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Insert { s: u8, ch: u32, entry: u8 },
    /// One value; the caller's hashing code panics at this stage.
    InsertFail { s: u8, ch: u32, entry: u8, stage: u8, skip: u8 },
    /// Values during the first of which event `inner` runs, from inside the
    /// hashing code.
    InsertNested { s: u8, ch: u32, entry: u8, inner: u32 },
    Count { s: u8 },
    Merge { d: u8, s: u8 },
    Clone { d: u8, s: u8 },
    /// The process holding the sketch dies; a new empty one takes its place.
    Crash { s: u8 },
    Send { s: u8, msg: u32, via: Via },
    Recv { d: u8, msg: u32 },
    Save { s: u8, f: u32, fmt: Fmt, fault: IoFault, in_place: bool },
    Load { s: u8, f: u32, fault: IoFault },
    /// Tries to load only the first cut/65536 of a file.
    LoadTorn { f: u32, cut: u16 },
    Check { s: u8 },
    /// Makes `n` clones and keeps them.
    Crowd { s: u8, n: u16 },
    /// All clones kept must be as they were made; one of them is changed,
    /// and the others looked at again, before they all go.
    Disperse { ch: u32 },
    /// Records the estimate of a copy of every sketch.
    Barrier,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Event {
    /// Simulated milliseconds.
    pub t: u64,
    /// Thread running it under the thread scheduler; 255: only nested.
    pub a: u8,
    pub op: Op,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub flavor: String,
    /// Key of the caller's hasher and seed of the process's random bytes.
    pub key: u64,
    pub os: u64,
    pub slots: Vec<Spec>,
    pub chunks: Vec<Chunk>,
    pub events: Vec<Event>,
    /// Empty: linear, in the order of `events`.
    #[serde(default)]
    pub sched: Vec<(u32, u8)>,
    /// Stepped build: after so many branches and memory accesses of the
    /// library switch to this actor.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub steps: Vec<(u32, u8)>,
    /// The same, counting its accesses to static memory.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub shared: Vec<(u32, u8)>,
    /// The same, counting its accesses to places of the heap that several
    /// actors have accessed.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub heap: Vec<(u32, u8)>,
    #[serde(default)]
    pub threaded: bool,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub alloc: Vec<AllocFault>,
    /// What the generator's network and node faults did.
    #[serde(default)]
    pub stats: BTreeMap<String, u64>,
}

impl Plan {
    pub fn actors(&self) -> usize {
        self.events.iter().filter(|e| e.a != 255).map(|e| e.a as usize + 1).max().unwrap_or(1)
    }
    pub fn sim_ms(&self) -> u64 {
        self.events.last().map_or(0, |e| e.t)
    }
    pub fn stat(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_default() += 1;
    }
}

// ------------------------------------------------------------- ingredients

pub fn max_p(kind: Kind) -> u8 {
    if kind == Kind::Pf { 16 } else { 18 }
}

/// Mostly small precisions, whose thresholds are crossed cheaply.
pub fn pick_p(r: &mut Rng, kind: Kind) -> u8 {
    let p = match r.below(20) {
        0..=3 => 4 + r.below(2),
        4..=13 => r.range(5, 10),
        14..=17 => r.range(9, 13),
        18 => r.range(12, 15),
        _ => r.range(13, 18),
    } as u8;
    p.min(max_p(kind))
}

pub fn pick_kind(r: &mut Rng) -> Kind {
    if r.pct(72) { Kind::Pp } else { Kind::Pf }
}

/// How many values take a HyperLogLog++ sketch to its register form.
pub fn transition(p: u8) -> u64 {
    let limit = 4 * (1u64 << p) / 5;
    // Bytes per difference of n codes spread over 2^26.
    let mut n = limit / 5;
    for bytes in [4u64, 3, 2, 1] {
        let k = limit / bytes;
        if (1u64 << 26) / k.max(1) < 1 << (7 * bytes) {
            n = k;
        }
    }
    n.max(2)
}

/// A number of values aimed at one of the thresholds of this sketch.
pub fn pick_n(r: &mut Rng, kind: Kind, p: u8, cap: u64) -> u64 {
    let m = 1u64 << p;
    let flush = 4 * m / 5 / 100 + 1;
    let tr = transition(p);
    let near = |r: &mut Rng, x: u64| {
        let d = 1 + x / 20;
        (x + r.below(2 * d + 1)).saturating_sub(d)
    };
    let n = match r.below(16) {
        0 => r.below(3),
        1..=3 => r.range(1, 12),
        4 | 5 => near(r, flush),
        6 => near(r, flush) * r.range(1, 5),
        7 | 8 => near(r, tr),
        9 | 10 => near(r, tr) * r.range(1, 9) / 10,
        11 => r.range(m / 2, 2 * m),
        12 => {
            let x = 5 * m / 2;
            near(r, x)
        }
        13 => r.range(2 * m, 6 * m),
        _ => r.log(1, 8 * m),
    };
    let _ = kind;
    n.min(cap)
}

pub fn pick_dist(r: &mut Rng) -> Dist {
    r.pick(&[
        Dist::Uniform, Dist::Uniform, Dist::Uniform, Dist::Uniform, Dist::Uniform,
        Dist::Uniform, Dist::Uniform, Dist::Uniform,
        Dist::MaxRank, Dist::Cluster, Dist::Flagged, Dist::Flagged, Dist::Dense,
        Dist::Wide, Dist::Bits, Dist::Boost, Dist::Echo, Dist::Echo,
    ])
}

pub fn pick_chunk(r: &mut Rng, kind: Kind, p: u8, dist: Dist, n: u64) -> Chunk {
    let start = match dist {
        Dist::Boost => r.below(28),
        _ => 0,
    };
    let n = match dist {
        Dist::Wide => n.min(32),
        Dist::Bits => n.min(130),
        _ => n,
    };
    Chunk { dist, kind, p, seed: r.next(), start, n, list: None, times: 0 }
}

pub fn pick_fmt(r: &mut Rng) -> Fmt {
    match r.below(10) {
        0..=3 => Fmt::Json,
        4..=6 => Fmt::Bin,
        7 => Fmt::Mem,
        8 => Fmt::Tree,
        _ => Fmt::BinMem,
    }
}

pub fn pick_via(r: &mut Rng) -> Via {
    match r.below(4) {
        0 | 1 => Via::Wire(pick_fmt(r)),
        _ => Via::Clone,
    }
}

pub fn pick_vt(r: &mut Rng, mixed: bool) -> Vt {
    if !mixed {
        return Vt::U64;
    }
    r.pick(&[Vt::U64, Vt::Text, Vt::Sip])
}

/// Disturbances a correct writer or reader absorbs.
pub fn pick_io_noise(r: &mut Rng) -> IoFault {
    IoFault {
        seed: r.next(),
        short: if r.pct(50) { r.log(1, 64) as u16 } else { 0 },
        eintr: if r.pct(40) { r.range(1, 60) as u8 } else { 0 },
        ..Default::default()
    }
}

/// `len`: a guess at the stream's size, to place the failure inside it.
pub fn pick_io_failure(r: &mut Rng, len: u64) -> IoFault {
    let mut f = pick_io_noise(r);
    if r.pct(10) {
        f.flush_fails = true;
    } else {
        f.fail_at = Some(match r.below(4) {
            0 => r.below(16),
            1 => r.log(1, len.max(2)),
            _ => r.below(len.max(2)),
        } as u32);
        f.how = r.below(3) as u8;
    }
    f
}

pub fn gen_sched(r: &mut Rng, actors: usize, points: u64) -> Vec<(u32, u8)> {
    let hi = r.pick(&[1u64, 2, 4, 12, 40, 200]);
    let n = (points / hi.max(1) + 4).min(600);
    (0..n).map(|_| (r.log(1, hi + 1) as u32 - 1, r.below(actors as u64) as u8)).collect()
}
