//! Reference model of the two published algorithms, written for clarity: a
//! byte per register and an ordered set of codes. It never looks at the
//! library's state; it is fed the hashes of the values a sketch holds.
use crate::dut::Kind;
use crate::tables;
use std::collections::BTreeSet;

#[derive(Clone)]
pub struct Model {
    pub kind: Kind,
    pub p: u8,
    regs: Vec<u8>,
    /// HyperLogLog++ compact form: None once it certainly outgrew its limit.
    codes: Option<BTreeSet<u32>>,
    pub empty: bool,
}

const PRIME: u32 = 25;

/// State class, for coverage counters only.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    Empty,
    Compact,
    Registers,
}

fn varint_len(v: u32) -> usize {
    match v {
        0..=0x7f => 1,
        0x80..=0x3fff => 2,
        0x4000..=0x1f_ffff => 3,
        0x20_0000..=0xfff_ffff => 4,
        _ => 5,
    }
}

impl Model {
    pub fn new(kind: Kind, p: u8) -> Self {
        let codes = if kind == Kind::Pp { Some(BTreeSet::new()) } else { None };
        Model { kind, p, regs: vec![0; 1 << p], codes, empty: true }
    }

    fn m(&self) -> usize {
        self.regs.len()
    }

    /// Bytes of the packed 6-bit register array.
    fn limit(&self) -> usize {
        4 * self.m() / 5
    }

    pub fn insert(&mut self, h: u64) {
        self.empty = false;
        let p = self.p as u32;
        let (idx, rank) = match self.kind {
            Kind::Pf => {
                let w = h as u32;
                let rest = w << p;
                // The rank of an all-zero remainder is its width plus one.
                ((w >> (32 - p)) as usize, rest.leading_zeros().min(32 - p) + 1)
            }
            Kind::Pp => {
                let rest = h << p;
                ((h >> (64 - p)) as usize, rest.leading_zeros().min(64 - p) + 1)
            }
        };
        if self.regs[idx] < rank as u8 {
            self.regs[idx] = rank as u8;
        }
        if let Some(codes) = &mut self.codes {
            let prefix = (h >> (64 - PRIME)) as u32;
            // Paper, EncodeHash: the rank is kept only if the bits between
            // the two precisions are all zero.
            let code = if prefix & ((1 << (PRIME - p)) - 1) == 0 {
                let rank = (h << PRIME).leading_zeros().min(64 - PRIME) + 1;
                prefix << 7 | rank << 1 | 1
            } else {
                prefix << 1
            };
            codes.insert(code);
            self.trim();
        }
    }

    /// Every code takes a byte or more.
    fn trim(&mut self) {
        let hi = self.hi();
        if let Some(c) = &self.codes {
            if c.len() > hi {
                self.codes = None;
            }
        }
    }

    // Between lo and hi bytes of compact form either form is accepted: the
    // exact byte at which the representation changes is not a promise.
    fn hi(&self) -> usize {
        self.limit() + self.limit() / 50 + 5
    }
    fn lo(&self) -> usize {
        let l = self.limit();
        l - (l / 50 + 5).min(l)
    }

    pub fn merge(&mut self, o: &Model) {
        assert!(self.kind == o.kind && self.p == o.p);
        self.empty &= o.empty;
        for (a, b) in self.regs.iter_mut().zip(&o.regs) {
            *a = (*a).max(*b);
        }
        match (&mut self.codes, &o.codes) {
            (Some(a), Some(b)) => a.extend(b),
            _ => self.codes = None,
        }
        self.trim();
    }

    fn encoded_len(codes: &BTreeSet<u32>) -> usize {
        let (mut last, mut n) = (0, 0);
        for c in codes {
            n += varint_len(c - last);
            last = *c;
        }
        n
    }

    pub fn class(&self) -> Class {
        if self.empty {
            Class::Empty
        } else if let Some(c) = &self.codes {
            if Self::encoded_len(c) > self.limit() {
                Class::Registers
            } else {
                Class::Compact
            }
        } else {
            Class::Registers
        }
    }

    /// (registers at zero, largest rank)
    #[allow(dead_code)]
    pub fn shape(&self) -> (usize, u8) {
        (
            self.regs.iter().filter(|r| **r == 0).count(),
            self.regs.iter().copied().max().unwrap_or(0),
        )
    }

    pub fn alpha(m: f64) -> f64 {
        match m as u64 {
            16 => 0.673,
            32 => 0.697,
            64 => 0.709,
            _ => 0.7213 / (1.0 + 1.079 / m),
        }
    }

    pub fn linear(m: f64, zeros: f64) -> f64 {
        m * (m / zeros).ln()
    }

    pub fn threshold(p: u8) -> f64 {
        [
            10., 10., 40., 80., 220., 400., 900., 1800., 3100., 6500., 11500.,
            20000., 50000., 120000., 350000.,
        ][p as usize - 4]
    }

    /// The estimates the algorithm admits for the state, as closed intervals
    /// (one, unless the state sits on a decision boundary), and the name of
    /// the first branch for coverage.
    pub fn estimates(&self) -> (Vec<(f64, f64)>, &'static str) {
        let mut out = Vec::new();
        let mut name = "";
        let m = self.m() as f64;
        let mut zeros = 0u64;
        let mut sum = 0.0;
        for r in &self.regs {
            zeros += (*r == 0) as u64;
            sum += (-(*r as f64)).exp2();
        }
        let raw = Self::alpha(m) * m * m / sum;
        let zeros = zeros as f64;
        let le = |a: f64, b: f64| a <= b * (1.0 + 1e-9);
        let gt = |a: f64, b: f64| a > b * (1.0 - 1e-9);
        let mut add = |n: &'static str, v: f64| {
            if name.is_empty() {
                name = n;
            }
            out.push((v, v));
        };
        if self.kind == Kind::Pf {
            let two32 = 4294967296.0;
            if le(raw, 2.5 * m) && zeros != 0.0 {
                add("pf_linear", Self::linear(m, zeros));
            }
            if gt(raw, 2.5 * m) || zeros == 0.0 {
                if le(raw, two32 / 30.0) {
                    add("pf_raw", raw);
                }
                if gt(raw, two32 / 30.0) && raw < two32 * (1.0 - 1e-9) {
                    add("pf_large_range", -two32 * (1.0 - raw / two32).ln());
                }
                if raw >= two32 * (1.0 - 1e-9) {
                    // The published correction is undefined from here on;
                    // any finite estimate beyond the hash space is fine.
                    out.push((two32 * 0.999, f64::MAX));
                    name = "pf_saturated";
                }
            }
            return (out, name);
        }
        if let Some(codes) = &self.codes {
            let len = Self::encoded_len(codes);
            if len <= self.hi() {
                let big = (1u64 << PRIME) as f64;
                add("pp_compact", Self::linear(big, big - codes.len() as f64));
                // A prefix seen with several ranks is one prefix, or several
                // codes: both readings of the paper are admitted.
                let mut distinct = 0u64;
                let mut prefixes = BTreeSet::new();
                for c in codes {
                    let prefix = if c & 1 == 1 { c >> 7 } else { c >> 1 };
                    distinct += prefixes.insert(prefix) as u64;
                }
                if distinct != codes.len() as u64 {
                    add("", Self::linear(big, big - distinct as f64));
                }
            }
            if len < self.lo() {
                return (out, name);
            }
        }
        let t = Self::threshold(self.p);
        let lc = if zeros > 0.0 { Self::linear(m, zeros) } else { f64::INFINITY };
        if le(lc, t) {
            add("pp_linear", lc);
        }
        if gt(lc, t) {
            if gt(raw, 5.0 * m) {
                add("pp_raw", raw);
            }
            if le(raw, 5.0 * m) {
                for b in Self::biases(self.p, raw) {
                    add("pp_bias", raw - b);
                }
            }
        }
        (out, name)
    }

    // The interpolated bias, from every pair of neighbouring data points that
    // encloses the raw estimate (the published points are not all in order).
    fn biases(p: u8, raw: f64) -> Vec<f64> {
        let est = tables::RAW[p as usize - 4];
        let bias = tables::BIAS[p as usize - 4];
        let n = est.len();
        let mut out = Vec::new();
        let eps = raw * 1e-9;
        if raw <= est[0] + eps {
            out.push(bias[0]);
        }
        if raw >= est[n - 1] - eps {
            out.push(bias[n - 1]);
        }
        for i in 1..n {
            let (a, b) = (est[i - 1], est[i]);
            if a - eps <= raw && raw <= b + eps && b > a {
                out.push(bias[i - 1] + (raw - a) / (b - a) * (bias[i] - bias[i - 1]));
            }
        }
        out
    }

    pub fn admits(&self, got: f64) -> bool {
        self.estimates().0.iter().any(|(a, b)| {
            let tol = 1e-9 + 1e-9 * a.abs();
            got >= a - tol && got <= b + tol
        })
    }
}
