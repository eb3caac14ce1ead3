//! Runs one plan: the only code that calls the library.
use crate::disk::{SimReader, SimWriter};
use crate::dut::*;
use crate::model::{Class, Model};
use crate::plan::*;
use crate::rng::{mix2, Rng};
use crate::sched::{set_passes, Baton, LEFT};
use crate::seam::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};

/// How to run a plan and which oracles watch it.
#[derive(Clone, Default)]
pub struct Mode {
    pub linear: bool,
    pub skip: BTreeSet<u32>,
    /// Run exactly these events in this order (linear).
    pub order: Option<Vec<u32>>,
    /// Estimates are taken on copies.
    pub quiet: bool,
    /// Extra estimates at random points.
    pub extra: Option<u64>,
    pub os: Option<u64>,
    /// Deep signatures of these slots at the end (None: no slot).
    pub deep: Option<Vec<u8>>,
    pub twin: bool,
    pub model: bool,
    pub truth: bool,
    pub heap: bool,
    pub finite: bool,
    /// Compare restored sketches with the saved ones (C03).
    pub pair: bool,
    /// Run these builds in lockstep.
    pub builds: Vec<Build>,
}

#[derive(Clone, Default, Debug, Serialize, Deserialize, PartialEq)]
pub struct Out {
    /// (class, details, event)
    pub viol: Vec<(String, String, u32)>,
    /// Estimates by event (bits).
    pub log: BTreeMap<u32, u64>,
    /// Estimates at barriers, by event.
    pub barriers: BTreeMap<u32, Vec<u64>>,
    pub deep: BTreeMap<u8, Vec<u64>>,
    /// Events whose call failed as injected.
    pub failed: BTreeSet<u32>,
    pub order: Vec<u32>,
    pub counters: BTreeMap<String, u64>,
    pub trace: u64,
}

type Contents = BTreeSet<(u32, bool)>;

#[derive(Clone)]
struct State {
    contents: Contents,
    model: Option<Model>,
    distinct: HashSet<u64>,
}

struct Slot {
    dut: Box<dyn Dut>,
    others: Vec<Box<dyn Dut>>,
    pair: Option<Box<dyn Dut>>,
    st: State,
    heap: i64,
    saving: AtomicI64,
}

struct Parcel {
    spec: Spec,
    dut: Option<Box<dyn Dut>>,
    other_duts: Vec<Box<dyn Dut>>,
    fmt: Fmt,
    bytes: Vec<u8>,
    other_bytes: Vec<Vec<u8>>,
    pair: Option<Box<dyn Dut>>,
    st: State,
}

struct Probe {
    hashes: Vec<u64>,
    duts: Vec<(Build, Box<dyn Dut>)>,
    model: Model,
}

/// Chunks from this size on are generated while they are inserted.
pub const BULK: u64 = 1 << 22;

/// What an estimate for `n` distinct well-mixed values must lie in.
pub fn accuracy(kind: Kind, p: u8, n: f64) -> (f64, f64) {
    let m = (1u64 << p) as f64;
    let compact = if p < 15 { m / 10.0 } else { m / 3.0 };
    if kind == Kind::Pp && n <= compact {
        let tol = 6.0 * n / f64::powi(2.0, 13) + 4.0;
        return (n - tol, n + tol);
    }
    if p < 7 {
        // So few registers that the distribution is far from normal.
        return (n / 4.0 - 2.0, n * 8.0 + 2.0);
    }
    let mut tol = 8.0 * 1.04 / m.sqrt() * n + 2.0;
    if kind == Kind::Pf {
        tol += 0.04 * n;
    }
    // The published large range correction overestimates: registers are not
    // affected by colliding hashes of whole values as it supposes.
    let large = if kind == Kind::Pf && n > 1e8 { n * n / f64::powi(2.0, 32) } else { 0.0 };
    (n - tol, n + tol + large)
}

pub struct Exec {
    plan: Plan,
    mode: Mode,
    slots: Vec<RwLock<Slot>>,
    chunks: Mutex<HashMap<u32, Arc<Vec<u64>>>>,
    msgs: Mutex<BTreeMap<u32, Arc<Parcel>>>,
    files: Mutex<BTreeMap<u32, Arc<Parcel>>>,
    torn: Mutex<BTreeMap<u32, (Spec, Fmt, Vec<u8>)>>,
    crowd: Mutex<Vec<(Box<dyn Dut>, u64)>>,
    /// Heap bytes that dropped sketches left behind.
    left: AtomicI64,
    probes: Mutex<BTreeMap<(Kind, u8), Arc<Vec<Probe>>>>,
    out: Mutex<Out>,
    dead: AtomicBool,
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

/// Whether the last panic came from the library.
pub static FROM_LIBRARY: AtomicBool = AtomicBool::new(false);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<Injected>().is_some() {
            return;
        }
        FROM_LIBRARY.store(info.location().is_some_and(|l| l.file().starts_with("/repo/src/")), SeqCst);
        let loc = info.location().map_or(String::new(), |l| {
            format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())
        });
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = format!("{} at {}", msg, loc);
        }
    }));
}

fn last_panic() -> String {
    LAST_PANIC.lock().map(|m| m.clone()).unwrap_or_default()
}

fn within(tol: f64, a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a - b).abs() <= tol * a.abs().max(b.abs()) + tol
}

/// Between builds, which go through the registers in the same order, only the
/// logarithm's last digits may differ.
const BUILDS: f64 = 5e-11;

/// Whether two signatures (bits of f64) agree.
pub fn same(a: &[u64], b: &[u64]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| within(1e-9, f64::from_bits(*x), f64::from_bits(*y)))
}

fn same_builds(a: &[u64], b: &[u64]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| within(BUILDS, f64::from_bits(*x), f64::from_bits(*y)))
}

pub fn show(a: &[u64]) -> String {
    let v: Vec<String> = a.iter().map(|x| format!("{}", f64::from_bits(*x))).collect();
    format!("[{}]", v.join(", "))
}

fn ref_of(v: Vt, x: u64) -> u64 {
    if v == Vt::Sip { sip_of(x) } else { x }
}

enum CallErr {
    Injected,
    Panic(String),
}

/// One call into the library: heap accounted, panics sorted.
fn call<R>(f: impl FnOnce() -> R) -> Result<(R, Heap), CallErr> {
    match catch_unwind(AssertUnwindSafe(|| tracked(f))) {
        Ok(r) => Ok(r),
        Err(e) => {
            if e.downcast_ref::<Injected>().is_some() {
                Err(CallErr::Injected)
            } else {
                Err(CallErr::Panic(last_panic()))
            }
        }
    }
}

impl Exec {
    pub fn run(plan: &Plan, mode: &Mode) -> Out {
        set_os_randomness(mode.os.unwrap_or(plan.os));
        become_process(mode.os.unwrap_or(plan.os), mode.os.is_some());
        start_arena(mode.os.unwrap_or(plan.os));
        let (plan, mode) = (plan.clone(), mode.clone());
        // A fresh thread: its RandomState is seeded from the plan.
        let r = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || Self::run_in_thread(plan, mode))
            .unwrap()
            .join();
        match r {
            Ok(o) => o,
            Err(_) => {
                let m = last_panic();
                // Past the hook, which has seen this panic already.
                std::panic::resume_unwind(Box::new(format!("harness: {}", m)))
            }
        }
    }

    fn run_in_thread(plan: Plan, mode: Mode) -> Out {
        let mut out = Out::default();
        let mut slots = Vec::new();
        for spec in &plan.slots {
            match Self::new_slot(&plan, &mode, *spec) {
                Ok(s) => slots.push(RwLock::new(s)),
                Err(e) => {
                    out.viol.push(("creation".into(), format!("{:?}: {}", spec, e), 0));
                    return out;
                }
            }
        }
        let ex = Arc::new(Exec {
            plan,
            mode,
            slots,
            chunks: Mutex::default(),
            msgs: Mutex::default(),
            files: Mutex::default(),
            torn: Mutex::default(),
            crowd: Mutex::default(),
            left: AtomicI64::new(0),
            probes: Mutex::default(),
            out: Mutex::new(out),
            dead: AtomicBool::new(false),
        });
        let threaded = ex.plan.threaded && !ex.mode.linear && ex.mode.order.is_none();
        if threaded {
            let n = ex.plan.actors();
            let baton = Arc::new(Baton::new(n, &ex.plan));
            let hs: Vec<_> = (0..n)
                .map(|me| {
                    let (ex, b) = (ex.clone(), baton.clone());
                    std::thread::Builder::new()
                        .stack_size(4 << 20)
                        .spawn(move || {
                            b.wait_turn(me);
                            with_ctx(|c| c.baton = Some((b.clone(), me)));
                            set_passes(true);
                            act_as(me);
                            for i in 0..ex.plan.events.len() {
                                if ex.plan.events[i].a as usize == me {
                                    b.yield_point(me);
                                    ex.event(i as u32, Some(&(b.clone(), me)), false);
                                }
                            }
                            ex.gather();
                            set_passes(false);
                            b.finish(me);
                        })
                        .unwrap()
                })
                .collect();
            baton.start(ex.plan.slots.iter().any(|s| s.build == STEP));
            for h in hs {
                if h.join().is_err() {
                    let m = last_panic();
                    panic!("harness: actor: {}", m);
                }
            }
            let ((sw, points, trace), stepped) = baton.stats();
            LEFT.store(0, SeqCst);
            let mut o = ex.out.lock().unwrap();
            *o.counters.entry("thread_switches".into()).or_default() += sw;
            *o.counters.entry("schedule_points".into()).or_default() += points;
            for (k, v) in ["library_steps", "library_shared_accesses", "library_lock_waits", "forced_switches", "library_heap_shared_accesses"].iter().zip(stepped) {
                if v > 0 {
                    *o.counters.entry(k.to_string()).or_default() += v;
                }
            }
            o.trace = mix2(o.trace, trace);
        } else {
            let order: Vec<u32> = match &ex.mode.order {
                Some(o) => o.clone(),
                None => (0..ex.plan.events.len() as u32)
                    .filter(|i| ex.plan.events[*i as usize].a != 255)
                    .collect(),
            };
            for i in order {
                ex.event(i, None, false);
            }
        }
        ex.finish();
        ex.gather();
        let o = ex.out.lock().unwrap().clone();
        o
    }

    fn new_slot(plan: &Plan, mode: &Mode, spec: Spec) -> Result<Slot, String> {
        let (dut, heap) = match call(|| create(spec, plan.key)) {
            Ok((r, h)) => (r?, h.net),
            Err(CallErr::Panic(m)) => return Err(m),
            Err(CallErr::Injected) => unreachable!(),
        };
        let mut others = Vec::new();
        for b in &mode.builds {
            if !builds_kind(*b, spec.kind) {
                continue;
            }
            others.push(create(Spec { build: *b, ..spec }, plan.key)?);
        }
        let pair = if mode.pair { Some(dut.boxclone()) } else { None };
        Ok(Slot { dut, others, pair, st: Self::empty_state(mode, spec), heap, saving: AtomicI64::new(0) })
    }

    fn empty_state(mode: &Mode, spec: Spec) -> State {
        let _ = mode;
        State {
            contents: Contents::new(),
            model: Some(Model::new(spec.kind, spec.p)),
            distinct: HashSet::new(),
        }
    }

    fn gather(&self) {
        let fired = with_ctx(|c| std::mem::take(&mut c.fired));
        let mut o = self.out.lock().unwrap();
        for (k, v) in fired {
            *o.counters.entry(k.into()).or_default() += v;
        }
    }

    fn bump(&self, k: &str) {
        *self.out.lock().unwrap().counters.entry(k.into()).or_default() += 1;
    }

    fn violation(&self, class: &str, ev: u32, detail: String) {
        // A call without memory may fail, not succeed wrongly.
        if allocations_failed() > 0 && ["panic", "load-refused", "save-refused", "creation"].contains(&class) {
            self.bump("reported_lack_of_memory");
            self.dead.store(true, SeqCst);
            return;
        }
        let mut o = self.out.lock().unwrap();
        if o.viol.len() < 3 {
            o.viol.push((class.into(), detail, ev));
        }
        drop(o);
        self.dead.store(true, SeqCst);
    }

    fn values(&self, ch: u32) -> Arc<Vec<u64>> {
        let mut c = self.chunks.lock().unwrap();
        c.entry(ch)
            .or_insert_with(|| Arc::new(self.plan.chunks.get(ch as usize).map_or(vec![], |c| c.values())))
            .clone()
    }

    fn wlock(&self, s: u8, b: Option<&(Arc<Baton>, usize)>, nested: bool) -> Option<RwLockWriteGuard<'_, Slot>> {
        let l = self.slots.get(s as usize)?;
        loop {
            if let Ok(g) = l.try_write() {
                return Some(g);
            }
            match b {
                Some((b, me)) if !nested => b.block(*me),
                _ => return None,
            }
        }
    }

    fn rlock(&self, s: u8, b: Option<&(Arc<Baton>, usize)>, nested: bool) -> Option<RwLockReadGuard<'_, Slot>> {
        let l = self.slots.get(s as usize)?;
        loop {
            if let Ok(g) = l.try_read() {
                return Some(g);
            }
            match b {
                Some((b, me)) if !nested => b.block(*me),
                _ => return None,
            }
        }
    }

    /// In slot order, so that two merges never wait for each other.
    #[allow(clippy::type_complexity)]
    fn lock_pair(&self, d: u8, s: u8, b: Option<&(Arc<Baton>, usize)>, nested: bool)
        -> Option<(RwLockWriteGuard<'_, Slot>, RwLockReadGuard<'_, Slot>)> {
        if d < s {
            let x = self.wlock(d, b, nested)?;
            Some((x, self.rlock(s, b, nested)?))
        } else {
            let y = self.rlock(s, b, nested)?;
            Some((self.wlock(d, b, nested)?, y))
        }
    }

    fn event(self: &Arc<Self>, ev: u32, b: Option<&(Arc<Baton>, usize)>, nested: bool) {
        if self.dead.load(SeqCst) || self.mode.skip.contains(&ev) {
            return;
        }
        if let (Some(seed), false) = (self.mode.extra, nested) {
            let mut r = Rng::new(mix2(seed, ev as u64));
            if r.pct(45) && !self.slots.is_empty() {
                let s = r.below(self.slots.len() as u64) as u8;
                if let Some(mut g) = self.wlock(s, b, false) {
                    let _ = call(|| g.dut.count());
                    self.bump("extra_estimates");
                }
                if let Some((b, _)) = b {
                    b.unblock_all();
                }
            }
        }
        let short = self.plan.alloc.iter().find(|f| f.ev == ev && !nested);
        if let Some(f) = short {
            fail_allocations(Some((f.skip, f.min, f.times)));
        }
        // Library calls outside `call` (copies, probes) that panic.
        if let Err(e) = catch_unwind(AssertUnwindSafe(|| self.op(ev, b, nested))) {
            let m = last_panic();
            if m.starts_with("harness") || e.downcast_ref::<Injected>().is_some() {
                std::panic::resume_unwind(e);
            }
            self.violation("panic", ev, format!("panicked: {}", m));
        }
        if short.is_some() {
            if allocations_failed() > 0 {
                self.bump("fault_alloc");
            }
            fail_allocations(None);
        }
        if let Some((b, _)) = b {
            b.unblock_all();
        }
    }

    fn mark(&self, ev: u32, op: &str) {
        let mut o = self.out.lock().unwrap();
        o.order.push(ev);
        o.trace = mix2(o.trace, mix2(ev as u64, crate::rng::mix(op.len() as u64)));
        *o.counters.entry(format!("op_{}", op)).or_default() += 1;
    }

    /// Sorts out a failed call that was not meant to fail.
    fn unexpected(&self, ev: u32, what: &str, e: CallErr) {
        match e {
            CallErr::Injected => {
                self.out.lock().unwrap().failed.insert(ev);
            }
            CallErr::Panic(m) => self.violation("panic", ev, format!("{} panicked: {}", what, m)),
        }
    }

    fn account(&self, ev: u32, slot: &mut Slot, h: Heap, replaces: bool) {
        if !self.mode.heap {
            return;
        }
        let before = if replaces { 0 } else { slot.heap };
        slot.heap = before + h.net;
        let spec = slot.dut.spec();
        let bound = 64 * (1i64 << spec.p) + 16384;
        if slot.heap > bound {
            self.violation("memory", ev, format!(
                "{:?} holds {} heap bytes between calls; the bound is {}", spec, slot.heap, bound));
        } else if before + h.peak > 2 * bound {
            self.violation("memory-peak", ev, format!(
                "a call on {:?} peaked at {} heap bytes; the bound is {}", spec, before + h.peak, 2 * bound));
        }
    }

    /// Saving does not own the sketch; what it keeps adds up.
    fn account_save(&self, ev: u32, slot: &Slot, h: Heap) {
        if !self.mode.heap {
            return;
        }
        let spec = slot.dut.spec();
        let bound = 64 * (1i64 << spec.p) + 16384;
        let kept = slot.heap + slot.saving.fetch_add(h.net, SeqCst) + h.net;
        if kept > bound || slot.heap + h.peak > 2 * bound {
            self.violation("memory", ev, format!(
                "after saving, {:?} accounts for {} heap bytes (peak {}); the bound is {}", spec, kept, slot.heap + h.peak, bound));
        }
    }

    /// Puts `new` in the place of a sketch, which is dropped.
    fn replace(&self, ev: u32, slot: &mut Slot, new: Slot) {
        let old = std::mem::replace(slot, new);
        if !self.mode.heap {
            return;
        }
        let (held, spec) = (old.heap + old.saving.load(SeqCst), old.dut.spec());
        let dut = old.dut;
        match call(|| drop(dut)) {
            Ok((_, h)) => {
                let left = self.left.fetch_add(held + h.net, SeqCst) + held + h.net;
                let p = self.plan.slots.iter().map(|s| s.p).max().unwrap_or(spec.p);
                let bound = 64 * (1i64 << p) + 16384;
                if left > bound {
                    self.violation("memory", ev, format!(
                        "dropped sketches like {:?} have left {} heap bytes behind; the bound is {}", spec, left, bound));
                }
                self.bump("drops");
            }
            Err(e) => self.unexpected(ev, "drop", e),
        }
    }

    fn class_name(st: &State) -> &'static str {
        match st.model.as_ref().map(|m| m.class()) {
            Some(Class::Empty) => "empty",
            Some(Class::Compact) => "compact",
            _ => "registers",
        }
    }

    fn insert_values(self: &Arc<Self>, ev: u32, slot: &mut Slot, ch: u32, entry: u8) -> bool {
        if self.bulk(ch).is_some() {
            return self.insert_bulk(ev, slot, ch, entry);
        }
        let v = self.values(ch);
        let vt = slot.dut.spec().vt;
        let r = call(|| slot.dut.insert(&v, entry));
        let ok = match r {
            Ok((_, h)) => {
                self.account(ev, slot, h, false);
                true
            }
            Err(e) => {
                self.unexpected(ev, "insert", e);
                false
            }
        };
        if ok && !v.is_empty() {
            for o in slot.others.iter_mut() {
                if let Err(e) = call(|| o.insert(&v, entry)) {
                    self.unexpected(ev, "insert (other build)", e);
                }
            }
            if let Some(p) = &mut slot.pair {
                if let Err(e) = call(|| p.insert(&v, entry)) {
                    self.unexpected(ev, "insert (saved sketch)", e);
                }
            }
            self.feed(&mut slot.st, ch, vt, &v);
        }
        ok
    }

    /// The number of values of a chunk too large to be kept in memory. The
    /// generator of such chunks makes their values differ from all others'.
    fn bulk(&self, ch: u32) -> Option<u64> {
        let c = self.plan.chunks.get(ch as usize)?;
        if c.times > 1 {
            return Some(c.len());
        }
        (c.list.is_none() && c.n >= BULK).then_some(c.n)
    }

    fn insert_bulk(self: &Arc<Self>, ev: u32, slot: &mut Slot, ch: u32, entry: u8) -> bool {
        let c = &self.plan.chunks[ch as usize];
        if let (Some(l), true) = (&c.list, c.times > 1) {
            if l.is_empty() {
                return true;
            }
            let k = (65_536 / l.len()).max(1);
            let long: Vec<u64> = l.iter().copied().cycle().take(k * l.len()).collect();
            let mut left = c.times;
            while left > 0 {
                let n = left.min(k as u64);
                match call(|| slot.dut.insert(&long[..n as usize * l.len()], entry)) {
                    Ok((_, h)) => self.account(ev, slot, h, false),
                    Err(e) => {
                        self.unexpected(ev, "insert", e);
                        return false;
                    }
                }
                left -= n;
            }
            let vt = slot.dut.spec().vt;
            self.feed(&mut slot.st, ch, vt, l);
            *self.out.lock().unwrap().counters.entry("repeated_inserts".into()).or_default() += c.times * l.len() as u64;
            return true;
        }
        let mut at = 0;
        while at < c.n {
            let end = c.n.min(at + 65_536);
            let v: Vec<u64> = (at..end).map(|i| c.value(c.start + i)).collect();
            if let Err(e) = call(|| slot.dut.insert(&v, entry)) {
                self.unexpected(ev, "insert", e);
                return false;
            }
            at = end;
        }
        slot.st.contents.insert((ch, slot.dut.spec().vt == Vt::Sip));
        self.bump("bulk_inserts");
        true
    }

    fn feed(&self, st: &mut State, ch: u32, vt: Vt, v: &[u64]) {
        st.contents.insert((ch, vt == Vt::Sip));
        if let Some(m) = &mut st.model {
            for x in v {
                m.insert(ref_of(vt, *x));
            }
        }
        if self.mode.truth {
            st.distinct.extend(v.iter().map(|x| ref_of(vt, *x)));
        }
    }

    fn merge_states(&self, d: &mut State, s: &State) {
        d.contents.extend(&s.contents);
        match (&mut d.model, &s.model) {
            (Some(a), Some(b)) => a.merge(b),
            _ => d.model = None,
        }
        if self.mode.truth {
            d.distinct.extend(&s.distinct);
        }
    }

    /// Merges `src` into the slot. True if the state of the slot changed.
    fn merge_into(&self, ev: u32, slot: &mut Slot, src: &dyn Dut, others: &[Box<dyn Dut>],
                  pair: Option<&dyn Dut>, st: &State) {
        let (ds, ss) = (slot.dut.spec(), src.spec());
        if !ds.mergeable(&ss) {
            return;
        }
        let kind = format!("merge_{}_into_{}", Self::class_name(st), Self::class_name(&slot.st));
        let r = call(|| slot.dut.merge(src));
        match r {
            Err(e) => self.unexpected(ev, "merge", e),
            Ok((MergeRes::NoSuchCall, _)) => {}
            Ok((MergeRes::Ok, h)) => {
                if ds.p != ss.p {
                    self.violation("merge-accepted", ev, format!(
                        "merge of precision {} into precision {} was accepted", ss.p, ds.p));
                    return;
                }
                self.account(ev, slot, h, false);
                self.bump(&kind);
                for (o, s) in slot.others.iter_mut().zip(others) {
                    match call(|| o.merge(&**s)) {
                        Ok((MergeRes::Ok, _)) => {}
                        Ok((r, _)) => self.violation("builds-differ", ev, format!("merge in build {:?}: {:?}", o.spec(), r)),
                        Err(e) => self.unexpected(ev, "merge (other build)", e),
                    }
                }
                if let Some(p) = &mut slot.pair {
                    if let Err(e) = call(|| p.merge(pair.unwrap_or(src))) {
                        self.unexpected(ev, "merge (saved sketch)", e);
                    }
                }
                self.merge_states(&mut slot.st, st);
            }
            Ok((MergeRes::Err(e), mut h)) => {
                h.net -= e.capacity() as i64;
                if ds.p == ss.p {
                    self.violation("merge-refused", ev, format!("merge of equal precisions refused: {}", e));
                } else if !e.contains("IncompatiblePrecision") {
                    self.violation("wrong-error", ev, format!("refused merge reported {}", e));
                } else {
                    self.account(ev, slot, h, false);
                    self.bump("merge_refused");
                    self.out.lock().unwrap().failed.insert(ev);
                }
            }
        }
    }

    /// An estimate was returned to the caller.
    fn estimate(&self, ev: u32, st: &State, spec: Spec, v: f64) {
        if self.mode.finite {
            let empty = st.contents.is_empty();
            if !v.is_finite() || v < 0.0 || (empty && v != 0.0) || (!empty && v < 0.5) {
                self.violation("not-an-estimate", ev, format!(
                    "{:?} holding {} returned {:?}", spec,
                    if empty { "nothing" } else { "values" }, v));
            }
        }
        if self.mode.model {
            if let Some(m) = &st.model {
                let (_, branch) = m.estimates();
                self.bump(&format!("branch_{}", branch));
                if !m.admits(v) {
                    let (want, branch) = m.estimates();
                    self.violation("not-the-algorithm", ev, format!(
                        "{:?} returned {:?}; the algorithm gives {:?} ({})", spec, v,
                        want.iter().map(|w| w.0).collect::<Vec<_>>(), branch));
                }
            }
        }
        if self.mode.truth {
            let bulk: u64 = st.contents.iter()
                .filter(|c| self.plan.chunks.get(c.0 as usize).is_some_and(|c| c.times <= 1))
                .filter_map(|c| self.bulk(c.0)).sum();
            let n = (st.distinct.len() as u64 + bulk) as f64;
            let (lo, hi) = accuracy(spec.kind, spec.p, n);
            if !(lo <= v && v <= hi) {
                self.violation("inaccurate", ev, format!(
                    "{:?} estimates {} for {} distinct values, outside {:.1}..={:.1}", spec, v, n, lo, hi));
            }
            self.bump("accuracy_checks");
        }
    }

    fn with_faults<R>(inject: Option<(u8, u32)>, f: impl FnOnce() -> R) -> R {
        with_ctx(|c| c.inject = inject);
        let r = f();
        with_ctx(|c| c.inject = None);
        r
    }

    fn op(self: &Arc<Self>, ev: u32, b: Option<&(Arc<Baton>, usize)>, nested: bool) {
        let op = self.plan.events[ev as usize].op.clone();
        match op {
            Op::Insert { s, ch, entry } => {
                let Some(mut g) = self.wlock(s, b, nested) else { return };
                self.mark(ev, "insert");
                self.insert_values(ev, &mut g, ch, entry);
            }
            Op::InsertFail { s, ch, entry, stage, skip } => {
                let Some(mut g) = self.wlock(s, b, nested) else { return };
                self.mark(ev, "insert_fail");
                Self::with_faults(Some((stage, skip as u32)), || {
                    let slot = &mut *g;
                    let v = self.values(ch);
                    let vt = slot.dut.spec().vt;
                    match call(|| slot.dut.insert(&v, entry)) {
                        // Not reached: an ordinary insert.
                        Ok((_, h)) => {
                            self.account(ev, slot, h, false);
                            self.feed(&mut slot.st, ch, vt, &v);
                            with_ctx(|c| c.inject = None);
                            for o in slot.others.iter_mut().chain(slot.pair.iter_mut()) {
                                let _ = call(|| o.insert(&v, entry));
                            }
                        }
                        Err(e) => {
                            if self.mode.heap {
                                let net = last_net();
                                self.account(ev, slot, Heap { net: net - unwinding_net(), peak: 0 }, false);
                            }
                            self.unexpected(ev, "insert", e)
                        }
                    }
                });
            }
            Op::InsertNested { s, ch, entry, inner } => {
                let Some(mut g) = self.wlock(s, b, nested) else { return };
                self.mark(ev, "insert_nested");
                let me = self.clone();
                let bb = b.cloned();
                // In a given order the inner event has its own place.
                let ordered = self.mode.order.is_some();
                if !ordered && (inner as usize) < self.plan.events.len() && inner != ev {
                    with_ctx(|c| {
                        c.nested = Some(Box::new(move || {
                            me.event(inner, bb.as_ref(), true);
                            me.bump("nested_calls");
                        }))
                    });
                }
                self.insert_values(ev, &mut g, ch, entry);
                with_ctx(|c| c.nested = None);
            }
            Op::Count { s } => {
                let Some(mut g) = self.wlock(s, b, nested) else { return };
                self.mark(ev, "count");
                let slot = &mut *g;
                let spec = slot.dut.spec();
                // Somebody prints it now and then.
                if spec.p <= 8 && mix2(self.plan.seed, ev as u64) % 16 == 0 {
                    if let Err(e) = call(|| slot.dut.debug()) {
                        self.unexpected(ev, "printing", e);
                        return;
                    }
                    self.bump("printed");
                }
                let r = if self.mode.quiet {
                    call(|| slot.dut.boxclone().count())
                } else {
                    call(|| slot.dut.count())
                };
                match r {
                    Ok((v, h)) => {
                        if !self.mode.quiet {
                            self.account(ev, slot, h, false);
                        }
                        self.out.lock().unwrap().log.insert(ev, v.to_bits());
                        self.estimate(ev, &slot.st, spec, v);
                        for o in slot.others.iter_mut() {
                            match call(|| o.count()) {
                                Ok((w, _)) if within(BUILDS, v, w) => {}
                                Ok((w, _)) => self.violation("builds-differ", ev, format!(
                                    "build {} estimates {:?}, build {} {:?}", spec.build, v, o.spec().build, w)),
                                Err(e) => self.unexpected(ev, "count (other build)", e),
                            }
                        }
                        if let Some(p) = &mut slot.pair {
                            match call(|| p.count()) {
                                Ok((w, _)) if within(BUILDS, v, w) => {}
                                Ok((w, _)) => self.violation("restored-differs", ev, format!(
                                    "restored sketch estimates {:?}, the saved one {:?}", v, w)),
                                Err(e) => self.unexpected(ev, "count (saved sketch)", e),
                            }
                        }
                    }
                    Err(e) => self.unexpected(ev, "count", e),
                }
            }
            Op::Merge { d, s } => {
                if d == s {
                    return;
                }
                let Some((mut gd, gs)) = self.lock_pair(d, s, b, nested) else { return };
                self.mark(ev, "merge");
                self.merge_into(ev, &mut gd, &*gs.dut, &gs.others, gs.pair.as_deref(), &gs.st);
            }
            Op::Clone { d, s } => {
                if d == s {
                    return;
                }
                let Some((mut gd, g)) = self.lock_pair(d, s, b, nested) else { return };
                self.mark(ev, "clone");
                // Half of the time into the sketch that is there.
                if gd.dut.spec() == g.dut.spec() && mix2(self.plan.seed, ev as u64) & 1 == 1 {
                    let over = |a: &mut Box<dyn Dut>, b: &dyn Dut| {
                        if !b.clone_into(&mut **a) {
                            *a = b.boxclone()
                        }
                    };
                    match call(|| over(&mut gd.dut, &*g.dut)) {
                        Ok((_, h)) => {
                            for (a, b) in gd.others.iter_mut().zip(&g.others) {
                                over(a, &**b);
                            }
                            gd.pair = g.pair.as_ref().map(|o| o.boxclone());
                            gd.st = g.st.clone();
                            self.bump("cloned_over");
                            self.account(ev, &mut gd, h, false);
                        }
                        Err(e) => self.unexpected(ev, "clone", e),
                    }
                    return;
                }
                match call(|| g.dut.boxclone()) {
                    Ok((dut, h)) => {
                        let new = Slot {
                            dut,
                            others: g.others.iter().map(|o| o.boxclone()).collect(),
                            pair: g.pair.as_ref().map(|o| o.boxclone()),
                            st: g.st.clone(),
                            heap: 0,
                            saving: AtomicI64::new(0),
                        };
                        self.replace(ev, &mut gd, new);
                        self.account(ev, &mut gd, h, true);
                    }
                    Err(e) => self.unexpected(ev, "clone", e),
                }
            }
            Op::Crash { s } => {
                let Some(mut g) = self.wlock(s, b, nested) else { return };
                self.mark(ev, "crash");
                match Self::new_slot(&self.plan, &self.mode, g.dut.spec()) {
                    Ok(n) => self.replace(ev, &mut g, n),
                    Err(e) => self.violation("creation", ev, e),
                }
            }
            Op::Send { s, msg, via } => {
                // The call takes effect at its end: then it is marked.
                let Some(g) = self.rlock(s, b, nested) else { return };
                let mut p = Parcel {
                    spec: g.dut.spec(),
                    dut: None,
                    other_duts: vec![],
                    fmt: Fmt::Json,
                    bytes: vec![],
                    other_bytes: vec![],
                    pair: g.pair.as_ref().map(|p| p.boxclone()),
                    st: g.st.clone(),
                };
                match via {
                    Via::Clone => {
                        match call(|| g.dut.boxclone()) {
                            Ok((d, _)) => p.dut = Some(d),
                            Err(e) => return self.unexpected(ev, "clone", e),
                        }
                        p.other_duts = g.others.iter().map(|o| o.boxclone()).collect();
                    }
                    Via::Wire(fmt) => {
                        p.fmt = fmt;
                        match call(|| save_plain(&*g.dut, fmt)) {
                            Ok((Ok(v), _)) => p.bytes = v,
                            Ok((Err(e), _)) => return self.violation("save-refused", ev, e),
                            Err(e) => return self.unexpected(ev, "serialisation", e),
                        }
                        for o in &g.others {
                            match call(|| save_plain(&**o, fmt)) {
                                Ok((Ok(v), _)) => p.other_bytes.push(v),
                                Ok((Err(e), _)) => return self.violation("save-refused", ev, e),
                                Err(e) => return self.unexpected(ev, "serialisation", e),
                            }
                        }
                    }
                }
                self.mark(ev, "send");
                self.msgs.lock().unwrap().insert(msg, Arc::new(p));
            }
            Op::Recv { d, msg } => {
                let Some(mut g) = self.wlock(d, b, nested) else { return };
                let Some(p) = self.msgs.lock().unwrap().get(&msg).cloned() else { return };
                self.mark(ev, "recv");
                if let Some(dut) = &p.dut {
                    self.merge_into(ev, &mut g, &**dut, &p.other_duts, p.pair.as_deref(), &p.st);
                } else if let Some((dut, others)) = self.unpack(ev, &p, None) {
                    self.merge_into(ev, &mut g, &*dut, &others, p.pair.as_deref(), &p.st);
                }
            }
            Op::Save { s, f, fmt, fault, in_place } => {
                let Some(g) = self.rlock(s, b, nested) else { return };
                let mut w = SimWriter::new(&fault);
                let r = call(|| g.dut.save(fmt, &mut w));
                self.mark(ev, "save");
                match r {
                    Ok((Ok(()), h)) => {
                        self.account_save(ev, &g, h);
                        self.bump(&format!("saved_{}", Self::class_name(&g.st)));
                        let mut p = Parcel {
                            spec: g.dut.spec(),
                            dut: None,
                            other_duts: vec![],
                            fmt,
                            bytes: w.got,
                            other_bytes: vec![],
                            pair: if self.mode.pair { Some(g.dut.boxclone()) } else { None },
                            st: g.st.clone(),
                        };
                        for o in &g.others {
                            match call(|| save_plain(&**o, fmt)) {
                                Ok((Ok(v), _)) => p.other_bytes.push(v),
                                Ok((Err(e), _)) => return self.violation("save-refused", ev, e),
                                Err(e) => return self.unexpected(ev, "serialisation", e),
                            }
                        }
                        self.torn.lock().unwrap().remove(&f);
                        self.files.lock().unwrap().insert(f, Arc::new(p));
                    }
                    Ok((Err(e), mut h)) => {
                        h.net -= e.capacity() as i64;
                        self.account_save(ev, &g, h);
                        if fault.fail_at.is_none() && !fault.flush_fails {
                            return self.violation("save-refused", ev, format!("saving failed without a failing writer: {}", e));
                        }
                        self.out.lock().unwrap().failed.insert(ev);
                        self.after_failed_save(f, &g, fmt, w.got, in_place, fault.flush_fails);
                    }
                    Err(CallErr::Injected) => {
                        self.out.lock().unwrap().failed.insert(ev);
                        self.after_failed_save(f, &g, fmt, w.got, in_place, false);
                    }
                    Err(e) => self.unexpected(ev, "serialisation", e),
                }
            }
            Op::Load { s, f, fault } => {
                let Some(mut g) = self.wlock(s, b, nested) else { return };
                // A torn file is what the process finds after the crash.
                let torn = self.torn.lock().unwrap().get(&f).cloned();
                if let Some((spec, fmt, bytes)) = torn {
                    self.mark(ev, "load_torn");
                    self.must_refuse(ev, spec, fmt, &bytes, "a file whose write failed");
                    return;
                }
                let Some(p) = self.files.lock().unwrap().get(&f).cloned() else { return };
                self.mark(ev, "load");
                if let Some(n) = self.restore(ev, &p, &fault) {
                    let (slot, h) = n;
                    self.replace(ev, &mut g, slot);
                    self.account(ev, &mut g, h, true);
                    self.bump(&format!("restored_{}", Self::class_name(&p.st)));
                    if self.mode.pair && !self.dead.load(SeqCst) {
                        self.compare_pair(ev, &g);
                    }
                }
            }
            Op::LoadTorn { f, cut } => {
                let Some(p) = self.files.lock().unwrap().get(&f).cloned() else { return };
                self.mark(ev, "load_torn");
                let n = p.bytes.len() as u64 * cut as u64 / 65536;
                self.must_refuse(ev, p.spec, p.fmt, &p.bytes[..n as usize], "a truncated snapshot");
            }
            Op::Check { s } => {
                let Some(g) = self.rlock(s, b, nested) else { return };
                self.mark(ev, "check");
                self.check(ev, s, &g);
            }
            Op::Crowd { s, n } => {
                let Some(g) = self.rlock(s, b, nested) else { return };
                self.mark(ev, "crowd");
                let r = call(|| {
                    let e = g.dut.boxclone().count().to_bits();
                    (0..n).map(|_| (g.dut.boxclone(), e)).collect::<Vec<_>>()
                });
                match r {
                    Ok((v, _)) => self.crowd.lock().unwrap().extend(v),
                    Err(e) => self.unexpected(ev, "clone", e),
                }
            }
            Op::Disperse { ch } => {
                self.mark(ev, "disperse");
                let mut all = std::mem::take(&mut *self.crowd.lock().unwrap());
                let v = self.values(ch);
                let mut r = Rng::new(mix2(self.plan.os, ev as u64));
                // In any order, some looked at, some changed, some dropped.
                let mut made = 0u64;
                while !all.is_empty() && !self.dead.load(SeqCst) {
                    let i = r.below(all.len() as u64) as usize;
                    let (mut d, want) = all.swap_remove(i);
                    match r.below(4) {
                        0 => drop(d),
                        k => match call(|| {
                            let got = d.count();
                            if k == 1 {
                                d.insert(&v, 0);
                                d.count();
                            }
                            got
                        }) {
                            Ok((got, _)) if within(1e-9, got, f64::from_bits(want)) => made += 1,
                            Ok((got, _)) => self.violation("not-independent", ev, format!(
                                "a clone of {:?} estimates {:?}; when it was made it was {:?}",
                                d.spec(), got, f64::from_bits(want))),
                            Err(e) => self.unexpected(ev, "count", e),
                        },
                    }
                }
                *self.out.lock().unwrap().counters.entry("crowd_checks".into()).or_default() += made;
            }
            Op::Barrier => {
                let mut v = Vec::new();
                for s in 0..self.slots.len() {
                    let Some(g) = self.rlock(s as u8, b, nested) else { return };
                    match call(|| g.dut.boxclone().count()) {
                        Ok((x, _)) => v.push(x.to_bits()),
                        Err(e) => return self.unexpected(ev, "count", e),
                    }
                }
                self.mark(ev, "barrier");
                self.out.lock().unwrap().barriers.insert(ev, v);
            }
        }
    }

    fn after_failed_save(&self, f: u32, g: &Slot, fmt: Fmt, got: Vec<u8>, in_place: bool, complete: bool) {
        // A writer that replaces files atomically still has the old one; one
        // that writes in place has lost it. If only the flush failed the
        // bytes may all be there: nothing is promised about that file.
        if in_place {
            self.files.lock().unwrap().remove(&f);
            if !complete {
                self.torn.lock().unwrap().insert(f, (g.dut.spec(), fmt, got));
            } else {
                self.torn.lock().unwrap().remove(&f);
            }
        }
    }

    fn must_refuse(&self, ev: u32, spec: Spec, fmt: Fmt, bytes: &[u8], what: &str) {
        let proto = match create(spec, self.plan.key) {
            Ok(p) => p,
            Err(e) => return self.violation("creation", ev, e),
        };
        let none = Default::default();
        match call(|| proto.load(fmt, &mut SimReader::new(bytes, &none)).is_ok()) {
            Ok((true, _)) => self.violation("torn-accepted", ev, format!(
                "{} ({} bytes, {:?}) of {:?} was loaded without an error", what, bytes.len(), fmt, spec)),
            Ok((false, _)) => self.bump("torn_refused"),
            Err(e) => self.unexpected(ev, "loading a truncated snapshot", e),
        }
    }

    /// Deserialises a parcel: into the build it came from, and into the other
    /// builds from one another's bytes.
    #[allow(clippy::type_complexity)]
    fn unpack(&self, ev: u32, p: &Parcel, fault: Option<&crate::disk::IoFault>) -> Option<(Box<dyn Dut>, Vec<Box<dyn Dut>>)> {
        let none = Default::default();
        let mut all: Vec<&[u8]> = vec![&p.bytes];
        all.extend(p.other_bytes.iter().map(|v| &v[..]));
        let k = all.len();
        let mut got = Vec::new();
        for i in 0..k {
            let build = if i == 0 { p.spec.build } else { self.others_of(p.spec)[i - 1] };
            let spec = Spec { build, ..p.spec };
            let proto = match create(spec, self.plan.key) {
                Ok(x) => x,
                Err(e) => {
                    self.violation("creation", ev, e);
                    return None;
                }
            };
            // Rotated, so that builds read what others wrote.
            let from = (i + ev as usize) % k;
            let f = if i == 0 { fault.unwrap_or(&none) } else { &none };
            match call(|| proto.load(p.fmt, &mut SimReader::new(all[from], f))) {
                Ok((Ok(d), _)) => got.push(d),
                Ok((Err(e), _)) => {
                    let may = f.fail_at.is_some();
                    if !may {
                        self.violation(if k > 1 { "builds-differ" } else { "load-refused" }, ev, format!(
                            "{:?} snapshot of {:?} ({} bytes) written by build index {} refused: {}",
                            p.fmt, spec, all[from].len(), from, e));
                    } else {
                        self.out.lock().unwrap().failed.insert(ev);
                    }
                    return None;
                }
                Err(e) => {
                    self.unexpected(ev, "deserialisation", e);
                    return None;
                }
            }
        }
        let first = got.remove(0);
        Some((first, got))
    }

    fn others_of(&self, spec: Spec) -> Vec<Build> {
        self.mode.builds.iter().copied().filter(|b| builds_kind(*b, spec.kind)).collect()
    }

    fn restore(&self, ev: u32, p: &Parcel, fault: &crate::disk::IoFault) -> Option<(Slot, Heap)> {
        if p.other_bytes.is_empty() {
            // Heap accounted exactly.
            let proto = create(p.spec, self.plan.key).ok()?;
            let r = call(|| proto.load(p.fmt, &mut SimReader::new(&p.bytes, fault)));
            match r {
                Ok((Ok(dut), h)) => {
                    if fault.fail_at.is_some_and(|n| (n as usize) < p.bytes.len()) {
                        self.violation("torn-accepted", ev, format!(
                            "a snapshot whose reading failed after {} of {} bytes was loaded without an error",
                            fault.fail_at.unwrap(), p.bytes.len()));
                        return None;
                    }
                    let s = Slot {
                        dut,
                        others: vec![],
                        pair: p.pair.as_ref().map(|x| x.boxclone()),
                        st: p.st.clone(),
                        heap: 0,
                        saving: AtomicI64::new(0),
                    };
                    Some((s, h))
                }
                Ok((Err(e), _)) => {
                    if fault.fail_at.is_none() {
                        self.violation("load-refused", ev, format!(
                            "acknowledged {:?} snapshot of {:?} ({} bytes) refused: {}", p.fmt, p.spec, p.bytes.len(), e));
                    } else {
                        self.out.lock().unwrap().failed.insert(ev);
                    }
                    None
                }
                Err(e) => {
                    self.unexpected(ev, "deserialisation", e);
                    None
                }
            }
        } else {
            let (dut, others) = self.unpack(ev, p, Some(fault))?;
            Some((Slot { dut, others, pair: None, st: p.st.clone(), heap: 0, saving: AtomicI64::new(0) }, Heap::default()))
        }
    }

    // ------------------------------------------------------------- oracles

    fn probe_set(&self, kind: Kind, p: u8) -> Arc<Vec<Probe>> {
        if let Some(x) = self.probes.lock().unwrap().get(&(kind, p)) {
            return x.clone();
        }
        let m = 1u64 << p;
        let w = if kind == Kind::Pf { 32u32 } else { 64 };
        // Register `idx` gets rank r.
        let reg = |idx: u64, r: u32| -> u64 {
            let rest_w = w - p as u32;
            idx << rest_w | (1u64 << (rest_w - r)) | ((1u64 << (rest_w - r)) >> 1)
        };
        let mut sets: Vec<Vec<u64>> = vec![];
        sets.push((0..3).map(|i| mix2(77 + p as u64, i)).collect());
        sets.push((0..m).map(|i| reg(i, 1)).collect());
        for salt in [1u64, 2] {
            sets.push(
                (0..m)
                    .map(|i| {
                        let keep = mix2(salt * 1000 + p as u64, i) & 7 == 0;
                        reg(i, if keep { 1 } else { 14 })
                    })
                    .collect(),
            );
        }
        let mut builds: Vec<Build> = self.plan.slots.iter().map(|s| s.build).chain(self.mode.builds.iter().copied()).collect();
        builds.sort_unstable();
        builds.dedup();
        let mut probes = Vec::new();
        for hashes in sets {
            let mut model = Model::new(kind, p);
            for h in &hashes {
                model.insert(*h);
            }
            let mut duts = Vec::new();
            for b in &builds {
                if !builds_kind(*b, kind) {
                    continue;
                }
                let spec = Spec { kind, p, vt: Vt::U64, build: *b };
                if let Ok(mut d) = create(spec, self.plan.key) {
                    d.insert(&hashes, 0);
                    // Probes with all registers set have reached register
                    // form already; the small one stays as inserted.
                    duts.push((*b, d));
                }
            }
            probes.push(Probe { hashes, duts, model });
        }
        let a = Arc::new(probes);
        self.probes.lock().unwrap().insert((kind, p), a.clone());
        a
    }

    /// A signature revealing the state of a sketch through its public
    /// behaviour: estimates of copies after merges and inserts.
    /// The flag says whether values given as `x` must be mapped (twins of
    /// sketches with the Sip hasher).
    fn deep(&self, d: &dyn Dut, of: Vt) -> Result<(Vec<u64>, Vec<Option<Model>>), CallErr> {
        self.deep_with(d, of, None)
    }

    fn deep_with(&self, d: &dyn Dut, of: Vt, model: Option<&Model>) -> Result<(Vec<u64>, Vec<Option<Model>>), CallErr> {
        let spec = d.spec();
        let probes = self.probe_set(spec.kind, spec.p);
        let map = |x: u64| if spec.vt == Vt::Sip { x } else { ref_of(of, x) };
        let hashed = |x: u64| ref_of(of, x);
        let later: Vec<u64> = (0..24u64).map(|i| mix2(0xabcd, i)).collect();
        let mapped: Vec<u64> = later.iter().map(|x| map(*x)).collect();
        let mut models: Vec<Option<Model>> = Vec::new();
        let r = call(|| {
            let mut v = Vec::new();
            v.push(d.boxclone().count());
            for p in probes.iter() {
                if let Some((_, pd)) = p.duts.iter().find(|x| x.0 == spec.build) {
                    let mut c = d.boxclone();
                    c.merge(&**pd);
                    v.push(c.count());
                }
            }
            // As the source of merges, and repeated.
            if let Some((_, pd)) = probes[0].duts.iter().find(|x| x.0 == spec.build) {
                let mut c = pd.boxclone();
                c.merge(d);
                c.merge(d);
                v.push(c.count());
                let mut c = d.boxclone();
                c.insert(&mapped[..3], 0);
                v.push(c.count());
                c.merge(&**pd);
                c.insert(&mapped[3..], 0);
                v.push(c.count());
            }
            v
        });
        let v = match r {
            Ok((v, _)) => v,
            Err(e) => return Err(e),
        };
        if let Some(m) = model {
            models.push(Some(m.clone()));
            for p in probes.iter() {
                let mut x = m.clone();
                x.merge(&p.model);
                models.push(Some(x));
            }
            let mut x = m.clone();
            x.merge(&probes[0].model);
            models.push(Some(x.clone()));
            let mut y = m.clone();
            for l in &later[..3] {
                y.insert(hashed(*l));
            }
            models.push(Some(y.clone()));
            for l in &later[3..] {
                y.insert(hashed(*l));
            }
            y.merge(&probes[0].model);
            models.push(Some(y));
        }
        let _ = probes.iter().map(|p| p.hashes.len()).sum::<usize>();
        Ok((v.into_iter().map(f64::to_bits).collect(), models))
    }

    /// A sketch of plain integers fed the contents directly.
    fn twin(&self, spec: Spec, st: &State) -> Result<Box<dyn Dut>, String> {
        let mut t = create(spec.twin(), self.plan.key)?;
        for (ch, sip) in &st.contents {
            let v = self.values(*ch);
            if *sip {
                let v: Vec<u64> = v.iter().map(|x| sip_of(*x)).collect();
                t.insert(&v, 0);
            } else {
                t.insert(&v, 0);
            }
        }
        Ok(t)
    }

    fn check(&self, ev: u32, s: u8, g: &Slot) {
        let spec = g.dut.spec();
        if self.mode.twin {
            let r = (|| -> Result<(), CallErr> {
                let (t, _) = call(|| self.twin(spec, &g.st))?;
                let t = match t {
                    Ok(t) => t,
                    Err(e) => return Err(CallErr::Panic(e)),
                };
                let (a, _) = self.deep(&*g.dut, spec.vt)?;
                let (b, _) = self.deep(&*t, spec.vt)?;
                if !same(&a, &b) {
                    self.violation("differs-from-union", ev, format!(
                        "sketch {} ({:?}, {}) differs from one fed the same values directly: {} against {}",
                        s, spec, Self::class_name(&g.st), show(&a), show(&b)));
                }
                Ok(())
            })();
            if let Err(e) = r {
                self.unexpected(ev, "checking against the union", e);
            }
            self.bump("deep_checks");
        }
        if self.mode.model {
            if let Some(m) = &g.st.model {
                match self.deep_with(&*g.dut, spec.vt, Some(m)) {
                    Ok((v, models)) => {
                        for (i, (x, m)) in v.iter().zip(&models).enumerate() {
                            let m = m.as_ref().unwrap();
                            if !m.admits(f64::from_bits(*x)) {
                                self.violation("not-the-algorithm", ev, format!(
                                    "sketch {} ({:?}): probe {} returned {:?}; the algorithm gives {:?}",
                                    s, spec, i, f64::from_bits(*x),
                                    m.estimates().0.iter().map(|w| w.0).collect::<Vec<_>>()));
                                break;
                            }
                        }
                    }
                    Err(e) => self.unexpected(ev, "probing", e),
                }
                self.bump("deep_checks");
            }
        }
        if self.mode.finite {
            match self.deep(&*g.dut, spec.vt) {
                Ok((v, _)) => {
                    for (i, x) in v.iter().enumerate() {
                        let x = f64::from_bits(*x);
                        let may_be_zero = i == 0 && g.st.contents.is_empty();
                        if !x.is_finite() || x < 0.0 || (x < 0.5 && !may_be_zero) {
                            self.violation("not-an-estimate", ev, format!(
                                "sketch {} ({:?}): probe {} returned {:?}", s, spec, i, x));
                            break;
                        }
                    }
                }
                Err(e) => self.unexpected(ev, "probing", e),
            }
            self.bump("deep_checks");
        }
        if self.mode.pair {
            self.compare_pair(ev, g);
        }
        if !g.others.is_empty() {
            match self.deep(&*g.dut, spec.vt) {
                Ok((a, _)) => {
                    for o in &g.others {
                        match self.deep(&**o, spec.vt) {
                            Ok((b, _)) if same_builds(&a, &b) => {}
                            Ok((b, _)) => self.violation("builds-differ", ev, format!(
                                "{:?} and build {}: {} against {}", spec, o.spec().build, show(&a), show(&b))),
                            Err(e) => self.unexpected(ev, "probing (other build)", e),
                        }
                    }
                }
                Err(e) => self.unexpected(ev, "probing", e),
            }
            self.bump("deep_checks");
        }
        // Checking must not have changed the sketch; Count compares later.
    }

    fn compare_pair(&self, ev: u32, g: &Slot) {
        let spec = g.dut.spec();
        let Some(p) = &g.pair else { return };
        match (self.deep(&*g.dut, spec.vt), self.deep(&**p, spec.vt)) {
            (Ok((a, _)), Ok((b, _))) => {
                if !same(&a, &b) {
                    self.violation("restored-differs", ev, format!(
                        "{:?} ({}): restored sketch {} against saved {}",
                        spec, Self::class_name(&g.st), show(&a), show(&b)));
                }
            }
            (Err(e), _) | (_, Err(e)) => self.unexpected(ev, "probing", e),
        }
        self.bump("deep_checks");
    }

    fn finish(&self) {
        let Some(slots) = &self.mode.deep else { return };
        for s in slots {
            if self.dead.load(SeqCst) {
                return;
            }
            let Some(l) = self.slots.get(*s as usize) else { continue };
            let g = l.read().unwrap();
            match self.deep(&*g.dut, g.dut.spec().vt) {
                Ok((v, _)) => {
                    self.out.lock().unwrap().deep.insert(*s, v);
                }
                Err(e) => self.unexpected(u32::MAX, "probing", e),
            }
        }
    }
}

fn save_plain(d: &dyn Dut, fmt: Fmt) -> Result<Vec<u8>, String> {
    let mut w = SimWriter::new(&Default::default());
    d.save(fmt, &mut w)?;
    Ok(w.got)
}
