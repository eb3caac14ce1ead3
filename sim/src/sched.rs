//! Thread scheduler: real OS threads, exactly one of which runs at a time.
//! Who runs is decided only by the plan: a list of (gap, actor) pairs, "after
//! `gap` more scheduling points switch to `actor`". When it is used up, the
//! running actor goes on until it ends or blocks, then the lowest runnable.
//!
//! In the stepped build every branch and memory access of the library is a
//! scheduling point as well. Two more lists of the plan decide over those: one
//! counts them all, one the accesses to static memory that can be written,
//! which is what threads using sketches of their own could share.
use crate::plan::Plan;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};

/// Points of the stepped build until the next that matters; 0: none does.
pub static LEFT: AtomicU64 = AtomicU64::new(0);
/// Whether switches remain to be made where actors share the heap.
pub static HEAP_LEFT: AtomicBool = AtomicBool::new(false);
/// Status of a process in which all threads wait for one another.
pub const DEADLOCK: i32 = 77;
/// A thread going on for so many steps gives way, if it is not alone.
const FAIR: u64 = 1 << 22;

thread_local! {
    /// Whether this thread, if it must wait for a lock, passes the baton on.
    static PASSES: Cell<bool> = const { Cell::new(false) };
}

/// The scheduler's own lock is not passed on.
struct Own(bool);
impl Own {
    fn new() -> Own {
        Own(PASSES.replace(false))
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        PASSES.set(self.0)
    }
}

pub fn passes() -> bool {
    PASSES.try_with(|p| p.get()).unwrap_or(false)
}

pub fn set_passes(on: bool) {
    PASSES.set(on)
}

struct State {
    running: usize,
    alive: Vec<bool>,
    blocked: Vec<bool>,
    sched: Vec<(u32, u8)>,
    pos: usize,
    gap: u32,
    pub switches: u64,
    points: u64,
    trace: u64,
    steps: List,
    shared: List,
    heap: List,
    /// Accesses to static memory, waits for locks, switches forced, accesses
    /// to what several actors share on the heap.
    seen: [u64; 4],
    /// Waits in a row in which nobody got anywhere, and since when.
    waits: u64,
    since: i64,
    /// What LEFT was last set to, and all before it.
    left: u64,
    stepped: u64,
}

struct List {
    sched: Vec<(u32, u8)>,
    pos: usize,
    gap: u32,
}

impl List {
    fn new(sched: &[(u32, u8)]) -> List {
        List { sched: sched.to_vec(), pos: 0, gap: sched.first().map_or(0, |s| s.0) }
    }
    /// The entry due now, if one is; the next one's gap begins.
    fn due(&mut self) -> Option<u8> {
        let to = self.sched.get(self.pos)?.1;
        if self.gap > 0 {
            self.gap -= 1;
            return None;
        }
        self.pos += 1;
        self.gap = self.sched.get(self.pos).map_or(0, |x| x.0);
        Some(to)
    }
}

pub struct Baton {
    st: Mutex<State>,
    cv: Condvar,
}

const NOBODY: usize = usize::MAX;

impl Baton {
    pub fn new(n: usize, plan: &Plan) -> Self {
        let Plan { sched, steps, shared, heap, .. } = plan;
        let gap = sched.first().map_or(0, |s| s.0);
        Baton {
            st: Mutex::new(State {
                running: NOBODY,
                alive: vec![true; n],
                blocked: vec![false; n],
                sched: sched.to_vec(),
                pos: 0,
                gap,
                switches: 0,
                points: 0,
                trace: 0,
                steps: List::new(steps),
                shared: List::new(shared),
                heap: List::new(heap),
                seen: [0; 4],
                waits: 0,
                since: 0,
                left: 0,
                stepped: 0,
            }),
            cv: Condvar::new(),
        }
    }

    fn runnable(s: &State, i: usize) -> bool {
        i < s.alive.len() && s.alive[i] && !s.blocked[i]
    }

    fn switch_to(&self, s: &mut State, to: usize) {
        if s.running != to {
            s.switches += 1;
            let at = s.points.wrapping_add((s.stepped << 20) ^ (s.seen[0] + s.seen[3] << 40));
            s.trace = crate::rng::mix2(s.trace, at.wrapping_mul(64).wrapping_add(to as u64));
        }
        s.running = to;
        self.cv.notify_all();
    }

    /// Called by the coordinator once all threads exist.
    pub fn start(&self, stepped: bool) {
        let _own = Own::new();
        let mut s = self.st.lock().unwrap();
        if stepped {
            self.set_left(&mut s);
            HEAP_LEFT.store(!s.heap.sched.is_empty(), Relaxed);
        }
        self.switch_to(&mut s, 0);
    }

    pub fn wait_turn(&self, me: usize) {
        let _own = Own::new();
        let mut s = self.st.lock().unwrap();
        while s.running != me {
            s = self.cv.wait(s).unwrap();
        }
    }

    /// A point at which the plan may switch to another actor.
    pub fn yield_point(&self, me: usize) {
        let _own = Own::new();
        let mut s = self.st.lock().unwrap();
        s.points += 1;
        s.waits = 0;
        if s.pos >= s.sched.len() {
            return;
        }
        if s.gap > 0 {
            s.gap -= 1;
            return;
        }
        let to = s.sched[s.pos].1 as usize % s.alive.len();
        s.pos += 1;
        s.gap = s.sched.get(s.pos).map_or(0, |x| x.0);
        if to == me || !Self::runnable(&s, to) {
            return;
        }
        self.switch_to(&mut s, to);
        while s.running != me {
            s = self.cv.wait(s).unwrap();
        }
    }

    fn set_left(&self, s: &mut State) {
        s.stepped += s.left;
        s.left = match s.steps.sched.get(s.steps.pos) {
            Some(_) => s.steps.gap as u64 + 1,
            None => FAIR,
        };
        LEFT.store(s.left, Relaxed);
    }

    fn hand_over(&self, mut s: std::sync::MutexGuard<'_, State>, me: usize, to: usize) {
        self.switch_to(&mut s, to);
        while s.running != me {
            s = self.cv.wait(s).unwrap();
        }
    }

    /// The runnable actor after this one, in turn.
    fn next(s: &State, me: usize) -> Option<usize> {
        let n = s.alive.len();
        (1..n).map(|k| (me + k) % n).find(|&i| Self::runnable(s, i))
    }

    /// So many steps were made as LEFT said.
    pub fn step_point(&self, me: usize) {
        let _own = Own::new();
        let mut s = self.st.lock().unwrap();
        let fair = s.left == FAIR;
        s.waits = 0;
        let to = if fair {
            Self::next(&s, me)
        } else {
            s.steps.gap = 0;
            s.steps.due().map(|a| a as usize % s.alive.len())
        };
        self.set_left(&mut s);
        match to {
            Some(to) if to != me && Self::runnable(&s, to) => {
                s.seen[2] += fair as u64;
                self.hand_over(s, me, to)
            }
            _ => {}
        }
    }

    /// The library is about to access static memory.
    pub fn shared_point(&self, me: usize) {
        self.access(me, 0)
    }

    /// The library is about to access a place of its heap that several actors
    /// have accessed.
    pub fn heap_point(&self, me: usize) {
        self.access(me, 3)
    }

    fn access(&self, me: usize, kind: usize) {
        let _own = Own::new();
        let mut s = self.st.lock().unwrap();
        s.seen[kind] += 1;
        s.waits = 0;
        let list = if kind == 3 { &mut s.heap } else { &mut s.shared };
        let due = list.due();
        if kind == 3 {
            HEAP_LEFT.store(list.pos < list.sched.len(), Relaxed);
        }
        if let Some(to) = due.map(|a| a as usize % s.alive.len()) {
            if to != me && Self::runnable(&s, to) {
                self.hand_over(s, me, to)
            }
        }
    }

    /// The running actor would wait for a lock: let others run. Whether any
    /// could.
    pub fn lock_wait(&self, me: usize) -> bool {
        let _own = Own::new();
        let mut s = self.st.lock().unwrap();
        if s.running != me {
            return false;
        }
        match Self::next(&s, me) {
            Some(to) => {
                s.seen[1] += 1;
                s.waits += 1;
                if s.waits == 1 {
                    s.since = crate::seam::real_seconds();
                } else if s.waits > 50_000 && crate::seam::real_seconds() - s.since > 4 {
                    unsafe { libc::_exit(DEADLOCK) }
                }
                self.hand_over(s, me, to);
                true
            }
            None => false,
        }
    }

    /// The resource `me` needs is held by a suspended actor: let others run.
    pub fn block(&self, me: usize) {
        let _own = Own::new();
        let mut s = self.st.lock().unwrap();
        s.blocked[me] = true;
        let n = s.alive.len();
        match (0..n).find(|&i| Self::runnable(&s, i)) {
            Some(to) => self.switch_to(&mut s, to),
            None => panic!("harness: every actor is blocked"),
        }
        while s.running != me {
            s = self.cv.wait(s).unwrap();
        }
    }

    /// Resources were released: blocked actors may try again.
    pub fn unblock_all(&self) {
        let _own = Own::new();
        let mut s = self.st.lock().unwrap();
        for b in s.blocked.iter_mut() {
            *b = false;
        }
    }

    pub fn finish(&self, me: usize) {
        let _own = Own::new();
        let mut s = self.st.lock().unwrap();
        s.alive[me] = false;
        for b in s.blocked.iter_mut() {
            *b = false;
        }
        let n = s.alive.len();
        match (0..n).find(|&i| Self::runnable(&s, i)) {
            Some(to) => self.switch_to(&mut s, to),
            None => self.switch_to(&mut s, NOBODY),
        }
    }

    /// (switches, scheduling points, hash of the interleaving), and of the
    /// stepped build: steps, accesses to static memory, lock waits, forced.
    pub fn stats(&self) -> ((u64, u64, u64), [u64; 5]) {
        let s = self.st.lock().unwrap();
        let steps = s.stepped + s.left.saturating_sub(LEFT.load(Relaxed));
        ((s.switches, s.points, s.trace), [if s.left == 0 { 0 } else { steps }, s.seen[0], s.seen[1], s.seen[2], s.seen[3]])
    }
}
