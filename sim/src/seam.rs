//! Seams: OS randomness, heap accounting, and the callbacks the library makes
//! into caller code (hashers, readers, writers).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::{Relaxed, SeqCst}};
use std::sync::Arc;

use crate::rng::mix2;
use crate::sched::{Baton, HEAP_LEFT, LEFT};

// ---------------------------------------------------------------- randomness

static OS_SEED: AtomicU64 = AtomicU64::new(0);
static OS_CALLS: AtomicU64 = AtomicU64::new(0);

/// What the "operating system" returns as random bytes from now on.
pub fn set_os_randomness(seed: u64) {
    OS_SEED.store(seed, SeqCst);
    OS_CALLS.store(0, SeqCst);
}


/// Interposes libc's getrandom: std seeds `RandomState` (once per thread)
/// through it.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let call = OS_CALLS.fetch_add(1, SeqCst);
    let seed = OS_SEED.load(SeqCst);
    for i in 0..len {
        *buf.add(i) = mix2(seed, call.wrapping_mul(4096) + i as u64) as u8;
    }
    len as isize
}

/// Simulated clock and process number: 0 means the real ones.
static CLOCK: AtomicU64 = AtomicU64::new(0);
static CLOCK_CALLS: AtomicU64 = AtomicU64::new(0);

/// From now on this process has a clock, a number and a memory layout that
/// differ with `seed`. `layout` says whether addresses are disturbed too.
pub fn become_process(seed: u64, layout: bool) {
    CLOCK_CALLS.store(0, SeqCst);
    CLOCK.store(mix2(seed, 11) | 1, SeqCst);
    if layout {
        for i in 0..mix2(seed, 12) % 40 {
            let n = 16 << (mix2(seed, 100 + i) % 13);
            std::mem::forget(Vec::<u8>::with_capacity(n as usize + 8 * i as usize));
        }
        // Threads get other numbers, and the environment reads differently.
        for _ in 0..mix2(seed, 14) % 4 {
            let _ = std::thread::spawn(|| ()).join();
        }
        for (i, k) in ["HOSTNAME", "USER", "LANG", "PWD", "RUST_LOG", "RUST_BACKTRACE", "RUST_MIN_STACK"].iter().enumerate() {
            match mix2(seed, 20 + i as u64) {
                v if v % 3 == 0 => std::env::remove_var(k),
                v => std::env::set_var(k, (v % 1000).to_string()),
            }
        }
        let pages = 1 + mix2(seed, 13) % 300;
        unsafe {
            libc::mmap(
                std::ptr::null_mut(), pages as usize * 4096, libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0,
            );
        }
    }
}

/// Interposes libc's clock_gettime: std's clocks go through it.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    let c = CLOCK.load(SeqCst);
    if c == 0 {
        return libc::syscall(libc::SYS_clock_gettime, id, ts) as i32;
    }
    // Uneven steps of up to 2 ms.
    let n = CLOCK_CALLS.fetch_add(1, SeqCst);
    let ns = (c % 1_000_000_000_000_000) + n * 1_000_000 + mix2(c, n) % 1_000_000;
    (*ts).tv_sec = (1_000_000_000 + ns / 1_000_000_000) as libc::time_t;
    (*ts).tv_nsec = (ns % 1_000_000_000) as _;
    0
}

/// The real clock.
pub fn real_seconds() -> i64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec
    }
}

/// Interposes libc's sched_getaffinity: std's available_parallelism asks it.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: usize, mask: *mut libc::cpu_set_t) -> i32 {
    let c = CLOCK.load(SeqCst);
    if c == 0 {
        return if libc::syscall(libc::SYS_sched_getaffinity, pid, size, mask) < 0 { -1 } else { 0 };
    }
    std::ptr::write_bytes(mask as *mut u8, 0, size);
    for i in 0..1 + mix2(c, 2) % 64 {
        libc::CPU_SET(i as usize, &mut *mask);
    }
    0
}

/// Interposes libc's getpid: std::process::id goes through it.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    match CLOCK.load(SeqCst) {
        0 => libc::syscall(libc::SYS_getpid) as libc::pid_t,
        c => (2 + mix2(c, 1) % 4_000_000) as libc::pid_t,
    }
}

// ---------------------------------------------------------------- allocator

pub struct Counting;

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static LAST: Cell<i64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn account(delta: i64) {
    let _ = TRACK.try_with(|t| {
        if t.get() {
            LIVE.with(|l| {
                let v = l.get() + delta;
                l.set(v);
                PEAK.with(|p| {
                    if v > p.get() {
                        p.set(v)
                    }
                });
            });
        }
    });
}

// Memory that runs out: (allocations to let pass, smallest size, failures).
thread_local! {
    static FAIL: Cell<(u32, u64, u32)> = const { Cell::new((0, 0, 0)) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
}

/// Shared with the process that forked this one: whether memory ran out.
pub static FAILED_PAGE: std::sync::atomic::AtomicPtr<u64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

pub fn fail_allocations(f: Option<(u32, u64, u32)>) {
    FAIL.set(f.unwrap_or((0, 0, 0)));
    FAILED.set(0);
}

/// How many allocations failed since the above was called.
pub fn allocations_failed() -> u64 {
    FAILED.get()
}

fn fails(size: usize) -> bool {
    let hit = FAIL.try_with(|f| {
        let (skip, min, times) = f.get();
        if times == 0 || (size as u64) < min || !TRACK.get() {
            return false;
        }
        f.set(if skip > 0 { (skip - 1, min, times) } else { (0, min, times - 1) });
        skip == 0
    });
    if hit != Ok(true) {
        return false;
    }
    FAILED.set(FAILED.get() + 1);
    let page = FAILED_PAGE.load(SeqCst);
    if !page.is_null() {
        unsafe { page.write_volatile(1) };
    }
    true
}

// What the library allocates comes from a heap at an address of its own, so
// that the addresses it sees depend on the seed alone: where blocks lie, how
// they are aligned beyond what was asked for, and which block is used again.
const ARENA: usize = 0x2000_0000_0000;
pub const ARENA_SIZE: usize = 3 << 30;

struct Arena {
    next: usize,
    blocks: u64,
    free: [usize; 256],
}

static ARENA_SEED: AtomicU64 = AtomicU64::new(0);
static ARENA_LOCK: AtomicBool = AtomicBool::new(false);
static mut HEAP: Arena = Arena { next: 0, blocks: 0, free: [0; 256] };

/// From now on the library's blocks come from a heap laid out by `seed`.
pub fn start_arena(seed: u64) {
    unsafe {
        let p = libc::mmap(
            ARENA as *mut _, ARENA_SIZE, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0,
        );
        if p as usize != ARENA {
            crate::runner::die("no place for the library's heap");
        }
        HEAP.next = ARENA + (mix2(seed, 0) % (1 << 16)) as usize * 16;
    }
    ARENA_SEED.store(seed | 1, SeqCst);
}

/// Size class of a block, and how large its blocks are.
fn class(size: usize) -> (usize, usize) {
    if size <= 512 {
        let c = size.max(1).div_ceil(16);
        return (c, c * 16);
    }
    // Four to every doubling.
    let step = (size - 1).ilog2() as usize - 2;
    let n = (size - 1 >> step) + 1;
    (33 + (step - 7) * 4 + n - 5, n << step)
}

unsafe fn arena_alloc(l: Layout, zeroed: bool) -> Option<*mut u8> {
    let seed = ARENA_SEED.load(SeqCst);
    if seed == 0 || l.align() > 16 || l.size() >= ARENA_SIZE / 4 || !TRACK.try_with(|t| t.get()).unwrap_or(false) {
        return None;
    }
    let (c, size) = class(l.size());
    while ARENA_LOCK.swap(true, SeqCst) {
        std::hint::spin_loop();
    }
    let heap = &mut *(&raw mut HEAP);
    heap.blocks += 1;
    let r = mix2(seed, heap.blocks);
    let (mut p, mut used) = (heap.free[c], true);
    // Mostly the block freed last, sometimes the one before, or a new one.
    if p != 0 {
        let before = *(p as *const usize);
        if r & 31 == 1 && size <= 4096 {
            p = 0;
        } else if r & 7 == 0 && before != 0 {
            *(p as *mut usize) = *(before as *const usize);
            p = before;
        } else {
            heap.free[c] = before;
        }
    }
    if p == 0 {
        used = false;
        let gap = if size < 1 << 16 { r >> 8 & 3 } else { r >> 8 & 255 };
        p = heap.next + gap as usize * 16;
        heap.next = p + size;
        if heap.next > ARENA + ARENA_SIZE {
            heap.next = p;
            p = 0;
        }
    }
    ARENA_LOCK.store(false, SeqCst);
    if p == 0 {
        return None;
    }
    forget_accesses(p, size);
    if used && zeroed {
        std::ptr::write_bytes(p as *mut u8, 0, l.size());
    }
    Some(p as *mut u8)
}

fn in_arena(p: *mut u8) -> bool {
    (ARENA..ARENA + ARENA_SIZE).contains(&(p as usize))
}

unsafe fn arena_free(p: *mut u8, l: Layout) {
    let (c, _) = class(l.size());
    while ARENA_LOCK.swap(true, SeqCst) {
        std::hint::spin_loop();
    }
    let heap = &mut *(&raw mut HEAP);
    *(p as *mut usize) = heap.free[c];
    heap.free[c] = p as usize;
    ARENA_LOCK.store(false, SeqCst);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if fails(l.size()) {
            return std::ptr::null_mut();
        }
        account(l.size() as i64);
        match arena_alloc(l, false) {
            Some(p) => p,
            None => System.alloc(l),
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if fails(l.size()) {
            return std::ptr::null_mut();
        }
        account(l.size() as i64);
        match arena_alloc(l, true) {
            Some(p) => p,
            None => System.alloc_zeroed(l),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        if in_arena(p) {
            arena_free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && fails(n) {
            return std::ptr::null_mut();
        }
        // A moving realloc holds both blocks for a moment.
        account(n as i64);
        account(-(l.size() as i64));
        if !in_arena(p) {
            return System.realloc(p, l, n);
        }
        if class(l.size()).0 == class(n).0 {
            return p;
        }
        let to = Layout::from_size_align_unchecked(n, l.align());
        let q = match arena_alloc(to, false) {
            Some(q) => q,
            None => System.alloc(to),
        };
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            arena_free(p, l);
        }
        q
    }
}

/// Heap effect of one call into the library: (net bytes, peak above start).
#[derive(Clone, Copy, Default, Debug)]
pub struct Heap {
    pub net: i64,
    pub peak: i64,
}

/// What the last tracked call of this thread kept, even if it unwound.
pub fn last_net() -> i64 {
    LAST.get()
}

/// What a call that unwinds from caller code seems to free: the exception.
pub fn unwinding_net() -> i64 {
    thread_local!(static NET: Cell<Option<i64>> = const { Cell::new(None) });
    NET.get().unwrap_or_else(|| {
        let _ = std::panic::catch_unwind(|| tracked(|| untracked(|| std::panic::panic_any(Injected))));
        NET.set(Some(last_net()));
        last_net()
    })
}

/// Runs a call into the library, attributing its heap traffic.
pub fn tracked<R>(f: impl FnOnce() -> R) -> (R, Heap) {
    let (t0, l0, p0) = (TRACK.get(), LIVE.get(), PEAK.get());
    LIVE.set(0);
    PEAK.set(0);
    TRACK.set(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    TRACK.set(false);
    let h = Heap { net: LIVE.get(), peak: PEAK.get() };
    LAST.set(h.net);
    LIVE.set(l0);
    PEAK.set(p0);
    TRACK.set(t0);
    match r {
        Ok(r) => (r, h),
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// Harness code running inside a library call: not the library's memory.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let t0 = TRACK.replace(false);
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            TRACK.set(self.0)
        }
    }
    let _r = Restore(t0);
    f()
}

// ---------------------------------------------------------------- callbacks

pub use hllcore::{callback, Stage, ARMED};

/// Payload of an injected failure of caller code.
pub struct Injected;

#[derive(Default)]
pub struct Ctx {
    /// Thread baton and actor number, when run under the thread scheduler.
    pub baton: Option<(Arc<Baton>, usize)>,
    /// Panic at this stage after so many callbacks of it.
    pub inject: Option<(u8, u32)>,
    /// Call to make from inside the next hashing callback.
    pub nested: Option<Box<dyn FnOnce()>>,
    pub fired: BTreeMap<&'static str, u64>,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

pub fn with_ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let r = f(&mut c);
        ARMED.set(c.baton.is_some() || c.inject.is_some() || c.nested.is_some());
        r
    })
}

#[no_mangle]
fn hllsim_callback(stage: Stage) {
    untracked(|| callback_slow(stage))
}

#[cold]
fn callback_slow(stage: Stage) {
    let (baton, nested, fire) = with_ctx(|c| {
        let mut fire = false;
        if let Some((s, n)) = c.inject {
            if s == stage as u8 {
                if n == 0 {
                    c.inject = None;
                    fire = true;
                } else {
                    c.inject = Some((s, n - 1));
                }
            }
        }
        let nested = if matches!(stage, Stage::IoWrite | Stage::IoRead) {
            None
        } else {
            c.nested.take()
        };
        (c.baton.clone(), nested, fire)
    });
    if let Some((b, me)) = baton {
        b.yield_point(me);
    }
    if let Some(f) = nested {
        f();
    }
    if fire {
        with_ctx(|c| {
            *c.fired
                .entry(match stage {
                    Stage::Build => "panic_in_build_hasher",
                    Stage::Write => "panic_in_hash",
                    Stage::Finish => "panic_in_finish",
                    Stage::IoWrite => "panic_in_writer",
                    Stage::IoRead => "panic_in_reader",
                })
                .or_default() += 1
        });
        std::panic::panic_any(Injected);
    }
}

// ------------------------------------------------------------ stepped build

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline(always)]
fn step() {
    let n = LEFT.load(Relaxed);
    if n == 0 || !TRACK.get() {
        return;
    }
    LEFT.store(n - 1, Relaxed);
    if n == 1 {
        step_slow()
    }
}

#[cold]
fn step_slow() {
    // No baton here: not a run of threads, or a thread of the library's.
    untracked(|| match with_ctx(|c| c.baton.clone()) {
        Some((b, me)) => b.step_point(me),
        None => LEFT.store(1, Relaxed),
    })
}

#[inline(always)]
fn access(p: usize, write: bool) {
    step();
    let (a, b) = (&raw const __data_start as usize, &raw const _end as usize);
    if p >= a && p < b {
        if LEFT.load(Relaxed) != 0 && TRACK.get() {
            access_slow(|b, me| b.shared_point(me))
        }
    } else if p.wrapping_sub(ARENA) < ARENA_SIZE && LEFT.load(Relaxed) != 0 && TRACK.get() {
        heap_access(p, write)
    }
}

// Which actor accessed a place of the library's heap last. Once one accesses
// what another has, to change it or after a change, every access to it is a
// point where the plan may switch, as long as the block is not freed. Only
// the actor that has the baton gets here.
struct Place {
    at: usize,
    /// Actor and one.
    who: u8,
    wrote: bool,
    shared: bool,
}

const PLACES: usize = 1 << 15;
static mut PLACE: [Place; PLACES] = [const { Place { at: 0, who: 0, wrote: false, shared: false } }; PLACES];

thread_local! {
    static ACTOR: Cell<u8> = const { Cell::new(0) };
}

/// This thread is that actor of a run of threads.
pub fn act_as(me: usize) {
    ACTOR.set(me as u8 + 1);
}

/// The block there belongs to somebody else now.
fn forget_accesses(p: usize, size: usize) {
    if ACTOR.try_with(|a| a.get()).unwrap_or(0) == 0 || size > 4096 {
        return;
    }
    for at in p >> 3..p + size >> 3 {
        unsafe {
            let place = &mut (*(&raw mut PLACE))[(at ^ at >> 15) % PLACES];
            if place.at == at {
                place.at = 0;
            }
        }
    }
}

fn heap_access(p: usize, write: bool) {
    let me = ACTOR.get();
    if me == 0 {
        return;
    }
    let at = p >> 3;
    let place = unsafe { &mut (*(&raw mut PLACE))[(at ^ at >> 15) % PLACES] };
    if place.at != at {
        *place = Place { at, who: me, wrote: write, shared: false };
        return;
    }
    place.shared |= place.who != me && (write || place.wrote);
    place.who = me;
    place.wrote |= write;
    if place.shared && HEAP_LEFT.load(Relaxed) {
        access_slow(|b, me| b.heap_point(me))
    }
}

#[cold]
fn access_slow(point: fn(&Baton, usize)) {
    untracked(|| {
        if let Some((b, me)) = with_ctx(|c| c.baton.clone()) {
            point(&b, me)
        }
    })
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    step()
}

macro_rules! accesses {
    ($w:literal $($f:ident)*) => { $(#[no_mangle] pub extern "C" fn $f(p: usize) { access(p, $w) })* }
}

accesses!(
    false
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
);
accesses!(
    true
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
);

/// Interposes libc's syscall, through which std's locks wait: the thread that
/// has the baton and waits for a lock lets the others run and looks again.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    const WAIT: usize = libc::FUTEX_WAIT as usize;
    const WAIT_BITSET: usize = libc::FUTEX_WAIT_BITSET as usize;
    if n == libc::SYS_futex as usize && matches!(b & 0x7f, WAIT | WAIT_BITSET) && crate::sched::passes() {
        let passed = untracked(|| with_ctx(|c| c.baton.clone()).is_some_and(|(b, me)| b.lock_wait(me)));
        if passed {
            *libc::__errno_location() = libc::EINTR;
            return -1;
        }
    }
    let mut r: isize;
    std::arch::asm!(
        "syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _,
    );
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        r = -1;
    }
    r
}
