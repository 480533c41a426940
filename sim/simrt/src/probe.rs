//! Plain memory accesses of the library, in builds compiled with LLVM's thread-sanitizer pass (see
//! ../../wrap.sh).  The pass calls the `__tsan_*` functions below before every access.  Inside calls
//! into the library each access to anything but the caller's own stack
//!
//! * may be a scheduling point (how often is part of the plan), so that a thread can be preempted
//!   between any two accesses, and
//! * is checked against the happens-before order of the simulated synchronisation: two accesses to
//!   the same bytes, at least one a write, that nothing orders are a data race.
//!
//! Only the thread holding the baton runs, so plain statics are safe here.

use super::mem::View;
use super::{tid, with, yield_point, Rng, Site, NONE};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::Relaxed, Ordering::SeqCst};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static TOP: Cell<usize> = const { Cell::new(0) };
}
static SEVERAL: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicU64 = AtomicU64::new(0);

/// Switches probing on or off until dropped.
pub struct Set(bool);
impl Set {
    pub fn to(on: bool) -> Set {
        Set(ON.try_with(|o| o.replace(on)).unwrap_or(false))
    }
}
impl Drop for Set {
    fn drop(&mut self) {
        let _ = ON.try_with(|o| o.set(self.0));
    }
}

pub fn count() -> u64 {
    COUNT.load(Relaxed)
}
pub(super) fn several(x: bool) {
    SEVERAL.store(x, Relaxed)
}
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getattr_np(t: usize, attr: *mut [u64; 8]) -> i32;
    fn pthread_attr_getstack(attr: *const [u64; 8], at: *mut usize, size: *mut usize) -> i32;
    fn pthread_attr_destroy(attr: *mut [u64; 8]) -> i32;
}
/// Everything above the present frame in the thread's mapping is its own: frames and thread-locals.
pub(super) fn stack_top() {
    let (mut attr, mut at, mut size) = ([0u64; 8], 0, 0);
    unsafe {
        if pthread_getattr_np(pthread_self(), &mut attr) == 0 {
            pthread_attr_getstack(&attr, &mut at, &mut size);
            pthread_attr_destroy(&mut attr);
        }
    }
    TOP.with(|t| t.set(at + size));
}

#[derive(Default)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_usize(&mut self, x: usize) {
        self.0 = (x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

#[derive(Clone, Copy)]
struct Access {
    thread: u8,
    write: bool,
    /// Which bytes of the eight.
    bytes: u8,
    epoch: u32,
}
struct Probe {
    /// Preempt after so many accesses.
    left: u64,
    gap: u64,
    rng: Rng,
    points: u64,
    shadow: HashMap<usize, Vec<Access>, BuildHasherDefault<Fx>>,
    sync: HashMap<usize, View, BuildHasherDefault<Fx>>,
}
struct Cell_(UnsafeCell<Option<Probe>>);
unsafe impl Sync for Cell_ {}
static PROBE: Cell_ = Cell_(UnsafeCell::new(None));

const MOST_POINTS: u64 = 40_000;

/// `plan`: seed and gap of the preemptions at plain accesses.
pub(super) fn start(plan: Option<(u64, u64)>) {
    stack_top();
    several(false);
    let (seed, gap) = plan.unwrap_or((0, 0));
    let mut rng = Rng::new(seed);
    let left = if gap > 0 { 1 + rng.below(gap) } else { u64::MAX };
    unsafe { *PROBE.0.get() = Some(Probe { left, gap, rng, points: 0, shadow: HashMap::default(), sync: HashMap::default() }) }
}

#[inline]
fn access(addr: usize, size: usize, write: bool) {
    if !ON.with(|o| o.get()) || !SEVERAL.load(Relaxed) {
        return;
    }
    slow(addr, size, write)
}

#[inline(never)]
fn slow(addr: usize, size: usize, write: bool) {
    let here = 0u8;
    let here = std::hint::black_box(&here) as *const u8 as usize;
    if addr + 4096 > here && addr < TOP.with(|t| t.get()) {
        return;
    }
    let me = tid();
    if me == NONE {
        return;
    }
    let _off = Set::to(false);
    let Some(p) = (unsafe { &mut *PROBE.0.get() }) else { return };
    COUNT.store(COUNT.load(Relaxed) + 1, Relaxed);
    p.left -= 1;
    if p.left == 0 {
        p.points += 1;
        p.left = if p.points < MOST_POINTS { 1 + p.rng.below(p.gap) } else { u64::MAX };
        yield_point(Site::Memory);
    }
    // Somebody else may have run: look again.
    let Some(p) = (unsafe { &mut *PROBE.0.get() }) else { return };
    BUSY.with(|b| b.set(true));
    with(|rt| {
        let mine = &rt.th[me].view;
        let now = Access { thread: me as u8, write, bytes: 0, epoch: mine.of(me) };
        let (mut at, end) = (addr, addr + size);
        while at < end {
            let g = at >> 3;
            let stop = end.min((g + 1) << 3);
            let bytes = (((1u16 << (stop - at)) - 1) << (at & 7)) as u8;
            let v = p.shadow.entry(g).or_default();
            let race = v.iter().find(|a| a.bytes & bytes != 0 && (a.write || write) && a.thread != now.thread && mine.of(a.thread as usize) < a.epoch);
            if let Some(a) = race {
                let what = |w| if w { "writes" } else { "reads" };
                let text = format!("inside the library T{} {} memory that T{} {}, with nothing ordering the two; at {}", me, what(write), a.thread, what(a.write), place());
                rt.fail("data-race", text);
            }
            // Whatever races with a covered earlier access races with this one too.
            v.retain(|a| !(a.bytes & !bytes == 0 && (write || !a.write) && (a.thread == now.thread || mine.of(a.thread as usize) >= a.epoch)));
            if v.len() < 16 {
                v.push(Access { bytes, ..now });
            }
            at = stop;
        }
    });
    BUSY.with(|b| b.set(false));
}

/// The innermost function of the library on the stack.
fn place() -> String {
    let t = std::backtrace::Backtrace::force_capture().to_string();
    let f = t.lines().map(|l| l.trim()).find(|l| l.contains("rust_cp::") && !l.starts_with("at "));
    f.and_then(|l| l.split_once(": ").map(|x| x.1)).unwrap_or("an inlined function").chars().take(160).collect()
}

/// Memory that is given back forgets its history.
fn forget(addr: usize, size: usize) {
    if !SEVERAL.load(Relaxed) {
        return;
    }
    let Some(p) = (unsafe { &mut *PROBE.0.get() }) else { return };
    if BUSY.with(|b| b.replace(true)) {
        return;
    }
    let (lo, hi) = (addr >> 3, (addr + size + 7) >> 3);
    if p.shadow.len() < hi - lo {
        p.shadow.retain(|&g, _| g < lo || g >= hi);
    } else {
        for g in lo..hi {
            p.shadow.remove(&g);
        }
    }
    BUSY.with(|b| b.set(false));
}
thread_local! { static BUSY: Cell<bool> = const { Cell::new(false) }; }

/// The allocator of probed builds.
pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        forget(p as usize, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        forget(p as usize, l.size());
        System.realloc(p, l, n)
    }
}

macro_rules! hooks {
    ($($name:ident $size:expr, $write:expr;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *const u8) {
            access(p as usize, $size, $write)
        }
    )* };
}
hooks! {
    __tsan_read1 1, false; __tsan_read2 2, false; __tsan_read4 4, false; __tsan_read8 8, false; __tsan_read16 16, false;
    __tsan_write1 1, true; __tsan_write2 2, true; __tsan_write4 4, true; __tsan_write8 8, true; __tsan_write16 16, true;
    __tsan_unaligned_read2 2, false; __tsan_unaligned_read4 4, false; __tsan_unaligned_read8 8, false; __tsan_unaligned_read16 16, false;
    __tsan_unaligned_write2 2, true; __tsan_unaligned_write4 4, true; __tsan_unaligned_write8 8, true; __tsan_unaligned_write16 16, true;
    __tsan_vptr_read 8, false;
}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(p: *const u8, _: *const u8) {
    access(p as usize, 8, true)
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}

/// Atomics that are not the simulator's (inside Arc, for instance) order what is around them; they
/// are no scheduling points, because they may belong to a lock of the real std.
#[inline(never)]
fn sync(addr: usize) {
    if !ON.with(|o| o.get()) || !SEVERAL.load(Relaxed) {
        return;
    }
    let me = tid();
    if me == NONE {
        return;
    }
    let _off = Set::to(false);
    let Some(p) = (unsafe { &mut *PROBE.0.get() }) else { return };
    BUSY.with(|b| b.set(true));
    with(|rt| {
        let at = p.sync.entry(addr).or_default();
        rt.th[me].view.join(at);
        *at = rt.publish(me);
    });
    BUSY.with(|b| b.set(false));
}
macro_rules! atomics {
    ($($t:ident $a:ident $load:ident $store:ident $xchg:ident $cas:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, _: i32) -> $t {
            sync(p as usize);
            $a::from_ptr(p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) {
            sync(p as usize);
            $a::from_ptr(p).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, old: $t, new: $t, _: i32, _: i32) -> $t {
            sync(p as usize);
            $a::from_ptr(p).compare_exchange(old, new, SeqCst, SeqCst).unwrap_or_else(|x| x)
        }
        atomics!(rmw $t $a $xchg swap; $add fetch_add; $sub fetch_sub; $and fetch_and; $or fetch_or; $xor fetch_xor; $nand fetch_nand;);
    )* };
    (rmw $t:ident $a:ident $($name:ident $op:ident;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *mut $t, v: $t, _: i32) -> $t {
            sync(p as usize);
            $a::from_ptr(p).$op(v, SeqCst)
        }
    )* };
}
atomics! {
    u8 AtomicU8 __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_compare_exchange_val __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand;
    u16 AtomicU16 __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_compare_exchange_val __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand;
    u32 AtomicU32 __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_compare_exchange_val __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand;
    u64 AtomicU64 __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_compare_exchange_val __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    std::sync::atomic::fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {
    std::sync::atomic::compiler_fence(SeqCst)
}
