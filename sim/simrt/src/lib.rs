//! Deterministic simulation runtime.
//!
//! Simulated threads are real OS threads, but exactly one of them runs at any moment: every other
//! one is parked until the scheduler hands it the baton.  Which thread runs after a scheduling
//! point, and which store an atomic load returns when the memory ordering leaves a choice, are
//! *decisions*.  A decision is drawn from a PRNG seeded per run, or taken from an explicit list
//! when replaying.  Every decision has a benign default (0), so a run is completely described by
//! its plan plus the list of non-default decisions.
//!
//! Nothing here reads a clock, an address or any other source of entropy.

pub mod mem;
pub mod probe;

use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::thread::Thread;

/// A small deterministic PRNG (splitmix64).
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n` (`n > 0`).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True with probability `num/den`.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
}

pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = h.rotate_left(5) ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 32)
}

/// Where a scheduling point comes from.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Site {
    Op = 0,
    Callback = 1,
    Atomic = 2,
    Lock = 3,
    Thread = 4,
    /// A plain memory access made by the library (probed builds only).
    Memory = 5,
}
pub const SITES: usize = 6;
pub const SITE_NAMES: [&str; SITES] = ["op", "callback", "atomic", "lock", "thread", "memory"];

#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    /// At every point switch with probability num/1024.
    Random { num: u64 },
    /// Probabilistic concurrency testing: random priorities, `changes` demotion points within `span` steps.
    Pct { changes: u64, span: u64 },
    /// Always move on to the next runnable thread.
    RoundRobin,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Schedule {
    Seeded { seed: u64, policy: Policy, stale_num: u64 },
    /// Non-default decisions: decision index -> chosen option.
    Explicit(BTreeMap<u64, u32>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum State {
    Runnable,
    Blocked(usize),
    Finished,
}

struct Th {
    state: State,
    go: Arc<AtomicBool>,
    handle: Option<Thread>,
    prio: u64,
    view: mem::View,
    acq_pending: mem::View,
    rel_fence: mem::View,
    /// Step at which this thread last ran.
    last_ran: u64,
}

pub struct Inner {
    th: Vec<Th>,
    pub steps: u64,
    max_steps: u64,
    decisions: u64,
    taken: BTreeMap<u64, u32>,
    schedule: Schedule,
    rng: Rng,
    change_points: Vec<u64>,
    low_prio: u64,
    pub hash: u64,
    /// Hash of the interleaving alone: who runs after each scheduling point.
    ihash: u64,
    pub switches: [u64; SITES],
    pub points: [u64; SITES],
    pub stale_loads: u64,
    pub lock_waits: u64,
    pub longest_stall: u64,
    next_lock: usize,
    mem: mem::Memory,
    fail: FailFn,
    trace: bool,
}

/// Called with the violation class, a message and the run so far; must not return.
pub type FailFn = fn(&str, String, Report) -> !;

static RT: Mutex<Option<Box<Inner>>> = Mutex::new(None);
const NONE: usize = usize::MAX;
thread_local! { static TID: Cell<usize> = const { Cell::new(NONE) }; }

pub fn tid() -> usize {
    TID.try_with(|t| t.get()).unwrap_or(NONE)
}
/// Is the calling thread a simulated thread of a running simulation?
pub fn active() -> bool {
    tid() != NONE
}

fn with<R>(f: impl FnOnce(&mut Inner) -> R) -> R {
    let _off = probe::Set::to(false);
    let mut g = match RT.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    f(g.as_mut().expect("no simulation"))
}

impl Inner {
    /// What `me` has seen and done so far, for others to acquire.
    fn publish(&mut self, me: usize) -> mem::View {
        let v = self.th[me].view.clone();
        self.th[me].view.tick(me);
        v
    }

    fn fail(&self, class: &str, msg: String) -> ! {
        (self.fail)(class, msg, self.report())
    }

    fn report(&self) -> Report {
        Report {
            steps: self.steps,
            hash: self.hash,
            ihash: self.ihash,
            switches: self.switches,
            points: self.points,
            stale_loads: self.stale_loads,
            lock_waits: self.lock_waits,
            longest_stall: self.longest_stall,
            taken: self.taken.clone(),
            threads: self.th.len(),
            probed: probe::count(),
        }
    }

    /// Takes one decision among `n` options; 0 is the benign default.
    fn decide(&mut self, n: usize, choose: impl FnOnce(&mut Self) -> usize) -> usize {
        let idx = self.decisions;
        self.decisions += 1;
        let v = match &self.schedule {
            Schedule::Explicit(m) => (m.get(&idx).copied().unwrap_or(0) as usize).min(n - 1),
            _ => choose(self),
        };
        if v != 0 {
            self.taken.insert(idx, v as u32);
        }
        v
    }

    fn step(&mut self) {
        self.steps += 1;
        if self.steps > self.max_steps {
            self.fail("no-progress", format!("more than {} scheduling points in one run", self.max_steps));
        }
    }

    /// Chooses who runs next.
    fn pick(&mut self, me: usize) -> usize {
        let mut opts: Vec<usize> = Vec::with_capacity(self.th.len());
        if self.th[me].state == State::Runnable {
            opts.push(me);
        }
        for t in 0..self.th.len() {
            if t != me && self.th[t].state == State::Runnable {
                opts.push(t);
            }
        }
        match opts.len() {
            0 => {
                let states: Vec<_> = self.th.iter().map(|t| t.state).collect();
                self.fail("deadlock", format!("no runnable thread: {:?}", states))
            }
            1 => return opts[0],
            _ => {}
        }
        let n = opts.len();
        let staying = opts[0] == me;
        let o2 = opts.clone();
        let v = self.decide(n, move |rt| {
            let policy = match &rt.schedule {
                Schedule::Seeded { policy, .. } => policy.clone(),
                _ => unreachable!(),
            };
            match policy {
                Policy::Random { num } => {
                    if !staying {
                        rt.rng.below(n as u64) as usize
                    } else if rt.rng.below(1024) < num {
                        1 + rt.rng.below(n as u64 - 1) as usize
                    } else {
                        0
                    }
                }
                Policy::Pct { .. } => {
                    if rt.change_points.contains(&rt.steps) {
                        rt.low_prio -= 1;
                        rt.th[me].prio = rt.low_prio;
                    }
                    (0..n).max_by_key(|&i| rt.th[o2[i]].prio).unwrap()
                }
                Policy::RoundRobin => {
                    let want = o2.iter().copied().filter(|&t| t > me).min().unwrap_or(*o2.iter().min().unwrap());
                    o2.iter().position(|&t| t == want).unwrap()
                }
            }
        });
        opts[v]
    }

    fn hand_to(&mut self, me: usize, next: usize, site: Site) {
        self.hash = mix(self.hash, 0x5157_0000 + next as u64);
        self.switches[site as usize] += 1;
        let s = self.steps;
        self.th[me].last_ran = s;
        let stall = s - self.th[next].last_ran;
        if stall > self.longest_stall {
            self.longest_stall = stall;
        }
        if self.trace {
            say!("    [step {:>4}] switch T{} -> T{} (at {} point)", s, me, next, SITE_NAMES[site as usize]);
        }
        let t = &self.th[next];
        t.go.store(true, SeqCst);
        if let Some(h) = &t.handle {
            h.unpark();
        }
    }
}

fn wait_go(me: usize) {
    let go = with(|rt| rt.th[me].go.clone());
    while !go.swap(false, SeqCst) {
        std::thread::park();
    }
    // Whoever handed over by ending must really be gone: its thread-locals are dropped and its memory
    // given back while nobody else runs.
    let left = LEAVING.swap(0, SeqCst);
    if left != 0 {
        unsafe {
            while tgkill(getpid(), left, 0) == 0 {
                sched_yield();
            }
        }
    }
}
static LEAVING: AtomicI32 = AtomicI32::new(0);
extern "C" {
    fn getpid() -> i32;
    fn gettid() -> i32;
    fn tgkill(group: i32, thread: i32, signal: i32) -> i32;
    fn sched_yield() -> i32;
}

/// A scheduling point: the scheduler may run somebody else here.
pub fn yield_point(site: Site) {
    let me = tid();
    if me == NONE {
        return;
    }
    let switched = with(|rt| {
        rt.step();
        rt.points[site as usize] += 1;
        let n = rt.pick(me);
        rt.ihash = mix(rt.ihash, (n as u64) << 3 | site as u64);
        if n != me {
            rt.hand_to(me, n, site);
            true
        } else {
            false
        }
    });
    if switched {
        wait_go(me);
    }
}

fn block_on(me: usize, key: usize) {
    with(|rt| {
        rt.step();
        rt.lock_waits += 1;
        rt.th[me].state = State::Blocked(key);
        let n = rt.pick(me);
        rt.hand_to(me, n, Site::Lock);
    });
    wait_go(me);
}

fn wake_all(rt: &mut Inner, key: usize) {
    for t in rt.th.iter_mut() {
        if t.state == State::Blocked(key) {
            t.state = State::Runnable;
        }
    }
}

/// Lock ids 0..=0xFFFF are reserved for joins.
fn fresh_lock(rt: &mut Inner) -> usize {
    rt.next_lock += 1;
    rt.next_lock
}

/// A raw reader/writer lock scheduled by the simulator.  Works as a plain flag outside a simulation.
pub struct RawLock {
    id: std::sync::atomic::AtomicUsize,
    /// -1 writer, otherwise number of readers.
    st: std::sync::atomic::AtomicIsize,
    view: Mutex<mem::View>,
}
impl RawLock {
    pub const fn new() -> Self {
        RawLock {
            id: std::sync::atomic::AtomicUsize::new(0),
            st: std::sync::atomic::AtomicIsize::new(0),
            view: Mutex::new(mem::View::new()),
        }
    }
    fn id(&self) -> usize {
        if self.id.load(SeqCst) == 0 {
            let v = with(fresh_lock);
            self.id.store(v, SeqCst);
        }
        self.id.load(SeqCst)
    }
    pub fn try_write(&self) -> bool {
        if self.st.load(SeqCst) == 0 {
            self.st.store(-1, SeqCst);
            self.acquired();
            true
        } else {
            false
        }
    }
    pub fn try_read(&self) -> bool {
        let s = self.st.load(SeqCst);
        if s >= 0 {
            self.st.store(s + 1, SeqCst);
            self.acquired();
            true
        } else {
            false
        }
    }
    /// Acquires what the last holder released, without taking the lock.
    pub fn observe(&self) {
        self.acquired()
    }
    fn acquired(&self) {
        let me = tid();
        if me != NONE {
            let v = self.view.lock().unwrap_or_else(|p| p.into_inner()).clone();
            with(|rt| rt.th[me].view.join(&v));
        }
    }
    pub fn write(&self) {
        let me = tid();
        if me == NONE {
            assert!(self.try_write(), "lock contended outside a simulation");
            return;
        }
        yield_point(Site::Lock);
        while !self.try_write() {
            block_on(me, self.id());
        }
    }
    pub fn read(&self) {
        let me = tid();
        if me == NONE {
            assert!(self.try_read(), "lock contended outside a simulation");
            return;
        }
        yield_point(Site::Lock);
        while !self.try_read() {
            block_on(me, self.id());
        }
    }
    pub fn unlock(&self) {
        let me = tid();
        let s = self.st.load(SeqCst);
        self.st.store(if s < 0 { 0 } else { s - 1 }, SeqCst);
        if me != NONE {
            let id = self.id();
            with(|rt| {
                let mv = rt.publish(me);
                self.view.lock().unwrap_or_else(|p| p.into_inner()).join(&mv);
                wake_all(rt, id);
            });
        }
    }
    /// Blocks until somebody calls `notify` on this lock's id (used for condition variables).
    pub fn wait_event(&self) {
        let me = tid();
        if me != NONE {
            block_on(me, self.id());
            self.acquired();
        }
    }
    pub fn notify(&self) {
        let me = tid();
        if me != NONE {
            let id = self.id();
            with(|rt| {
                let mv = rt.publish(me);
                self.view.lock().unwrap_or_else(|p| p.into_inner()).join(&mv);
                wake_all(rt, id);
            });
        }
    }
}

pub struct JoinHandle<T> {
    t: usize,
    os: std::thread::JoinHandle<std::thread::Result<T>>,
}

/// Spawns a simulated thread (must be called from one).
pub fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> {
    // What std gives a thread.
    spawn_with(2 << 20, f)
}
pub fn spawn_with<T: Send + 'static>(stack: usize, f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> {
    let me = tid();
    assert!(me != NONE, "simrt::spawn outside a simulation");
    let go = Arc::new(AtomicBool::new(false));
    let t = with(|rt| {
        let prio = 1_000_000 + rt.rng.below(1_000_000);
        let mut view = rt.publish(me);
        view.tick(rt.th.len());
        probe::several(true);
        let s = rt.steps;
        rt.th.push(Th {
            state: State::Runnable,
            go: go.clone(),
            handle: None,
            prio,
            view,
            acq_pending: mem::View::new(),
            rel_fence: mem::View::new(),
            last_ran: s,
        });
        rt.th.len() - 1
    });
    let (born, parent) = (Arc::new(AtomicBool::new(false)), std::thread::current());
    let alive = born.clone();
    let os = std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || {
            TID.with(|c| c.set(t));
            probe::stack_top();
            // Born: from here on this thread does nothing until it is its turn.
            born.store(true, SeqCst);
            parent.unpark();
            wait_go(t);
            drop((born, parent));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            TID.with(|c| c.set(NONE));
            with(|rt| {
                rt.step();
                rt.th[t].state = State::Finished;
                wake_all(rt, usize::MAX - t);
                let n = rt.pick(t);
                LEAVING.store(unsafe { gettid() }, SeqCst);
                rt.hand_to(t, n, Site::Thread);
            });
            r
        })
        .expect("spawn");
    while !alive.load(SeqCst) {
        std::thread::park();
    }
    with(|rt| rt.th[t].handle = Some(os.thread().clone()));
    yield_point(Site::Thread);
    JoinHandle { t, os }
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        let me = tid();
        loop {
            let done = with(|rt| rt.th[self.t].state == State::Finished);
            if done {
                break;
            }
            block_on(me, usize::MAX - self.t);
        }
        with(|rt| {
            let v = rt.th[self.t].view.clone();
            rt.th[me].view.join(&v);
        });
        match self.os.join() {
            Ok(r) => r,
            Err(e) => Err(e),
        }
    }
    pub fn is_finished(&self) -> bool {
        with(|rt| rt.th[self.t].state == State::Finished)
    }
}

/// Adds `x` to the run's event log (kept as a running hash).
pub fn event(x: u64) {
    if active() {
        with(|rt| rt.hash = mix(rt.hash, x));
    }
}
/// The global event sequence number, for stamping histories.
pub fn seq() -> u64 {
    with(|rt| rt.mem.next_seq())
}
/// The simulated clock: one tick per scheduling point.
pub fn now() -> u64 {
    if active() {
        with(|rt| rt.steps)
    } else {
        0
    }
}
static SAY: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(2);
/// Sends the trace of a run to another descriptor, when descriptor 2 is part of the simulation.
pub fn say_to(fd: i32) {
    SAY.store(fd, std::sync::atomic::Ordering::SeqCst);
}
pub fn say_line(mut s: String) {
    extern "C" {
        fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    }
    s.push('\n');
    unsafe { write(SAY.load(std::sync::atomic::Ordering::SeqCst), s.as_ptr().cast(), s.len()) };
}
#[macro_export]
macro_rules! say {
    ($($a:tt)*) => { $crate::say_line(format!($($a)*)) };
}
pub fn trace_on() -> bool {
    active() && with(|rt| rt.trace)
}

pub struct Report {
    pub steps: u64,
    pub hash: u64,
    pub ihash: u64,
    pub switches: [u64; SITES],
    pub points: [u64; SITES],
    pub stale_loads: u64,
    pub lock_waits: u64,
    pub longest_stall: u64,
    pub taken: BTreeMap<u64, u32>,
    pub threads: usize,
    /// Plain accesses of the library examined for races.
    pub probed: u64,
}

/// What has happened so far.
pub fn report() -> Report {
    with(|rt| rt.report())
}

/// Runs `main` as simulated thread 0 and every thread it spawns under `schedule`.
pub fn run(schedule: Schedule, probe: Option<(u64, u64)>, max_steps: u64, trace: bool, fail: FailFn, main: impl FnOnce()) -> Report {
    let (seed, cp) = match &schedule {
        Schedule::Seeded { seed, policy, .. } => {
            let mut r = Rng::new(seed ^ 0xC0FFEE);
            let cp = match policy {
                Policy::Pct { changes, span } => (0..*changes).map(|_| 1 + r.below(*span)).collect(),
                _ => vec![],
            };
            (*seed, cp)
        }
        _ => (0, vec![]),
    };
    let mut rng = Rng::new(seed);
    let p0 = 1_000_000 + rng.below(1_000_000);
    let inner = Inner {
        th: vec![Th {
            state: State::Runnable,
            go: Arc::new(AtomicBool::new(false)),
            handle: Some(std::thread::current()),
            prio: p0,
            view: mem::View::new(),
            acq_pending: mem::View::new(),
            rel_fence: mem::View::new(),
            last_ran: 0,
        }],
        steps: 0,
        max_steps,
        decisions: 0,
        taken: BTreeMap::new(),
        schedule,
        rng,
        change_points: cp,
        low_prio: 1000,
        hash: 0,
        ihash: 0,
        switches: [0; SITES],
        points: [0; SITES],
        stale_loads: 0,
        lock_waits: 0,
        longest_stall: 0,
        next_lock: 0x10000,
        mem: mem::Memory::new(),
        fail,
        trace,
    };
    *RT.lock().unwrap_or_else(|p| p.into_inner()) = Some(Box::new(inner));
    with(|rt| rt.th[0].view.tick(0));
    TID.with(|c| c.set(0));
    probe::start(probe);
    main();
    // Let stragglers finish.
    loop {
        let alive = with(|rt| rt.th.iter().skip(1).position(|t| t.state != State::Finished));
        match alive {
            None => break,
            Some(i) => block_on(0, usize::MAX - (i + 1)),
        }
    }
    let r = report();
    TID.with(|c| c.set(NONE));
    *RT.lock().unwrap_or_else(|p| p.into_inner()) = None;
    r
}
