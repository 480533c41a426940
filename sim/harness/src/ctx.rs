//! What scenarios use while they run inside the simulated process.
use crate::plan::{Op, K, KINDS, NESTED};
use simrt::probe::Set;
use simrt::{RawLock, Report, Site, SITES};
use std::any::Any;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// The payload of an injected unwinding.
pub struct Injected;

static STATS: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
thread_local! {
    static ARMED: Cell<(u8, u32)> = const { Cell::new((255, 0)) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

pub fn stat(name: &'static str) {
    stat_n(name, 1)
}
pub fn stat_n(name: &'static str, n: u64) {
    let _off = Set::to(false);
    *STATS.lock().unwrap_or_else(|p| p.into_inner()).entry(name).or_insert(0) += n;
}
pub fn stats() -> BTreeMap<&'static str, u64> {
    STATS.lock().unwrap_or_else(|p| p.into_inner()).clone()
}

const UNWIND: [&str; 11] = [
    "unwind_in_combine",
    "unwind_in_map",
    "unwind_in_compose",
    "unwind_in_predicate",
    "unwind_in_add",
    "unwind_in_compare",
    "unwind_in_clone",
    "unwind_in_parse",
    "unwind_in_body",
    "unwind_in_identity",
    "unwind_in_format",
];

/// Every piece of user code handed to the library calls this first: it is a scheduling point and a
/// place where the simulator may unwind.
pub fn cb(k: K) {
    if !simrt::active() || QUIET.with(|q| q.get()) > 0 {
        return;
    }
    let _off = Set::to(false);
    simrt::yield_point(Site::Callback);
    cb_at_once(k)
}
/// The same without the scheduling point, for user code called with a real lock held.
pub fn cb_at_once(k: K) {
    let (ak, n) = ARMED.with(|a| a.get());
    if ak == k as u8 {
        if n <= 1 {
            ARMED.with(|a| a.set((255, 0)));
            FIRED.with(|f| f.set(true));
            stat(UNWIND[k as usize]);
            if simrt::trace_on() {
                simrt::say!("    T{} unwinds out of user code: {}", simrt::tid(), KINDS[k as usize]);
            }
            resume_unwind(Box::new(Injected));
        }
        ARMED.with(|a| a.set((ak, n - 1)));
    } else if ak == NESTED {
        if n & 0xff > 1 {
            ARMED.with(|a| a.set((ak, n - 1)));
        } else {
            nested(n >> 8);
        }
    }
}

thread_local! { static INLINE: Cell<bool> = const { Cell::new(false) }; }
/// User code uses the library itself: another whole plan, within this callback.
fn nested(seed: u32) {
    stat("nested_uses");
    if simrt::trace_on() {
        simrt::say!("    T{} uses the library inside user code", simrt::tid());
    }
    let fired = FIRED.with(|f| f.get());
    let last = LAST_PANIC.with(|l| l.borrow().clone());
    ARMED.with(|a| a.set((255, 0)));
    INLINE.with(|i| i.set(true));
    crate::scen::together::nested(seed);
    INLINE.with(|i| i.set(false));
    ARMED.with(|a| a.set((255, 0)));
    FIRED.with(|f| f.set(fired));
    LAST_PANIC.with(|l| *l.borrow_mut() = last);
}

/// Runs harness code in which `cb` does nothing.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            QUIET.with(|q| q.set(q.get() - 1));
        }
    }
    QUIET.with(|q| q.set(q.get() + 1));
    let _g = G;
    f()
}

/// Long calls in which nothing can interleave are not worth their scheduling points.
pub fn quiet_if<T>(c: bool, f: impl FnOnce() -> T) -> T {
    if c {
        quiet(f)
    } else {
        f()
    }
}

pub enum R<T> {
    Done(T),
    /// The injected unwinding came back out.
    Injected,
    /// Some other panic.
    Panicked(String),
}
impl<T> R<T> {
    /// The value of a call that must complete.
    pub fn must(self, what: &str) -> T {
        match self {
            R::Done(x) => x,
            R::Injected => fail("stray-unwind", format!("{} unwound without a fault", what)),
            R::Panicked(m) => fail("unexpected-panic", format!("{} panicked: {}", what, m)),
        }
    }
    /// The value, or None if the injected fault came out; any other panic is a violation.
    pub fn unless_injected(self, what: &str) -> Option<T> {
        match self {
            R::Done(x) => Some(x),
            R::Injected => None,
            R::Panicked(m) => fail("unexpected-panic", format!("{} panicked: {}", what, m)),
        }
    }
    pub fn completed(&self) -> bool {
        matches!(self, R::Done(_))
    }
}

fn classify<T>(r: Result<T, Box<dyn Any + Send>>) -> R<T> {
    match r {
        Ok(x) => R::Done(x),
        Err(e) => match e.downcast::<Injected>() {
            Ok(_) => R::Injected,
            Err(e) => {
                let m = LAST_PANIC.with(|l| l.borrow().clone());
                let m = if !m.is_empty() {
                    m
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "non-string panic".into()
                };
                R::Panicked(m)
            }
        },
    }
}

/// Calls into the library with the operation's fault armed.
pub fn call<T>(fault: Option<(u8, u32)>, f: impl FnOnce() -> T) -> R<T> {
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    FIRED.with(|x| x.set(false));
    ARMED.with(|a| a.set(fault.unwrap_or((255, 0))));
    let on = Set::to(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    drop(on);
    let r = classify(r);
    ARMED.with(|a| a.set((255, 0)));
    if FIRED.with(|x| x.get()) {
        if let R::Done(_) = r {
            fail("unwind-swallowed", "user code unwound but the call returned normally".into());
        }
        if let R::Panicked(m) = &r {
            fail("unwind-replaced", format!("user code unwound but the caller received another panic: {}", m));
        }
    }
    r
}

/// A call that must be refused, with a panic.
pub fn refused<T>(what: &str, f: impl FnOnce() -> T) {
    if call(None, f).completed() {
        fail("not-refused", format!("{} answered instead of refusing", what));
    }
}

pub fn set_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _off = Set::to(false);
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = format!("{} ({})", m, loc));
    }));
}

/// Reports a violation and ends the simulated process.
pub fn fail(class: &str, msg: String) -> ! {
    std::mem::forget(Set::to(false));
    let rep = if simrt::active() {
        simrt::report()
    } else {
        Report { steps: 0, hash: 0, switches: [0; SITES], points: [0; SITES], stale_loads: 0, lock_waits: 0, longest_stall: 0, taken: BTreeMap::new(), threads: 0, ihash: 0, probed: 0 }
    };
    crate::engine::child_fail(class, msg, rep)
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond { $crate::ctx::fail($class, format!($($arg)*)) }
    };
}
#[macro_export]
macro_rules! trace {
    ($($arg:tt)*) => {
        if simrt::trace_on() {
            let _off = simrt::probe::Set::to(false);
            simrt::say!("  T{}: {}", simrt::tid(), format!($($arg)*))
        }
    };
}

/// A system under test with its reference model behind a simulated reader/writer lock.
/// Only the thread holding the baton runs, so this is safe whatever `T` contains.
pub struct Shared<T, M> {
    lock: RawLock,
    t: UnsafeCell<T>,
    m: UnsafeCell<M>,
}
unsafe impl<T, M> Sync for Shared<T, M> {}
unsafe impl<T, M> Send for Shared<T, M> {}
struct Unlock<'a>(&'a RawLock);
impl Drop for Unlock<'_> {
    fn drop(&mut self) {
        self.0.unlock()
    }
}
impl<T, M> Shared<T, M> {
    pub fn new(t: T, m: M) -> Self {
        Shared { lock: RawLock::new(), t: UnsafeCell::new(t), m: UnsafeCell::new(m) }
    }
    pub fn into_parts(self) -> (T, M) {
        (self.t.into_inner(), self.m.into_inner())
    }
    pub fn write<R>(&self, f: impl FnOnce(&mut T, &mut M) -> R) -> R {
        self.lock.write();
        let _u = Unlock(&self.lock);
        unsafe { f(&mut *self.t.get(), &mut *self.m.get()) }
    }
    pub fn read<R>(&self, f: impl FnOnce(&T, &M) -> R) -> R {
        self.lock.read();
        let _u = Unlock(&self.lock);
        unsafe { f(&*self.t.get(), &*self.m.get()) }
    }
}

/// A value moved into a simulated thread whatever its type.
pub struct Send_<T>(pub T);
unsafe impl<T> Send for Send_<T> {}
impl<T> Send_<T> {
    pub fn get(self) -> T {
        self.0
    }
}

/// Runs one caller thread per operation list and joins them all.
pub fn callers<S: 'static>(state: std::sync::Arc<S>, threads: &[Vec<Op>], step: fn(&S, usize, &Op)) {
    if INLINE.with(|i| i.get()) {
        for (i, ops) in threads.iter().enumerate() {
            for o in ops {
                simrt::yield_point(Site::Op);
                step(&state, i, o);
            }
        }
        return;
    }
    let mut hs = vec![];
    for (i, ops) in threads.iter().enumerate() {
        let st = Send_((state.clone(), ops.clone()));
        hs.push(simrt::spawn(move || {
            let (st, ops) = st.get();
            for o in &ops {
                simrt::yield_point(Site::Op);
                stat("ops");
                step(&st, i, o);
            }
        }));
    }
    for h in hs {
        if let Err(e) = h.join() {
            let m = match classify::<()>(Err(e)) {
                R::Panicked(m) => m,
                _ => "injected".into(),
            };
            fail("caller-died", format!("a caller thread panicked: {}", m));
        }
    }
}

/// Runs recursive library code where the stack is deep enough for any structure.
pub fn deep<T>(f: impl FnOnce() -> T) -> T {
    let mut out = None;
    let job: Box<dyn FnOnce() + '_> = Box::new(|| out = Some(f()));
    // Joined before anything it borrows goes away.
    let job = Send_(unsafe { std::mem::transmute::<Box<dyn FnOnce() + '_>, Box<dyn FnOnce() + 'static>>(job) });
    if let Err(e) = simrt::spawn_with(256 << 20, move || job.get()()).join() {
        resume_unwind(e);
    }
    out.unwrap()
}
pub fn deep_if<T>(c: bool, f: impl FnOnce() -> T) -> T {
    if c {
        deep(f)
    } else {
        f()
    }
}

pub fn h64<T: std::hash::Hash>(x: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    std::hash::Hasher::finish(&h)
}
/// Logs an operation's result.
pub fn ev<T: std::hash::Hash>(x: &T) {
    simrt::event(h64(x));
}

/// Like `call`, for calls whose own user code may catch the injected unwinding.
pub fn call_catching<T>(fault: Option<(u8, u32)>, f: impl FnOnce() -> T) -> R<T> {
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    ARMED.with(|a| a.set(fault.unwrap_or((255, 0))));
    let on = Set::to(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    drop(on);
    let r = classify(r);
    ARMED.with(|a| a.set((255, 0)));
    r
}
