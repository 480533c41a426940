//! A drop-in `std` in which every source of concurrency nondeterminism belongs to the simulator.
//!
//! rust_cp is compiled with `--extern std=<this crate>` (see ../wrap.sh), so `std::sync::atomic`,
//! `std::sync::Mutex`, `std::thread::spawn`, `std::time::Instant`, ... in its unmodified sources
//! resolve here.  Everything not overridden is the real std.  Outside a running simulation each
//! item behaves like the real one used by a single thread.
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;

    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use ::std::sync::atomic as real;
        use ::std::sync::atomic::Ordering::SeqCst;
        use simrt::{mem, yield_point, Site};

        pub fn fence(o: Ordering) {
            if simrt::active() {
                yield_point(Site::Atomic);
                mem::fence(o)
            } else {
                real::fence(o)
            }
        }

        macro_rules! common {
            ($name:ident, $t:ty, $to:expr, $from:expr) => {
                pub struct $name {
                    v: real::$name,
                    loc: mem::Loc,
                }
                impl $name {
                    pub const fn new(x: $t) -> Self {
                        Self { v: real::$name::new(x), loc: mem::Loc::new() }
                    }
                    fn now(&self) -> u64 {
                        ($to)(self.v.load(SeqCst))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        yield_point(Site::Atomic);
                        ($from)(mem::load(&self.loc, self.now(), o))
                    }
                    pub fn store(&self, x: $t, o: Ordering) {
                        yield_point(Site::Atomic);
                        mem::store(&self.loc, self.now(), ($to)(x), o);
                        self.v.store(x, SeqCst)
                    }
                    fn rmw(&self, o: Ordering, f: impl FnOnce($t) -> $t) -> $t {
                        yield_point(Site::Atomic);
                        let old = self.v.load(SeqCst);
                        let new = f(old);
                        mem::rmw(&self.loc, ($to)(old), Some(($to)(new)), o);
                        self.v.store(new, SeqCst);
                        old
                    }
                    pub fn swap(&self, x: $t, o: Ordering) -> $t {
                        self.rmw(o, |_| x)
                    }
                    pub fn compare_exchange(&self, cur: $t, new: $t, ok: Ordering, err: Ordering) -> Result<$t, $t> {
                        yield_point(Site::Atomic);
                        let old = self.v.load(SeqCst);
                        if old == cur {
                            mem::rmw(&self.loc, ($to)(old), Some(($to)(new)), ok);
                            self.v.store(new, SeqCst);
                            Ok(old)
                        } else {
                            mem::rmw(&self.loc, ($to)(old), None, err);
                            Err(old)
                        }
                    }
                    pub fn compare_exchange_weak(&self, cur: $t, new: $t, ok: Ordering, err: Ordering) -> Result<$t, $t> {
                        if mem::spurious() {
                            let old = self.load(err);
                            if old == cur {
                                return Err(old);
                            }
                        }
                        self.compare_exchange(cur, new, ok, err)
                    }
                    #[allow(deprecated)]
                    pub fn compare_and_swap(&self, cur: $t, new: $t, o: Ordering) -> $t {
                        let e = if o == Ordering::SeqCst { SeqCst } else { Ordering::Relaxed };
                        match self.compare_exchange(cur, new, o, e) {
                            Ok(x) | Err(x) => x,
                        }
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<$t, $t> {
                        let mut prev = self.load(fetch);
                        while let Some(next) = f(prev) {
                            match self.compare_exchange_weak(prev, next, set, fetch) {
                                x @ Ok(_) => return x,
                                Err(p) => prev = p,
                            }
                        }
                        Err(prev)
                    }
                    pub fn as_ptr(&self) -> *mut $t {
                        self.v.as_ptr()
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.loc.forget();
                        self.v.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.v.into_inner()
                    }
                }
                impl ::std::fmt::Debug for $name {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                        self.v.fmt(f)
                    }
                }
                impl ::std::convert::From<$t> for $name {
                    fn from(x: $t) -> Self {
                        Self::new(x)
                    }
                }
            };
        }
        macro_rules! int {
            ($($name:ident $t:ty),*) => { $(
                common!($name, $t, |x: $t| x as u64, |x: u64| x as $t);
                impl ::std::default::Default for $name {
                    fn default() -> Self { Self::new(0) }
                }
                impl $name {
                    pub fn fetch_add(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.wrapping_add(x)) }
                    pub fn fetch_sub(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.wrapping_sub(x)) }
                    pub fn fetch_and(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v & x) }
                    pub fn fetch_or(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v | x) }
                    pub fn fetch_xor(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v ^ x) }
                    pub fn fetch_max(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.max(x)) }
                    pub fn fetch_min(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.min(x)) }
                }
            )* };
        }
        int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
             AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
        common!(AtomicBool, bool, |x: bool| x as u64, |x: u64| x != 0);
        impl AtomicBool {
            pub fn fetch_and(&self, x: bool, o: Ordering) -> bool {
                self.rmw(o, |v| v & x)
            }
            pub fn fetch_or(&self, x: bool, o: Ordering) -> bool {
                self.rmw(o, |v| v | x)
            }
            pub fn fetch_xor(&self, x: bool, o: Ordering) -> bool {
                self.rmw(o, |v| v ^ x)
            }
            pub fn fetch_not(&self, o: Ordering) -> bool {
                self.rmw(o, |v| !v)
            }
        }
        pub struct AtomicPtr<T> {
            v: real::AtomicPtr<T>,
            loc: mem::Loc,
        }
        impl<T> AtomicPtr<T> {
            pub const fn new(p: *mut T) -> Self {
                AtomicPtr { v: real::AtomicPtr::new(p), loc: mem::Loc::new() }
            }
            fn now(&self) -> u64 {
                self.v.load(SeqCst) as usize as u64
            }
            pub fn load(&self, o: Ordering) -> *mut T {
                yield_point(Site::Atomic);
                mem::load(&self.loc, self.now(), o) as usize as *mut T
            }
            pub fn store(&self, p: *mut T, o: Ordering) {
                yield_point(Site::Atomic);
                mem::store(&self.loc, self.now(), p as usize as u64, o);
                self.v.store(p, SeqCst)
            }
            pub fn swap(&self, p: *mut T, o: Ordering) -> *mut T {
                yield_point(Site::Atomic);
                mem::rmw(&self.loc, self.now(), Some(p as usize as u64), o);
                self.v.swap(p, SeqCst)
            }
            pub fn compare_exchange(&self, cur: *mut T, new: *mut T, ok: Ordering, err: Ordering) -> Result<*mut T, *mut T> {
                yield_point(Site::Atomic);
                let old = self.v.load(SeqCst);
                if old == cur {
                    mem::rmw(&self.loc, old as usize as u64, Some(new as usize as u64), ok);
                    self.v.store(new, SeqCst);
                    Ok(old)
                } else {
                    mem::rmw(&self.loc, old as usize as u64, None, err);
                    Err(old)
                }
            }
            pub fn compare_exchange_weak(&self, cur: *mut T, new: *mut T, ok: Ordering, err: Ordering) -> Result<*mut T, *mut T> {
                if mem::spurious() {
                    let old = self.load(err);
                    if old == cur {
                        return Err(old);
                    }
                }
                self.compare_exchange(cur, new, ok, err)
            }
            pub fn get_mut(&mut self) -> &mut *mut T {
                self.loc.forget();
                self.v.get_mut()
            }
            pub fn into_inner(self) -> *mut T {
                self.v.into_inner()
            }
        }
        impl<T> ::std::default::Default for AtomicPtr<T> {
            fn default() -> Self {
                Self::new(::std::ptr::null_mut())
            }
        }
        impl<T> ::std::fmt::Debug for AtomicPtr<T> {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                self.v.fmt(f)
            }
        }
        impl ::std::default::Default for AtomicBool {
            fn default() -> Self {
                Self::new(false)
            }
        }
    }

    use ::std::cell::UnsafeCell;
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync::atomic::{AtomicBool as RealBool, AtomicU8 as RealU8, Ordering::SeqCst};
    pub use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
    use simrt::{yield_point, RawLock, Site};

    fn res<G>(g: G, poisoned: bool) -> LockResult<G> {
        if poisoned {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }

    macro_rules! lock_type {
        ($lock:ident) => {
            pub struct $lock<T: ?Sized> {
                raw: RawLock,
                poison: RealBool,
                v: UnsafeCell<T>,
            }
            impl<T> $lock<T> {
                pub const fn new(v: T) -> Self {
                    Self { raw: RawLock::new(), poison: RealBool::new(false), v: UnsafeCell::new(v) }
                }
                pub fn into_inner(self) -> LockResult<T> {
                    let p = self.poison.load(SeqCst);
                    res(self.v.into_inner(), p)
                }
            }
            impl<T: ?Sized> $lock<T> {
                pub fn is_poisoned(&self) -> bool {
                    self.poison.load(SeqCst)
                }
                pub fn clear_poison(&self) {
                    self.poison.store(false, SeqCst)
                }
                pub fn get_mut(&mut self) -> LockResult<&mut T> {
                    let p = self.poison.load(SeqCst);
                    res(self.v.get_mut(), p)
                }
            }
            impl<T: Default> Default for $lock<T> {
                fn default() -> Self {
                    Self::new(T::default())
                }
            }
            impl<T> From<T> for $lock<T> {
                fn from(v: T) -> Self {
                    Self::new(v)
                }
            }
            impl<T: ?Sized> fmt::Debug for $lock<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str(stringify!($lock))
                }
            }
            unsafe impl<T: ?Sized + Send> Send for $lock<T> {}
            impl<T: ?Sized> ::std::panic::UnwindSafe for $lock<T> {}
            impl<T: ?Sized> ::std::panic::RefUnwindSafe for $lock<T> {}
        };
    }
    lock_type!(Mutex);
    lock_type!(RwLock);
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

    macro_rules! guard_type {
        ($guard:ident, $lock:ident, mutable: $m:tt) => {
            pub struct $guard<'a, T: ?Sized> {
                l: &'a $lock<T>,
                panicking: bool,
                _not_send: ::std::marker::PhantomData<*const ()>,
            }
            unsafe impl<T: ?Sized + Sync> Sync for $guard<'_, T> {}
            impl<T: ?Sized> Deref for $guard<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    unsafe { &*self.l.v.get() }
                }
            }
            impl<T: ?Sized> Drop for $guard<'_, T> {
                fn drop(&mut self) {
                    if $m && !self.panicking && ::std::thread::panicking() {
                        self.l.poison.store(true, SeqCst);
                    }
                    self.l.raw.unlock();
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $guard<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
            impl<T: ?Sized + fmt::Display> fmt::Display for $guard<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
        };
    }
    guard_type!(MutexGuard, Mutex, mutable: true);
    guard_type!(RwLockWriteGuard, RwLock, mutable: true);
    guard_type!(RwLockReadGuard, RwLock, mutable: false);
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.l.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.l.v.get() }
        }
    }
    macro_rules! acquire {
        ($lock:ident, $guard:ident, $f:ident, $tf:ident, $raw:ident, $rawtry:ident) => {
            impl<T: ?Sized> $lock<T> {
                pub fn $f(&self) -> LockResult<$guard<'_, T>> {
                    self.raw.$raw();
                    let g = $guard { l: self, panicking: ::std::thread::panicking(), _not_send: ::std::marker::PhantomData };
                    res(g, self.poison.load(SeqCst))
                }
                pub fn $tf(&self) -> TryLockResult<$guard<'_, T>> {
                    yield_point(Site::Lock);
                    if !self.raw.$rawtry() {
                        return Err(TryLockError::WouldBlock);
                    }
                    let g = $guard { l: self, panicking: ::std::thread::panicking(), _not_send: ::std::marker::PhantomData };
                    if self.poison.load(SeqCst) {
                        Err(TryLockError::Poisoned(PoisonError::new(g)))
                    } else {
                        Ok(g)
                    }
                }
            }
        };
    }
    acquire!(Mutex, MutexGuard, lock, try_lock, write, try_write);
    acquire!(RwLock, RwLockWriteGuard, write, try_write, write, try_write);
    acquire!(RwLock, RwLockReadGuard, read, try_read, read, try_read);

    /// Wakes everybody on notify (spurious wake-ups are allowed).
    pub struct Condvar {
        ev: RawLock,
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar { ev: RawLock::new() }
        }
        pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let l = g.l;
            drop(g);
            self.ev.wait_event();
            l.lock()
        }
        pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut *g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        pub fn notify_one(&self) {
            self.ev.notify()
        }
        pub fn notify_all(&self) {
            self.ev.notify()
        }
    }
    impl Default for Condvar {
        fn default() -> Self {
            Self::new()
        }
    }

    /// 0 new, 1 done, 2 poisoned.
    pub struct Once {
        raw: RawLock,
        st: RealU8,
    }
    impl Once {
        pub const fn new() -> Self {
            Once { raw: RawLock::new(), st: RealU8::new(0) }
        }
        pub fn is_completed(&self) -> bool {
            yield_point(Site::Lock);
            let done = self.st.load(SeqCst) == 1;
            if done {
                self.raw.observe();
            }
            done
        }
        fn run(&self, force: bool, f: impl FnOnce()) {
            self.raw.write();
            struct Un<'a>(&'a Once, u8);
            impl Drop for Un<'_> {
                fn drop(&mut self) {
                    self.0.st.store(self.1, SeqCst);
                    self.0.raw.unlock();
                }
            }
            let s = self.st.load(SeqCst);
            let mut un = Un(self, s);
            if s == 1 {
                return;
            }
            if s == 2 && !force {
                panic!("Once instance has previously been poisoned");
            }
            un.1 = 2;
            f();
            un.1 = 1;
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            self.run(false, f)
        }
    }

    pub struct OnceLock<T> {
        once: Once,
        v: UnsafeCell<Option<T>>,
    }
    unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
    unsafe impl<T: Send> Send for OnceLock<T> {}
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock { once: Once::new(), v: UnsafeCell::new(None) }
        }
        pub fn get(&self) -> Option<&T> {
            if self.once.is_completed() {
                unsafe { (*self.v.get()).as_ref() }
            } else {
                None
            }
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.v.get_mut().as_mut()
        }
        pub fn set(&self, x: T) -> Result<(), T> {
            let mut x = Some(x);
            self.once.run(true, || unsafe { *self.v.get() = x.take() });
            match x {
                None => Ok(()),
                Some(x) => Err(x),
            }
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            if let Some(x) = self.get() {
                return x;
            }
            let mut f = Some(f);
            self.once.run(true, || {
                let x = (f.take().unwrap())();
                unsafe { *self.v.get() = Some(x) }
            });
            self.get().unwrap()
        }
        pub fn into_inner(self) -> Option<T> {
            self.v.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            let x = self.v.get_mut().take();
            self.once = Once::new();
            x
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: Clone> Clone for OnceLock<T> {
        fn clone(&self) -> Self {
            let c = Self::new();
            if let Some(x) = self.get() {
                let _ = c.set(x.clone());
            }
            c
        }
    }
    impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.get().fmt(f)
        }
    }

    pub struct LazyLock<T, F = fn() -> T> {
        cell: OnceLock<T>,
        init: UnsafeCell<Option<F>>,
    }
    unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            LazyLock { cell: OnceLock::new(), init: UnsafeCell::new(Some(f)) }
        }
        pub fn force(this: &Self) -> &T {
            this.cell.get_or_init(|| {
                let f = unsafe { (*this.init.get()).take() };
                f.expect("LazyLock instance has previously been poisoned")()
            })
        }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        simrt::yield_point(simrt::Site::Atomic)
    }
}

pub mod thread {
    pub use ::std::thread::*;
    use ::std::time::Duration;

    pub fn yield_now() {
        simrt::yield_point(simrt::Site::Atomic)
    }
    pub fn sleep(_: Duration) {
        simrt::yield_point(simrt::Site::Atomic)
    }
    pub struct JoinHandle<T>(simrt::JoinHandle<T>);
    impl<T> JoinHandle<T> {
        pub fn join(self) -> Result<T> {
            self.0.join()
        }
        pub fn is_finished(&self) -> bool {
            self.0.is_finished()
        }
    }
    pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
        JoinHandle(simrt::spawn(f))
    }
}

pub mod time {
    pub use ::std::time::*;
    use ::std::ops::{Add, AddAssign, Sub, SubAssign};

    /// Simulated monotonic clock: one microsecond per scheduling point.
    #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct Instant(Duration);
    impl Instant {
        pub fn now() -> Self {
            Instant(Duration::from_micros(simrt::now()))
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
            self.0.checked_sub(o.0)
        }
        pub fn elapsed(&self) -> Duration {
            Self::now().duration_since(*self)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(d).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            self.0.checked_sub(d).map(Instant)
        }
    }
    impl Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    impl Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            Instant(self.0 - d)
        }
    }
    impl Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.duration_since(o)
        }
    }
    impl AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            self.0 += d
        }
    }
    impl SubAssign<Duration> for Instant {
        fn sub_assign(&mut self, d: Duration) {
            self.0 -= d
        }
    }
}
