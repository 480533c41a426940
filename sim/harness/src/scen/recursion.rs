//! Self-calling closures against ordinary recursion.
use super::*;
use crate::ctx::{call_catching, cb, deep_if, ev, stat, Injected, Send_, R};
use crate::plan::K;
use crate::{check, trace};
use rust_cp::misc::recursive_function::*;
use simrt::{mix, Site};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// From here on a budget is for one long chain.
const DEEPER: i64 = 1000;

thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
/// An argument that is counted: it must be dropped exactly once.
struct A(i64);
impl A {
    fn new(x: i64) -> A {
        LIVE.with(|l| l.set(l.get() + 1));
        A(x)
    }
}
impl Drop for A {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}

/// The state a closure captures.
#[derive(Clone, Debug, PartialEq, Default)]
struct State {
    calls: u64,
    value: u64,
    log: Vec<u64>,
}
struct Kid {
    args: Vec<i64>,
    caught: bool,
}
struct Frame {
    acc: u64,
    kids: Vec<Kid>,
}
/// The first half of every body: record the call, decide whom to call.
fn begin(st: &mut State, args: &[i64], shape: u64, limit: u64) -> Frame {
    st.calls += 1;
    let h = args.iter().fold(mix(shape, st.calls), |h, &a| mix(h, a as u64));
    st.log.push(h);
    st.value = mix(st.value, h);
    let mut kids = vec![];
    if st.calls < limit {
        let n = match shape % 4 {
            0 => 1,
            1 => h % 3,
            2 => 1 + h % 2,
            _ => h % 4,
        };
        for k in 0..n {
            let g = mix(h, k);
            let rot = g as usize % args.len().max(1);
            let step = (g >> 20) as i64 % 5 - 2;
            let args = (0..args.len()).map(|i| args[(i + rot) % args.len()].wrapping_mul(3).wrapping_add(step * (i as i64 + 1))).collect();
            kids.push(Kid { args, caught: !shape.is_multiple_of(16) && (g >> 40) % 5 == 0 });
        }
    }
    Frame { acc: h, kids }
}
/// What follows each inner call.
fn after(st: &mut State, acc: u64, r: u64) -> u64 {
    st.value = mix(st.value, r);
    st.log.push(r);
    mix(acc, r)
}
const CAUGHT: u64 = 0xCA06_0417;
fn caught(r: std::thread::Result<u64>) -> u64 {
    match r {
        Ok(x) => x,
        Err(e) if e.is::<Injected>() => CAUGHT,
        Err(e) => resume_unwind(e),
    }
}

/// The ordinary recursive function the closures denote; unwinding is `Err`.
fn plain(st: &mut State, args: &[i64], shape: u64, limit: u64, nth: &mut u32) -> Result<u64, ()> {
    match *nth {
        0 => {}
        1 => {
            *nth = 0;
            return Err(());
        }
        _ => *nth -= 1,
    }
    let mut fr = begin(st, args, shape, limit);
    for kid in std::mem::take(&mut fr.kids) {
        let r = plain(st, &kid.args, shape, limit, nth);
        let r = if kid.caught { r.unwrap_or(CAUGHT) } else { r? };
        fr.acc = after(st, fr.acc, r);
    }
    Ok(fr.acc)
}

macro_rules! arg_type {
    ($a:ident) => {
        A
    };
}
macro_rules! body {
    ($call:ident ($($a:ident)*) $acc:expr, $shape:expr, $limit:expr) => {
        |rec: &mut dyn $call<$(arg_type!($a),)* u64> $(, $a: A)*| -> u64 {
            cb(K::Body);
            let args: Vec<i64> = vec![$($a.0),*];
            let mut fr = begin($acc, &args, $shape, $limit.get());
            for kid in std::mem::take(&mut fr.kids) {
                #[allow(unused_variables, unused_mut)]
                let mut it = kid.args.iter();
                let r = if kid.caught {
                    caught(catch_unwind(AssertUnwindSafe(|| rec.call($({ let _ = stringify!($a); A::new(*it.next().unwrap()) }),*))))
                } else {
                    rec.call($({ let _ = stringify!($a); A::new(*it.next().unwrap()) }),*)
                };
                fr.acc = after($acc, fr.acc, r);
            }
            fr.acc
        }
    };
}
macro_rules! arity {
    ($g:expr, $rf:ident $call:ident $($a:ident)*) => {{
        let g: &mut Group = $g;
        let limit = Cell::new(0u64);
        let shape = g.shape;
        macro_rules! calls {
            ($f:ident, $look:expr) => {
                let mut i = 0;
                while i < g.calls.len() {
                    let (o, args) = g.before(i, &limit);
                    #[allow(unused_variables, unused_mut)]
                    let mut it = args.into_iter();
                    let r = call_catching(o.fault, || $f.call($({ let _ = stringify!($a); A::new(it.next().unwrap()) }),*));
                    #[allow(clippy::redundant_closure_call)]
                    g.after(&o, r, if g.repeats == 0 { ($look)() } else { None });
                    i += (g.repeats == 0) as usize;
                }
            };
        }
        match g.style {
            0 => {
                let cell = RefCell::new(State::default());
                let mut f = $rf::new(body!($call ($($a)*) &mut *cell.borrow_mut(), shape, limit));
                calls!(f, || Some(cell.borrow().clone()));
            }
            1 => {
                let rc = Rc::new(RefCell::new(State::default()));
                let mine = rc.clone();
                let limit = &limit;
                let mut f = $rf::new(move_body!($call ($($a)*) &mut *mine.borrow_mut(), shape, limit));
                calls!(f, || Some(rc.borrow().clone()));
            }
            2 => {
                let mut st = State::default();
                {
                    let s = &mut st;
                    let mut f = $rf::new(body!($call ($($a)*) &mut *s, shape, limit));
                    calls!(f, || None::<State>);
                }
                g.finally(st);
            }
            _ => {
                // Boxed and called through the trait object.
                let cell = RefCell::new(State::default());
                let mut f: Box<dyn $call<$(arg_type!($a),)* u64> + '_> = Box::new($rf::new(body!($call ($($a)*) &mut *cell.borrow_mut(), shape, limit)));
                calls!(f, || Some(cell.borrow().clone()));
            }
        }
    }};
}
macro_rules! move_body {
    ($call:ident ($($a:ident)*) $acc:expr, $shape:expr, $limit:expr) => {
        move |rec: &mut dyn $call<$(arg_type!($a),)* u64> $(, $a: A)*| -> u64 {
            (body!($call ($($a)*) $acc, $shape, $limit))(rec $(, $a)*)
        }
    };
}

/// One closure and everything one caller does with it, next to the ordinary function.
struct Group {
    n: usize,
    style: i64,
    shape: u64,
    calls: Vec<Op>,
    want: RefCell<State>,
    limit: u64,
    expected: Option<Result<u64, ()>>,
    /// How often the present call is still to be repeated.
    repeats: i64,
}
impl Group {
    fn before(&mut self, i: usize, limit: &Cell<u64>) -> (Op, Vec<i64>) {
        let o = self.calls[i].clone();
        if self.repeats > 0 {
            self.repeats -= 1;
        } else {
            simrt::yield_point(Site::Op);
            stat("ops");
            self.repeats = o.arg(12).clamp(0, if o.fault.is_none() { LONGEST } else if cfg!(debug_assertions) { 300 } else { 3000 });
            if self.repeats > 0 {
                stat("bursts");
            }
        }
        if self.repeats < 3 {
            trace!("RfCall arity {} style {} {:?} fault {:?} repeats {}", self.n, self.style, o.a, o.fault, self.repeats);
        }
        let args: Vec<i64> = (0..self.n).map(|j| o.arg(1 + j)).collect();
        self.limit = self.want.borrow().calls + if o.arg(0) >= DEEPER { o.arg(0).min(LONGEST) } else { o.arg(0).rem_euclid(400) } as u64;
        limit.set(self.limit);
        let mut nth = o.fault.map_or(0, |f| f.1);
        self.expected = Some(plain(&mut self.want.borrow_mut(), &args, self.shape, self.limit, &mut nth));
        (o, args)
    }
    fn after(&mut self, o: &Op, got: R<u64>, seen: Option<State>) {
        match (got, self.expected.take().unwrap()) {
            (R::Done(x), Ok(y)) => same(o, &x, &y),
            (R::Injected, Err(())) => {
                stat("unwinding_reached_the_caller");
                ev(&1)
            }
            (R::Done(_), Err(())) => crate::ctx::fail("unwind-swallowed", "the body unwound but the call returned normally".into()),
            (R::Injected, Ok(_)) => crate::ctx::fail("unwind-missed-catcher", "an inner catcher should have received the unwinding".into()),
            (R::Panicked(m), _) => crate::ctx::fail("unexpected-panic", format!("a recursive call panicked: {}", m)),
        }
        let live = LIVE.with(|l| l.get());
        check!(live == 0, "argument-lifetime", "{} arguments dropped too rarely (negative: too often) after {:?}", live, o.a);
        if let Some(s) = seen {
            self.finally(s);
        }
    }
    fn finally(&self, s: State) {
        let w = self.want.borrow();
        ev(&s.value);
        check!(s == *w, "captured-state", "captured state has {} calls and {} log entries, expected {} and {}; logs differ from entry {:?}",
            s.calls, s.log.len(), w.calls, w.log.len(), s.log.iter().zip(&w.log).position(|(a, b)| a != b));
    }
    fn run(&mut self) {
        match self.n {
            0 => arity!(self, RecursiveFunction0 Callable0),
            1 => arity!(self, RecursiveFunction Callable a),
            2 => arity!(self, RecursiveFunction2 Callable2 a b),
            3 => arity!(self, RecursiveFunction3 Callable3 a b c),
            4 => arity!(self, RecursiveFunction4 Callable4 a b c d),
            5 => arity!(self, RecursiveFunction5 Callable5 a b c d e),
            6 => arity!(self, RecursiveFunction6 Callable6 a b c d e f1),
            7 => arity!(self, RecursiveFunction7 Callable7 a b c d e f1 g1),
            8 => arity!(self, RecursiveFunction8 Callable8 a b c d e f1 g1 h1),
            _ => arity!(self, RecursiveFunction9 Callable9 a b c d e f1 g1 h1 i1),
        }
    }
}

/// A `move` closure that keeps a number of its own.  The pattern of calls does not depend on it.
fn by_value(o: &Op) {
    let n = o.arg(0).rem_euclid(12);
    let k = o.arg(1).rem_euclid(3);
    let log = RefCell::new(vec![]);
    let start = o.arg(2).rem_euclid(100);
    let mut total = start;
    let l = &log;
    let mut f = RecursiveFunction::new(move |rec: &mut dyn Callable<i64, i64>, n: i64| -> i64 {
        cb(K::Body);
        l.borrow_mut().push(n);
        total += n + 1;
        if n > 0 {
            rec.call(n - 1);
            if n % 3 == k {
                total += 10;
                rec.call(n / 2);
            }
        }
        total += 1;
        total
    });
    fn plain(total: &mut i64, log: &mut Vec<i64>, n: i64, k: i64) -> i64 {
        log.push(n);
        *total += n + 1;
        if n > 0 {
            plain(total, log, n - 1, k);
            if n % 3 == k {
                *total += 10;
                plain(total, log, n / 2, k);
            }
        }
        *total += 1;
        *total
    }
    let (mut t, mut wlog) = (start, vec![]);
    let mut bad = None;
    for round in 0..2 {
        let want = plain(&mut t, &mut wlog, n, k);
        let got = call_catching(None, || f.call(n)).must("a recursive call");
        check!(*log.borrow() == wlog, "wrong-answer:RfCall", "calls received {:?}, expected {:?}", log.borrow(), wlog);
        if got != want && bad.is_none() {
            bad = Some(format!("call {} of a move closure summing into its own number returned {}, expected {}", round + 1, got, want));
        }
    }
    if let Some(m) = bad {
        crate::ctx::fail("byvalue-state", m);
    }
}

pub fn gen(rng: &mut Rng) -> Plan {
    // Known to fail in optimised builds, so kept apart and rare.
    if rng.chance(1, 200) {
        let o = op(O::RfCall, vec![rng.range(0, 11), rng.range(0, 2), rng.range(0, 99)]);
        return Plan { params: vec![1], threads: vec![vec![], vec![o]], sched: gen_sched(rng), probe: None };
    }
    let t = *rng.pick(&[1, 1, 2, 3]);
    let mut threads = vec![vec![]];
    for _ in 0..t {
        let mut v = vec![];
        for _ in 0..rng.range(1, 3) {
            let n = rng.range(0, 9);
            v.push(op(O::RfBuild, vec![n, rng.range(0, 3), word(rng)]));
            if rng.chance(1, 600) {
                // A chain without catchers that unwinds from its far end, again and again.
                let b = v.last_mut().unwrap();
                b.a[2] &= !15;
                let mut o = op(O::RfCall, vec![399]);
                o.a.resize(12, 1);
                o.a.push(if rng.chance(1, 12) { rng.range(2700, 2800) } else { rng.range(100, 300) });
                o.fault = Some((K::Body as u8, rng.range(380, 398) as u32));
                v.push(o);
            }
            if rng.chance(1, 1500) {
                // A chain deeper than 16 bits count.
                v.last_mut().unwrap().a[2] &= !15;
                let mut o = op(O::RfCall, vec![rng.range(60_000, 75_000)]);
                o.a.resize(10, 1);
                if rng.chance(1, 2) {
                    o.fault = Some((K::Body as u8, rng.range(1, 59_000) as u32));
                }
                v.push(o);
            }
            for _ in 0..rng.range(1, 5) {
                let budget = *rng.pick(&[1, 2, 5, 15, 40, 40, 300]);
                let mut a = vec![budget];
                a.extend((0..n).map(|_| val(rng)));
                let mut o = op(O::RfCall, a);
                if rng.chance(1, 60) {
                    // The same closure again and again.
                    o.a[0] = budget.min(2);
                    o.a.resize(12, 0);
                    o.a.push(huge(rng, 40).unwrap_or_else(|| *rng.pick(&[100, 254, 255, 256, 300, 1030])));
                } else if rng.chance(1, 2) {
                    o.fault = Some((K::Body as u8, rng.range(1, (budget + 2).min(50)) as u32));
                }
                v.push(o);
            }
        }
        threads.push(v);
    }
    Plan { params: vec![0], threads, sched: gen_sched(rng), probe: None }
}

fn caller(ops: &[Op]) {
    let mut i = 0;
    while i < ops.len() {
        if kind(&ops[i]) != O::RfBuild {
            i += 1;
            continue;
        }
        let b = &ops[i];
        let mut j = i + 1;
        while j < ops.len() && kind(&ops[j]) == O::RfCall {
            j += 1;
        }
        let mut g = Group {
            n: b.idx(0, 10),
            style: b.arg(1).rem_euclid(4),
            shape: b.arg(2) as u64,
            calls: ops[i + 1..j].to_vec(),
            want: RefCell::new(State::default()),
            limit: 0,
            expected: None,
            repeats: 0,
        };
        let chain = g.shape.is_multiple_of(16);
        if !chain {
            g.calls.retain(|o| o.arg(0) < DEEPER);
        }
        let deep = g.calls.iter().any(|o| o.arg(0) >= DEEPER);
        deep_if(deep, || g.run());
        i = j;
    }
}

pub fn exec(p: &Plan) {
    if p.param(0) == 1 {
        for o in p.threads.iter().flatten() {
            stat("byvalue_probe");
            by_value(o);
        }
        return;
    }
    let hs: Vec<_> = p.threads[1..]
        .iter()
        .map(|ops| {
            let ops = Send_(ops.clone());
            simrt::spawn(move || caller(&ops.get()))
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            crate::ctx::fail("caller-died", "a caller thread panicked".into());
        }
    }
}
