//! Segtree against a plain sequence.
use super::alg::{NonComm, Pred, S};
use super::*;
use crate::ctx::{refused, quiet_if, call, callers, cb, quiet, stat, Shared};
use crate::plan::K;
use crate::trace;
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::misc::monoids::{Additive, Max, Min, Multiplicative};
use rust_cp::traits::monoid::Monoid;
use std::sync::Arc;

pub type Inst = Shared<Segtree<NonComm>, Vec<S>>;

pub fn build_op(rng: &mut Rng) -> Op {
    let n = huge(rng, 2500).unwrap_or_else(|| size(rng));
    // how, n, seed, monoid, integer type
    op(O::SgBuild, vec![rng.range(0, 3), n, word(rng), 0, 0])
}
pub fn value(r: &mut Rng) -> S {
    if r.chance(1, 12) {
        S::unit()
    } else {
        S::one(r.range(-12, 12))
    }
}
/// `how` 0: new; 1: from; 2: new and set; 3: default when empty.
pub fn construct(how: i64, v: &[S]) -> Segtree<NonComm> {
    match how.rem_euclid(4) {
        x if x == 1 || v.len() > BULK => v.to_vec().into(),
        3 if v.is_empty() => Segtree::default(),
        _ => {
            let mut t = Segtree::new(v.len());
            for (i, x) in v.iter().enumerate() {
                t.set(i, x.clone());
            }
            t
        }
    }
}
pub fn build(o: &Op) -> Inst {
    let n = o.arg(1).clamp(0, LONGEST) as usize;
    let mut r = Rng::new(o.arg(2) as u64);
    let mut v: Vec<S> = (0..n).map(|_| value(&mut r)).collect();
    let t = if o.arg(0).rem_euclid(4) == 0 {
        v = vec![S::unit(); n];
        call(None, || Segtree::new(n)).must("Segtree::new")
    } else {
        quiet_if(n > 600, || call(None, || construct(o.arg(0), &v)).must("building a Segtree"))
    };
    Shared::new(t, v)
}

pub fn query_op(rng: &mut Rng, n: i64) -> Op {
    let i = rng.range(0, 3);
    match rng.below(8) {
        0 => op(O::SgGet, vec![i, pos(rng, n)]),
        1 => op(O::SgAll, vec![i]),
        2..=3 => op(O::SgProd, vec![i, pos(rng, n + 1), pos(rng, n + 1)]),
        4..=5 => op(O::SgMaxRight, vec![i, pos(rng, n + 1), rng.range(0, 4), word(rng), word(rng)]),
        _ => op(O::SgMinLeft, vec![i, pos(rng, n + 1), rng.range(0, 4), word(rng), word(rng)]),
    }
}
pub fn caller_op(rng: &mut Rng, n: i64) -> Op {
    let i = rng.range(0, 3);
    match rng.below(20) {
        0..=7 => op(O::SgSet, vec![i, pos(rng, n), val(rng), rng.chance(1, 12) as i64]),
        8 => op(O::SgRestart, vec![i, rng.range(1, 3)]),
        _ => query_op(rng, n),
    }
}
pub fn set_value(o: &Op) -> S {
    if o.arg(3) == 1 {
        S::unit()
    } else {
        S::one(o.arg(2))
    }
}

pub fn query(o: &Op, t: &Segtree<NonComm>, m: &Vec<S>) {
    let n = m.len();
    match kind(o) {
        O::SgGet => {
            if n > 0 {
                let p = o.idx(1, n);
                if let Some(x) = call(o.fault, || t.get(p)).unless_injected("get") {
                    same(o, &x, &m[p]);
                }
            }
        }
        O::SgAll => {
            if let Some(x) = call(o.fault, || t.all_prod()).unless_injected("all_prod") {
                same(o, &x, &S::fold(m));
            }
        }
        O::SgProd => {
            let (l, r) = span(o, 1, n);
            if let Some(x) = call(o.fault, || t.prod(l, r)).unless_injected("prod") {
                same(o, &x, &S::fold(&m[l..r]));
            }
        }
        O::SgMaxRight => {
            let l = o.idx(1, n + 1);
            let p = Pred::of(o.arg(2), o.arg(3), o.arg(4), m);
            if let Some(x) = call(o.fault, || t.max_right(l, |s| p.called(s))).unless_injected("max_right") {
                same(o, &x, &p.max_right(m, l));
            }
        }
        O::SgMinLeft => {
            let r = o.idx(1, n + 1);
            let p = Pred::of(o.arg(2), o.arg(3), o.arg(4), m);
            if let Some(x) = call(o.fault, || t.min_left(r, |s| p.called(s))).unless_injected("min_left") {
                same(o, &x, &p.min_left(m, r));
            }
        }
        _ => {}
    }
}

pub struct St {
    pub inst: Vec<Inst>,
}

pub fn step(st: &St, _me: usize, o: &Op) {
    if !st.inst.is_empty() {
        one(&st.inst[o.idx(0, st.inst.len())], o)
    }
}

/// One operation on one given tree.
fn one(sh: &Inst, o: &Op) {
    trace!("{} {:?}", name(o), o.a);
    match kind(o) {
        O::SgSet => sh.write(|t, m| {
            if m.is_empty() {
                return;
            }
            let p = o.idx(1, m.len());
            let x = set_value(o);
            call(None, || t.set(p, x.clone())).must("set");
            m[p] = x;
        }),
        O::SgRestart => sh.write(|t, m| {
            stat("rebuild_from_current_values");
            *t = quiet_if(m.len() > 100, || call(None, || construct(o.arg(1), m)).must("rebuilding"));
        }),
        O::SgReject => reject(sh, o),
        _ => sh.read(|t, m| query(o, t, m)),
    }
}

/// A call that must be refused and leave no trace.
fn reject(sh: &Inst, o: &Op) {
    stat("rejected_call");
    let which = o.idx(1, 7);
    if which == 0 {
        return sh.write(|t, m| {
            let p = m.len() + far(o.arg(2), m.len());
            refused("set beyond the end", || t.set(p, S::one(77)));
        });
    }
    sh.read(|t, m| {
        let n = m.len();
        let far = far(o.arg(2), n);
        let outside = [n + 1 + far, (n + 1 + far).saturating_add(1), n + far, o.idx(3, n + 1)][o.idx(4, 4)];
        match which {
            1 => refused("get beyond the end", || t.get(n + far)),
            2 => refused("prod beyond the end", || t.prod(outside, n + 1 + far)),
            3 if n > 0 => {
                let r = o.idx(3, n);
                refused("prod of an inverted range", || t.prod(r + 1 + far % (2 * n - r), r))
            }
            4 => refused("max_right beyond the end", || t.max_right(n + 1 + far, |_| true)),
            5 => refused("min_left beyond the end", || t.min_left(n + 1 + far, |_| true)),
            _ => {
                let p = Pred::rejecting();
                if far % 2 == 0 {
                    refused("max_right with a predicate false for the identity", || t.max_right(o.idx(3, n + 1), |s| p.called(s)))
                } else {
                    refused("min_left with a predicate false for the identity", || t.min_left(o.idx(3, n + 1), |s| p.called(s)))
                }
            }
        }
    })
}

pub fn audit(t: &Segtree<NonComm>, m: &Vec<S>) {
    quiet(|| {
        let n = m.len();
        for i in (0..n).step_by(1 + n / 64) {
            let got = call(None, || t.get(i)).must("get");
            crate::check!(got == m[i], "final-audit:segtree", "get({}) of {}: got {:?}, expected {:?}", i, n, got, m[i]);
            let got = call(None, || t.prod(i, n)).must("prod");
            let want = S::fold(&m[i..]);
            crate::check!(got == want, "final-audit:segtree", "prod({}, {}): got {:?}, expected {:?}", i, n, got, want);
        }
        let got = call(None, || t.all_prod()).must("all_prod");
        let want = S::fold(m);
        crate::check!(got == want, "final-audit:segtree", "all_prod of {}: got {:?}, expected {:?}", n, got, want);
    })
}

/// The integer types the library's own monoids are used over.
trait Int: Copy + Ord + std::fmt::Debug + std::hash::Hash + Send + Sync + 'static {
    const LEAST: Self;
    const MOST: Self;
    /// Sums and products have little room.
    const SHORT: bool;
    fn of(x: i64) -> Self;
    /// One less, the same, or one more.
    fn near(self, d: i64) -> Self;
    fn plus(self, o: Self) -> Self;
    fn times(self, o: Self) -> Self;
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Int for $t {
            const LEAST: Self = <$t>::MIN;
            const MOST: Self = <$t>::MAX;
            const SHORT: bool = <$t>::BITS < 32;
            fn of(x: i64) -> Self { x as $t }
            fn near(self, d: i64) -> Self {
                match d { 0 => self.saturating_sub(1), 1 => self, _ => self.saturating_add(1) }
            }
            fn plus(self, o: Self) -> Self { self.checked_add(o).expect("the plan keeps sums small") }
            fn times(self, o: Self) -> Self { self.checked_mul(o).expect("the plan keeps products small") }
        }
    )*};
}
ints!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

/// A tree over one of the library's own monoids, with a plain-value predicate `x <= t` (`up`) or `x >= t`.
struct Lib<T: Int, M: Monoid<S = T>> {
    sh: Shared<Segtree<M>, Vec<T>>,
    op: fn(T, T) -> T,
    unit: T,
    /// The fold never decreases when extended (else never increases).
    grows: bool,
    value: fn(i64) -> T,
}
/// A tree over one of the library's own monoids and some integer type.
trait AnyLib: Send + Sync {
    fn step(&self, o: &Op);
}
impl<T: Int, M: Monoid<S = T> + 'static> Lib<T, M> {
    fn boxed(o: &Op, n: usize, op: fn(T, T) -> T, unit: T, grows: bool, value: fn(i64) -> T) -> Box<dyn AnyLib> {
        let mut r = Rng::new(o.arg(2) as u64);
        let v: Vec<T> = (0..n).map(|_| value(r.range(-1000, 1000))).collect();
        let (t, v) = match o.arg(0).rem_euclid(4) {
            0 => (call(None, || Segtree::new(n)).must("Segtree::new"), vec![unit; n]),
            _ => (call(None, || v.clone().into()).must("building a Segtree"), v),
        };
        Box::new(Lib::<T, M> { sh: Shared::new(t, v), op, unit, grows, value })
    }
    fn fold(&self, v: &[T]) -> T {
        v.iter().fold(self.unit, |a, b| (self.op)(a, *b))
    }
    fn query(&self, o: &Op, t: &Segtree<M>, m: &Vec<T>) {
        let n = m.len();
        let holds = |x: T, thr: T| x == self.unit || if self.grows { x <= thr } else { x >= thr };
        match kind(o) {
            O::SgGet if n > 0 => {
                let p = o.idx(1, n);
                same(o, &call(None, || t.get(p)).must("get"), &m[p]);
            }
            O::SgAll => same(o, &call(None, || t.all_prod()).must("all_prod"), &self.fold(m)),
            O::SgProd => {
                let (l, r) = span(o, 1, n);
                same(o, &call(None, || t.prod(l, r)).must("prod"), &self.fold(&m[l..r]));
            }
            O::SgMaxRight | O::SgMinLeft => {
                let x = o.idx(1, n + 1);
                let thr = if n == 0 { T::of(0) } else { self.fold(&m[..o.idx(3, n + 1)]).near(o.idx(4, 3) as i64) };
                let pred = |s: &T| {
                    cb(K::Pred);
                    holds(*s, thr)
                };
                if kind(o) == O::SgMaxRight {
                    let mut acc = self.unit;
                    let want = (x..n)
                        .find(|&r| {
                            acc = (self.op)(acc, m[r]);
                            !holds(acc, thr)
                        })
                        .unwrap_or(n);
                    same(o, &call(None, || t.max_right(x, pred)).must("max_right"), &want);
                } else {
                    let mut acc = self.unit;
                    let want = (0..x)
                        .rev()
                        .find(|&l| {
                            acc = (self.op)(m[l], acc);
                            !holds(acc, thr)
                        })
                        .map_or(0, |l| l + 1);
                    same(o, &call(None, || t.min_left(x, pred)).must("min_left"), &want);
                }
            }
            _ => {}
        }
    }
}
impl<T: Int, M: Monoid<S = T> + 'static> AnyLib for Lib<T, M> {
    fn step(&self, o: &Op) {
        trace!("{} {:?}", name(o), o.a);
        match kind(o) {
            O::SgSet => self.sh.write(|t, m| {
                if !m.is_empty() {
                    let p = o.idx(1, m.len());
                    let x = (self.value)(o.arg(2));
                    call(None, || t.set(p, x)).must("set");
                    m[p] = x;
                }
            }),
            O::SgRestart => self.sh.write(|t, m| {
                stat("rebuild_from_current_values");
                *t = quiet_if(m.len() > 100, || call(None, || m.clone().into()).must("rebuilding"));
            }),
            _ => self.sh.read(|t, m| self.query(o, t, m)),
        }
    }
}
/// Values of the whole range of the type.
fn wide<T: Int>(x: i64) -> T {
    match x.rem_euclid(16) {
        0 => T::LEAST,
        1 => T::MOST,
        2 => T::LEAST.near(2),
        3 => T::MOST.near(0),
        _ => T::of(x),
    }
}
fn shipped<T: Int>(o: &Op) -> Box<dyn AnyLib>
where
    Max<T>: Monoid<S = T>,
    Min<T>: Monoid<S = T>,
    Additive<T>: Monoid<S = T>,
    Multiplicative<T>: Monoid<S = T>,
{
    let n = o.arg(1).clamp(0, LONGEST) as usize;
    match o.arg(3).rem_euclid(5) {
        1 => Lib::<T, Max<T>>::boxed(o, n, |a, b| a.max(b), T::LEAST, true, wide),
        2 => Lib::<T, Min<T>>::boxed(o, n, |a, b| a.min(b), T::MOST, false, wide),
        3 => Lib::<T, Additive<T>>::boxed(o, if T::SHORT { n % 60 } else { n }, T::plus, T::of(0), true, |x| T::of(x.rem_euclid(3))),
        // elements 1 and 2: a few elements only
        _ => Lib::<T, Multiplicative<T>>::boxed(o, n % if T::SHORT { 7 } else { 30 }, T::times, T::of(1), true, |x| T::of(1 + x.rem_euclid(2))),
    }
}
enum Any {
    Nc(Inst),
    Lib(Box<dyn AnyLib>),
}
struct Mixed {
    inst: Vec<Any>,
}

fn step_any(st: &Mixed, _me: usize, o: &Op) {
    if st.inst.is_empty() {
        return;
    }
    match &st.inst[o.idx(0, st.inst.len())] {
        Any::Nc(sh) => one(sh, o),
        Any::Lib(l) => l.step(o),
    }
}

pub fn gen(rng: &mut Rng) -> Plan {
    let b: Vec<Op> = (0..*rng.pick(&[1, 1, 1, 2, 3]))
        .map(|_| {
            let mut o = build_op(rng);
            if rng.chance(1, 4) {
                o.a[3] = rng.range(1, 4);
                o.a[4] = rng.range(0, 11);
            }
            o
        })
        .collect();
    let n = b[0].arg(1);
    plan(rng, vec![], b, |r, _| caller_op(r, n))
}

pub fn exec(p: &Plan) {
    let mut inst = vec![];
    for o in &p.threads[0] {
        if kind(o) == O::SgBuild {
            inst.push(match o.arg(3).rem_euclid(5) {
                0 => Any::Nc(build(o)),
                _ => Any::Lib(match o.arg(4).rem_euclid(12) {
                    0 => shipped::<i8>(o),
                    1 => shipped::<i16>(o),
                    2 => shipped::<i32>(o),
                    3 => shipped::<i64>(o),
                    4 => shipped::<i128>(o),
                    5 => shipped::<isize>(o),
                    6 => shipped::<u8>(o),
                    7 => shipped::<u16>(o),
                    8 => shipped::<u32>(o),
                    9 => shipped::<u64>(o),
                    10 => shipped::<u128>(o),
                    _ => shipped::<usize>(o),
                }),
            });
        }
    }
    let st = Arc::new(Mixed { inst });
    callers(st.clone(), &p.threads[1..], step_any);
    for i in &st.inst {
        if let Any::Nc(sh) = i {
            sh.read(|t, m| audit(t, m));
        }
    }
}
