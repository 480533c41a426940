//! The user-supplied types and operations handed to the library.  Each of them is a scheduling
//! point and a place where the simulator may unwind.
use crate::ctx::cb;
use crate::plan::K;
use rust_cp::traits::monoid::{MapMonoid, Monoid};
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Sub};

const P: i64 = (1 << 31) - 1;
const B: i64 = 1_000_003;

/// A summary of a sequence of integers that determines its order (up to hash collisions).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct S {
    pub len: i64,
    h: i64,
    pw: i64,
    g: i64,
    sum: i64,
    pub mx: i64,
    pub mn: i64,
}
impl S {
    pub fn unit() -> S {
        S { len: 0, h: 0, pw: 1, g: 0, sum: 0, mx: i64::MIN, mn: i64::MAX }
    }
    pub fn one(v: i64) -> S {
        S { len: 1, h: v.rem_euclid(P), pw: B, g: 1, sum: v, mx: v, mn: v }
    }
    pub fn join(x: &S, y: &S) -> S {
        S {
            len: x.len + y.len,
            h: (x.h * y.pw + y.h) % P,
            pw: x.pw * y.pw % P,
            g: (x.g * y.pw + y.g) % P,
            sum: x.sum.wrapping_add(y.sum),
            mx: x.mx.max(y.mx),
            mn: x.mn.min(y.mn),
        }
    }
    pub fn fold(xs: &[S]) -> S {
        xs.iter().fold(S::unit(), |a, b| S::join(&a, b))
    }
    pub fn mapped(&self, f: &Aff) -> S {
        if self.len == 0 {
            return self.clone();
        }
        let (a, b) = (f.a, f.b);
        let at = |v: i64| a * v + b;
        S {
            len: self.len,
            h: (a.rem_euclid(P) * self.h + b.rem_euclid(P) * self.g % P) % P,
            pw: self.pw,
            g: self.g,
            sum: a.wrapping_mul(self.sum).wrapping_add(b.wrapping_mul(self.len)),
            mx: at(self.mx).max(at(self.mn)),
            mn: at(self.mx).min(at(self.mn)),
        }
    }
}

/// `v -> a*v + b` with `a` in {-1, 0, 1}.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Aff {
    pub a: i64,
    pub b: i64,
}
impl Aff {
    pub fn of(a: i64, b: i64) -> Aff {
        Aff { a: a.rem_euclid(3) - 1, b }
    }
}

/// Non-commutative monoid with non-commuting maps.
pub struct NonComm;
impl Monoid for NonComm {
    type S = S;
    fn identity() -> S {
        cb(K::Identity);
        S::unit()
    }
    fn binary_operation(a: &S, b: &S) -> S {
        cb(K::Combine);
        S::join(a, b)
    }
}
pub struct NonCommMap;
impl MapMonoid for NonCommMap {
    type M = NonComm;
    type F = Aff;
    fn identity_map() -> Aff {
        cb(K::Identity);
        Aff { a: 1, b: 0 }
    }
    fn mapping(f: &Aff, x: &S) -> S {
        cb(K::Map);
        x.mapped(f)
    }
    fn composition(f: &Aff, g: &Aff) -> Aff {
        cb(K::Compose);
        Aff { a: f.a * g.a, b: f.a * g.b + f.b }
    }
}

/// Commutative summary for trees.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct C {
    cnt: i64,
    sum: i64,
    sq: i64,
    mx: i64,
    mn: i64,
}
impl C {
    pub fn unit() -> C {
        C { cnt: 0, sum: 0, sq: 0, mx: i64::MIN, mn: i64::MAX }
    }
    pub fn one(v: i64) -> C {
        C { cnt: 1, sum: v, sq: v.wrapping_mul(v), mx: v, mn: v }
    }
    pub fn join(x: &C, y: &C) -> C {
        C {
            cnt: x.cnt + y.cnt,
            sum: x.sum.wrapping_add(y.sum),
            sq: x.sq.wrapping_add(y.sq),
            mx: x.mx.max(y.mx),
            mn: x.mn.min(y.mn),
        }
    }
    pub fn mapped(&self, f: &Aff) -> C {
        if self.cnt == 0 {
            return self.clone();
        }
        let (a, b) = (f.a, f.b);
        let at = |v: i64| a * v + b;
        C {
            cnt: self.cnt,
            sum: a.wrapping_mul(self.sum).wrapping_add(b.wrapping_mul(self.cnt)),
            sq: (a * a)
                .wrapping_mul(self.sq)
                .wrapping_add((2 * a * b).wrapping_mul(self.sum))
                .wrapping_add(b.wrapping_mul(b).wrapping_mul(self.cnt)),
            mx: at(self.mx).max(at(self.mn)),
            mn: at(self.mx).min(at(self.mn)),
        }
    }
}
pub struct Comm;
impl Monoid for Comm {
    type S = C;
    fn identity() -> C {
        cb(K::Identity);
        C::unit()
    }
    fn binary_operation(a: &C, b: &C) -> C {
        cb(K::Combine);
        C::join(a, b)
    }
}
pub struct CommMap;
impl MapMonoid for CommMap {
    type M = Comm;
    type F = Aff;
    fn identity_map() -> Aff {
        cb(K::Identity);
        Aff { a: 1, b: 0 }
    }
    fn mapping(f: &Aff, x: &C) -> C {
        cb(K::Map);
        x.mapped(f)
    }
    fn composition(f: &Aff, g: &Aff) -> Aff {
        cb(K::Compose);
        Aff { a: f.a * g.a, b: f.a * g.b + f.b }
    }
}

/// A monotone predicate over `S`: once false for a range it is false for every extension.
#[derive(Clone, Debug)]
pub struct Pred {
    kind: i64,
    t: i64,
    u: i64,
}
impl Pred {
    /// `kind`, and two words from which thresholds near the values in `model` are derived.
    pub fn of(kind: i64, w: i64, v: i64, model: &[S]) -> Pred {
        let n = model.len() as i64;
        let near = |w: i64| -> i64 {
            if n == 0 {
                return 0;
            }
            let m = &model[(w % n) as usize];
            if m.len == 0 {
                0
            } else {
                m.mx + (w / 7) % 3 - 1
            }
        };
        let kind = kind.rem_euclid(5);
        let (w, v) = (w.abs(), v.abs());
        match kind {
            0 => Pred { kind, t: w % (n + 2), u: 0 },
            1 | 2 => Pred { kind, t: near(w), u: 0 },
            3 => Pred { kind, t: w % (n + 2), u: near(v) },
            _ => Pred { kind, t: 0, u: 0 },
        }
    }
    /// False even for the empty range.
    pub fn rejecting() -> Pred {
        Pred { kind: 5, t: 0, u: 0 }
    }
    pub fn holds(&self, s: &S) -> bool {
        match self.kind {
            0 => s.len <= self.t,
            1 => s.mx < self.t || s.len == 0,
            2 => s.mn > self.t || s.len == 0,
            3 => s.len <= self.t && (s.mx < self.u || s.len == 0),
            4 => true,
            _ => false,
        }
    }
    pub fn called(&self, s: &S) -> bool {
        cb(K::Pred);
        self.holds(s)
    }
    pub fn max_right(&self, m: &[S], l: usize) -> usize {
        let mut acc = S::unit();
        for r in l..m.len() {
            acc = S::join(&acc, &m[r]);
            if !self.holds(&acc) {
                return r;
            }
        }
        m.len()
    }
    pub fn min_left(&self, m: &[S], r: usize) -> usize {
        let mut acc = S::unit();
        for l in (0..r).rev() {
            acc = S::join(&m[l], &acc);
            if !self.holds(&acc) {
                return l + 1;
            }
        }
        0
    }
}

/// Number type for Fenwick trees.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct W(pub i64);
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<Ordering> {
        cb(K::Cmp);
        self.0.partial_cmp(&o.0)
    }
}
impl Add for W {
    type Output = W;
    fn add(self, o: W) -> W {
        cb(K::Add);
        W(self.0.wrapping_add(o.0))
    }
}
impl Sub for W {
    type Output = W;
    fn sub(self, o: W) -> W {
        cb(K::Add);
        W(self.0.wrapping_sub(o.0))
    }
}
impl AddAssign for W {
    fn add_assign(&mut self, o: W) {
        cb(K::Add);
        self.0 = self.0.wrapping_add(o.0)
    }
}
/// A differently typed increment, not `Copy`.
#[derive(Clone, Debug)]
pub struct Delta(pub i64);
impl AddAssign<Delta> for W {
    fn add_assign(&mut self, o: Delta) {
        cb(K::Add);
        self.0 = self.0.wrapping_add(o.0)
    }
}
