//! Dynamic modular integers shared by threads, against 128-bit arithmetic.
//! C01: ordered modulus changes; C02: racing changes; C03: families side by side.
use super::*;
use crate::ctx::{refused, call, callers, ev, stat, Send_, Shared};
use crate::{check, trace};
use rust_cp::math::factorial::Factorial;
use rust_cp::misc::modint::{Barrett, ButterflyCache, DefaultId, DynamicModInt, Id, ModIntBase, Modulus, StaticModInt};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};
use std::thread::LocalKey;

macro_rules! family {
    ($($name:ident $m:expr),*) => { $(
        #[derive(Copy, Clone, PartialEq, Eq)]
        pub enum $name {}
        impl Id for $name {
            fn companion_barrett() -> &'static Barrett {
                static B: Barrett = Barrett::new($m);
                &B
            }
        }
    )* };
}
family!(Seven 7, One 1, Big 1 << 31);
macro_rules! fixed {
    ($($name:ident $m:expr, $prime:expr);*) => { $(
        #[derive(Copy, Clone, PartialEq, Eq)]
        pub enum $name {}
        impl Modulus for $name {
            const VALUE: u32 = $m;
            const HINT_VALUE_IS_PRIME: bool = $prime;
            fn butterfly_cache() -> &'static LocalKey<RefCell<Option<ButterflyCache<Self>>>> {
                thread_local! { static C: RefCell<Option<ButterflyCache<$name>>> = RefCell::new(None); }
                &C
            }
        }
    )* };
}
fixed!(P101 101, true; C1000 1000, false; P7 7, true);

const PRIMS: u64 = 12;
macro_rules! with_prim {
    ($ty:expr, $style:expr, $w1:expr, $w2:expr, $m:expr, |$x:ident| $body:expr) => {
        match $ty.rem_euclid(PRIMS as i64) {
            0 => with_prim!(@ i8, $style, $w1, $w2, $m, $x, $body),
            1 => with_prim!(@ i16, $style, $w1, $w2, $m, $x, $body),
            2 => with_prim!(@ i32, $style, $w1, $w2, $m, $x, $body),
            3 => with_prim!(@ i64, $style, $w1, $w2, $m, $x, $body),
            4 => with_prim!(@ i128, $style, $w1, $w2, $m, $x, $body),
            5 => with_prim!(@ isize, $style, $w1, $w2, $m, $x, $body),
            6 => with_prim!(@ u8, $style, $w1, $w2, $m, $x, $body),
            7 => with_prim!(@ u16, $style, $w1, $w2, $m, $x, $body),
            8 => with_prim!(@ u32, $style, $w1, $w2, $m, $x, $body),
            9 => with_prim!(@ u64, $style, $w1, $w2, $m, $x, $body),
            10 => with_prim!(@ u128, $style, $w1, $w2, $m, $x, $body),
            _ => with_prim!(@ usize, $style, $w1, $w2, $m, $x, $body),
        }
    };
    (@ $t:ty, $style:expr, $w1:expr, $w2:expr, $m:expr, $x:ident, $body:expr) => {{
        let bits = (($w1 as u64 as u128) << 64) ^ (($w2 as u64 as u128) << 24) ^ ($w1 as u64 as u128);
        #[allow(unused_comparisons)]
        let $x: $t = match ($style as i64).rem_euclid(8) {
            0 => 0,
            1 => <$t>::MAX,
            2 => <$t>::MIN,
            // around a multiple of the modulus
            3 => ($m as i128).wrapping_mul($w1 as i128 % (1 << 20)).wrapping_add($w2 as i128 % 3 - 1) as $t,
            4 => ($m as i128).wrapping_mul(-($w1 as i128 % (1 << 20))).wrapping_add($w2 as i128 % 3 - 1) as $t,
            5 => ($w1 % 5 - 2) as $t,
            _ => bits as $t,
        };
        $body
    }};
}
/// The canonical representative of any primitive integer.
trait Canon {
    fn canon(self, m: u32) -> u32;
}
macro_rules! canon {
    ($($t:ty),*) => { $(impl Canon for $t {
        fn canon(self, m: u32) -> u32 { (self as i128).rem_euclid(m as i128) as u32 }
    })* };
}
canon!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, usize);
impl Canon for u128 {
    fn canon(self, m: u32) -> u32 {
        (self % m as u128) as u32
    }
}

/// What static and dynamic integers have in common.
trait Fam: ModIntBase {
    fn total(v: &[Self], by_ref: bool) -> Self;
    fn product(v: &[Self], by_ref: bool) -> Self;
    fn power(self, n: u64) -> Self;
    fn parsed(s: &str) -> Option<Self>;
    fn binary(k: i64, form: i64, a: Self, b: Self) -> Self;
    fn negate(self, by_ref: bool) -> Self;
    fn hashed(self) -> u64;
    /// (result, what was made of the primitive)
    fn mixed(k: i64, assign: bool, a: Self, o: &Op, m: u32) -> Self;
    fn made(o: &Op, m: u32) -> (Self, u32);
    fn prim_canon(o: &Op, at: usize, m: u32) -> u32;
}
macro_rules! impl_fam {
    (<$p:ident : $b:ident> $t:ty) => {
        impl<$p: $b> Fam for $t {
            fn total(v: &[Self], by_ref: bool) -> Self {
                if by_ref { v.iter().sum() } else { v.iter().copied().sum() }
            }
            fn product(v: &[Self], by_ref: bool) -> Self {
                if by_ref { v.iter().product() } else { v.iter().copied().product() }
            }
            fn power(self, n: u64) -> Self {
                self.pow(n)
            }
            fn parsed(s: &str) -> Option<Self> {
                s.parse().ok()
            }
            fn binary(k: i64, form: i64, a: Self, b: Self) -> Self {
                macro_rules! forms {
                    ($op:tt, $as:tt) => {{
                        let mut c = a;
                        match form.rem_euclid(6) {
                            0 => a $op b,
                            1 => a $op &b,
                            2 => &a $op b,
                            3 => &a $op &b,
                            4 => { c $as b; c }
                            _ => { c $as &b; c }
                        }
                    }};
                }
                match k.rem_euclid(4) {
                    0 => forms!(+, +=),
                    1 => forms!(-, -=),
                    2 => forms!(*, *=),
                    _ => forms!(/, /=),
                }
            }
            fn negate(self, by_ref: bool) -> Self {
                if by_ref { -&self } else { -self }
            }
            fn hashed(self) -> u64 {
                let mut h = DefaultHasher::new();
                self.hash(&mut h);
                h.finish()
            }
            fn mixed(k: i64, assign: bool, a: Self, o: &Op, m: u32) -> Self {
                let mut c = a;
                with_prim!(o.arg(4), o.arg(5), o.arg(6), o.arg(7), m, |x| match (k.rem_euclid(4), assign) {
                    (0, false) => a + x,
                    (1, false) => a - x,
                    (2, false) => a * x,
                    (_, false) => a / x,
                    (0, true) => { c += x; c }
                    (1, true) => { c -= x; c }
                    (2, true) => { c *= x; c }
                    (_, true) => { c /= x; c }
                })
            }
            fn made(o: &Op, m: u32) -> (Self, u32) {
                with_prim!(o.arg(1), o.arg(2), o.arg(3), o.arg(4), m, |x| {
                    (if o.arg(3) & 1 == 0 { Self::new(x) } else { Self::from(x) }, x.canon(m))
                })
            }
            fn prim_canon(o: &Op, at: usize, m: u32) -> u32 {
                with_prim!(o.arg(at), o.arg(at + 1), o.arg(at + 2), o.arg(at + 3), m, |x| x.canon(m))
            }
        }
    };
}
impl_fam!(<I: Id> DynamicModInt<I>);
impl_fam!(<M: Modulus> StaticModInt<M>);

fn mulm(a: u32, b: u32, m: u32) -> u32 {
    (a as u64 * b as u64 % m as u64) as u32
}
fn powm(a: u32, mut n: u64, m: u32) -> u32 {
    let (mut x, mut r) = (a, 1 % m);
    while n > 0 {
        if n & 1 == 1 {
            r = mulm(r, x, m);
        }
        x = mulm(x, x, m);
        n >>= 1;
    }
    r
}
/// The inverse of `a`, if it has one.
fn invm(a: u32, m: u32) -> Option<u32> {
    let (mut r0, mut r1, mut t0, mut t1) = (m as i128, a as i128, 0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (t0, t1) = (t1, t0 - q * t1);
    }
    (r0 == 1).then(|| t0.rem_euclid(m as i128) as u32)
}
fn bin(k: i64, a: u32, b: u32, m: u32) -> Option<u32> {
    let (x, y) = (a as u64, b as u64);
    Some(match k.rem_euclid(4) {
        0 => ((x + y) % m as u64) as u32,
        1 => ((x + m as u64 - y) % m as u64) as u32,
        2 => mulm(a, b, m),
        _ => mulm(a, invm(b, m)?, m),
    })
}
/// An operand in `0..m`.
fn operand(w: i64, m: u32) -> u32 {
    let v = w.unsigned_abs() >> 3;
    (match w.rem_euclid(8) {
        0 => 0,
        1 => 1,
        2 => m as u64 - 1,
        3 => m as u64 + m as u64 - 2,
        4 => m as u64 / 2 + v % 3,
        _ => v,
    } % m as u64) as u32
}
fn exponent(style: i64, w: i64, m: u32) -> u64 {
    match style.rem_euclid(8) {
        0 => 0,
        1 => 1,
        2 => m as u64 - 1,
        3 => (m as u64).wrapping_sub(2),
        4 => u64::MAX,
        5 => w.unsigned_abs() % 70,
        _ => w.unsigned_abs().wrapping_mul(0x9E37_79B9_7F4A_7C15),
    }
}

/// One arithmetic request on family `T`, whose modulus is `m`.
fn arith<T: Fam>(o: &Op, m: u32) {
    let v = |x: T| x.val();
    let raw = |i: usize| {
        let x = operand(o.arg(i), m);
        (T::raw(x), x)
    };
    match kind(o) {
        O::MdNew => {
            let want = T::prim_canon(o, 1, m);
            let (x, _) = call(None, || T::made(o, m)).must("new");
            same(o, &v(x), &want);
            same(o, &x.to_string(), &want.to_string());
            same(o, &format!("{:?}", x), &want.to_string());
            same(o, &(x == T::raw(want), v(T::default())), &(true, 0));
            same(o, &x.hashed(), &T::raw(want).hashed());
            let other = operand(o.arg(3), m);
            same(o, &(x != T::raw(other)), &(want != other));
        }
        O::MdAdd | O::MdSub | O::MdMul | O::MdDiv => {
            let k = match kind(o) {
                O::MdAdd => 0,
                O::MdSub => 1,
                O::MdMul => 2,
                _ => 3,
            };
            let ((a, x), (b, y)) = (raw(1), raw(2));
            match bin(k, x, y, m) {
                Some(want) => {
                    let got = call(None, || T::binary(k, o.arg(3), a, b)).must("arithmetic");
                    same(o, &v(got), &want);
                }
                None => {
                    stat("rejected_call");
                    refused("dividing by what has no inverse", || T::binary(k, o.arg(3), a, b));
                }
            }
        }
        O::MdNeg => {
            let (a, x) = raw(1);
            same(o, &v(call(None, || a.negate(o.arg(2) & 1 == 1)).must("neg")), &((m - x) % m));
        }
        O::MdInv => {
            let (a, x) = raw(1);
            match invm(x, m) {
                Some(want) => same(o, &v(call(None, || a.inv()).must("inv")), &want),
                None => {
                    stat("rejected_call");
                    refused("inverting what has no inverse", || a.inv());
                }
            }
        }
        O::MdPow => {
            let (a, x) = raw(1);
            let n = exponent(o.arg(2), o.arg(3), m);
            same(o, &v(call(None, || a.power(n)).must("pow")), &powm(x, n, m));
        }
        O::MdSum | O::MdProduct => {
            let xs: Vec<u32> = o.a.iter().skip(2).map(|&w| operand(w, m)).collect();
            let ys: Vec<T> = xs.iter().map(|&x| T::raw(x)).collect();
            let r = o.arg(1) & 1 == 1;
            if kind(o) == O::MdSum {
                let want = xs.iter().fold(0, |a, &b| bin(0, a, b, m).unwrap());
                same(o, &v(call(None, || T::total(&ys, r)).must("sum")), &want);
            } else {
                let want = xs.iter().fold(1 % m, |a, &b| mulm(a, b, m));
                same(o, &v(call(None, || T::product(&ys, r)).must("product")), &want);
            }
        }
        O::MdParse => {
            let w = o.arg(2);
            let x = match o.arg(1).rem_euclid(5) {
                0 => i64::MAX,
                1 => i64::MIN,
                2 => (m as i64).wrapping_mul(w % 1000),
                3 => w % 10 - 5,
                _ => w.wrapping_mul(0x9E37_79B9_7F4A_7C15u64 as i64),
            };
            match call(None, || T::parsed(&x.to_string())).must("parse") {
                Some(y) => same(o, &v(y), &x.canon(m)),
                None => wrong(o, format!("{} was not parsed", x)),
            }
        }
        O::MdModulus => same(o, &call(None, T::modulus).must("modulus"), &m),
        O::MdMixed => {
            let (a, x) = raw(3);
            let y = T::prim_canon(o, 4, m);
            match bin(o.arg(1), x, y, m) {
                Some(want) => {
                    let got = call(None, || T::mixed(o.arg(1), o.arg(2) & 1 == 1, a, o, m)).must("mixed arithmetic");
                    same(o, &v(got), &want);
                }
                None => {
                    stat("rejected_call");
                    refused("dividing by what has no inverse", || T::mixed(o.arg(1), o.arg(2) & 1 == 1, a, o, m));
                }
            }
        }
        O::MdChain => {
            let n = o.arg(1).rem_euclid(200);
            let mut r = Rng::new(o.arg(2) as u64);
            let steps: Vec<(i64, i64, u32)> = (0..n).map(|_| (r.below(4) as i64, r.below(6) as i64, operand(word(&mut r), m))).collect();
            let mut want = operand(o.arg(3), m);
            let first = T::raw(want);
            let steps: Vec<_> = steps.into_iter().filter(|s| s.0 != 3 || invm(s.2, m).is_some()).collect();
            for s in &steps {
                want = bin(s.0, want, s.2, m).unwrap();
            }
            let got = call(None, || steps.iter().fold(first, |a, s| T::binary(s.0, s.1, a, T::raw(s.2)))).must("a chain of operations");
            same(o, &v(got), &want);
        }
        _ => {}
    }
}

struct Dyn {
    name: &'static str,
    initial: u32,
    set: fn(u32),
    modulus: fn() -> u32,
    arith: fn(&Op, u32),
}
macro_rules! dynamic {
    ($i:ty, $m:expr) => {
        Dyn {
            name: stringify!($i),
            initial: $m,
            set: DynamicModInt::<$i>::set_modulus,
            modulus: DynamicModInt::<$i>::modulus,
            arith: arith::<DynamicModInt<$i>>,
        }
    };
}
static DYN: [Dyn; 4] = [dynamic!(DefaultId, 998_244_353), dynamic!(Seven, 7), dynamic!(One, 1), dynamic!(Big, 1 << 31)];
static STAT: [(fn(&Op, u32), u32); 5] = [
    (arith::<StaticModInt<rust_cp::misc::modint::Mod1000000007>>, 1_000_000_007),
    (arith::<StaticModInt<rust_cp::misc::modint::Mod998244353>>, 998_244_353),
    (arith::<StaticModInt<P101>>, 101),
    (arith::<StaticModInt<C1000>>, 1000),
    (arith::<StaticModInt<P7>>, 7),
];

fn modulus(rng: &mut Rng) -> i64 {
    match rng.below(10) {
        0 => 1,
        1 => *rng.pick(&[2, 3, 4, 6, 10, 16]),
        2 => *rng.pick(&[1 << 31, (1 << 31) - 1, (1 << 31) - 2, (1 << 30) + 1]),
        3..=4 => *rng.pick(&[998_244_353, 1_000_000_007, 1_000_000_009, 2_147_483_647, 101, 65_537]),
        5..=6 => rng.range(2, 1000),
        _ => rng.range(1000, 1 << 31),
    }
}
/// The modulus an argument stands for.
fn as_modulus(w: i64) -> u32 {
    w.clamp(1, 1 << 31) as u32
}

fn arith_op(rng: &mut Rng, fam: i64) -> Op {
    let r = rng;
    let w = |r: &mut Rng| word(r);
    match r.below(16) {
        0..=1 => op(O::MdNew, vec![fam, r.range(0, 11), r.range(0, 7), w(r), w(r)]),
        2 => op(O::MdAdd, vec![fam, w(r), w(r), r.range(0, 5)]),
        3 => op(O::MdSub, vec![fam, w(r), w(r), r.range(0, 5)]),
        4..=6 => op(O::MdMul, vec![fam, w(r), w(r), r.range(0, 5)]),
        7 => op(O::MdDiv, vec![fam, w(r), w(r), r.range(0, 5)]),
        8 => op(O::MdNeg, vec![fam, w(r), r.range(0, 1)]),
        9 => op(O::MdInv, vec![fam, w(r)]),
        10 => op(O::MdPow, vec![fam, w(r), r.range(0, 7), w(r)]),
        11 => {
            let k = if r.chance(1, 2) { O::MdSum } else { O::MdProduct };
            let n = if r.chance(1, 12) { *r.pick(&[15, 16, 17, 33, 65, 130]) } else { r.range(0, 6) };
            let mut a = vec![fam, r.range(0, 1)];
            a.extend((0..n).map(|_| word(r)));
            op(k, a)
        }
        12 => op(O::MdParse, vec![fam, r.range(0, 4), w(r)]),
        13 => op(O::MdModulus, vec![fam]),
        14 => op(O::MdMixed, vec![fam, r.range(0, 3), r.range(0, 1), w(r), r.range(0, 11), r.range(0, 7), w(r), w(r)]),
        _ => op(O::MdChain, vec![fam, if r.chance(1, 12) { r.range(12, 120) } else { r.range(0, 11) }, w(r), w(r)]),
    }
}

struct St {
    /// Current modulus of every family; held exclusively to change one.
    sh: Shared<(), Vec<u32>>,
    /// C03: moduli that family 0 has been asked to take.
    asked: Mutex<Vec<u32>>,
    nfam: usize,
    /// Per family: how many moduli were left for every thread to set by itself,
    joint: Mutex<Vec<u64>>,
    /// and, per thread, the last of them that it has set.
    own: Mutex<Vec<Vec<u64>>>,
}
impl St {
    fn new(p: &Plan, asked: Vec<u32>, nfam: usize) -> Self {
        let own = vec![vec![0; DYN.len()]; p.threads.len() + 1];
        St { sh: Shared::new((), initial()), asked: Mutex::new(asked), nfam, joint: Mutex::new(vec![0; DYN.len()]), own: Mutex::new(own) }
    }
    /// Sets the modulus that every thread was asked to set before it first computes.
    fn join(&self, me: usize, f: usize, m: u32) {
        let j = self.joint.lock().unwrap()[f];
        if self.own.lock().unwrap()[me][f] < j {
            stat("joint_setting");
            call(None, || (DYN[f].set)(m)).must("set_modulus");
            self.own.lock().unwrap()[me][f] = j;
        }
    }
}

fn ordered_step(st: &St, me: usize, o: &Op) {
    let f = o.idx(0, st.nfam);
    let d = &DYN[f];
    trace!("{} {} {:?}", name(o), d.name, o.a);
    match kind(o) {
        O::MdSet => st.sh.write(|_, m| {
            let x = as_modulus(o.arg(1));
            call(None, || (d.set)(x)).must("set_modulus");
            m[f] = x;
            let j = st.joint.lock().unwrap()[f];
            st.own.lock().unwrap().iter_mut().for_each(|own| own[f] = j);
        }),
        O::MdJoint => st.sh.write(|_, m| {
            m[f] = as_modulus(o.arg(1));
            st.joint.lock().unwrap()[f] += 1;
        }),
        O::MdReset => st.sh.read(|_, m| {
            stat("redundant_setting");
            st.join(me, f, m[f]);
            call(None, || (d.set)(m[f])).must("set_modulus");
        }),
        O::MdZero => st.sh.read(|_, m| {
            stat("rejected_call");
            st.join(me, f, m[f]);
            let r = call(None, || (d.set)(0));
            check!(!r.completed(), "zero-modulus-accepted", "set_modulus(0) of {} returned", d.name);
        }),
        _ => st.sh.read(|_, m| {
            st.join(me, f, m[f]);
            (d.arith)(o, m[f])
        }),
    }
}

fn initial() -> Vec<u32> {
    DYN.iter().map(|d| d.initial).collect()
}

pub fn gen_c01(rng: &mut Rng) -> Plan {
    let nfam = *rng.pick(&[1, 1, 1, 2, 4]);
    let mut setup = vec![];
    for f in 0..nfam {
        if rng.chance(5, 6) {
            setup.push(op(O::MdSet, vec![f, modulus(rng)]));
        }
    }
    plan(rng, vec![nfam], setup, |r, _| {
        let f = r.below(nfam as u64) as i64;
        match r.below(14) {
            0 => op(O::MdSet, vec![f, modulus(r)]),
            1 => op(*r.pick(&[O::MdSet, O::MdJoint, O::MdJoint]), vec![f, modulus(r)]),
            2..=3 => op(O::MdReset, vec![f]),
            4 if r.chance(1, 3) => op(O::MdZero, vec![f]),
            _ => arith_op(r, f),
        }
    })
}
pub fn exec_c01(p: &Plan) {
    let nfam = p.param(0).clamp(1, 4) as usize;
    let st = Arc::new(St::new(p, vec![], nfam));
    let main = p.threads.len();
    for o in &p.threads[0] {
        ordered_step(&st, main, o);
    }
    callers(st.clone(), &p.threads[1..], ordered_step);
    st.sh.read(|_, m| {
        for f in 0..nfam {
            st.join(main, f, m[f]);
        }
        closing(m)
    });
}
/// A fixed set of requests in every family at the end.
fn closing(m: &[u32]) {
    for (d, &m) in DYN.iter().zip(m) {
        (d.arith)(&op(O::MdModulus, vec![0]), m);
        for (a, b) in [(2, 2), (2, 3), (4, 12), (0xABCD_EF77, 0x1234_5678_9ABF), (0x7777_7777_7777, 2), (0x0055_5555_5555, 0x2AAA_AAAA_AAAD)] {
            (d.arith)(&op(O::MdMul, vec![0, a, b, 0]), m);
            (d.arith)(&op(O::MdAdd, vec![0, a, b, 0]), m);
        }
        (d.arith)(&op(O::MdPow, vec![0, 0x7654_3217, 6, 12345]), m);
    }
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug)]
struct Ev {
    call: u64,
    ret: u64,
    /// Set(x) or Read(x).
    set: bool,
    x: u32,
}
struct Race {
    hist: Mutex<Vec<Vec<Ev>>>,
    nfam: usize,
}

fn race_step(st: &Race, _me: usize, o: &Op) {
    let f = o.idx(0, st.nfam);
    let d = &DYN[f];
    trace!("{} {} {:?}", name(o), d.name, o.a);
    let c = simrt::seq();
    let (set, x) = match kind(o) {
        O::MdSet => {
            let x = as_modulus(o.arg(1));
            call(None, || (d.set)(x)).must("set_modulus");
            (true, x)
        }
        O::MdModulus => {
            let x = call(None, || (d.modulus)()).must("modulus");
            ev(&x);
            (false, x)
        }
        O::MdZero => {
            stat("rejected_call");
            let r = call(None, || (d.set)(0));
            check!(!r.completed(), "zero-modulus-accepted", "set_modulus(0) of {} returned", d.name);
            return;
        }
        // Arithmetic on values that need no reduction is unaffected by which modulus is current;
        // it only adds scheduling points.  Its result is not judged.
        _ => {
            let _ = call(None, || (d.arith_unjudged())());
            return;
        }
    };
    let r = simrt::seq();
    st.hist.lock().unwrap()[f].push(Ev { call: c, ret: r, set, x });
}
impl Dyn {
    /// Multiplies in this family, whatever the answer.
    fn arith_unjudged(&self) -> fn() {
        fn go<I: Id>() {
            let a = DynamicModInt::<I>::raw(0) * DynamicModInt::<I>::raw(0);
            std::hint::black_box(a.val());
        }
        match self.name {
            "DefaultId" => go::<DefaultId>,
            "Seven" => go::<Seven>,
            "One" => go::<One>,
            _ => go::<Big>,
        }
    }
}

/// Is the history that of one atomic register?
fn linearizable(h: &[Ev], initial: u32) -> bool {
    let n = h.len();
    assert!(n <= 128);
    let mut seen = std::collections::BTreeSet::new();
    let mut stack = vec![(0u128, initial)];
    while let Some((done, cur)) = stack.pop() {
        if done.count_ones() as usize == n {
            return true;
        }
        if !seen.insert((done, cur)) {
            continue;
        }
        let first_ret = (0..n).filter(|&i| done >> i & 1 == 0).map(|i| h[i].ret).min().unwrap();
        for i in 0..n {
            if done >> i & 1 == 0 && h[i].call < first_ret {
                if h[i].set {
                    stack.push((done | 1 << i, h[i].x));
                } else if h[i].x == cur {
                    stack.push((done | 1 << i, cur));
                }
            }
        }
    }
    false
}

pub fn gen_c02(rng: &mut Rng) -> Plan {
    let nfam = *rng.pick(&[1, 1, 1, 2]);
    let few = rng.chance(1, 2);
    let pool: Vec<i64> = (0..if few { 3 } else { 8 }).map(|_| modulus(rng)).collect();
    let setup = if rng.chance(1, 2) { vec![op(O::MdSet, vec![0, modulus(rng)])] } else { vec![] };
    let mut p = plan(rng, vec![nfam], setup, |r, _| {
        let f = r.below(nfam as u64) as i64;
        match r.below(12) {
            0..=5 => op(O::MdSet, vec![f, *r.pick(&pool)]),
            6 => op(O::MdMul, vec![f]),
            7 if r.chance(1, 4) => op(O::MdZero, vec![f]),
            _ => op(O::MdModulus, vec![f]),
        }
    });
    for t in p.threads[1..].iter_mut() {
        t.truncate(16);
    }
    p
}
pub fn exec_c02(p: &Plan) {
    let nfam = p.param(0).clamp(1, 4) as usize;
    let st = Arc::new(Race { hist: Mutex::new(vec![vec![]; 4]), nfam });
    for o in &p.threads[0] {
        race_step(&st, 0, o);
    }
    callers(st.clone(), &p.threads[1..], race_step);
    let mut m = vec![];
    for (f, d) in DYN.iter().enumerate() {
        let c = simrt::seq();
        let x = call(None, || (d.modulus)()).must("modulus");
        let r = simrt::seq();
        let mut h = st.hist.lock().unwrap()[f].clone();
        h.push(Ev { call: c, ret: r, set: false, x });
        ev(&x);
        if h.len() <= 128 && !linearizable(&h, d.initial) {
            h.sort_by_key(|e| e.call);
            let text: Vec<String> = h.iter().map(|e| format!("[{}..{}] {} {}", e.call, e.ret, if e.set { "set" } else { "read" }, e.x)).collect();
            crate::ctx::fail("not-linearizable", format!("modulus of {} (initially {}): {}", d.name, d.initial, text.join(", ")));
        }
        check!((1..=1 << 31).contains(&x), "not-linearizable", "modulus of {} is {}", d.name, x);
        m.push(x);
    }
    // Every later operation, in any thread, is exact for the settled modulus.
    closing(&m);
    let late = Arc::new(m);
    let hs: Vec<_> = (0..2)
        .map(|_| {
            let l = Send_(late.clone());
            simrt::spawn(move || closing(&l.get()))
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            crate::ctx::fail("caller-died", "a late caller panicked".into());
        }
    }
}

// ---------------------------------------------------------------- C03

fn binom(n: u64, k: u64, m: u32) -> u32 {
    if n > 400 {
        // n! over k! (n-k)!, the inverse by Fermat's little theorem
        let below = mulm(perm(k, k, m), perm(n - k, n - k, m), m);
        return mulm(perm(n, n, m), powm(below, m as u64 - 2, m), m);
    }
    // Pascal's rule, so that no inverse is involved.
    let mut row = vec![1 % m];
    for i in 1..=n as usize {
        let mut next = vec![1 % m; i + 1];
        for j in 1..i {
            next[j] = bin(0, row[j - 1], row[j], m).unwrap();
        }
        row = next;
    }
    row[k as usize]
}
fn perm(n: u64, k: u64, m: u32) -> u32 {
    (n - k + 1..=n).fold(1 % m, |a, b| mulm(a, (b % m as u64) as u32, m))
}
/// A factorial table over modulus `M`, used below the modulus.
pub fn factorial<M: Modulus>(o: &Op, t: Option<&Factorial<M>>, size: usize) {
    let n = o.idx(1, size + 1);
    let k = o.idx(2, n + 1);
    let own;
    let t = match t {
        Some(t) => t,
        None => {
            own = call(None, || Factorial::<M>::new(size)).must("Factorial::new");
            &own
        }
    };
    if o.arg(3) & 1 == 0 {
        same(o, &call(None, || t.choose(n, k)).must("choose").val(), &binom(n as u64, k as u64, M::VALUE));
    } else {
        same(o, &call(None, || t.perm(n, k)).must("perm").val(), &perm(n as u64, k as u64, M::VALUE));
    }
}

fn family_step(st: &St, me: usize, o: &Op) {
    match kind(o) {
        O::MdStatic => {
            let (f, m) = STAT[o.idx(0, STAT.len())];
            let inner = op(ALL[o.idx(1, ALL.len())], o.a.iter().skip(2).copied().collect());
            trace!("MdStatic {} mod {} {:?}", name(&inner), m, inner.a);
            f(&inner, m);
        }
        O::MdFactorial => {
            trace!("MdFactorial {:?}", o.a);
            // Most tables are short; a sixth argument makes one long.
            let long = o.arg(5).clamp(0, 3000) as usize;
            let s = (o.idx(4, 40) + long).min(if o.idx(0, 3) == 2 { 100 } else { 3040 });
            match o.idx(0, 3) {
                0 => factorial::<rust_cp::misc::modint::Mod1000000007>(o, None, s),
                1 => factorial::<rust_cp::misc::modint::Mod998244353>(o, None, s),
                _ => factorial::<P101>(o, None, s),
            }
        }
        _ if o.idx(0, st.nfam) != 0 => ordered_step(st, me, o),
        O::MdSet => {
            let x = as_modulus(o.arg(1));
            trace!("racing MdSet {}", x);
            stat("racing_setting");
            st.asked.lock().unwrap().push(x);
            call(None, || (DYN[0].set)(x)).must("set_modulus");
        }
        O::MdZero => {
            stat("rejected_call");
            let _ = call(None, || (DYN[0].set)(0));
        }
        _ => {
            let x = call(None, || (DYN[0].modulus)()).must("modulus");
            ev(&x);
            check!(st.asked.lock().unwrap().contains(&x), "invented-modulus", "modulus() of {} returned {}, which nobody set", DYN[0].name, x);
        }
    }
}

pub fn gen_c03(rng: &mut Rng) -> Plan {
    let nfam = *rng.pick(&[2, 2, 3, 4]);
    let long = if rng.chance(1, 6) { *rng.pick(&[70, 70, 150, 300, 600, 1500, 3000]) } else { 0 };
    let mut setup = vec![];
    for f in 1..nfam {
        if rng.chance(3, 4) {
            setup.push(op(O::MdSet, vec![f, modulus(rng)]));
        }
    }
    plan(rng, vec![nfam], setup, |r, me| {
        if r.chance(if me == 0 { 3 } else { 1 }, 4) {
            return op(*r.pick(&[O::MdSet, O::MdSet, O::MdSet, O::MdModulus, O::MdZero]), vec![0, modulus(r)]);
        }
        match r.below(10) {
            0..=2 => {
                let x = arith_op(r, 0);
                let mut a = vec![r.range(0, 4), x.code as i64];
                a.extend(x.a);
                op(O::MdStatic, a)
            }
            3 | 4 if long > 0 => {
                let l = if r.chance(3, 4) { r.range(long / 2, long) } else { 0 };
                op(O::MdFactorial, vec![r.range(0, 2), word(r), word(r), r.range(0, 1), word(r), l])
            }
            3 => op(O::MdFactorial, vec![r.range(0, 2), word(r), word(r), r.range(0, 1), word(r)]),
            4 if r.chance(1, 2) => op(O::MdSet, vec![r.range(1, nfam - 1), modulus(r)]),
            _ => {
                let f = r.range(1, nfam - 1);
                arith_op(r, f)
            }
        }
    })
}
pub fn exec_c03(p: &Plan) {
    let nfam = p.param(0).clamp(2, 4) as usize;
    let st = Arc::new(St::new(p, vec![DYN[0].initial], nfam));
    for o in &p.threads[0] {
        family_step(&st, p.threads.len(), o);
    }
    callers(st.clone(), &p.threads[1..], family_step);
    st.sh.read(|_, m| {
        let x = call(None, || (DYN[0].modulus)()).must("modulus");
        check!(st.asked.lock().unwrap().contains(&x), "invented-modulus", "modulus() of {} is {} at the end, which nobody set", DYN[0].name, x);
        for (d, &m) in DYN.iter().zip(m).skip(1) {
            (d.arith)(&op(O::MdModulus, vec![0]), m);
            (d.arith)(&op(O::MdMul, vec![0, 2, 0x1234_5678_9ABF, 0]), m);
        }
    });
}
