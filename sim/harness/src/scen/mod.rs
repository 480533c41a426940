//! The scenarios: how each property's runs are generated, executed and judged.
pub mod alg;
pub mod dict;
pub mod fenwick;
pub mod flow;
pub mod heap;
pub mod hld;
pub mod input;
pub mod interrupted;
pub mod lazy;
pub mod modular;
pub mod readers;
pub mod recursion;
pub mod seg;
pub mod solvers;
pub mod together;
pub mod tracing;
pub mod unionfind;

use crate::plan::{gen_sched, Op, Plan, Scenario};
use simrt::Rng;

macro_rules! ops {
    ($($n:ident),* $(,)?) => {
        #[allow(dead_code)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum O { $($n),* }
        pub const NAMES: &[&str] = &[$(stringify!($n)),*];
        pub const ALL: &[O] = &[$(O::$n),*];
    };
}
ops! {
    FwBuild, FwAdd, FwAddDelta, FwPref, FwSum, FwPoint, FwSearch, FwRestart, FwReject,
    SgBuild, SgSet, SgGet, SgProd, SgAll, SgMaxRight, SgMinLeft, SgRestart, SgReject,
    LzBuild, LzSet, LzGet, LzProd, LzAll, LzApply, LzRange, LzMaxRight, LzMinLeft, LzRestart, LzReject,
    HlBuild, HlSet, HlGet, HlApplyPath, HlPathProd, HlApplySub, HlSubProd, HlRestart, HlReject,
    UfBuild, UfBulk, UfJoin, UfSame, UfSize, UfFind, UfGroups, UfRestart, UfReject,
    MhPush, MhBulk, MhPop, MhPeek, MhLen, MhAppend, MhClear, MhSorted, MhRestart,
    FlBuild, FlBulk, FlEdge, FlFlow, FlReverse, FlSelf,
    BmBuild, BmBulk, BmEdge, BmSolve,
    AcPattern, AcMany, AcInsert, AcLong, AcReject, AcFind, AcFindAll, AcFindCnt,
    InText, InLong, InCut, InDamage, InReader, InRead, InChecked, InBytes, InChars, InVec,
    RfBuild, RfCall,
    MdSet, MdJoint, MdReset, MdZero, MdNew, MdAdd, MdSub, MdMul, MdDiv, MdNeg, MdInv, MdPow, MdSum, MdProduct, MdParse, MdModulus, MdMixed, MdChain,
    MdStatic, MdFactorial,
    BlBuild, BlLca, BlDis, BlAnc, RdReject,
    SpBuild, SpGet,
    FcBuild, FcChoose, FcPerm,
    SvGraph, SvEdge, SvPaths, SvComponents, SvReject, SvBorders, SvPrefixes, SvNumbers, SvHeap, SvClosure, SvAgain,
    DbTrace, DbStream,
    Use, Go,
}
pub fn kind(o: &Op) -> O {
    ALL[o.code as usize]
}
pub fn op(k: O, a: Vec<i64>) -> Op {
    Op::new(k as u8, a)
}

thread_local! { static SMALL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Generates with short lengths only.
pub fn small<T>(f: impl FnOnce() -> T) -> T {
    let old = SMALL.with(|s| s.replace(true));
    let r = f();
    SMALL.with(|s| s.set(old));
    r
}
thread_local! { static LARGE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Generates with long lengths wherever long ones can be.
pub fn large<T>(f: impl FnOnce() -> T) -> T {
    LARGE.with(|s| s.set(true));
    let r = f();
    LARGE.with(|s| s.set(false));
    r
}
/// Lengths: mostly around powers of two and other edges, sometimes large.
pub fn size(rng: &mut Rng) -> i64 {
    if SMALL.with(|s| s.get()) {
        return *rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 20]);
    }
    match rng.below(100) {
        0..=49 => *rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
        50..=79 => rng.range(1, 40),
        80..=89 => *rng.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
        90..=97 => rng.range(40, 300),
        98 => *rng.pick(&[255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025]),
        _ => rng.range(300, 2500),
    }
}
/// Lengths beyond what 16 bits count, rarely.
pub fn huge(rng: &mut Rng, den: u64) -> Option<i64> {
    if LARGE.with(|s| s.get()) {
        return Some(*rng.pick(&[1100, 2100, 4200, 8300, 16_500, 33_000, 66_000]) + rng.range(0, 900));
    }
    if SMALL.with(|s| s.get()) || !rng.chance(1, den) {
        return None;
    }
    Some(if rng.chance(1, 3) { *rng.pick(&[65_535, 65_536, 65_537]) } else { rng.range(60_000, 75_000) })
}
/// From this length on, structures are built in bulk.
pub const BULK: usize = 6000;
pub const LONGEST: i64 = if cfg!(probed) { 3000 } else { 100_000 };
/// Arguments from here on name one of the deepest vertices of a tree.
pub const DEEP: i64 = 1 << 45;
pub fn nthreads(rng: &mut Rng) -> usize {
    *rng.pick(&[1, 2, 2, 2, 3, 3, 3, 4, 5])
}
pub fn nops(rng: &mut Rng) -> usize {
    match rng.below(10) {
        0 => rng.range(1, 4) as usize,
        9 => rng.range(20, 60) as usize,
        _ => rng.range(3, 22) as usize,
    }
}
/// A non-negative random word for an argument that is reduced at execution.
pub fn word(rng: &mut Rng) -> i64 {
    rng.below(1 << 40) as i64
}
/// An index-like argument: endpoints are likelier than chance.
pub fn pos(rng: &mut Rng, n: i64) -> i64 {
    if n <= 0 {
        return 0;
    }
    match rng.below(8) {
        0 => 0,
        1 => n - 1,
        _ => rng.below(n as u64) as i64,
    }
}
pub fn val(rng: &mut Rng) -> i64 {
    match rng.below(6) {
        0 => rng.range(-2, 2),
        1 => rng.range(-1_000_000, 1_000_000),
        _ => rng.range(-20, 20),
    }
}
/// Builds a plan: `setup` runs first, alone; then every caller its own list.
pub fn plan(rng: &mut Rng, params: Vec<i64>, setup: Vec<Op>, mut caller: impl FnMut(&mut Rng, usize) -> Op) -> Plan {
    let t = nthreads(rng);
    let mut threads = vec![setup];
    for i in 0..t {
        let k = if t == 1 { nops(rng) + nops(rng) } else { nops(rng) };
        threads.push((0..k).map(|_| caller(rng, i)).collect());
    }
    Plan { params, threads, sched: gen_sched(rng), probe: None }
}
/// Compares an answer with the reference model's.
pub fn same<T: PartialEq + std::fmt::Debug + std::hash::Hash>(o: &Op, got: &T, want: &T) {
    crate::ctx::ev(got);
    if got != want {
        let n = NAMES[o.code as usize];
        crate::ctx::fail(&format!("wrong-answer:{}", n), format!("{} {:?}: got {:?}, expected {:?}", n, o.a, got, want));
    }
}
pub fn wrong(o: &Op, msg: String) -> ! {
    let n = NAMES[o.code as usize];
    crate::ctx::fail(&format!("wrong-answer:{}", n), format!("{} {:?}: {}", n, o.a, msg))
}
/// `l <= r <= n` from two arguments.
pub fn span(o: &Op, i: usize, n: usize) -> (usize, usize) {
    let (a, b) = (o.idx(i, n + 1), o.idx(i + 1, n + 1));
    (a.min(b), a.max(b))
}
/// How far beyond `n` a position that must be refused lies: just, at the sizes structures are rounded
/// up to, where 32 bits would take it back inside, or as far as can be.
pub fn far(w: i64, n: usize) -> usize {
    match w.rem_euclid(10) {
        6 => n.next_power_of_two() - n,
        7 => 2 * n.next_power_of_two() - n,
        8 => 1 << 32,
        9 => usize::MAX - n - 1,
        w => w as usize % 4,
    }
}
pub fn name(o: &Op) -> &'static str {
    NAMES[o.code as usize]
}

pub static SCENARIOS: &[Scenario] = &[
    Scenario { id: "C01", ops: NAMES, gen: modular::gen_c01, exec: modular::exec_c01 },
    Scenario { id: "C02", ops: NAMES, gen: modular::gen_c02, exec: modular::exec_c02 },
    Scenario { id: "C03", ops: NAMES, gen: modular::gen_c03, exec: modular::exec_c03 },
    Scenario { id: "C04", ops: NAMES, gen: unionfind::gen, exec: unionfind::exec },
    Scenario { id: "C05", ops: NAMES, gen: fenwick::gen, exec: fenwick::exec },
    Scenario { id: "C06", ops: NAMES, gen: seg::gen, exec: seg::exec },
    Scenario { id: "C07", ops: NAMES, gen: lazy::gen, exec: lazy::exec },
    Scenario { id: "C08", ops: NAMES, gen: interrupted::gen_c08, exec: interrupted::exec_c08 },
    Scenario { id: "C09", ops: NAMES, gen: interrupted::gen_c09, exec: interrupted::exec_c09 },
    Scenario { id: "C10", ops: NAMES, gen: hld::gen, exec: hld::exec },
    Scenario { id: "C11", ops: NAMES, gen: heap::gen, exec: heap::exec },
    Scenario { id: "C12", ops: NAMES, gen: flow::gen_c12, exec: flow::exec_c12 },
    Scenario { id: "C13", ops: NAMES, gen: flow::gen_c13, exec: flow::exec_c13 },
    Scenario { id: "C14", ops: NAMES, gen: dict::gen, exec: dict::exec },
    Scenario { id: "C15", ops: NAMES, gen: input::gen, exec: input::exec },
    Scenario { id: "C16", ops: NAMES, gen: recursion::gen, exec: recursion::exec },
    Scenario { id: "C17", ops: NAMES, gen: readers::gen, exec: readers::exec },
    Scenario { id: "C18", ops: NAMES, gen: together::gen, exec: together::exec },
    Scenario { id: "C19", ops: NAMES, gen: together::gen_c19, exec: solvers::exec },
    Scenario { id: "C20", ops: NAMES, gen: tracing::gen, exec: tracing::exec },
];
