//! FenwickTree against a plain array.
use super::alg::{Delta, W};
use super::*;
use crate::ctx::{refused, quiet_if, call, callers, cb, quiet, stat, Shared, R};
use crate::plan::K;
use crate::trace;
use rust_cp::data_structure::fenwick_tree::FenwickTree;
use std::sync::Arc;

pub type Inst = Shared<FenwickTree<W>, Vec<i64>>;

pub fn build_op(rng: &mut Rng) -> Op {
    let n = huge(rng, 2000).unwrap_or_else(|| size(rng));
    // how, n, non-negative values only, seed
    op(O::FwBuild, vec![rng.range(0, 2), n, rng.chance(7, 10) as i64, word(rng)])
}

/// Increments: large, and non-negative when the instance asks for it.
fn inc(v: i64, nonneg: bool) -> i64 {
    if nonneg {
        v.abs()
    } else {
        v
    }
}

pub fn values(o: &Op) -> (usize, bool, Vec<i64>) {
    let n = o.arg(1).clamp(0, LONGEST) as usize;
    let nonneg = o.arg(2) != 0;
    let mut r = Rng::new(o.arg(3) as u64);
    let v = (0..n).map(|_| if r.chance(1, 3) { 0 } else { inc(r.range(-9, 30), nonneg) }).collect();
    (n, nonneg, v)
}

/// `how` 0: new, then nothing; 1: from; 2: new and add everything.
pub fn construct(how: i64, v: &[i64]) -> FenwickTree<W> {
    match how.rem_euclid(3) {
        x if x == 1 || v.len() > BULK => FenwickTree::from(&v.iter().map(|&x| W(x)).collect::<Vec<_>>()),
        _ => {
            let mut t = FenwickTree::new(v.len());
            for (i, &x) in v.iter().enumerate() {
                t.add(i, W(x));
            }
            t
        }
    }
}

pub fn build(o: &Op) -> (Inst, bool) {
    let (n, nonneg, mut v) = values(o);
    let t = if o.arg(0).rem_euclid(3) == 0 {
        v = vec![0; n];
        call(None, || FenwickTree::new(n)).must("FenwickTree::new")
    } else {
        quiet_if(n > 600, || call(None, || construct(o.arg(0), &v)).must("building a FenwickTree"))
    };
    (Shared::new(t, v), nonneg)
}

pub struct St {
    pub inst: Vec<(Inst, bool)>,
}

pub fn query_op(rng: &mut Rng, n: i64) -> Op {
    let i = rng.range(0, 3);
    match rng.below(4) {
        0 => op(O::FwPref, vec![i, pos(rng, n + 1)]),
        1 => op(O::FwSum, vec![i, pos(rng, n + 1), pos(rng, n + 1)]),
        2 => op(O::FwPoint, vec![i, rng.range(0, 3), word(rng), rng.range(-1, 1)]),
        _ => op(O::FwSearch, vec![i, word(rng), rng.range(-1, 1)]),
    }
}

pub fn caller_op(rng: &mut Rng, n: i64) -> Op {
    let i = rng.range(0, 3);
    match rng.below(20) {
        0..=6 => op(O::FwAdd, vec![i, pos(rng, n), val(rng)]),
        7..=8 => op(O::FwAddDelta, vec![i, pos(rng, n), val(rng)]),
        9 => op(O::FwRestart, vec![i, rng.range(1, 2)]),
        _ => query_op(rng, n),
    }
}

pub fn prefix(v: &[i64], i: usize) -> i64 {
    v[..i].iter().fold(0i64, |a, b| a.wrapping_add(*b))
}

fn prefixes(v: &[i64]) -> Vec<i64> {
    let mut s = 0i64;
    v.iter()
        .map(|x| {
            s = s.wrapping_add(*x);
            s
        })
        .collect()
}

/// A read-only request, compared with the array.
pub fn query(o: &Op, t: &FenwickTree<W>, v: &Vec<i64>) {
    let n = v.len();
    match kind(o) {
        O::FwPref => {
            let i = o.idx(1, n + 1);
            if let Some(x) = call(o.fault, || t.pref(i)).unless_injected("pref") {
                same(o, &x.0, &prefix(v, i));
            }
        }
        O::FwSum => {
            let (l, r) = span(o, 1, n);
            if let Some(x) = call(o.fault, || t.sum(l, r)).unless_injected("sum") {
                same(o, &x.0, &prefix(v, r).wrapping_sub(prefix(v, l)));
            }
        }
        O::FwPoint | O::FwSearch => {
            let p = prefixes(v);
            let (k, w, d) = if kind(o) == O::FwPoint { (o.arg(1).rem_euclid(4), o.arg(2), o.arg(3)) } else { (0, o.arg(1), o.arg(2)) };
            let thr = if n == 0 { d } else { p[w.rem_euclid(n as i64) as usize].wrapping_add(d) };
            let pred = |x: i64| match k {
                0 => x < thr,
                1 => x <= thr,
                2 => true,
                _ => x < thr && x < thr.wrapping_add(5),
            };
            let want = p.iter().position(|&x| !pred(x)).unwrap_or(n);
            let partitions = p[want..].iter().all(|&x| !pred(x));
            let got = if kind(o) == O::FwSearch {
                call(o.fault, || t.search(&W(thr)))
            } else {
                call(o.fault, || {
                    t.partition_point(|x| {
                        cb(K::Pred);
                        pred(x.0)
                    })
                })
            };
            if !partitions {
                stat("search_without_partition");
                return;
            }
            if let Some(x) = got.unless_injected("search") {
                same(o, &x, &want);
            }
        }
        _ => {}
    }
}

pub fn step(st: &St, _me: usize, o: &Op) {
    if st.inst.is_empty() {
        return;
    }
    let (sh, nonneg) = &st.inst[o.idx(0, st.inst.len())];
    trace!("{} {:?}", name(o), o.a);
    match kind(o) {
        O::FwAdd | O::FwAddDelta => sh.write(|t, v| {
            if v.is_empty() {
                return;
            }
            let i = o.idx(1, v.len());
            let x = inc(o.arg(2), *nonneg);
            if kind(o) == O::FwAdd {
                call(None, || t.add(i, W(x))).must("add");
            } else {
                call(None, || t.add(i, Delta(x))).must("add");
            }
            v[i] = v[i].wrapping_add(x);
        }),
        O::FwRestart => sh.write(|t, v| {
            stat("rebuild_from_current_values");
            *t = quiet_if(v.len() > 600, || call(None, || construct(o.arg(1), v)).must("rebuilding"));
        }),
        O::FwReject => {
            stat("rejected_call");
            let bad = |n: usize| n + 1 + far(o.arg(2), n);
            match o.idx(1, 3) {
                0 => sh.read(|t, v| {
                    refused("pref beyond the end", || t.pref(bad(v.len())));
                }),
                1 => sh.read(|t, v| {
                    refused("sum beyond the end", || t.sum(0, bad(v.len())));
                }),
                _ => sh.write(|t, v| {
                    // Either refused or ignored.
                    let _: R<()> = call(None, || t.add(v.len() + far(o.arg(2), v.len()), W(7)));
                }),
            }
        }
        _ => sh.read(|t, v| query(o, t, v)),
    }
}

/// Everything a caller can see must match the model.
pub fn audit(t: &FenwickTree<W>, v: &Vec<i64>) {
    quiet(|| {
        let p = prefixes(v);
        let n = v.len();
        let stride = 1 + n / 64;
        for i in (0..=n).step_by(stride).chain(n.saturating_sub(3)..=n) {
            let got = call(None, || t.pref(i)).must("pref").0;
            let want = if i == 0 { 0 } else { p[i - 1] };
            crate::check!(got == want, "final-audit:fenwick", "pref({}) of {}: got {}, expected {}", i, n, got, want);
        }
    })
}

pub fn gen(rng: &mut Rng) -> Plan {
    let b: Vec<Op> = (0..*rng.pick(&[1, 1, 1, 2])).map(|_| build_op(rng)).collect();
    let n = b[0].arg(1);
    plan(rng, vec![], b, |r, _| caller_op(r, n))
}

pub fn exec(p: &Plan) {
    let mut inst = vec![];
    for o in &p.threads[0] {
        if kind(o) == O::FwBuild {
            inst.push(build(o));
        }
    }
    let st = Arc::new(St { inst });
    callers(st.clone(), &p.threads[1..], step);
    for (sh, _) in &st.inst {
        sh.read(|t, v| audit(t, v));
    }
}
