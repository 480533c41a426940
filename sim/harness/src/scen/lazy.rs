//! LazySegtree against a plain sequence with the updates applied one by one.
use super::alg::{Aff, NonCommMap, Pred, S};
use super::*;
use crate::ctx::{refused, quiet_if, call, callers, quiet, stat, Shared};
use crate::trace;
use rust_cp::data_structure::lazy_segtree::LazySegtree;
use std::sync::Arc;

pub type Tree = LazySegtree<NonCommMap>;
pub type Inst = Shared<Tree, Vec<S>>;

pub fn build_op(rng: &mut Rng) -> Op {
    let n = huge(rng, 2500).unwrap_or_else(|| size(rng));
    op(O::LzBuild, vec![rng.range(0, 3), n, word(rng)])
}
pub fn construct(how: i64, v: &[S]) -> Tree {
    match how.rem_euclid(4) {
        x if x == 1 || v.len() > BULK => v.to_vec().into(),
        3 if v.is_empty() => LazySegtree::default(),
        _ => {
            let mut t = LazySegtree::new(v.len());
            for (i, x) in v.iter().enumerate() {
                t.set(i, x.clone());
            }
            t
        }
    }
}
pub fn initial(o: &Op) -> (Tree, Vec<S>) {
    let n = o.arg(1).clamp(0, LONGEST) as usize;
    let mut r = Rng::new(o.arg(2) as u64);
    let mut v: Vec<S> = (0..n).map(|_| super::seg::value(&mut r)).collect();
    let t = if o.arg(0).rem_euclid(4) == 0 {
        v = vec![S::unit(); n];
        call(None, || LazySegtree::new(n)).must("LazySegtree::new")
    } else {
        quiet_if(n > 600, || call(None, || construct(o.arg(0), &v)).must("building a LazySegtree"))
    };
    (t, v)
}

pub fn query_op(rng: &mut Rng, n: i64) -> Op {
    let i = rng.range(0, 3);
    match rng.below(8) {
        0 => op(O::LzGet, vec![i, pos(rng, n)]),
        1 => op(O::LzAll, vec![i]),
        2..=3 => op(O::LzProd, vec![i, pos(rng, n + 1), pos(rng, n + 1)]),
        4..=5 => op(O::LzMaxRight, vec![i, pos(rng, n + 1), rng.range(0, 4), word(rng), word(rng)]),
        _ => op(O::LzMinLeft, vec![i, pos(rng, n + 1), rng.range(0, 4), word(rng), word(rng)]),
    }
}
pub fn update_op(rng: &mut Rng, n: i64) -> Op {
    let i = rng.range(0, 3);
    match rng.below(10) {
        0..=1 => op(O::LzSet, vec![i, pos(rng, n), val(rng), rng.chance(1, 12) as i64]),
        2..=3 => op(O::LzApply, vec![i, pos(rng, n), rng.range(0, 2), val(rng)]),
        _ => op(O::LzRange, vec![i, pos(rng, n + 1), pos(rng, n + 1), rng.range(0, 2), val(rng)]),
    }
}
pub fn caller_op(rng: &mut Rng, n: i64) -> Op {
    match rng.below(24) {
        0 => op(O::LzRestart, vec![rng.range(0, 3), rng.range(1, 3)]),
        1..=11 => update_op(rng, n),
        _ => query_op(rng, n),
    }
}
pub fn set_value(o: &Op) -> S {
    if o.arg(3) == 1 {
        S::unit()
    } else {
        S::one(o.arg(2))
    }
}

pub fn query(o: &Op, t: &mut Tree, m: &Vec<S>) {
    let n = m.len();
    match kind(o) {
        O::LzGet => {
            if n > 0 {
                let p = o.idx(1, n);
                if let Some(x) = call(o.fault, || t.get(p)).unless_injected("get") {
                    same(o, &x, &m[p]);
                }
            }
        }
        O::LzAll => {
            if let Some(x) = call(o.fault, || t.all_prod()).unless_injected("all_prod") {
                same(o, &x, &S::fold(m));
            }
        }
        O::LzProd => {
            let (l, r) = span(o, 1, n);
            if let Some(x) = call(o.fault, || t.prod(l, r)).unless_injected("prod") {
                same(o, &x, &S::fold(&m[l..r]));
            }
        }
        O::LzMaxRight => {
            let l = o.idx(1, n + 1);
            let p = Pred::of(o.arg(2), o.arg(3), o.arg(4), m);
            if let Some(x) = call(o.fault, || t.max_right(l, |s| p.called(&s))).unless_injected("max_right") {
                same(o, &x, &p.max_right(m, l));
            }
        }
        O::LzMinLeft => {
            let r = o.idx(1, n + 1);
            let p = Pred::of(o.arg(2), o.arg(3), o.arg(4), m);
            if let Some(x) = call(o.fault, || t.min_left(r, |s| p.called(&s))).unless_injected("min_left") {
                same(o, &x, &p.min_left(m, r));
            }
        }
        _ => {}
    }
}

pub struct St {
    pub inst: Vec<Inst>,
}

pub fn step(st: &St, _me: usize, o: &Op) {
    if st.inst.is_empty() {
        return;
    }
    let sh = &st.inst[o.idx(0, st.inst.len())];
    trace!("{} {:?}", name(o), o.a);
    sh.write(|t, m| {
        let n = m.len();
        match kind(o) {
            O::LzSet if n > 0 => {
                let p = o.idx(1, n);
                let x = set_value(o);
                call(None, || t.set(p, x.clone())).must("set");
                m[p] = x;
            }
            O::LzApply if n > 0 => {
                let p = o.idx(1, n);
                let f = Aff::of(o.arg(2), o.arg(3));
                call(None, || t.apply(p, f.clone())).must("apply");
                m[p] = m[p].mapped(&f);
            }
            O::LzRange => {
                let (l, r) = span(o, 1, n);
                let f = Aff::of(o.arg(3), o.arg(4));
                call(None, || t.apply_range(l, r, f.clone())).must("apply_range");
                for x in &mut m[l..r] {
                    *x = x.mapped(&f);
                }
            }
            O::LzRestart => {
                stat("rebuild_from_current_values");
                *t = quiet_if(m.len() > 100, || call(None, || construct(o.arg(1), m)).must("rebuilding"));
            }
            O::LzReject => reject(o, t, n),
            O::LzSet | O::LzApply => {}
            _ => query(o, t, m),
        }
    })
}

/// A call that must be refused and leave no trace.
fn reject(o: &Op, t: &mut Tree, n: usize) {
    stat("rejected_call");
    let far = far(o.arg(2), n);
    let f = Aff::of(o.arg(3), 77);
    // An empty range and an inverted one may both lie outside.
    let outside = [n + 1 + far, (n + 1 + far).saturating_add(1), n + far, o.idx(4, n + 1)][o.idx(5, 4)];
    match o.idx(1, 11) {
        0 => refused("set beyond the end", || t.set(n + far, S::one(77))),
        1 => refused("get beyond the end", || t.get(n + far)),
        2 => refused("prod beyond the end", || t.prod(outside, n + 1 + far)),
        3 if n > 0 => {
            let r = o.idx(4, n);
            refused("prod of an inverted range", || t.prod(r + 1 + far % (2 * n - r), r))
        }
        4 => refused("apply beyond the end", || t.apply(n + far, f)),
        5 => refused("apply_range beyond the end", || t.apply_range(outside, n + 1 + far, f)),
        6 if n > 0 => {
            let r = o.idx(4, n);
            refused("apply_range of an inverted range", || t.apply_range(r + 1 + far % (2 * n - r), r, f))
        }
        7 => refused("max_right beyond the end", || t.max_right(n + 1 + far, |_| true)),
        8 => refused("min_left beyond the end", || t.min_left(n + 1 + far, |_| true)),
        _ => {
            let p = Pred::rejecting();
            if far % 2 == 0 {
                refused("max_right with a predicate false for the identity", || t.max_right(o.idx(4, n + 1), |s| p.called(&s)))
            } else {
                refused("min_left with a predicate false for the identity", || t.min_left(o.idx(4, n + 1), |s| p.called(&s)))
            }
        }
    }
}

pub fn audit(t: &mut Tree, m: &Vec<S>) {
    quiet(|| {
        let n = m.len();
        let got = call(None, || t.all_prod()).must("all_prod");
        let want = S::fold(m);
        crate::check!(got == want, "final-audit:lazy", "all_prod of {}: got {:?}, expected {:?}", n, got, want);
        for i in (0..n).step_by(1 + n / 64) {
            let got = call(None, || t.prod(i, n)).must("prod");
            let want = S::fold(&m[i..]);
            crate::check!(got == want, "final-audit:lazy", "prod({}, {}): got {:?}, expected {:?}", i, n, got, want);
            let got = call(None, || t.get(i)).must("get");
            crate::check!(got == m[i], "final-audit:lazy", "get({}) of {}: got {:?}, expected {:?}", i, n, got, m[i]);
        }
    })
}

pub fn gen(rng: &mut Rng) -> Plan {
    let b: Vec<Op> = (0..*rng.pick(&[1, 1, 1, 2])).map(|_| build_op(rng)).collect();
    let n = b[0].arg(1);
    plan(rng, vec![], b, |r, _| caller_op(r, n))
}

pub fn exec(p: &Plan) {
    let mut inst = vec![];
    for o in &p.threads[0] {
        if kind(o) == O::LzBuild {
            let (t, v) = initial(o);
            inst.push(Shared::new(t, v));
        }
    }
    let st = Arc::new(St { inst });
    callers(st.clone(), &p.threads[1..], step);
    for sh in &st.inst {
        sh.write(|t, m| audit(t, m));
    }
}
