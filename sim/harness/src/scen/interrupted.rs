//! C08: interrupted or rejected requests leave no trace.
//! C09: interrupted updates stay confined and are repaired by reassigning.
use super::alg::{Aff, Delta, Pred, C, S, W};
use super::*;
use crate::ctx::{call, callers, quiet, stat, stat_n, Shared};
use crate::plan::K;
use crate::{check, trace};
use rust_cp::data_structure::fenwick_tree::FenwickTree;
use rust_cp::data_structure::segtree::Segtree;
use std::fmt::Debug;
use std::sync::Arc;

fn nth(rng: &mut Rng) -> u32 {
    match rng.below(4) {
        0 => 1,
        1 => rng.range(1, 3) as u32,
        _ => rng.range(1, 14) as u32,
    }
}

// ---------------------------------------------------------------- C08

pub fn gen_c08(rng: &mut Rng) -> Plan {
    let which = rng.below(4);
    let builds = *rng.pick(&[1, 1, 2]);
    let b: Vec<Op> = (0..builds)
        .map(|_| match which {
            0 => fenwick::build_op(rng),
            1 => seg::build_op(rng),
            2 => lazy::build_op(rng),
            _ => hld::build_op(rng),
        })
        .collect();
    let n = b[0].arg(1);
    plan(rng, vec![], b, |r, _| {
        let mut o = match (which, r.below(10)) {
            (0, 0..=2) => fenwick::caller_op(r, n),
            (0, 3) => op(O::FwReject, vec![r.range(0, 3), r.range(0, 2), r.range(0, 9)]),
            (0, _) => fenwick::query_op(r, n),
            (1, 0..=2) => seg::caller_op(r, n),
            (1, 3) => op(O::SgReject, vec![r.range(0, 3), r.range(0, 6), r.range(0, 9), word(r), word(r)]),
            (1, _) => seg::query_op(r, n),
            (2, 0..=2) => lazy::caller_op(r, n),
            (2, 3) => lazy::update_op(r, n),
            (2, 4) => op(O::LzReject, vec![r.range(0, 3), r.range(0, 10), r.range(0, 9), r.range(0, 2), word(r), word(r)]),
            (2, _) => lazy::query_op(r, n),
            (_, 0..=2) => hld::caller_op(r, n),
            (_, 3) => hld::update_op(r, n),
            (_, 4) => op(O::HlReject, vec![r.range(0, 3), r.range(0, 6), r.range(0, 9), r.range(0, 2), word(r)]),
            (_, _) => hld::query_op(r, n),
        };
        let kinds: &[K] = match kind(&o) {
            O::FwPref | O::FwSum => &[K::Add],
            O::FwPoint => &[K::Add, K::Pred],
            O::FwSearch => &[K::Add, K::Cmp],
            O::SgProd | O::LzProd | O::HlPathProd | O::HlSubProd | O::SgAll | O::LzAll | O::SgGet | O::LzGet | O::HlGet => &[K::Combine],
            O::SgMaxRight | O::SgMinLeft | O::LzMaxRight | O::LzMinLeft => &[K::Combine, K::Pred],
            _ => &[],
        };
        if !kinds.is_empty() && r.chance(1, 2) {
            o.fault = Some((*r.pick(kinds) as u8, nth(r)));
        }
        o
    })
}

pub fn exec_c08(p: &Plan) {
    match p.threads[0].first().map(kind) {
        Some(O::FwBuild) => fenwick::exec(p),
        Some(O::SgBuild) => {
            let inst = p.threads[0].iter().filter(|o| kind(o) == O::SgBuild).map(seg::build).collect();
            let st = Arc::new(seg::St { inst });
            callers(st.clone(), &p.threads[1..], seg::step);
            for sh in &st.inst {
                sh.read(|t, m| seg::audit(t, m));
            }
        }
        Some(O::LzBuild) => lazy::exec(p),
        Some(O::HlBuild) => hld::exec(p),
        _ => {}
    }
}

// ---------------------------------------------------------------- C09

pub fn gen_c09(rng: &mut Rng) -> Plan {
    let which = rng.below(4);
    let mut b = vec![match which {
        0 => fenwick::build_op(rng),
        1 => seg::build_op(rng),
        2 => lazy::build_op(rng),
        _ => hld::build_op(rng),
    }];
    b[0].a[1] = b[0].a[1].min(3000);
    let n = b[0].arg(1);
    // How often faults come.
    let den = rng.range(2, 6) as u64;
    plan(rng, vec![rng_seed(n, which)], b, |r, _| {
        let upd = r.chance(1, 2);
        let mut o = match (which, upd) {
            (0, true) => {
                let k = *r.pick(&[O::FwAdd, O::FwAddDelta]);
                op(k, vec![0, pos(r, n), val(r)])
            }
            (0, false) if r.chance(1, 8) => op(O::FwRestart, vec![0, 1]),
            (0, false) => fenwick::query_op(r, n),
            (1, true) => op(O::SgSet, vec![0, pos(r, n), val(r), 0]),
            (1, false) => seg::query_op(r, n),
            (2, true) => lazy::update_op(r, n),
            (2, false) => lazy::query_op(r, n),
            (_, true) => hld::update_op(r, n),
            (_, false) => hld::query_op(r, n),
        };
        if upd && r.chance(1, den) {
            o.fault = Some((if which == 0 { K::Add } else { K::Combine } as u8, nth(r)));
        }
        o
    })
}
fn rng_seed(n: i64, which: u64) -> i64 {
    n * 4 + which as i64
}

/// What is known about elements some of which were targets of interrupted updates.
struct Doubt<T> {
    /// The values an element may hold.
    cand: Vec<Vec<T>>,
    /// Target of an interrupted update and not assigned since.
    stale: Vec<bool>,
}
impl<T: Clone + PartialEq + Debug + std::hash::Hash> Doubt<T> {
    fn new(v: Vec<T>) -> Self {
        Doubt { stale: vec![false; v.len()], cand: v.into_iter().map(|x| vec![x]).collect() }
    }
    fn assigned(&mut self, p: usize, x: T, completed: bool) {
        if completed {
            self.cand[p] = vec![x];
            self.stale[p] = false;
        } else {
            stat("interrupted_updates");
            self.add(p, vec![x]);
            self.stale[p] = true;
        }
    }
    fn mapped(&mut self, targets: &[usize], completed: bool, f: impl Fn(&T) -> T) {
        if !completed {
            stat("interrupted_updates");
        }
        for &p in targets {
            let new: Vec<T> = self.cand[p].iter().map(&f).collect();
            if completed {
                self.cand[p].clear();
            } else {
                self.stale[p] = true;
            }
            self.add(p, new);
        }
    }
    fn add(&mut self, p: usize, xs: Vec<T>) {
        for x in xs {
            if !self.cand[p].contains(&x) {
                self.cand[p].push(x);
            }
        }
    }
    fn read(&mut self, o: &Op, p: usize, x: T) {
        crate::ctx::ev(&x);
        if !self.cand[p].contains(&x) {
            wrong(o, format!("element {} reads {:?}, expected one of {:?}", p, x, self.cand[p]));
        }
        self.cand[p] = vec![x];
    }
    fn clean(&self, mut xs: impl Iterator<Item = usize>) -> bool {
        xs.all(|i| !self.stale[i])
    }
    /// The known values of elements none of which is stale.
    fn known(&self, xs: impl Iterator<Item = usize>) -> Vec<T> {
        xs.map(|i| self.cand[i][0].clone()).collect()
    }
    fn stale(&self) -> Vec<usize> {
        (0..self.stale.len()).filter(|&i| self.stale[i]).collect()
    }
}

struct FwModel {
    base: Vec<i64>,
    doubts: Vec<(usize, i64)>,
}
impl FwModel {
    /// Everything `pref(i)` may be.
    fn pref(&self, i: usize) -> Vec<i64> {
        let mut out = vec![fenwick::prefix(&self.base, i)];
        for &(p, x) in &self.doubts {
            if p < i {
                let more: Vec<i64> = out.iter().map(|v| v.wrapping_add(x)).collect();
                out.extend(more);
            }
        }
        out
    }
}

fn member(o: &Op, got: i64, want: &[i64]) {
    crate::ctx::ev(&got);
    if !want.contains(&got) {
        wrong(o, format!("got {}, expected one of {:?}", got, want));
    }
}

fn fw_step(sh: &Shared<FenwickTree<W>, FwModel>, _me: usize, o: &Op) {
    trace!("{} {:?} {:?}", name(o), o.a, o.fault);
    match kind(o) {
        O::FwAdd | O::FwAddDelta => sh.write(|t, m| {
            if m.base.is_empty() {
                return;
            }
            let i = o.idx(1, m.base.len());
            let x = o.arg(2);
            let fault = if m.doubts.len() < 3 { o.fault } else { None };
            let r = if kind(o) == O::FwAdd { call(fault, || t.add(i, W(x))) } else { call(fault, || t.add(i, Delta(x))) };
            if r.unless_injected("add").is_some() {
                m.base[i] = m.base[i].wrapping_add(x);
            } else {
                stat("interrupted_updates");
                m.doubts.push((i, x));
            }
        }),
        O::FwRestart => sh.write(|t, m| {
            stat("rebuild_from_current_values");
            *t = call(None, || fenwick::construct(1, &m.base)).must("rebuilding");
            m.doubts.clear();
        }),
        O::FwPref => sh.read(|t, m| {
            let i = o.idx(1, m.base.len() + 1);
            member(o, call(None, || t.pref(i)).must("pref").0, &m.pref(i));
        }),
        O::FwSum => sh.read(|t, m| {
            let (l, r) = span(o, 1, m.base.len());
            let want: Vec<i64> = m.pref(r).iter().flat_map(|x| m.pref(l).into_iter().map(move |y| x.wrapping_sub(y))).collect();
            member(o, call(None, || t.sum(l, r)).must("sum").0, &want);
        }),
        _ => sh.read(|t, m| {
            if m.doubts.is_empty() {
                fenwick::query(o, t, &m.base)
            }
        }),
    }
}

fn sg_step(sh: &Shared<Segtree<alg::NonComm>, Doubt<S>>, _me: usize, o: &Op) {
    trace!("{} {:?} {:?}", name(o), o.a, o.fault);
    match kind(o) {
        O::SgSet => sh.write(|t, m| {
            let n = m.cand.len();
            if n > 0 {
                let p = o.idx(1, n);
                let x = seg::set_value(o);
                let r = call(o.fault, || t.set(p, x.clone())).unless_injected("set");
                m.assigned(p, x, r.is_some());
            }
        }),
        O::SgGet => sh.write(|t, m| {
            let n = m.cand.len();
            if n > 0 {
                let p = o.idx(1, n);
                let x = call(None, || t.get(p)).must("get");
                m.read(o, p, x);
            }
        }),
        _ => sh.read(|t, m| {
            let n = m.cand.len();
            let (lo, hi) = match kind(o) {
                O::SgProd => span(o, 1, n),
                O::SgMaxRight => (o.idx(1, n + 1), n),
                O::SgMinLeft => (0, o.idx(1, n + 1)),
                _ => (0, n),
            };
            if !m.clean(lo..hi) {
                stat("query_over_unrepaired_element");
                return;
            }
            let v = m.known(lo..hi);
            match kind(o) {
                O::SgAll => same(o, &call(None, || t.all_prod()).must("all_prod"), &S::fold(&v)),
                O::SgProd => same(o, &call(None, || t.prod(lo, hi)).must("prod"), &S::fold(&v)),
                O::SgMaxRight => {
                    let p = Pred::of(o.arg(2), o.arg(3), o.arg(4), &v);
                    same(o, &call(None, || t.max_right(lo, |s| p.called(s))).must("max_right"), &(lo + p.max_right(&v, 0)));
                }
                O::SgMinLeft => {
                    let p = Pred::of(o.arg(2), o.arg(3), o.arg(4), &v);
                    same(o, &call(None, || t.min_left(hi, |s| p.called(s))).must("min_left"), &p.min_left(&v, hi));
                }
                _ => {}
            }
        }),
    }
}

fn lz_step(sh: &Shared<lazy::Tree, Doubt<S>>, _me: usize, o: &Op) {
    trace!("{} {:?} {:?}", name(o), o.a, o.fault);
    sh.write(|t, m| {
        let n = m.cand.len();
        match kind(o) {
            O::LzSet | O::LzApply | O::LzGet if n == 0 => {}
            O::LzSet => {
                let p = o.idx(1, n);
                let x = lazy::set_value(o);
                let r = call(o.fault, || t.set(p, x.clone())).unless_injected("set");
                m.assigned(p, x, r.is_some());
            }
            O::LzApply => {
                let p = o.idx(1, n);
                let f = Aff::of(o.arg(2), o.arg(3));
                let r = call(o.fault, || t.apply(p, f.clone())).unless_injected("apply");
                m.mapped(&[p], r.is_some(), |x| x.mapped(&f));
            }
            O::LzRange => {
                let (l, r) = span(o, 1, n);
                let f = Aff::of(o.arg(3), o.arg(4));
                let done = call(o.fault, || t.apply_range(l, r, f.clone())).unless_injected("apply_range");
                m.mapped(&(l..r).collect::<Vec<_>>(), done.is_some(), |x| x.mapped(&f));
            }
            O::LzGet => {
                let p = o.idx(1, n);
                let x = call(None, || t.get(p)).must("get");
                m.read(o, p, x);
            }
            O::LzRestart => {}
            _ => {
                let (lo, hi) = match kind(o) {
                    O::LzProd => span(o, 1, n),
                    O::LzMaxRight => (o.idx(1, n + 1), n),
                    O::LzMinLeft => (0, o.idx(1, n + 1)),
                    _ => (0, n),
                };
                let clean = m.clean(lo..hi);
                let v = if clean { m.known(lo..hi) } else { vec![] };
                if !clean {
                    // The answer is not promised, but asking must not spoil anything.
                    stat("query_over_unrepaired_element");
                }
                let p = Pred::of(o.arg(2), o.arg(3), o.arg(4), &v);
                match kind(o) {
                    O::LzAll if clean => same(o, &call(None, || t.all_prod()).must("all_prod"), &S::fold(&v)),
                    O::LzProd => {
                        let x = call(None, || t.prod(lo, hi));
                        if clean {
                            same(o, &x.must("prod"), &S::fold(&v));
                        }
                    }
                    O::LzMaxRight => {
                        let x = call(None, || t.max_right(lo, |s| p.called(&s)));
                        if clean {
                            same(o, &x.must("max_right"), &(lo + p.max_right(&v, 0)));
                        }
                    }
                    O::LzMinLeft => {
                        let x = call(None, || t.min_left(hi, |s| p.called(&s)));
                        if clean {
                            same(o, &x.must("min_left"), &p.min_left(&v, hi));
                        }
                    }
                    _ => {}
                }
            }
        }
    })
}

struct HlModel {
    shape: hld::Shape,
    d: Doubt<C>,
}

fn hl_step(sh: &Shared<hld::Tree, HlModel>, _me: usize, o: &Op) {
    trace!("{} {:?} {:?}", name(o), o.a, o.fault);
    sh.write(|t, m| {
        let (u, v) = (m.shape.at(o.arg(1)), m.shape.at(o.arg(2)));
        match kind(o) {
            O::HlSet => {
                let x = C::one(o.arg(2));
                let r = call(o.fault, || t.set(u, x.clone())).unless_injected("set");
                m.d.assigned(u, x, r.is_some());
            }
            O::HlApplyPath => {
                let f = Aff::of(o.arg(3), o.arg(4));
                let r = call(o.fault, || t.apply_path(u, v, f.clone())).unless_injected("apply_path");
                m.d.mapped(&m.shape.path(u, v), r.is_some(), |x| x.mapped(&f));
            }
            O::HlApplySub => {
                let f = Aff::of(o.arg(2), o.arg(3));
                let r = call(o.fault, || t.apply_subtree(u, f.clone())).unless_injected("apply_subtree");
                m.d.mapped(&m.shape.subtree(u), r.is_some(), |x| x.mapped(&f));
            }
            O::HlGet => {
                let x = call(None, || t.get(u)).must("get");
                m.d.read(o, u, x);
            }
            O::HlPathProd | O::HlSubProd => {
                let path = kind(o) == O::HlPathProd;
                let vs = if path { m.shape.path(u, v) } else { m.shape.subtree(u) };
                let x = call(None, || if path { t.path_prod(u, v) } else { t.subtree_prod(u) });
                if m.d.clean(vs.iter().copied()) {
                    let want = m.d.known(vs.into_iter()).iter().fold(C::unit(), |a, b| C::join(&a, b));
                    same(o, &x.must("product"), &want);
                } else {
                    stat("query_over_unrepaired_element");
                }
            }
            _ => {}
        }
    })
}

/// Assigns every unrepaired element again, in an order derived from `salt`.
fn repair<T>(mut stale: Vec<usize>, salt: u64, mut set: impl FnMut(usize, i64) -> T) {
    stat_n("repaired_elements", stale.len() as u64);
    let mut r = Rng::new(salt);
    for i in (1..stale.len()).rev() {
        stale.swap(i, r.below(i as u64 + 1) as usize);
    }
    for p in stale {
        set(p, r.range(-9, 9));
    }
}

pub fn exec_c09(p: &Plan) {
    let Some(b) = p.threads[0].first() else { return };
    let salt = p.param(0) as u64;
    let rest = &p.threads[1..];
    match kind(b) {
        O::FwBuild => {
            let (inst, _) = fenwick::build(b);
            let (t, base) = inst.into_parts();
            let st = Arc::new(Shared::new(t, FwModel { base, doubts: vec![] }));
            callers(st.clone(), rest, fw_step);
            st.read(|t, m| {
                quiet(|| {
                    let n = m.base.len();
                    for i in (0..=n).step_by(1 + n / 64).chain(n.saturating_sub(3)..=n) {
                        let got = call(None, || t.pref(i)).must("pref").0;
                        let want = m.pref(i);
                        check!(want.contains(&got), "final-audit:fenwick", "pref({}) of {}: got {}, expected one of {:?}", i, n, got, want);
                    }
                })
            });
        }
        O::SgBuild => {
            let (t, v) = seg::build(b).into_parts();
            let st = Arc::new(Shared::new(t, Doubt::new(v)));
            callers(st.clone(), rest, sg_step);
            st.write(|t, m| {
                repair(m.stale(), salt, |p, x| {
                    call(None, || t.set(p, S::one(x))).must("set");
                    m.assigned(p, S::one(x), true);
                });
                seg::audit(t, &m.known(0..m.cand.len()));
            });
        }
        O::LzBuild => {
            let (t, v) = lazy::initial(b);
            let st = Arc::new(Shared::new(t, Doubt::new(v)));
            callers(st.clone(), rest, lz_step);
            st.write(|t, m| {
                repair(m.stale(), salt, |p, x| {
                    call(None, || t.set(p, S::one(x))).must("set");
                    m.assigned(p, S::one(x), true);
                });
                lazy::audit(t, &m.known(0..m.cand.len()));
            });
        }
        O::HlBuild => {
            let (t, m) = hld::initial(b);
            let st = Arc::new(Shared::new(t, HlModel { shape: m.shape, d: Doubt::new(m.val) }));
            callers(st.clone(), rest, hl_step);
            st.write(|t, m| {
                repair(m.d.stale(), salt, |p, x| {
                    call(None, || t.set(p, C::one(x))).must("set");
                    m.d.assigned(p, C::one(x), true);
                });
                let val = m.d.known(0..m.d.cand.len());
                hld::audit(t, &hld::Model { shape: m.shape.clone(), val });
            });
        }
        _ => {}
    }
}
