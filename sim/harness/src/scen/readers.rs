//! Any number of threads querying structures that nobody changes.
use super::alg::{NonComm, S, W};
use super::hld::Shape;
use super::modular::{factorial, P101};
use super::*;
use crate::ctx::{deep_if, call, callers, cb, quiet_if, stat, Shared};
use crate::plan::K;
use crate::trace;
use rust_cp::data_structure::fenwick_tree::FenwickTree;
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::data_structure::sparse_table::SparseTable;
use rust_cp::graph::binary_lifting::BinaryLifting;
use rust_cp::math::factorial::Factorial;
use rust_cp::misc::modint::{Mod1000000007, Mod998244353};
use std::sync::Arc;

type Table = SparseTable<i64, Box<dyn Fn(i64, i64) -> i64>>;

fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
/// Associative and idempotent operations, two of them sensitive to order.
fn combine(k: i64, a: i64, b: i64) -> i64 {
    match k.rem_euclid(7) {
        0 => a.min(b),
        1 => a.max(b),
        2 => gcd(a, b),
        3 => a & b,
        4 => a | b,
        5 => a,
        _ => b,
    }
}

enum Fc {
    A(Factorial<Mod1000000007>, usize),
    B(Factorial<Mod998244353>, usize),
    C(Factorial<P101>, usize),
}
/// Structures nobody changes; only the thread holding the baton runs.
struct St {
    sp: Vec<Shared<Table, (i64, Vec<i64>)>>,
    bl: Vec<Shared<BinaryLifting, Shape>>,
    fc: Vec<Shared<Fc, ()>>,
    fw: Vec<Shared<FenwickTree<W>, Vec<i64>>>,
    sg: Vec<Shared<Segtree<NonComm>, Vec<S>>>,
    ac: Option<Shared<Box<dyn dict::Automaton>, Box<dyn dict::Automaton>>>,
    w: i64,
    pats: Vec<Vec<u8>>,
}

fn of<'a, T>(v: &'a [T], o: &Op) -> Option<&'a T> {
    if v.is_empty() {
        None
    } else {
        Some(&v[o.idx(0, v.len())])
    }
}

fn step(st: &St, _me: usize, o: &Op) {
    trace!("{} {:?} fault {:?}", name(o), o.a, o.fault);
    match kind(o) {
        O::SpGet => {
            if let Some(sh) = of(&st.sp, o) {
                sh.read(|t, (k, v)| {
                    let l = o.idx(1, v.len());
                    let r = l + 1 + o.idx(2, v.len() - l);
                    if let Some(x) = call(o.fault, || t.get(l, r)).unless_injected("get") {
                        let want = v[l + 1..r].iter().fold(v[l], |a, &b| combine(*k, a, b));
                        same(o, &x, &want);
                    }
                })
            }
        }
        O::BlLca | O::BlDis | O::BlAnc => {
            if let Some(sh) = of(&st.bl, o) {
                sh.read(|t, s| {
                    let (u, v) = (s.at(o.arg(1)), s.at(o.arg(2)));
                    match kind(o) {
                        O::BlLca => same(o, &call(None, || t.lca(u, v)).must("lca"), &s.lca(u, v)),
                        O::BlDis => same(o, &call(None, || t.dis(u, v)).must("dis"), &s.dis(u, v)),
                        _ => same(o, &call(None, || t.is_ancestor(u, v)).must("is_ancestor"), &s.above(u, v)),
                    }
                })
            }
        }
        O::FcChoose | O::FcPerm => {
            if let Some(sh) = of(&st.fc, o) {
                let inner = op(kind(o), vec![0, o.arg(1), o.arg(2), (kind(o) == O::FcPerm) as i64]);
                sh.read(|t, _| match t {
                    Fc::A(t, s) => factorial(&inner, Some(t), *s),
                    Fc::B(t, s) => factorial(&inner, Some(t), *s),
                    Fc::C(t, s) => factorial(&inner, Some(t), *s),
                })
            }
        }
        O::AcFind | O::AcFindAll | O::AcFindCnt => {
            if let Some(sh) = &st.ac {
                let text = dict::letters(st.w, &o.a);
                sh.read(|t, r| dict::query(o, t.as_ref(), &st.pats, &text, Some(r.as_ref())))
            }
        }
        // A request no structure can answer: whatever comes of it, the others are answered as before.
        O::RdReject => {
            let far = o.idx(3, 4);
            let which = o.idx(2, 3);
            let mut r = Rng::new(o.arg(4) as u64);
            if o.arg(1).rem_euclid(6) != 3 {
                stat("rejected_call");
            }
            match o.arg(1).rem_euclid(6) {
                0 => {
                    if let Some(sh) = of(&st.sp, o) {
                        sh.read(|t, (_, v)| {
                            let l = r.below(v.len() as u64) as usize;
                            let (a, b) = [(l, v.len() + 1 + far), (l, l), (v.len() + far, v.len() + far + 1)][which];
                            call(None, || t.get(a, b)).completed();
                        })
                    }
                }
                1 => {
                    if let Some(sh) = of(&st.bl, o) {
                        sh.read(|t, s| {
                            let (u, v) = (r.below(s.n() as u64) as usize, s.n() + far);
                            match which {
                                0 => call(None, || t.lca(u, v)).completed(),
                                1 => call(None, || t.dis(v, u)).completed(),
                                _ => call(None, || t.is_ancestor(u, v)).completed(),
                            };
                        })
                    }
                }
                2 => {
                    if let Some(sh) = of(&st.fc, o) {
                        sh.read(|t, _| match t {
                            Fc::A(t, s) => call(None, || (t.choose(s + 1 + far, which), t.perm(which, which + 1 + far))).completed(),
                            Fc::B(t, s) => call(None, || (t.choose(s + 1 + far, which), t.perm(which, which + 1 + far))).completed(),
                            Fc::C(t, s) => call(None, || (t.choose(which, which + 1 + far), t.perm(s + 1 + far, which))).completed(),
                        });
                    }
                }
                3 => {
                    if let Some(sh) = &st.ac {
                        sh.read(|t, _| dict::reject(st.w, &op(O::AcReject, vec![0, o.arg(2), o.arg(4)]), t.as_ref(), &st.pats))
                    }
                }
                4 => {
                    if let Some(sh) = of(&st.fw, o) {
                        sh.read(|t, v| {
                            let b = v.len() + 1 + far;
                            match which {
                                0 => call(None, || t.pref(b)).completed(),
                                1 => call(None, || t.sum(0, b)).completed(),
                                _ => call(None, || t.sum(b, b + 1)).completed(),
                            };
                        })
                    }
                }
                _ => {
                    if let Some(sh) = of(&st.sg, o) {
                        sh.read(|t, m| {
                            let b = m.len() + 1 + far;
                            match which {
                                0 => call(None, || t.get(b)).completed(),
                                1 => call(None, || t.prod(0, b)).completed(),
                                _ => call(None, || t.max_right(b, |_| true)).completed(),
                            };
                        })
                    }
                }
            }
        }
        O::FwPref | O::FwSum | O::FwPoint | O::FwSearch => {
            if let Some(sh) = of(&st.fw, o) {
                sh.read(|t, v| fenwick::query(o, t, v))
            }
        }
        _ => {
            if let Some(sh) = of(&st.sg, o) {
                sh.read(|t, m| seg::query(o, t, m))
            }
        }
    }
}

pub fn gen(rng: &mut Rng) -> Plan {
    let mut setup = vec![];
    let mut kinds = vec![];
    let w = rng.range(0, 4);
    let (mut fwn, mut sgn) = (0, 0);
    for _ in 0..*rng.pick(&[1, 1, 2, 3]) {
        let k = rng.below(6);
        kinds.push(k);
        match k {
            0 => setup.push(op(O::SpBuild, vec![huge(rng, 1000).map(|n| n + rng.range(0, 30_000)).unwrap_or_else(|| size(rng)).max(1), word(rng), rng.range(0, 6), val(rng)])),
            1 => setup.push(match huge(rng, 1500) {
                Some(n) => op(O::BlBuild, vec![n + rng.range(10_000, 40_000), *rng.pick(&[0, 1, 2, 3, 4, 5, 6, 6, 6, 7, 7]), word(rng)]),
                None => op(O::BlBuild, vec![size(rng).max(1), rng.range(0, 7), word(rng)]),
            }),
            2 => setup.push(op(O::FcBuild, vec![rng.range(0, 2), huge(rng, 1500).unwrap_or_else(|| if rng.chance(1, 6) { 100 } else { size(rng) })])),
            3 => {
                for _ in 0..rng.range(1, 6) {
                    let mut t = dict::gen_text(rng, 8);
                    t.push(rng.range(0, 36));
                    setup.push(op(O::AcPattern, t));
                }
            }
            4 => {
                let o = fenwick::build_op(rng);
                fwn = o.arg(1);
                setup.push(o);
            }
            _ => {
                let o = seg::build_op(rng);
                sgn = o.arg(1);
                setup.push(o);
            }
        }
    }
    let faults = rng.chance(2, 3);
    plan(rng, vec![w], setup, |r, _| {
        if r.chance(1, 40) {
            return op(O::RdReject, vec![r.range(0, 2), *r.pick(&kinds) as i64, r.range(0, 2), r.range(0, 3), word(r)]);
        }
        let mut o = match *r.pick(&kinds) {
            0 => {
                // ends near the ends as often as anywhere
                let l = if r.chance(1, 3) { r.range(0, 3) } else { word(r) };
                let e = if r.chance(1, 3) { r.range(-3, -1) } else { word(r) };
                op(O::SpGet, vec![r.range(0, 2), l, e])
            }
            1 => op(*r.pick(&[O::BlLca, O::BlDis, O::BlAnc]), vec![r.range(0, 2), hld::vertex(r, 1 << 40), hld::vertex(r, 1 << 40)]),
            2 => op(*r.pick(&[O::FcChoose, O::FcPerm]), vec![r.range(0, 2), word(r), word(r)]),
            3 => op(*r.pick(&[O::AcFind, O::AcFindAll, O::AcFindCnt]), dict::gen_text(r, 40)),
            4 => fenwick::query_op(r, fwn),
            _ => seg::query_op(r, sgn),
        };
        let ks: &[K] = match kind(&o) {
            O::SpGet | O::SgProd | O::SgAll | O::SgGet => &[K::Combine],
            O::FwPref | O::FwSum => &[K::Add],
            O::FwPoint => &[K::Add, K::Pred],
            O::FwSearch => &[K::Add, K::Cmp],
            O::SgMaxRight | O::SgMinLeft => &[K::Combine, K::Pred],
            _ => &[],
        };
        if faults && !ks.is_empty() && r.chance(1, 3) {
            o.fault = Some((*r.pick(ks) as u8, *r.pick(&[1, 1, 2, 3, 5, 8])));
        }
        o
    })
}

pub fn exec(p: &Plan) {
    let w = p.param(0);
    let mut st = St { sp: vec![], bl: vec![], fc: vec![], fw: vec![], sg: vec![], ac: None, w, pats: vec![] };
    for o in &p.threads[0] {
        match kind(o) {
            O::SpBuild => {
                let n = o.arg(0).clamp(1, LONGEST) as usize;
                let k = o.arg(2);
                let mut r = Rng::new(o.arg(1) as u64);
                let v: Vec<i64> = (0..n).map(|_| if r.chance(1, 2) { r.range(-9, 9) * 6 } else { r.range(-100_000, 100_000) }).collect();
                // gcd is idempotent on non-negative numbers only
                let v: Vec<i64> = if k.rem_euclid(7) == 2 { v.iter().map(|x| x.abs()).collect() } else { v };
                let f: Box<dyn Fn(i64, i64) -> i64> = Box::new(move |a, b| {
                    cb(K::Combine);
                    combine(k, a, b)
                });
                let t = quiet_if(n > 600, || call(None, || SparseTable::from(&v, o.arg(3), f))).must("SparseTable::from");
                st.sp.push(Shared::new(t, (k, v)));
            }
            O::BlBuild => {
                let s = Shape::capped(o.arg(0), o.arg(1), o.arg(2) as u64);
                let t = deep_if(s.n() > BULK, || call(None, || BinaryLifting::from(&s.g, s.root)).must("BinaryLifting::from"));
                st.bl.push(Shared::new(t, s));
            }
            O::FcBuild => {
                let s = o.arg(1).clamp(0, if o.arg(0).rem_euclid(3) == 2 { 100 } else { LONGEST }) as usize;
                st.fc.push(Shared::new(
                    match o.arg(0).rem_euclid(3) {
                        0 => Fc::A(call(None, || Factorial::new(s)).must("Factorial::new"), s),
                        1 => Fc::B(call(None, || Factorial::new(s)).must("Factorial::new"), s),
                        _ => Fc::C(call(None, || Factorial::new(s)).must("Factorial::new"), s),
                    },
                    (),
                ));
            }
            O::FwBuild => st.fw.push(fenwick::build(o).0),
            O::SgBuild => st.sg.push(seg::build(o)),
            O::AcPattern => {
                let s = dict::letters(w, &o.a);
                if !s.is_empty() && !st.pats.contains(&s) {
                    st.pats.push(s);
                }
            }
            _ => {}
        }
    }
    if !st.pats.is_empty() {
        let refs: Vec<&[u8]> = st.pats.iter().map(|v| &v[..]).collect();
        let t = call(None, || dict::bulk(w, &refs)).must("AhoCorasick::from");
        let r = call(None, || dict::bulk(w, &refs)).must("AhoCorasick::from");
        st.ac = Some(Shared::new(t, r));
    }
    callers(Arc::new(st), &p.threads[1..], step);
}
