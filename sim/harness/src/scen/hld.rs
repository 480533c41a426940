//! HLD against per-vertex values and walked paths.
use super::alg::{Aff, CommMap, C};
use super::*;
use crate::ctx::{deep_if, refused, quiet_if, call, callers, quiet, stat, Shared};
use crate::trace;
use rust_cp::graph::heavy_light_decomp::HLD;
use std::sync::Arc;

pub type Tree = HLD<CommMap>;

/// A rooted tree as the oracle sees it, and the adjacency lists the library gets.
#[derive(Clone)]
pub struct Shape {
    pub g: Vec<Vec<usize>>,
    pub root: usize,
    parent: Vec<usize>,
    depth: Vec<usize>,
    deepest: Vec<usize>,
}
impl Shape {
    /// A tree of `n` vertices; `style` picks random, path-like, star-like, caterpillar or binary.
    pub fn of(n: usize, style: i64, seed: u64) -> Shape {
        let n = n.max(1);
        let mut r = Rng::new(seed);
        let mut label: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            label.swap(i, r.below(i as u64 + 1) as usize);
        }
        let mut g = vec![vec![]; n];
        for i in 1..n {
            let p = match style.rem_euclid(8) {
                0 => r.below(i as u64) as usize,
                1 => i - 1 - r.below(i.min(2) as u64) as usize,
                2 => r.below(i.min(2) as u64) as usize,
                3 => if i % 2 == 1 { i.saturating_sub(2) } else { i - 1 }, // caterpillar
                4 => (i - 1) / 2,
                5 => i - 1,
                // a bush at the bottom of a long path
                7 => if i + 60 > n { r.range((i as i64 - 20).max(0), i as i64 - 1) as usize } else { i - 1 },
                // one long arm and one short, hung from their meeting point
                _ => if i == n / 10 + 1 { 0 } else { i - 1 },
            };
            g[label[i]].push(label[p]);
            g[label[p]].push(label[i]);
        }
        for a in g.iter_mut() {
            for i in (1..a.len()).rev() {
                a.swap(i, r.below(i as u64 + 1) as usize);
            }
        }
        let root = if style.rem_euclid(8) >= 6 { label[0] } else { r.below(n as u64) as usize };
        let (mut parent, mut depth) = (vec![usize::MAX; n], vec![0; n]);
        let mut q = vec![root];
        parent[root] = root;
        while let Some(u) = q.pop() {
            for &v in &g[u] {
                if parent[v] == usize::MAX {
                    parent[v] = u;
                    depth[v] = depth[u] + 1;
                    q.push(v);
                }
            }
        }
        let mut deepest: Vec<usize> = (0..n).collect();
        deepest.sort_by_key(|&u| (std::cmp::Reverse(depth[u]), u));
        deepest.truncate(60);
        Shape { g, root, parent, depth, deepest }
    }
    /// The vertex an argument names: any, or one of the deepest.
    pub fn at(&self, a: i64) -> usize {
        if a >= DEEP {
            self.deepest[(a - DEEP) as usize % self.deepest.len()]
        } else {
            a.rem_euclid(self.n() as i64) as usize
        }
    }
    /// Deep trees stay small enough for recursion.
    pub fn capped(n: i64, style: i64, seed: u64) -> Shape {
        Shape::of(n.clamp(1, LONGEST) as usize, style, seed)
    }
    pub fn n(&self) -> usize {
        self.g.len()
    }
    pub fn lca(&self, mut u: usize, mut v: usize) -> usize {
        while u != v {
            if self.depth[u] < self.depth[v] {
                std::mem::swap(&mut u, &mut v);
            }
            u = self.parent[u];
        }
        u
    }
    pub fn dis(&self, u: usize, v: usize) -> usize {
        self.depth[u] + self.depth[v] - 2 * self.depth[self.lca(u, v)]
    }
    pub fn path(&self, mut u: usize, mut v: usize) -> Vec<usize> {
        let mut out = vec![];
        while u != v {
            if self.depth[u] < self.depth[v] {
                std::mem::swap(&mut u, &mut v);
            }
            out.push(u);
            u = self.parent[u];
        }
        out.push(u);
        out
    }
    pub fn above(&self, a: usize, mut v: usize) -> bool {
        loop {
            if a == v {
                return true;
            }
            if v == self.root {
                return false;
            }
            v = self.parent[v];
        }
    }
    pub fn subtree(&self, u: usize) -> Vec<usize> {
        let mut out = vec![u];
        let mut i = 0;
        while i < out.len() {
            let x = out[i];
            i += 1;
            for &y in &self.g[x] {
                if y != self.parent[x] {
                    out.push(y);
                }
            }
        }
        out
    }
}

pub struct Model {
    pub shape: Shape,
    pub val: Vec<C>,
}
impl Model {
    pub fn fold(&self, vs: &[usize]) -> C {
        vs.iter().fold(C::unit(), |a, &v| C::join(&a, &self.val[v]))
    }
}
pub type Inst = Shared<Tree, Model>;

pub fn build_op(rng: &mut Rng) -> Op {
    if let Some(n) = huge(rng, 2500) {
        return op(O::HlBuild, vec![rng.range(0, 1), n + rng.range(0, 12_000), *rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 7, 7]), word(rng)]);
    }
    let n = size(rng).clamp(1, 1500);
    op(O::HlBuild, vec![rng.range(0, 2), n, rng.range(0, 7), word(rng)])
}
/// A vertex of a tree of `n`: often one of the deepest if the tree is very large.
pub fn vertex(rng: &mut Rng, n: i64) -> i64 {
    if rng.chance(1, if n > BULK as i64 { 2 } else { 12 }) {
        DEEP + rng.range(0, 59)
    } else {
        pos(rng, n)
    }
}
/// `how` 0: new; 1: with_init_value; 2: new and set.
pub fn construct(how: i64, s: &Shape, v: &Vec<C>) -> Tree {
    match how.rem_euclid(3) {
        x if x == 1 || v.len() > BULK => HLD::with_init_value(&s.g, s.root, v),
        _ => {
            let mut t = HLD::new(&s.g, s.root);
            for (i, x) in v.iter().enumerate() {
                t.set(i, x.clone());
            }
            t
        }
    }
}
pub fn initial(o: &Op) -> (Tree, Model) {
    let shape = Shape::capped(o.arg(1), o.arg(2), o.arg(3) as u64);
    let mut r = Rng::new(o.arg(3) as u64 ^ 0x55);
    let mut v: Vec<C> = (0..shape.n()).map(|_| C::one(r.range(-12, 12))).collect();
    let t = if o.arg(0).rem_euclid(3) == 0 {
        v = vec![C::unit(); shape.n()];
        deep_if(v.len() > BULK, || call(None, || HLD::new(&shape.g, shape.root)).must("HLD::new"))
    } else {
        deep_if(v.len() > BULK, || quiet_if(v.len() > 600, || call(None, || construct(o.arg(0), &shape, &v)).must("building an HLD")))
    };
    (t, Model { shape, val: v })
}

pub fn query_op(rng: &mut Rng, n: i64) -> Op {
    let i = rng.range(0, 3);
    match rng.below(6) {
        0 => op(O::HlGet, vec![i, vertex(rng, n)]),
        1..=3 => op(O::HlPathProd, vec![i, vertex(rng, n), vertex(rng, n)]),
        _ => op(O::HlSubProd, vec![i, vertex(rng, n)]),
    }
}
pub fn update_op(rng: &mut Rng, n: i64) -> Op {
    let i = rng.range(0, 3);
    match rng.below(6) {
        0 => op(O::HlSet, vec![i, vertex(rng, n), val(rng)]),
        1..=3 => op(O::HlApplyPath, vec![i, vertex(rng, n), vertex(rng, n), rng.range(0, 2), val(rng)]),
        _ => op(O::HlApplySub, vec![i, vertex(rng, n), rng.range(0, 2), val(rng)]),
    }
}
pub fn caller_op(rng: &mut Rng, n: i64) -> Op {
    match rng.below(24) {
        0 => op(O::HlRestart, vec![rng.range(0, 3), rng.range(1, 2)]),
        1..=11 => update_op(rng, n),
        _ => query_op(rng, n),
    }
}

pub fn query(o: &Op, t: &mut Tree, m: &Model) {
    let (u, v) = (m.shape.at(o.arg(1)), m.shape.at(o.arg(2)));
    match kind(o) {
        O::HlGet => {
            if let Some(x) = call(o.fault, || t.get(u)).unless_injected("get") {
                same(o, &x, &m.val[u]);
            }
        }
        O::HlPathProd => {
            if let Some(x) = call(o.fault, || t.path_prod(u, v)).unless_injected("path_prod") {
                same(o, &x, &m.fold(&m.shape.path(u, v)));
            }
        }
        O::HlSubProd => {
            if let Some(x) = call(o.fault, || t.subtree_prod(u)).unless_injected("subtree_prod") {
                same(o, &x, &m.fold(&m.shape.subtree(u)));
            }
        }
        _ => {}
    }
}

pub struct St {
    pub inst: Vec<Inst>,
}

pub fn step(st: &St, _me: usize, o: &Op) {
    if st.inst.is_empty() {
        return;
    }
    let sh = &st.inst[o.idx(0, st.inst.len())];
    trace!("{} {:?}", name(o), o.a);
    sh.write(|t, m| {
        let n = m.val.len();
        let (u, v) = (m.shape.at(o.arg(1)), m.shape.at(o.arg(2)));
        match kind(o) {
            O::HlSet => {
                let x = C::one(o.arg(2));
                call(None, || t.set(u, x.clone())).must("set");
                m.val[u] = x;
            }
            O::HlApplyPath => {
                let f = Aff::of(o.arg(3), o.arg(4));
                call(None, || t.apply_path(u, v, f.clone())).must("apply_path");
                for w in m.shape.path(u, v) {
                    m.val[w] = m.val[w].mapped(&f);
                }
            }
            O::HlApplySub => {
                let f = Aff::of(o.arg(2), o.arg(3));
                call(None, || t.apply_subtree(u, f.clone())).must("apply_subtree");
                for w in m.shape.subtree(u) {
                    m.val[w] = m.val[w].mapped(&f);
                }
            }
            O::HlRestart => {
                stat("rebuild_from_current_values");
                *t = deep_if(m.val.len() > BULK, || quiet_if(m.val.len() > 100, || call(None, || construct(o.arg(1), &m.shape, &m.val)).must("rebuilding")));
            }
            O::HlReject => {
                stat("rejected_call");
                let far = n + far(o.arg(2), n);
                let f = Aff::of(o.arg(3), 77);
                match o.idx(1, 7) {
                    0 => refused("set of no vertex", || t.set(far, C::one(77))),
                    1 => refused("get of no vertex", || t.get(far)),
                    2 => refused("path_prod of no vertex", || t.path_prod(o.idx(4, n), far)),
                    3 => refused("apply_path of no vertex", || t.apply_path(far, o.idx(4, n), f)),
                    4 => refused("apply_path of no vertex", || t.apply_path(o.idx(4, n), far, f)),
                    5 => refused("apply_subtree of no vertex", || t.apply_subtree(far, f)),
                    _ => refused("subtree_prod of no vertex", || t.subtree_prod(far)),
                }
            }
            _ => query(o, t, m),
        }
    })
}

pub fn audit(t: &mut Tree, m: &Model) {
    quiet(|| {
        let n = m.val.len();
        let r = m.shape.root;
        for u in (0..n).step_by(1 + n / 48) {
            let (got, want) = (call(None, || t.path_prod(r, u)).must("path_prod"), m.fold(&m.shape.path(r, u)));
            crate::check!(got == want, "final-audit:hld", "path_prod({}, {}): got {:?}, expected {:?}", r, u, got, want);
            let (got, want) = (call(None, || t.subtree_prod(u)).must("subtree_prod"), m.fold(&m.shape.subtree(u)));
            crate::check!(got == want, "final-audit:hld", "subtree_prod({}): got {:?}, expected {:?}", u, got, want);
            let (a, b) = (m.shape.at(DEEP + u as i64), m.shape.at(DEEP + u as i64 * 7 + 1));
            let (got, want) = (call(None, || t.path_prod(a, b)).must("path_prod"), m.fold(&m.shape.path(a, b)));
            crate::check!(got == want, "final-audit:hld", "path_prod({}, {}): got {:?}, expected {:?}", a, b, got, want);
            let got = call(None, || t.get(u)).must("get");
            crate::check!(got == m.val[u], "final-audit:hld", "get({}): got {:?}, expected {:?}", u, got, m.val[u]);
        }
    })
}

pub fn gen(rng: &mut Rng) -> Plan {
    let b: Vec<Op> = (0..*rng.pick(&[1, 1, 1, 2])).map(|_| build_op(rng)).collect();
    let n = b[0].arg(1);
    plan(rng, vec![], b, |r, _| caller_op(r, n))
}

pub fn exec(p: &Plan) {
    let mut inst = vec![];
    for o in &p.threads[0] {
        if kind(o) == O::HlBuild {
            let (t, m) = initial(o);
            inst.push(Shared::new(t, m));
        }
    }
    let st = Arc::new(St { inst });
    callers(st.clone(), &p.threads[1..], step);
    for sh in &st.inst {
        sh.write(|t, m| audit(t, m));
    }
}
