//! Dinic and AugmentedPath fed with edges by several callers, against naive recomputation.
use super::*;
use crate::ctx::{call, callers, deep_if, stat, Shared};
use crate::trace;
use rust_cp::graph::bipartite_matching::AugmentedPath;
use rust_cp::graph::max_flow::Dinic;
use rust_cp::traits::integral::Integral;
use std::sync::Arc;

// ---------------------------------------------------------------- C12

/// Maximum s-t flow by shortest augmenting paths over an edge list.
fn max_flow(n: usize, edges: &[(usize, usize, i128)], s: usize, t: usize) -> i128 {
    if s == t {
        return 0;
    }
    let mut to = vec![];
    let mut cap = vec![];
    let mut g = vec![vec![]; n];
    for &(u, v, c) in edges {
        g[u].push(to.len());
        to.push(v);
        cap.push(c);
        g[v].push(to.len());
        to.push(u);
        cap.push(0i128);
    }
    let mut total = 0;
    loop {
        let mut via = vec![usize::MAX; n];
        let mut q = std::collections::VecDeque::from([s]);
        let mut seen = vec![false; n];
        seen[s] = true;
        while let Some(u) = q.pop_front() {
            for &e in &g[u] {
                if cap[e] > 0 && !seen[to[e]] {
                    seen[to[e]] = true;
                    via[to[e]] = e;
                    q.push_back(to[e]);
                }
            }
        }
        if !seen[t] {
            return total;
        }
        let mut f = i128::MAX;
        let mut v = t;
        while v != s {
            f = f.min(cap[via[v]]);
            v = to[via[v] ^ 1];
        }
        v = t;
        while v != s {
            cap[via[v]] -= f;
            cap[via[v] ^ 1] += f;
            v = to[via[v] ^ 1];
        }
        total += f;
    }
}

struct Net {
    n: usize,
    s: usize,
    t: usize,
    edges: Vec<(usize, usize, i128)>,
    total: i128,
    net: i128,
    /// Requests answered so far.
    asked: u32,
}

trait AnyDinic {
    fn edge(&mut self, u: usize, v: usize, c: i128);
    fn flow(&mut self, s: usize, t: usize) -> i128;
    fn limit(&self) -> i128;
    /// The largest capacity.
    fn most(&self) -> i128;
}
trait Num: Integral {
    fn of(x: i128) -> Self;
    fn back(self) -> i128;
}
macro_rules! num {
    ($($t:ty),*) => { $(
        impl Num for $t {
            fn of(x: i128) -> Self { x as $t }
            fn back(self) -> i128 { self as i128 }
        }
    )* };
}
num!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
impl<T: Num> AnyDinic for Dinic<T> {
    fn edge(&mut self, u: usize, v: usize, c: i128) {
        self.add_edge(u, v, T::of(c))
    }
    fn flow(&mut self, s: usize, t: usize) -> i128 {
        self.get_max_flow(s, t).back()
    }
    fn limit(&self) -> i128 {
        // u128's maximum does not fit.
        let m = T::max_value();
        if m.back() < 0 {
            i128::MAX / 4
        } else {
            m.back() / 2
        }
    }
    fn most(&self) -> i128 {
        let m = T::max_value().back();
        if m < 0 {
            i128::MAX
        } else {
            m
        }
    }
}
fn dinic(ty: i64, n: usize) -> Box<dyn AnyDinic> {
    match ty.rem_euclid(12) {
        0 => Box::new(Dinic::<i8>::new(n)),
        1 => Box::new(Dinic::<i16>::new(n)),
        2 => Box::new(Dinic::<i32>::new(n)),
        3 => Box::new(Dinic::<i64>::new(n)),
        4 => Box::new(Dinic::<i128>::new(n)),
        5 => Box::new(Dinic::<isize>::new(n)),
        6 => Box::new(Dinic::<u8>::new(n)),
        7 => Box::new(Dinic::<u16>::new(n)),
        8 => Box::new(Dinic::<u32>::new(n)),
        9 => Box::new(Dinic::<u64>::new(n)),
        10 => Box::new(Dinic::<u128>::new(n)),
        _ => Box::new(Dinic::<usize>::new(n)),
    }
}
type FlInst = Shared<Box<dyn AnyDinic>, Net>;
struct FlSt {
    inst: Vec<FlInst>,
}

fn fl_step(st: &FlSt, _me: usize, o: &Op) {
    if st.inst.is_empty() {
        return;
    }
    let sh = &st.inst[o.idx(0, st.inst.len())];
    trace!("{} {:?}", name(o), o.a);
    sh.write(|d, m| match kind(o) {
        // Enormous networks answer a few requests only.
        O::FlFlow | O::FlReverse if m.n > BULK && m.asked >= 4 => {}
        O::FlEdge if o.arg(4) == 2 => {
            // A road without limit.  Every way to the far terminal still ends on a limited one.
            let (u, v) = (o.idx(1, m.n), o.idx(2, m.n));
            if u != m.t && v != m.t {
                call(None, || d.edge(u, v, d.most())).must("add_edge");
                m.edges.push((u, v, d.most()));
            }
        }
        O::FlEdge => {
            let (u, v) = (o.idx(1, m.n), o.idx(2, m.n));
            // Totals stay representable.
            let room = d.limit() - m.total;
            let scale = if o.arg(4) == 1 { (d.limit() / 16).max(1) } else { 1 };
            let c = ((o.arg(3).unsigned_abs() as i128) * scale).min(room);
            call(None, || d.edge(u, v, c)).must("add_edge");
            m.total += c;
            m.edges.push((u, v, c));
        }
        O::FlBulk => {
            // A burst of edges: layered towards the far terminal, chains, or scattered.
            stat("bursts");
            let mut r = Rng::new(o.arg(2) as u64);
            let (width, maxc) = (1 + o.idx(4, 6), o.arg(5).clamp(1, 1000));
            let most = if m.n > BULK { 2 * LONGEST } else { 3000 };
            for j in 0..o.arg(1).clamp(0, most) as usize {
                let at = |x: usize| (m.s + x) % m.n;
                let (u, v) = match o.idx(3, 4) {
                    0 => (at(j), at(j + 1)),
                    1 => {
                        let layer = r.below((m.n / width) as u64 + 1) as usize * width;
                        (at(layer + r.below(width as u64) as usize), at(layer + width + r.below(width as u64) as usize))
                    }
                    2 => (m.s, m.t),
                    _ => (r.below(m.n as u64) as usize, r.below(m.n as u64) as usize),
                };
                // In an enormous net the chain carries everything but its last step.
                let c = match o.idx(3, 4) {
                    0 if m.n > BULK => maxc - (u == (m.t + m.n - 1) % m.n) as i64,
                    _ => r.range(0, maxc),
                };
                let c = (c as i128).min(d.limit() - m.total);
                call(None, || d.edge(u, v, c)).must("add_edge");
                m.total += c;
                m.edges.push((u, v, c));
            }
        }
        O::FlFlow => {
            let got = deep_if(m.n > BULK, || call(None, || d.flow(m.s, m.t)).must("get_max_flow"));
            let want = max_flow(m.n, &m.edges, m.s, m.t);
            same(o, &got, &(want - m.net));
            m.net = want;
            m.asked += 1;
            // Asked again and again, as often as small counters count: nothing more to send.
            for _ in 0..if m.n > BULK { 0 } else { o.arg(1).clamp(0, 300) } {
                same(o, &call(None, || d.flow(m.s, m.t)).must("get_max_flow"), &0);
            }
        }
        O::FlReverse => {
            let got = deep_if(m.n > BULK, || call(None, || d.flow(m.t, m.s)).must("get_max_flow"));
            let want = max_flow(m.n, &m.edges, m.t, m.s);
            same(o, &got, &(want + m.net));
            m.net = -want;
            m.asked += 1;
        }
        O::FlSelf => {
            let u = o.idx(1, m.n);
            same(o, &call(None, || d.flow(u, u)).must("get_max_flow"), &0);
        }
        _ => {}
    })
}

pub fn gen_c12(rng: &mut Rng) -> Plan {
    let large = rng.chance(1, 60);
    let far = huge(rng, 1200);
    let n = match rng.below(6) {
        _ if far.is_some() => far.unwrap(),
        _ if large => *rng.pick(&[40, 60, 100, 150, 254, 255, 256, 257, 300]),
        0 => rng.range(8, 30),
        _ => rng.range(1, 8),
    };
    // Enormous nets need room for many edges.
    let ty = if far.is_some() { *rng.pick(&[2, 3, 4, 5, 8, 9, 10, 11]) } else { rng.range(0, 11) };
    let big = (far.is_none() && rng.chance(1, 8)) as i64;
    let (s, t) = (rng.range(0, n - 1), rng.range(0, n - 1));
    let t = if far.is_some() && rng.chance(1, 2) {
        (s + n - 1) % n
    } else if t == s && n > 1 {
        (t + 1) % n
    } else {
        t
    };
    let unlimited = rng.chance(1, 6);
    let maxc = if big == 1 { 3 } else { *rng.pick(&[1, 2, 4, 9, 30]) };
    let mut setup = vec![op(O::FlBuild, vec![n, ty, s, t])];
    let edge = |r: &mut Rng| {
        let c = if r.chance(1, 12) { 0 } else { r.range(1, maxc) };
        let (mut u, mut v) = (r.range(0, n - 1), r.range(0, n - 1));
        if r.chance(1, 4) {
            if r.chance(1, 2) {
                u = s
            } else {
                v = t
            }
        }
        if far.is_some() && r.chance(1, 2) {
            (u, v) = ((t + n - 1) % n, t);
        }
        op(O::FlEdge, vec![0, u, v, c, if unlimited && r.chance(1, 4) { 2 } else { big }])
    };
    for _ in 0..*rng.pick(&[0, 0, 3, 8, 20]) {
        setup.push(edge(rng));
    }
    if far.is_some() {
        // one chain through all vertices, and perhaps a thin layered net over it
        for st in [0, 1].into_iter().take(1 + rng.below(2) as usize) {
            setup.push(op(O::FlBulk, vec![0, n + rng.range(-2, 2), word(rng), st, rng.range(0, 2), 3]));
        }
    } else if large || rng.chance(1, 40) {
        for _ in 0..rng.range(1, 4) {
            let k = if rng.chance(1, 3) { *rng.pick(&[127, 128, 255, 256, 600]) } else { rng.range(n, 3 * n) };
            setup.push(op(O::FlBulk, vec![0, k, word(rng), rng.range(0, 3), rng.range(0, 5), maxc]));
        }
    }
    let rev = rng.chance(1, 2);
    let ef = rng.range(3, 8);
    let again = n <= 30 && rng.chance(1, 100);
    plan(rng, vec![], setup, |r, _| {
        if r.range(0, 9) < ef {
            return edge(r);
        }
        match r.below(10) {
            0 => op(O::FlSelf, vec![0, r.range(0, n - 1)]),
            1..=4 if rev => op(O::FlReverse, vec![0]),
            _ => op(O::FlFlow, vec![0, if again { r.range(250, 258) } else { 0 }]),
        }
    })
}

pub fn exec_c12(p: &Plan) {
    let mut inst = vec![];
    for o in &p.threads[0] {
        if kind(o) == O::FlBuild {
            let n = if o.arg(0) > BULK as i64 { o.arg(0).min(LONGEST) } else { o.arg(0).clamp(1, 400) } as usize;
            let (s, mut t) = (o.idx(2, n), o.idx(3, n));
            if s == t {
                t = (s + 1) % n;
            }
            let d = call(None, || dinic(o.arg(1), n)).must("Dinic::new");
            inst.push(Shared::new(d, Net { n, s, t, edges: vec![], total: 0, net: 0, asked: 0 }));
        }
    }
    let st = Arc::new(FlSt { inst });
    for o in p.threads[0].iter().filter(|o| kind(o) != O::FlBuild) {
        fl_step(&st, 0, o);
    }
    callers(st.clone(), &p.threads[1..], fl_step);
    for i in 0..st.inst.len() as i64 {
        st.inst[i as usize].write(|_, m| m.asked = 0);
        // The accumulated total depends on the edges only; the other direction undoes all of it.
        for k in [O::FlFlow, O::FlFlow, O::FlReverse, O::FlFlow] {
            fl_step(&st, 0, &op(k, vec![i]));
        }
        // Order of arrival: the same edges, shuffled, all at once.
        st.inst[i as usize].read(|_, m| {
            let ty = p.threads[0].iter().filter(|o| kind(o) == O::FlBuild).nth(i as usize).map_or(3, |o| o.arg(1));
            let mut e = m.edges.clone();
            let mut r = Rng::new(e.len() as u64);
            for j in (1..e.len()).rev() {
                e.swap(j, r.below(j as u64 + 1) as usize);
            }
            let mut d = dinic(ty, m.n);
            for (u, v, c) in e {
                d.edge(u, v, c);
            }
            let got = deep_if(m.n > BULK, || call(None, || d.flow(m.s, m.t)).must("get_max_flow"));
            same(&op(O::FlFlow, vec![i]), &got, &m.net);
        });
    }
}

// ---------------------------------------------------------------- C13

struct Bip {
    n: usize,
    m: usize,
    adj: Vec<Vec<usize>>,
    asked: u32,
}
impl Bip {
    fn matching(&self) -> usize {
        // Augmenting paths by depth-first search with an explicit stack, in phases.
        const NONE: usize = usize::MAX;
        let (mut of, mut to) = (vec![NONE; self.m], vec![NONE; self.n]);
        loop {
            let mut seen = vec![false; self.n];
            let mut found = false;
            for root in 0..self.n {
                if to[root] != NONE || seen[root] {
                    continue;
                }
                seen[root] = true;
                let mut path = vec![(root, 0)];
                while let Some((u, i)) = path.last_mut() {
                    let Some(&v) = self.adj[*u].get(*i) else {
                        path.pop();
                        continue;
                    };
                    *i += 1;
                    if of[v] == NONE {
                        for &(u, i) in &path {
                            let v = self.adj[u][i - 1];
                            of[v] = u;
                            to[u] = v;
                        }
                        found = true;
                        break;
                    }
                    if !seen[of[v]] {
                        seen[of[v]] = true;
                        path.push((of[v], 0));
                    }
                }
            }
            if !found {
                return to.iter().filter(|&&v| v != NONE).count();
            }
        }
    }
}
type BmInst = Shared<AugmentedPath, Bip>;
struct BmSt {
    inst: Vec<BmInst>,
}

fn bm_step(st: &BmSt, _me: usize, o: &Op) {
    if st.inst.is_empty() {
        return;
    }
    let sh = &st.inst[o.idx(0, st.inst.len())];
    trace!("{} {:?}", name(o), o.a);
    sh.write(|t, b| match kind(o) {
        O::BmEdge => {
            if b.n > 0 && b.m > 0 {
                let (u, v) = (o.idx(1, b.n), o.idx(2, b.m));
                for k in 0..1 + o.idx(3, 2) {
                    if k > 0 {
                        stat("duplicated_delivery");
                    }
                    call(None, || t.add_edge(u, v)).must("add_edge");
                }
                b.adj[u].push(v);
            }
        }
        O::BmBulk => {
            // A burst of edges: two long chains that reverse one another's choices, scattered ones, or each
            // left vertex with the right one of its own number or the next.
            if b.n > 0 && b.m > 0 {
                stat("bursts");
                let mut r = Rng::new(o.arg(2) as u64);
                let most = if b.n > BULK { 2 * LONGEST } else { 3000 };
                for j in 0..o.arg(1).clamp(0, most) as usize {
                    let (u, v) = match o.idx(3, 6) {
                        0 => (j / 2 % b.n, (j + 1) / 2 % b.m),
                        1 => (b.n - 1 - j / 2 % b.n, (j + 1) / 2 % b.m),
                        2 => {
                            let u = r.below(b.n as u64) as usize;
                            (u, (u + r.below(3) as usize) % b.m)
                        }
                        4 => (j % b.n, j % b.m),
                        5 => (j % b.n, (j + 1) % b.m),
                        _ => (r.below(b.n as u64) as usize, r.below(b.m as u64) as usize),
                    };
                    call(None, || t.add_edge(u, v)).must("add_edge");
                    b.adj[u].push(v);
                }
            }
        }
        O::BmSolve => {
            b.asked += 1;
            if b.n > BULK && b.asked > 4 {
                return;
            }
            let want = b.matching();
            for _ in 0..1 + o.idx(1, 2) + if b.n > BULK { 0 } else { o.idx(2, 301) } {
                let got = deep_if(b.n > BULK, || call(None, || t.solve()).must("solve"));
                same(o, &got, &want);
            }
        }
        _ => {}
    })
}

pub fn gen_c13(rng: &mut Rng) -> Plan {
    let big = rng.chance(1, 6);
    let large = rng.chance(1, 60);
    let hi = if large { *rng.pick(&[60, 130, 255, 256, 257, 300]) } else if big { 30 } else { 7 };
    let (n, m) = if large && rng.chance(1, 2) { (hi, hi) } else { (rng.range(0, hi), rng.range(0, hi)) };
    let far = huge(rng, 1200);
    let (n, m) = far.map_or((n, m), |k| (k, k + rng.range(-1, 1)));
    let local = rng.chance(1, 2);
    let mut setup = vec![op(O::BmBuild, vec![n, m])];
    let edge = |r: &mut Rng| {
        let u = pos(r, n);
        let v = if local { u + r.range(-1, 1) } else { pos(r, m) };
        op(O::BmEdge, vec![0, u, v, r.chance(1, 6) as i64])
    };
    if far.is_some() {
        // Everyone but the last is matched, then a way appears that moves everyone on by one.
        for st in [4, 5] {
            setup.push(op(O::BmBulk, vec![0, n - rng.range(1, 2), word(rng), st]));
            setup.push(op(O::BmSolve, vec![0, 0]));
        }
        setup.push(op(O::BmEdge, vec![0, n - 1, rng.range(0, 2), 0]));
    }
    for _ in 0..*rng.pick(&[0, 0, 3, 10, 40]) {
        setup.push(edge(rng));
    }
    let bursts = far.is_none() && (large || rng.chance(1, 40));
    let again = hi <= 30 && rng.chance(1, 60);
    let burst = |r: &mut Rng| op(O::BmBulk, vec![0, r.range(0, 3 * n.max(m)), word(r), r.range(0, 3)]);
    if large && far.is_none() {
        setup.push(burst(rng));
    }
    plan(rng, vec![], setup, |r, _| if bursts && r.chance(1, 8) {
        burst(r)
    } else if r.chance(1, 4) { op(O::BmSolve, vec![0, r.range(0, 1), if again { r.range(250, 258) } else { 0 }]) } else { edge(r) })
}

pub fn exec_c13(p: &Plan) {
    let mut inst = vec![];
    for o in &p.threads[0] {
        if kind(o) == O::BmBuild {
            let most = if o.arg(0) > BULK as i64 { LONGEST } else { 400 };
            let (n, m) = (o.arg(0).clamp(0, most) as usize, o.arg(1).clamp(0, most) as usize);
            let t = call(None, || AugmentedPath::new(n, m)).must("AugmentedPath::new");
            inst.push(Shared::new(t, Bip { n, m, adj: vec![vec![]; n], asked: 0 }));
        }
    }
    let st = Arc::new(BmSt { inst });
    for o in p.threads[0].iter().filter(|o| kind(o) != O::BmBuild) {
        bm_step(&st, 0, o);
    }
    callers(st.clone(), &p.threads[1..], bm_step);
    for i in 0..st.inst.len() as i64 {
        st.inst[i as usize].write(|_, b| b.asked = 0);
        bm_step(&st, 0, &op(O::BmSolve, vec![i, 1]));
        st.inst[i as usize].read(|_, b| {
            let mut e: Vec<(usize, usize)> = (0..b.n).flat_map(|u| b.adj[u].iter().map(move |&v| (u, v))).collect();
            let mut r = Rng::new(e.len() as u64);
            for j in (1..e.len()).rev() {
                e.swap(j, r.below(j as u64 + 1) as usize);
            }
            let mut t = AugmentedPath::new(b.n, b.m);
            for (u, v) in e {
                t.add_edge(u, v);
            }
            let got = deep_if(b.n > BULK, || call(None, || t.solve()).must("solve"));
            same(&op(O::BmSolve, vec![i]), &got, &b.matching());
        });
    }
}
