//! Algorithms that keep nothing: shortest paths, components, borders, number theory, and short uses
//! of a heap and of a closure.  Several callers, nested calls, refused and interrupted calls.
use super::*;
use crate::ctx::{deep_if, call, callers, cb, quiet_if, refused, Shared};
use crate::plan::K;
use crate::trace;
use rust_cp::data_structure::min_heap::MinHeap;
use rust_cp::graph::shortest_path::dijkstra;
use rust_cp::graph::tarjan::scc;
use rust_cp::math::number_theory::{ex_crt, ex_gcd, gcd, lcm};
use rust_cp::misc::recursive_function::{Callable2, RecursiveFunction2};
use rust_cp::misc::util::{ceil_lg, lg};
use rust_cp::string::kmp::kmp;
use rust_cp::string::z_algorithm::z_function;
use std::cmp::{Ordering, Reverse};
use std::collections::BinaryHeap;
use std::sync::Arc;

/// A symbol whose comparison is the user's.
#[derive(Clone, Copy, Debug)]
struct L(i64);
impl PartialEq for L {
    fn eq(&self, o: &L) -> bool {
        cb(K::Cmp);
        self.0 == o.0
    }
}
impl Eq for L {}
impl PartialOrd for L {
    fn partial_cmp(&self, o: &L) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for L {
    fn cmp(&self, o: &L) -> Ordering {
        cb(K::Cmp);
        self.0.cmp(&o.0)
    }
}

#[derive(Default)]
struct G {
    weighted: Vec<Vec<(usize, usize)>>,
    plain: Vec<Vec<usize>>,
}
struct St {
    graphs: Vec<Shared<G, ()>>,
}

fn distances(g: &[Vec<(usize, usize)>], s: usize) -> Vec<Option<usize>> {
    let mut best = vec![None; g.len()];
    let mut q = BinaryHeap::from([Reverse((0usize, s))]);
    while let Some(Reverse((d, u))) = q.pop() {
        if best[u].is_some() {
            continue;
        }
        best[u] = Some(d);
        for &(v, c) in &g[u] {
            if best[v].is_none() {
                q.push(Reverse((d + c, v)));
            }
        }
    }
    best
}
/// Kosaraju's algorithm, without recursion.
fn components(g: &[Vec<usize>]) -> Vec<usize> {
    let n = g.len();
    let mut back = vec![vec![]; n];
    for u in 0..n {
        for &v in &g[u] {
            back[v].push(u);
        }
    }
    let mut seen = vec![false; n];
    let mut order = vec![];
    for s in 0..n {
        if seen[s] {
            continue;
        }
        seen[s] = true;
        let mut st = vec![(s, 0)];
        while let Some((u, i)) = st.pop() {
            if i < g[u].len() {
                st.push((u, i + 1));
                let v = g[u][i];
                if !seen[v] {
                    seen[v] = true;
                    st.push((v, 0));
                }
            } else {
                order.push(u);
            }
        }
    }
    let mut comp = vec![usize::MAX; n];
    let mut k = 0;
    for &s in order.iter().rev() {
        if comp[s] != usize::MAX {
            continue;
        }
        comp[s] = k;
        let mut st = vec![s];
        while let Some(u) = st.pop() {
            for &v in &back[u] {
                if comp[v] == usize::MAX {
                    comp[v] = k;
                    st.push(v);
                }
            }
        }
        k += 1;
    }
    comp
}
fn borders(s: &[i64]) -> Vec<usize> {
    (0..s.len()).map(|i| (0..=i).rev().find(|&k| s[..k] == s[i + 1 - k..=i]).unwrap_or(0)).collect()
}
fn common_prefixes(s: &[i64]) -> Vec<usize> {
    (0..s.len()).map(|i| if i == 0 { 0 } else { (0..s.len() - i).take_while(|&j| s[j] == s[i + j]).count() }).collect()
}
/// A text too long for the quadratic reference is judged by what makes the answer right.
fn borders_hold(s: &[i64], pi: &[usize]) -> bool {
    // Linear certificate: pi[i] <= pi[i-1]+1, and the border automaton agrees.
    if pi.len() != s.len() {
        return false;
    }
    let mut want = vec![0usize; s.len()];
    for i in 1..s.len() {
        let mut k = want[i - 1];
        loop {
            if s[k] == s[i] {
                want[i] = k + 1;
                break;
            }
            if k == 0 {
                break;
            }
            k = want[k - 1];
        }
    }
    want == pi
}

fn text(o: &Op) -> Vec<i64> {
    let n = o.arg(0).clamp(0, LONGEST) as usize;
    let mut r = Rng::new(o.arg(1) as u64);
    let base = 1 + o.arg(2).rem_euclid(4) as u64;
    let mut v: Vec<i64> = vec![];
    while v.len() < n {
        match r.below(4) {
            // Powers and palindromes of what is there stress the failure links.
            0 if !v.is_empty() => {
                let k = 1 + r.below(v.len() as u64) as usize;
                v.extend_from_within(..k);
            }
            1 if !v.is_empty() => {
                let p = 1 + r.below(4.min(v.len() as u64)) as usize;
                for _ in 0..r.range(1, 12) {
                    let x = v[v.len() - p];
                    v.push(x);
                }
            }
            _ => v.push(r.below(base) as i64),
        }
    }
    v.truncate(n);
    v
}

fn egcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        egcd(b, a % b)
    }
}
/// Least non-negative solution and period, by sieving: try every residue of the combined period.
fn congruences(sys: &[(i128, i128, i128)]) -> Option<(i128, i128)> {
    let (mut x, mut m) = (0i128, 1i128);
    for &(a, b, q) in sys {
        // Along x, x+m, x+2m, ... the left side repeats after at most q steps.
        let hit = (0..q).find(|k| (a * (x + k * m) - b).rem_euclid(q) == 0)?;
        x += hit * m;
        m *= q / egcd(a * m, q);
        x = x.rem_euclid(m);
    }
    Some((x, m))
}

fn numbers(o: &Op) {
    macro_rules! pair {
        ($t:ty) => {{
            let mut r = Rng::new(o.arg(2) as u64);
            let r_chance = r.chance(1, 2);
            let mut one = || {
                let b = r.next() as $t;
                let x = if b < 0 as $t { !b } else { b };
                match r.below(5) {
                    4 => <$t>::MAX - x % 3,
                    0 => x % 10,
                    1 => x % 120,
                    2 => x,
                    _ => x >> 3,
                }
            };
            let (mut a, mut b) = (one(), one());
            // Common factors, and sometimes coprime enough for the multiple not to fit.
            if r_chance {
                let s = 1 << (<$t>::BITS / 4);
                a = a % s * (b % s).max(1);
                b = (b % s).max(1) * (b / s % s);
            }
            let g = call(None, || gcd(a, b)).must("gcd");
            let want = egcd(a as i128, b as i128);
            same(o, &(g as i128), &want);
            // Products of two 64-bit numbers fit here; their multiple is claimed where it fits there.
            if (a, b) != (0, 0) && (a as u128 * b as u128 / want as u128) <= <$t>::MAX as u128 {
                let l = call(None, || lcm(a, b)).must("lcm");
                same(o, &(l as u128), &(a as u128 * b as u128 / want as u128));
            }
            want
        }};
    }
    match o.arg(1).rem_euclid(12) {
        0 => drop(pair!(i8)),
        1 => drop(pair!(u8)),
        2 => drop(pair!(i16)),
        3 => drop(pair!(u16)),
        4 => drop(pair!(i32)),
        5 => drop(pair!(u32)),
        6 => drop(pair!(i64)),
        7 => drop(pair!(u64)),
        8 => drop(pair!(usize)),
        9 => {
            let mut r = Rng::new(o.arg(2) as u64);
            let big = r.chance(1, 2);
            let mut one = || if big { (r.next() >> 2) as i64 } else { r.range(-50, 50) };
            let (a, b) = (one(), one());
            let (x, y, g) = call(None, || ex_gcd(a, b)).must("ex_gcd");
            same(o, &(g as i128).abs(), &egcd(a as i128, b as i128));
            same(o, &(a as i128 * x as i128 + b as i128 * y as i128), &(g as i128));
        }
        10 => {
            let mut r = Rng::new(o.arg(2) as u64);
            // Any width, and next to every power of two.
            let near = |r: &mut Rng, bits: u32| {
                let p = 1u64 << r.below(bits as u64);
                let x = match r.below(3) {
                    0 => p + r.below(p),
                    1 => p.wrapping_add(r.below(4)),
                    _ => p.wrapping_sub(r.below(4)),
                };
                x & (u64::MAX >> (64 - bits))
            };
            let n = near(&mut r, 64).max(1) as usize;
            let floor = call(None, || lg(n)).must("lg");
            same(o, &(floor < 64 && n >> floor == 1), &true);
            let m = near(&mut r, 32) as u32;
            let up = call(None, || ceil_lg(m)).must("ceil_lg");
            same(o, &(1u64 << up >= m as u64 && (up == 0 || 1u64 << (up - 1) < m as u64)), &true);
        }
        _ => {
            let mut r = Rng::new(o.arg(2) as u64);
            let k = r.below(5) as usize;
            if r.chance(1, 3) {
                // A few large moduli, coefficient one: their common multiple still fits.
                let pieces = [2_147_483_647i64, 4_294_967_291, 1_000_000_007, 998_244_353, 65_536, 3 << 20, 1 << 31, 12, 7, 1];
                let (mut m, mut all) = (vec![], 1i128);
                for _ in 0..r.range(1, 5) {
                    let q = match r.below(3) {
                        0 => r.range(1, 1 << 20),
                        _ => *r.pick(&pieces),
                    };
                    let next = all / egcd(all, q as i128) * q as i128;
                    if next < 1 << 61 {
                        all = next;
                        m.push(q);
                    }
                }
                let x = (r.next() >> 2) as i128 % all;
                let off = r.chance(1, 5);
                let mut b: Vec<i64> = m.iter().map(|&q| (x % q as i128) as i64).collect();
                let n = b.len();
                if off {
                    b[n - 1] = (b[n - 1] + 1) % m[n - 1];
                }
                let a = vec![1; n];
                let got = call(None, || ex_crt(&a, &b, &m)).must("ex_crt").map(|(x, m)| (x as i128, m as i128));
                // Whether a spoilt system has a solution is decided pair by pair.
                let fits = (0..n).all(|i| (0..i).all(|j| (b[i] as i128 - b[j] as i128) % egcd(m[i] as i128, m[j] as i128) == 0));
                match got {
                    Some((y, l)) if fits => {
                        let right = l == all && (0..l).contains(&y) && (0..n).all(|i| (y - b[i] as i128) % m[i] as i128 == 0);
                        same(o, &(right, y), &(true, y));
                    }
                    g => same(o, &g.is_some(), &fits),
                }
                return;
            }
            // Some systems are made to have a solution.
            let sol = if r.chance(2, 3) { Some(r.range(0, 1 << 20)) } else { None };
            let neg = r.chance(1, 2);
            let mut sys = vec![];
            for _ in 0..k {
                let top = if r.chance(1, 2) { 12 } else { 700 };
                let m = r.range(1, top);
                let a = if r.chance(1, 2) { 1 } else { r.range(if neg { -40 } else { 0 }, 40) };
                let b = match sol {
                    Some(x) => (a * x).rem_euclid(m) + m * if neg { r.range(-2, 2) } else { 0 },
                    None => r.range(if neg { -900 } else { 0 }, 900),
                };
                sys.push((a, b, m));
            }
            let col = |f: fn(&(i64, i64, i64)) -> i64| sys.iter().map(f).collect::<Vec<i64>>();
            let (a, b, m) = (col(|s| s.0), col(|s| s.1), col(|s| s.2));
            let got = call(None, || ex_crt(&a, &b, &m)).must("ex_crt");
            let wide: Vec<(i128, i128, i128)> = sys.iter().map(|s| (s.0 as i128, s.1 as i128, s.2 as i128)).collect();
            same(o, &got.map(|(x, m)| (x as i128, m as i128)), &congruences(&wide));
        }
    }
}

/// A weight of which as many as a path has can be added up; the largest arguments mean the largest weights.
fn fitting(a: i64, n: usize) -> usize {
    let a = a.max(0) as usize;
    if a > 1 << 41 {
        a.wrapping_mul(2) % (usize::MAX / (n + 1))
    } else {
        a
    }
}

fn graph<'a>(st: &'a St, o: &Op) -> Option<&'a Shared<G, ()>> {
    if st.graphs.is_empty() {
        None
    } else {
        Some(&st.graphs[o.idx(0, st.graphs.len())])
    }
}

fn step(st: &St, _me: usize, o: &Op) {
    trace!("{} {:?} fault {:?}", name(o), o.a, o.fault);
    match kind(o) {
        O::SvEdge => {
            if let Some(sh) = graph(st, o) {
                sh.write(|g, _| {
                    let n = g.plain.len();
                    if n > 0 {
                        let (u, v) = (o.idx(1, n), o.idx(2, n));
                        g.plain[u].push(v);
                        g.weighted[u].push((v, fitting(o.arg(3), n)));
                    }
                })
            }
        }
        O::SvPaths => {
            if let Some(sh) = graph(st, o) {
                sh.read(|g, _| {
                    let n = g.plain.len();
                    if n > 0 {
                        let s = o.idx(1, n);
                        same(o, &call(None, || dijkstra(&g.weighted, s)).must("dijkstra"), &distances(&g.weighted, s));
                    }
                })
            }
        }
        O::SvComponents => {
            if let Some(sh) = graph(st, o) {
                sh.read(|g, _| {
                    let got = deep_if(g.plain.len() > 3000, || call(None, || scc(&g.plain)).must("scc"));
                    components_hold(o, &g.plain, got);
                })
            }
        }
        O::SvReject => {
            // A graph that names a vertex it does not have, or a source outside it.
            if let Some(sh) = graph(st, o) {
                sh.read(|g, _| {
                    let n = g.plain.len();
                    let mut bad = G { weighted: g.weighted.clone(), plain: g.plain.clone() };
                    let s = if n > 0 { o.idx(1, n) } else { 0 };
                    match o.arg(2).rem_euclid(3) {
                        0 => refused("dijkstra from outside", || dijkstra(&g.weighted, n + s)),
                        1 if n > 0 => {
                            let at = o.idx(3, bad.weighted[s].len() + 1);
                            bad.weighted[s].insert(at, (n + o.idx(4, 3), 1));
                            refused("dijkstra over a missing vertex", || dijkstra(&bad.weighted, s))
                        }
                        _ if n > 0 => {
                            let at = o.idx(3, bad.plain[s].len() + 1);
                            bad.plain[s].insert(at, n + o.idx(4, 3));
                            deep_if(n > 3000, || refused("scc over a missing vertex", || scc(&bad.plain)))
                        }
                        _ => {}
                    }
                })
            }
        }
        O::SvBorders | O::SvPrefixes => {
            let s = text(o);
            let t: Vec<L> = s.iter().map(|&x| L(x)).collect();
            let long = s.len() > 400;
            if kind(o) == O::SvBorders {
                if let Some(x) = quiet_if(long, || call(o.fault, || kmp(&t))).unless_injected("kmp") {
                    if long {
                        same(o, &borders_hold(&s, &x), &true);
                    } else {
                        same(o, &x, &borders(&s));
                    }
                }
            } else if let Some(x) = quiet_if(long, || call(o.fault, || z_function(&t))).unless_injected("z_function") {
                if s.len() > 5000 {
                    // Periodic texts make the quadratic reference too slow; check samples of it.
                    let mut r = Rng::new(o.arg(1) as u64 ^ 77);
                    same(o, &x.len(), &s.len());
                    for _ in 0..40 {
                        let i = 1 + r.below(s.len() as u64 - 1) as usize;
                        let want = (0..s.len() - i).take_while(|&j| s[j] == s[i + j]).count();
                        same(o, &x[i], &want);
                    }
                } else {
                    same(o, &x, &common_prefixes(&s));
                }
            }
        }
        O::SvNumbers => numbers(o),
        O::SvAgain => again(o),
        O::SvHeap => {
            let s = text(o);
            let r = call(o.fault, || {
                let mut h = MinHeap::new();
                for &x in &s {
                    h.push(L(x));
                }
                let mut v = vec![];
                while let Some(x) = h.pop() {
                    v.push(x.0);
                }
                v
            });
            if let Some(got) = r.unless_injected("heap") {
                let mut want = s.clone();
                want.sort_unstable();
                same(o, &got, &want);
            }
        }
        _ => {
            // Binomials by Pascal's rule, counting the calls.
            let (n, k) = (o.arg(0).rem_euclid(11) as u64, o.arg(1).rem_euclid(11) as u64);
            let r = call(o.fault, || {
                let mut calls = 0u64;
                let x = {
                    let mut f = RecursiveFunction2::new(|me: &mut dyn Callable2<u64, u64, u64>, n: u64, k: u64| {
                        cb(K::Body);
                        calls += 1;
                        if k == 0 || k >= n {
                            (k <= n) as u64
                        } else {
                            me.call(n - 1, k - 1) + me.call(n - 1, k)
                        }
                    });
                    f.call(n, k)
                };
                (x, calls)
            });
            if let Some(got) = r.unless_injected("closure") {
                let mut c = [[0u64; 12]; 12];
                for i in 0..12 {
                    for j in 0..=i {
                        c[i][j] = if j == 0 || j == i { 1 } else { c[i - 1][j - 1] + c[i - 1][j] };
                    }
                }
                let want = c[n as usize][k as usize];
                same(o, &got, &(want, if k == 0 || k >= n { 1 } else { 2 * want - 1 }));
            }
        }
    }
}

/// Numbered in reverse topological order, each component whole.
fn components_hold(o: &Op, plain: &[Vec<usize>], (k, c): (usize, Vec<usize>)) {
    let want = components(plain);
    let n = want.len();
    if c.len() != n || k != want.iter().max().map_or(0, |m| m + 1) || c.iter().any(|&x| x >= k) {
        wrong(o, format!("{} components over {} vertices, numbered {:?}", k, n, c));
    }
    let mut to = vec![usize::MAX; k];
    for u in 0..n {
        if to[want[u]] == usize::MAX {
            to[want[u]] = c[u];
        }
        if to[want[u]] != c[u] {
            wrong(o, format!("vertex {} was split from its component", u));
        }
        if let Some(&v) = plain[u].iter().find(|&&v| c[v] > c[u]) {
            wrong(o, format!("edge {} -> {} goes up from component {} to {}", u, v, c[u], c[v]));
        }
    }
    to.sort_unstable();
    to.dedup();
    same(o, &to.len(), &k);
}

/// A large request, many small ones, and large ones again, all by one caller: as many small ones as
/// make a small counter come round.
fn again(o: &Op) {
    crate::ctx::stat("bursts");
    let mut r = Rng::new(o.arg(2) as u64);
    let graph = |r: &mut Rng, n: usize, m: usize| {
        let mut g = G { weighted: vec![vec![]; n], plain: vec![vec![]; n] };
        let down = r.chance(1, 2);
        for _ in 0..m {
            let (u, v) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
            let (u, v) = if down { (u.max(v), u.min(v)) } else { (u, v) };
            g.plain[u].push(v);
            g.weighted[u].push((v, r.below(9) as usize));
        }
        g
    };
    let one = |r: &mut Rng, n: usize| {
        let m = r.below(2 * n as u64 + 1) as usize;
        match o.idx(0, 4) {
            0 => {
                let g = graph(r, n, m);
                let s = r.below(n as u64) as usize;
                same(o, &call(None, || dijkstra(&g.weighted, s)).must("dijkstra"), &distances(&g.weighted, s));
            }
            1 => {
                let g = graph(r, n, m);
                components_hold(o, &g.plain, call(None, || scc(&g.plain)).must("scc"));
            }
            k => {
                let s: Vec<i64> = (0..n).map(|_| r.range(0, 1)).collect();
                if k == 2 {
                    same(o, &call(None, || kmp(&s)).must("kmp"), &borders(&s));
                } else {
                    same(o, &call(None, || z_function(&s)).must("z_function"), &common_prefixes(&s));
                }
            }
        }
    };
    let n = 4 + r.below(30) as usize;
    one(&mut r, n);
    let tiny = 1 + r.below(3) as usize;
    for _ in 0..o.arg(1).clamp(0, 70_000) {
        one(&mut r, tiny);
    }
    one(&mut r, n);
    one(&mut r, n);
}

pub fn gen(rng: &mut Rng) -> Plan {
    let mut setup = vec![];
    let weight = *rng.pick(&[0, 1, 5, 1000, 1 << 40, i64::MAX / 4]);
    for _ in 0..rng.range(0, 2) {
        let n = huge(rng, 800).unwrap_or_else(|| size(rng));
        setup.push(op(O::SvGraph, vec![n, rng.range(0, 5), word(rng), weight]));
    }
    let only = if rng.chance(1, 3) { Some(*rng.pick(&[O::SvPaths, O::SvComponents, O::SvBorders, O::SvPrefixes, O::SvNumbers, O::SvHeap, O::SvClosure])) } else { None };
    let faults = rng.chance(2, 3);
    let mut again = rng.chance(1, 60);
    plan(rng, vec![], setup, |r, _| {
        if again && r.chance(1, 4) {
            again = false;
            let k = if r.chance(1, 12) { r.range(65_532, 65_537) } else { r.range(252, 257) };
            return op(O::SvAgain, vec![r.range(0, 3), k, word(r)]);
        }
        let k = match only {
            Some(k) if r.chance(3, 4) => k,
            _ => *r.pick(&[
                O::SvEdge, O::SvEdge, O::SvPaths, O::SvPaths, O::SvComponents, O::SvComponents, O::SvReject, O::SvBorders, O::SvBorders, O::SvPrefixes, O::SvPrefixes,
                O::SvNumbers, O::SvNumbers, O::SvHeap, O::SvClosure,
            ]),
        };
        let mut o = match k {
            O::SvEdge => op(k, vec![r.range(0, 1), word(r), word(r), if weight == 0 { 0 } else { r.range(0, weight) }]),
            O::SvPaths | O::SvComponents => op(k, vec![r.range(0, 1), word(r)]),
            O::SvReject => op(k, vec![r.range(0, 1), word(r), r.range(0, 2), word(r), word(r)]),
            O::SvBorders | O::SvPrefixes => op(k, vec![huge(r, 600).unwrap_or_else(|| size(r)), word(r), r.range(0, 3)]),
            O::SvNumbers => op(k, vec![0, r.range(0, 11), word(r)]),
            O::SvHeap => op(k, vec![r.range(0, 30), word(r), r.range(0, 3)]),
            _ => op(O::SvClosure, vec![r.range(0, 10), r.range(0, 10)]),
        };
        let f = match k {
            O::SvBorders | O::SvPrefixes | O::SvHeap => Some(K::Cmp),
            O::SvClosure => Some(K::Body),
            _ => None,
        };
        if let (Some(f), true) = (f, faults && r.chance(1, 3)) {
            o.fault = Some((f as u8, *r.pick(&[1, 2, 3, 5, 8, 20])));
        }
        o
    })
}

pub fn exec(p: &Plan) {
    let mut st = St { graphs: vec![] };
    for o in &p.threads[0] {
        if kind(o) != O::SvGraph {
            continue;
        }
        let n = o.arg(0).clamp(0, LONGEST) as usize;
        let mut r = Rng::new(o.arg(2) as u64);
        let mut g = G { weighted: vec![vec![]; n], plain: vec![vec![]; n] };
        let shape = o.arg(1).rem_euclid(6);
        let m = match shape {
            0 => 0,
            1 => n / 2,
            2 => n,
            3 => 2 * n,
            4 => (4 * n).min(20_000),
            _ => n.saturating_sub(1),
        };
        let window = if n > 3000 { 40 } else { n as u64 };
        for i in 0..m {
            let (u, v) = match shape {
                5 => (i, i + 1),
                _ => {
                    let u = r.below(n as u64) as usize;
                    // Large graphs are unions of small ones.
                    let block = u as u64 / window * window;
                    (u, ((block + r.below(window)) as usize).min(n - 1))
                }
            };
            let w = if o.arg(3) <= 0 { 0 } else { fitting(r.below(o.arg(3) as u64 + 1) as i64, n) };
            g.plain[u].push(v);
            g.weighted[u].push((v, w));
        }
        st.graphs.push(Shared::new(g, ()));
    }
    callers(Arc::new(st), &p.threads[1..], step);
}
