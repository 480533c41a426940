//! UnionFind replicas fed by an unreliable channel, against the connectivity of the joins.
use super::*;
use crate::ctx::{refused, call, callers, ev, quiet, stat, Shared};
use crate::{check, trace};
use rust_cp::data_structure::union_find::UnionFind;
use std::sync::Arc;

/// Naive partition: a label per element.
pub struct Model {
    lab: Vec<usize>,
    members: Vec<Vec<usize>>,
    joins: Vec<(usize, usize)>,
}
impl Model {
    fn new(n: usize) -> Model {
        Model { lab: (0..n).collect(), members: (0..n).map(|i| vec![i]).collect(), joins: vec![] }
    }
    fn join(&mut self, x: usize, y: usize) -> bool {
        self.joins.push((x, y));
        let (mut a, mut b) = (self.lab[x], self.lab[y]);
        if a == b {
            return false;
        }
        if self.members[a].len() > self.members[b].len() {
            std::mem::swap(&mut a, &mut b);
        }
        for e in std::mem::take(&mut self.members[a]) {
            self.lab[e] = b;
            self.members[b].push(e);
        }
        true
    }
    fn size(&self, x: usize) -> usize {
        self.members[self.lab[x]].len()
    }
    fn groups(&self) -> Vec<Vec<usize>> {
        let n = self.lab.len();
        let mut by = vec![vec![]; n];
        for i in 0..n {
            by[self.lab[i]].push(i);
        }
        let mut g: Vec<_> = by.into_iter().filter(|v: &Vec<usize>| !v.is_empty()).collect();
        g.sort();
        g
    }
}
type Inst = Shared<UnionFind, Model>;

struct St {
    reps: Vec<Inst>,
}

fn join(sh: &Inst, o: &Op, x: usize, y: usize) {
    sh.write(|t, m| {
        let got = call(None, || t.join(x, y)).must("join");
        same(o, &got, &m.join(x, y));
    })
}

/// The same set of sets, whatever their order.
fn normal(mut g: Vec<Vec<usize>>) -> Vec<Vec<usize>> {
    for v in &mut g {
        v.sort();
    }
    g.sort();
    g
}

fn step(st: &St, _me: usize, o: &Op) {
    if st.reps.is_empty() {
        return;
    }
    let sh = &st.reps[o.idx(0, st.reps.len())];
    trace!("{} {:?}", name(o), o.a);
    let n = sh.read(|_, m| m.lab.len());
    if n == 0 && !matches!(kind(o), O::UfGroups | O::UfReject) {
        return;
    }
    match kind(o) {
        O::UfJoin => {
            let (x, y) = (o.idx(1, n), o.idx(2, n));
            join(sh, o, x, y);
            if o.arg(3) == 1 {
                stat("duplicated_delivery");
                simrt::yield_point(simrt::Site::Op);
                join(sh, o, x, y);
            }
        }
        O::UfBulk => {
            // A burst of deliveries to one replica: chains, stars, a ladder of halves or scattered pairs.
            let (k, from, step) = (o.arg(2).clamp(0, LONGEST), o.arg(3), o.arg(4));
            stat("bursts");
            let mut r = Rng::new(o.arg(5) as u64);
            sh.write(|t, m| {
                for j in 0..k {
                    let at = |x: i64| x.rem_euclid(n as i64) as usize;
                    let (x, y) = match o.idx(1, 5) {
                        0 => (at(from + j * step), at(from + j * step + step)),
                        1 => (at(from + j * step + step), at(from + j * step)),
                        2 => (at(from), at(from + j * step)),
                        3 => {
                            // Equal halves meet: pairs, then pairs of pairs.
                            let (mut d, mut i) = (1i64, j);
                            while i >= (n as i64) / (2 * d) && 2 * d < n as i64 {
                                i -= (n as i64) / (2 * d);
                                d *= 2;
                            }
                            (at(2 * d * i), at(2 * d * i + d))
                        }
                        _ => (r.below(n as u64) as usize, r.below(n as u64) as usize),
                    };
                    let (got, want) = (call(None, || t.join(x, y)).must("join"), m.join(x, y));
                    if got != want {
                        wrong(o, format!("join({}, {}) answers {}, expected {}", x, y, got, want));
                    }
                }
            })
        }
        O::UfSame => sh.write(|t, m| {
            let (x, y) = (o.idx(1, n), o.idx(2, n));
            let got = call(None, || t.is_same(x, y)).must("is_same");
            same(o, &got, &(m.lab[x] == m.lab[y]));
        }),
        O::UfSize => sh.write(|t, m| {
            let x = o.idx(1, n);
            let got = call(None, || t.size(x)).must("size");
            same(o, &got, &m.size(x));
        }),
        O::UfFind => sh.write(|t, m| {
            let (x, y) = (o.idx(1, n), o.idx(2, n));
            let fx = call(None, || t.find(x)).must("find");
            let fy = call(None, || t.find(y)).must("find");
            ev(&(fx, fy));
            if fx >= n || m.lab[fx] != m.lab[x] {
                wrong(o, format!("representative {} of {} is not in its set", fx, x));
            }
            if (fx == fy) != (m.lab[x] == m.lab[y]) {
                wrong(o, format!("representatives {} and {} of {} and {}", fx, fy, x, y));
            }
            let ff = call(None, || t.find(fx)).must("find");
            if ff != fx {
                wrong(o, format!("{} represents {} but is itself represented by {}", fx, x, ff));
            }
        }),
        O::UfGroups => sh.write(|t, m| {
            let got = call(None, || t.groups()).must("groups");
            same(o, &normal(got), &m.groups());
        }),
        O::UfRestart => sh.write(|t, m| {
            // Crash: only the log of joins survives, and is replayed in another order.
            stat("restart_with_reordered_replay");
            let mut js = m.joins.clone();
            let mut r = Rng::new(o.arg(1) as u64);
            for i in (1..js.len()).rev() {
                js.swap(i, r.below(i as u64 + 1) as usize);
            }
            let mut fresh = Model::new(n);
            *t = call(None, || UnionFind::new(n)).must("UnionFind::new");
            for (x, y) in js {
                let (x, y) = if r.chance(1, 2) { (x, y) } else { (y, x) };
                let got = call(None, || t.join(x, y)).must("join");
                same(o, &got, &fresh.join(x, y));
            }
            *m = fresh;
        }),
        O::UfReject => sh.write(|t, _| {
            stat("rejected_call");
            let far = n + far(o.arg(2), n);
            let near = if n > 0 { o.idx(3, n) } else { far };
            match o.idx(1, 7) {
                0 => refused("join of no element", || t.join(far, near)),
                1 | 2 => refused("join of no element", || t.join(near, far)),
                3 => refused("is_same of no element", || t.is_same(near, far)),
                4 => refused("is_same of no element", || t.is_same(far, near)),
                5 => refused("size of no element", || t.size(far)),
                _ => refused("find of no element", || t.find(far)),
            }
        }),
        _ => {}
    }
}

pub fn gen(rng: &mut Rng) -> Plan {
    let n = huge(rng, 600).unwrap_or_else(|| size(rng));
    let reps = rng.range(1, 2);
    let bursts = if n > 200 { rng.chance(3, 4) } else { rng.chance(1, 4) };
    let pool: Vec<(i64, i64)> = {
        // Locality makes long chains and repeated merges of big sets likely.
        let local = rng.chance(1, 3);
        (0..40)
            .map(|_| {
                let x = pos(rng, n);
                let y = if local { x + rng.range(-2, 2) } else { pos(rng, n) };
                (x, y)
            })
            .collect()
    };
    let setup = (0..reps).map(|_| op(O::UfBuild, vec![n])).collect();
    let joins = rng.range(3, 8);
    let mut p = plan(rng, vec![], setup, |r, _| {
        let i = r.range(0, 3);
        if r.range(0, 9) < joins {
            let (x, y) = *r.pick(&pool);
            let (x, y) = if r.chance(1, 4) { (y, x) } else { (x, y) };
            return op(O::UfJoin, vec![i, x, y, r.chance(1, 6) as i64]);
        }
        if bursts && r.chance(1, 4) {
            let k = if r.chance(1, 2) { n } else { r.range(0, n) };
            let step = *r.pick(&[1, 1, -1, 2, 3, 7]);
            return op(O::UfBulk, vec![i, r.range(0, 4), k, pos(r, n), step, word(r)]);
        }
        match r.below(12) {
            0..=2 => op(O::UfSame, vec![i, pos(r, n), pos(r, n)]),
            3..=5 => op(O::UfSize, vec![i, pos(r, n)]),
            6..=7 => op(O::UfFind, vec![i, pos(r, n), pos(r, n)]),
            8..=9 => op(O::UfGroups, vec![i]),
            10 => op(O::UfRestart, vec![i, word(r)]),
            _ => op(O::UfReject, vec![i, r.range(0, 6), r.range(0, 9), word(r)]),
        }
    });
    // Reordered deliveries: shuffle some caller's queue.
    if rng.chance(1, 2) {
        for t in p.threads[1..].iter_mut() {
            for i in (1..t.len()).rev() {
                t.swap(i, rng.below(i as u64 + 1) as usize);
            }
        }
    }
    p
}

pub fn exec(p: &Plan) {
    let mut reps = vec![];
    for o in &p.threads[0] {
        if kind(o) == O::UfBuild {
            let n = o.arg(0).clamp(0, LONGEST) as usize;
            reps.push(Shared::new(call(None, || UnionFind::new(n)).must("UnionFind::new"), Model::new(n)));
        }
    }
    let st = Arc::new(St { reps });
    callers(st.clone(), &p.threads[1..], step);
    // Anti-entropy: every replica receives every join, then all must agree with one another.
    let all: Vec<(usize, usize)> = st.reps.iter().flat_map(|s| s.read(|_, m| m.joins.clone())).collect();
    let mut want: Option<Vec<Vec<usize>>> = None;
    for sh in &st.reps {
        sh.write(|t, m| {
            quiet(|| {
                for &(x, y) in &all {
                    if x < m.lab.len() && y < m.lab.len() {
                        let (got, exp) = (call(None, || t.join(x, y)).must("join"), m.join(x, y));
                        check!(got == exp, "final-audit:union-find", "join({}, {}) answers {}, expected {}", x, y, got, exp);
                    }
                }
                let got = normal(call(None, || t.groups()).must("groups"));
                check!(got == m.groups(), "final-audit:union-find", "groups {:?}, expected {:?}", got, m.groups());
                for i in 0..m.lab.len() {
                    let (got, exp) = (call(None, || t.size(i)).must("size"), m.size(i));
                    check!(got == exp, "final-audit:union-find", "size({}) is {}, expected {}", i, got, exp);
                }
                if let Some(w) = &want {
                    if w.iter().map(|g| g.len()).sum::<usize>() == m.lab.len() {
                        check!(*w == got, "replicas-differ", "one replica has {:?}, another {:?}", w, got);
                    }
                }
                want = Some(got);
            })
        });
    }
}
