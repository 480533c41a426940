//! Independent uses of the library at the same time: whole plans of other scenarios side by side, and
//! one inside a callback of another.
use super::*;
use crate::ctx::{stat, Send_};
use crate::plan::NESTED;

type Family = (&'static str, fn(&mut Rng) -> Plan, fn(&Plan));
static FAMILIES: [Family; 16] = [
    ("solvers", solvers::gen, solvers::exec),
    ("C04", unionfind::gen, unionfind::exec),
    ("C05", fenwick::gen, fenwick::exec),
    ("C06", seg::gen, seg::exec),
    ("C07", lazy::gen, lazy::exec),
    ("C08", interrupted::gen_c08, interrupted::exec_c08),
    ("C09", interrupted::gen_c09, interrupted::exec_c09),
    ("C10", hld::gen, hld::exec),
    ("C12", flow::gen_c12, flow::exec_c12),
    ("C13", flow::gen_c13, flow::exec_c13),
    ("C14", dict::gen, dict::exec),
    ("C15", input::gen, input::exec),
    ("C17", readers::gen, readers::exec),
    // These keep books per process or per thread and are used once at most, never nested.
    ("C11", heap::gen, heap::exec),
    ("C16", recursion::gen, recursion::exec),
    ("C03", modular::gen_c03, modular::exec_c03),
];
const NESTABLE: usize = 13;

fn sub(rng: &mut Rng, f: usize) -> Plan {
    loop {
        let p = (FAMILIES[f].1)(rng);
        // The closures that keep state by value are C16's own.
        if f != 14 || p.param(0) != 1 {
            return p;
        }
    }
}

/// A small plan run inside a callback, by the thread that is there.
pub fn nested(seed: u32) {
    let mut rng = Rng::new(seed as u64);
    let f = if rng.chance(1, 3) { 0 } else { rng.below(NESTABLE as u64) as usize };
    let mut p = small(|| sub(&mut rng, f));
    p.threads.truncate(3);
    for t in &mut p.threads[1..] {
        t.truncate(6);
    }
    (FAMILIES[f].2)(&p)
}

/// The stateless algorithms by themselves, sometimes nested.
pub fn gen_c19(rng: &mut Rng) -> Plan {
    let mut p = solvers::gen(rng);
    if rng.chance(1, 3) {
        for o in p.threads[1..].iter_mut().flatten() {
            if o.fault.is_none() && rng.chance(1, 8) {
                o.fault = Some((NESTED, (rng.below(1 << 16) as u32) << 8 | *rng.pick(&[1, 2, 5])));
            }
        }
    }
    p
}

/// A whole plan as one list of operations.
fn flat(rng: &mut Rng, f: usize, p: Plan, nest: u64) -> Vec<Op> {
    let mut a = vec![f as i64];
    a.extend(&p.params);
    let mut v = vec![op(O::Use, a)];
    for (i, t) in p.threads.into_iter().enumerate() {
        if i > 0 {
            v.push(op(O::Go, vec![]));
        }
        for mut o in t {
            if i > 0 && f != 14 && o.fault.is_none() && rng.chance(1, nest) {
                o.fault = Some((NESTED, (rng.below(1 << 16) as u32) << 8 | *rng.pick(&[1, 1, 2, 3, 6, 12])));
            }
            v.push(o);
        }
    }
    v
}

pub fn gen(rng: &mut Rng) -> Plan {
    let mut used = [false; 16];
    let mut threads = vec![vec![]];
    // Like uses of very different size: what one remembers must not be what the other gets.
    if rng.chance(1, 60) {
        let f = if rng.chance(1, 3) { 12 } else { rng.below(NESTABLE as u64) as usize };
        let seed = rng.next();
        let mut ps = [small(|| sub(&mut Rng::new(seed), f)), large(|| sub(&mut Rng::new(seed), f))];
        if rng.chance(1, 3) {
            ps.reverse();
        }
        threads.extend(ps.into_iter().map(|p| flat(rng, f, p, 1_000_000)));
        return Plan { params: vec![], threads, sched: gen_sched(rng), probe: None };
    }
    let n = *rng.pick(&[1, 2, 2, 3]);
    for _ in 0..n {
        let f = if rng.chance(2, 5) { 0 } else { rng.below(16) as usize };
        // Twins share whatever one kind of structure shares.
        let twins = f < NESTABLE && rng.chance(1, 4);
        for _ in 0..1 + twins as usize {
            if f >= NESTABLE && std::mem::replace(&mut used[f], true) {
                continue;
            }
            let p = if rng.chance(4, 5) { small(|| sub(rng, f)) } else { sub(rng, f) };
            let nest = if rng.chance(2, 3) { *rng.pick(&[3, 10, 30]) } else { 1_000_000 };
            threads.push(flat(rng, f, p, nest));
        }
    }
    Plan { params: vec![], threads, sched: gen_sched(rng), probe: None }
}

pub fn exec(p: &Plan) {
    let mut hs = vec![];
    for t in &p.threads[1..] {
        let Some(u) = t.first().filter(|o| kind(o) == O::Use) else { continue };
        let mut q = Plan { params: u.a.get(1..).unwrap_or(&[]).to_vec(), threads: vec![vec![]], sched: p.sched.clone(), probe: None };
        for o in &t[1..] {
            match kind(o) {
                O::Go => q.threads.push(vec![]),
                O::Use => {}
                _ => q.threads.last_mut().unwrap().push(o.clone()),
            }
        }
        let (f, q) = (u.idx(0, FAMILIES.len()), Send_(q));
        stat("independent_uses");
        hs.push(simrt::spawn_with(64 << 20, move || (FAMILIES[f].2)(&q.get())));
    }
    for h in hs {
        if let Err(e) = h.join() {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            crate::ctx::fail("unexpected-panic", format!("outside any operation: {}", m));
        }
    }
}
