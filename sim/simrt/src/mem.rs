//! A view-based operational memory model for atomics, in the style of the promise-free fragment of
//! the C11 memory model.  It only ever produces executions the language allows: stores are appended
//! to the modification order, a load may return any store not older than what its thread has
//! already observed, acquire/release transfer views, and SeqCst operations additionally go through
//! one global view (which is stronger than C11, hence sound: no impossible behaviour is produced).

use super::{tid, with, Inner, Schedule, NONE};
use std::sync::atomic::{AtomicU32, Ordering};

/// What a thread has observed: per atomic the newest store, per thread how much of what it did.
#[derive(Clone, Default)]
pub struct View(Vec<u32>, Vec<u32>);
impl View {
    pub const fn new() -> Self {
        View(Vec::new(), Vec::new())
    }
    /// How much of thread `t` happened before.
    pub fn of(&self, t: usize) -> u32 {
        self.1.get(t).copied().unwrap_or(0)
    }
    /// Thread `t` has handed out its view: what it does from now on is not covered by that.
    pub fn tick(&mut self, t: usize) {
        if self.1.len() <= t {
            self.1.resize(t + 1, 0);
        }
        self.1[t] += 1;
    }
    fn get(&self, l: usize) -> u32 {
        self.0.get(l).copied().unwrap_or(0)
    }
    fn raise(&mut self, l: usize, v: u32) {
        if self.0.len() <= l {
            self.0.resize(l + 1, 0);
        }
        if self.0[l] < v {
            self.0[l] = v;
        }
    }
    pub fn join(&mut self, o: &View) {
        for (l, &v) in o.0.iter().enumerate() {
            if v > 0 {
                self.raise(l, v);
            }
        }
        if self.1.len() < o.1.len() {
            self.1.resize(o.1.len(), 0);
        }
        for (a, b) in self.1.iter_mut().zip(&o.1) {
            *a = (*a).max(*b);
        }
    }
}

struct Msg {
    val: u64,
    view: View,
}

pub struct Memory {
    locs: Vec<Vec<Msg>>,
    sc: View,
    seq: u64,
}
impl Memory {
    pub fn new() -> Self {
        Memory { locs: vec![], sc: View::new(), seq: 0 }
    }
    pub fn next_seq(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
}

/// Identity of an atomic cell; 0 until the simulator first sees it.
pub struct Loc(AtomicU32);
impl Loc {
    pub const fn new() -> Self {
        Loc(AtomicU32::new(0))
    }
    pub fn forget(&mut self) {
        *self.0.get_mut() = 0;
    }
    fn idx(&self, rt: &mut Inner, latest: u64) -> usize {
        let i = self.0.load(Ordering::SeqCst);
        let l = if i == 0 {
            rt.mem.locs.push(vec![Msg { val: latest, view: View::new() }]);
            let l = rt.mem.locs.len() - 1;
            self.0.store(l as u32 + 1, Ordering::SeqCst);
            l
        } else {
            i as usize - 1
        };
        if rt.mem.locs[l].last().unwrap().val != latest {
            // Written behind our back by exclusive access: that write happens before everything else.
            let v = rt.mem.locs[l].len() as u32;
            rt.mem.locs[l].push(Msg { val: latest, view: View::new() });
            for t in rt.th.iter_mut() {
                t.view.raise(l, v);
            }
        }
        l
    }
}

fn is_acq(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
fn is_rel(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

/// `latest` is the value currently held by the backing cell.
pub fn load(loc: &Loc, latest: u64, o: Ordering) -> u64 {
    let me = tid();
    if me == NONE {
        return latest;
    }
    with(|rt| {
        let l = loc.idx(rt, latest);
        if o == Ordering::SeqCst {
            let sc = rt.mem.sc.clone();
            rt.th[me].view.join(&sc);
        }
        let last = rt.mem.locs[l].len() - 1;
        let lo = rt.th[me].view.get(l) as usize;
        let mut at = last;
        if last > lo {
            let n = last - lo + 1;
            let back = rt.decide(n, |rt| {
                let p = match &rt.schedule {
                    Schedule::Seeded { stale_num, .. } => *stale_num,
                    _ => 0,
                };
                if rt.rng.below(1024) < p {
                    1 + rt.rng.below(n as u64 - 1) as usize
                } else {
                    0
                }
            });
            if back > 0 {
                rt.stale_loads += 1;
                if rt.trace {
                    crate::say!("    [step {:>4}] T{} reads a stale value of atomic #{} ({} stores old)", rt.steps, me, l, back);
                }
            }
            at = last - back;
        }
        let val = rt.mem.locs[l][at].val;
        let mv = rt.mem.locs[l][at].view.clone();
        rt.th[me].view.raise(l, at as u32);
        if is_acq(o) {
            rt.th[me].view.join(&mv);
        } else {
            rt.th[me].acq_pending.join(&mv);
        }
        if o == Ordering::SeqCst {
            let v = rt.th[me].view.clone();
            rt.mem.sc.join(&v);
        }
        rt.th[me].view.tick(me);
        val
    })
}

pub fn store(loc: &Loc, latest: u64, new: u64, o: Ordering) {
    let me = tid();
    if me == NONE {
        return;
    }
    with(|rt| {
        let l = loc.idx(rt, latest);
        if o == Ordering::SeqCst {
            let sc = rt.mem.sc.clone();
            rt.th[me].view.join(&sc);
        }
        let at = rt.mem.locs[l].len() as u32;
        rt.th[me].view.raise(l, at);
        let view = if is_rel(o) {
            rt.th[me].view.clone()
        } else {
            let mut v = rt.th[me].rel_fence.clone();
            v.raise(l, at);
            v
        };
        rt.mem.locs[l].push(Msg { val: new, view });
        if o == Ordering::SeqCst {
            let v = rt.th[me].view.clone();
            rt.mem.sc.join(&v);
        }
        rt.th[me].view.tick(me);
    })
}

/// A read-modify-write that reads the latest value; `new` is None when a compare-exchange fails.
pub fn rmw(loc: &Loc, latest: u64, new: Option<u64>, o: Ordering) {
    let me = tid();
    if me == NONE {
        return;
    }
    with(|rt| {
        let l = loc.idx(rt, latest);
        if o == Ordering::SeqCst {
            let sc = rt.mem.sc.clone();
            rt.th[me].view.join(&sc);
        }
        let last = rt.mem.locs[l].len() - 1;
        let mv = rt.mem.locs[l][last].view.clone();
        rt.th[me].view.raise(l, last as u32);
        if is_acq(o) {
            rt.th[me].view.join(&mv);
        } else {
            rt.th[me].acq_pending.join(&mv);
        }
        if let Some(new) = new {
            let at = last as u32 + 1;
            rt.th[me].view.raise(l, at);
            let mut view = if is_rel(o) {
                rt.th[me].view.clone()
            } else {
                let mut v = rt.th[me].rel_fence.clone();
                v.raise(l, at);
                v
            };
            view.join(&mv); // release sequence
            rt.mem.locs[l].push(Msg { val: new, view });
        }
        if o == Ordering::SeqCst {
            let v = rt.th[me].view.clone();
            rt.mem.sc.join(&v);
        }
        rt.th[me].view.tick(me);
    })
}

/// Should a weak compare-exchange that could succeed fail spuriously?
pub fn spurious() -> bool {
    if tid() == NONE {
        return false;
    }
    with(|rt| rt.decide(2, |rt| (rt.rng.below(16) == 0) as usize) == 1)
}

pub fn fence(o: Ordering) {
    let me = tid();
    if me == NONE {
        return;
    }
    with(|rt| {
        if is_acq(o) {
            let p = rt.th[me].acq_pending.clone();
            rt.th[me].view.join(&p);
        }
        if o == Ordering::SeqCst {
            let sc = rt.mem.sc.clone();
            rt.th[me].view.join(&sc);
            let v = rt.th[me].view.clone();
            rt.mem.sc.join(&v);
        }
        if is_rel(o) {
            let v = rt.th[me].view.clone();
            rt.th[me].rel_fence.join(&v);
        }
        rt.th[me].view.tick(me);
    })
}
