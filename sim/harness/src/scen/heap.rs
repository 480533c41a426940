//! MinHeap: least first, nothing lost, repeated or dropped twice, also when a comparison unwinds.
use super::*;
use simrt::probe::Set;
use crate::ctx::{call, callers, cb, ev, quiet, quiet_if, stat, Shared};
use crate::plan::K;
use crate::{check, trace};
use rust_cp::data_structure::min_heap::MinHeap;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

/// uid -> how often it was dropped.
static DROPS: Mutex<Vec<u32>> = Mutex::new(Vec::new());
fn dropped(uid: usize) -> u32 {
    let _off = Set::to(false);
    DROPS.lock().unwrap()[uid]
}

/// Compares by key only; owns heap memory so that a duplicated bit pattern is a double free.
#[derive(Debug)]
pub struct Item {
    key: i64,
    uid: usize,
    #[allow(dead_code)]
    body: Box<usize>,
}
impl Item {
    fn new(key: i64) -> Item {
        let _off = Set::to(false);
        let mut d = DROPS.lock().unwrap();
        d.push(0);
        let uid = d.len() - 1;
        Item { key, uid, body: Box::new(uid) }
    }
}
impl Drop for Item {
    fn drop(&mut self) {
        let _off = Set::to(false);
        DROPS.lock().unwrap()[self.uid] += 1;
    }
}
impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        cb(K::Cmp);
        self.key == o.key
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Item) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Item) -> Ordering {
        cb(K::Cmp);
        self.key.cmp(&o.key)
    }
}

/// Held items: (key, uid).
type Held = BTreeSet<(i64, usize)>;
type Inst = Shared<MinHeap<Item>, Held>;
struct St {
    heaps: Vec<Inst>,
}

fn take(o: &Op, held: &mut Held, x: &Item) {
    if !held.remove(&(x.key, x.uid)) {
        wrong(o, format!("item #{} (key {}) came out but is not held", x.uid, x.key));
    }
    if *x.body != x.uid || dropped(x.uid) != 0 {
        wrong(o, format!("item #{} came out after being dropped", x.uid));
    }
}

/// After an unwinding: drain the heaps without faults and compare what they hold with `want`;
/// `gone` may be missing if it was dropped exactly once.  Then refill them.
fn recover(o: &Op, heaps: &mut [(&mut MinHeap<Item>, &mut Held)], popping: bool) {
    quiet(|| {
        let mut want: Held = heaps.iter().flat_map(|h| h.1.iter().copied()).collect();
        let mut missing = 0;
        for (t, held) in heaps.iter_mut() {
            held.clear();
            let len = t.len();
            let mut out = vec![];
            while let Some(x) = call(None, || t.pop()).must("pop after an interrupted call") {
                out.push(x);
            }
            if out.len() != len {
                wrong(o, format!("after the interruption the length is {} but {} items come out", len, out.len()));
            }
            for x in out {
                take(o, &mut want, &x);
                held.insert((x.key, x.uid));
                call(None, || t.push(x)).must("push after an interrupted call");
            }
        }
        for (key, uid) in want {
            missing += 1;
            if !popping || dropped(uid) != 1 || missing > 1 {
                wrong(o, format!("item #{} (key {}) was lost: no longer held, dropped {} times", uid, key, dropped(uid)));
            }
        }
    })
}

fn step(st: &St, _me: usize, o: &Op) {
    let k = st.heaps.len();
    let i = o.idx(0, k);
    let sh = &st.heaps[i];
    trace!("{} {:?} {:?}", name(o), o.a, o.fault);
    match kind(o) {
        O::MhPush => sh.write(|t, held| {
            let x = Item::new(o.arg(1));
            let id = (x.key, x.uid);
            held.insert(id);
            if call(o.fault, || t.push(x)).unless_injected("push").is_none() {
                stat("interrupted_updates");
                recover(o, &mut [(t, held)], false);
            }
        }),
        O::MhBulk => sh.write(|t, held| {
            // A burst of pushes, ascending, descending, all alike or mixed.
            stat("bursts");
            let mut r = Rng::new(o.arg(3) as u64);
            let span = o.arg(4).clamp(0, 1 << 40);
            quiet(|| {
                for j in 0..o.arg(1).clamp(0, LONGEST) {
                    let x = Item::new(match o.idx(2, 4) {
                        0 => j,
                        1 => -j,
                        2 => span,
                        _ => r.range(-span, span),
                    });
                    held.insert((x.key, x.uid));
                    call(None, || t.push(x)).must("push");
                }
            });
            same(o, &t.len(), &held.len());
        }),
        O::MhPop => sh.write(|t, held| {
            let least = held.first().map(|h| h.0);
            match call(o.fault, || t.pop()).unless_injected("pop") {
                None => {
                    stat("interrupted_updates");
                    recover(o, &mut [(t, held)], true);
                }
                Some(got) => {
                    same(o, &got.as_ref().map(|x| x.key), &least);
                    if let Some(x) = got {
                        take(o, held, &x);
                    }
                }
            }
        }),
        O::MhPeek => sh.read(|t, held| {
            let got = call(o.fault, || t.peek().map(|x| (x.key, x.uid))).unless_injected("peek");
            if let Some(got) = got {
                same(o, &got.map(|x| x.0), &held.first().map(|h| h.0));
                if let Some(x) = got {
                    if !held.contains(&x) {
                        wrong(o, format!("peeked item #{} is not held", x.1));
                    }
                }
            }
        }),
        O::MhLen => sh.read(|t, held| {
            same(o, &call(None, || (t.len(), t.is_empty())).must("len"), &(held.len(), held.is_empty()));
        }),
        O::MhAppend => {
            // Lock in index order.
            let j = o.idx(1, k);
            if i == j {
                return;
            }
            let (a, b) = (i.min(j), i.max(j));
            st.heaps[a].write(|ta, ha| {
                st.heaps[b].write(|tb, hb| {
                    let (dst, hd, src, hs) = if a == i { (ta, ha, tb, hb) } else { (tb, hb, ta, ha) };
                    if call(o.fault, || dst.append(src)).unless_injected("append").is_some() {
                        hd.append(hs);
                        same(o, &(dst.len(), src.len()), &(hd.len(), 0));
                    } else {
                        stat("interrupted_updates");
                        recover(o, &mut [(dst, hd), (src, hs)], false);
                    }
                })
            });
        }
        O::MhClear => sh.write(|t, held| {
            call(None, || t.clear()).must("clear");
            same(o, &t.len(), &0);
            for (key, uid) in std::mem::take(held) {
                if dropped(uid) != 1 {
                    wrong(o, format!("cleared item #{} (key {}) was dropped {} times", uid, key, dropped(uid)));
                }
            }
        }),
        O::MhSorted => sh.write(|t, held| {
            let h = std::mem::replace(t, MinHeap::with_capacity(o.idx(1, 5)));
            match quiet_if(h.len() > 400, || call(o.fault, || h.into_sorted_vec())).unless_injected("into_sorted_vec") {
                None => {
                    stat("interrupted_updates");
                    for (key, uid) in std::mem::take(held) {
                        if dropped(uid) != 1 {
                            wrong(o, format!("item #{} (key {}) was dropped {} times by the interrupted conversion", uid, key, dropped(uid)));
                        }
                    }
                }
                Some(v) => {
                    let keys: Vec<i64> = v.iter().map(|x| x.key).collect();
                    let mut want: Vec<i64> = held.iter().map(|h| h.0).collect();
                    want.reverse();
                    same(o, &keys, &want);
                    let back = held.clone();
                    for x in &v {
                        take(o, held, x);
                    }
                    // Give half of the callers their items back.
                    if o.idx(1, 2) == 0 {
                        *held = back;
                        quiet(|| {
                            for x in v {
                                call(None, || t.push(x)).must("push");
                            }
                        });
                    }
                }
            }
        }),
        O::MhRestart => sh.write(|t, held| {
            stat("rebuild_from_current_values");
            let mut old = std::mem::replace(t, MinHeap::new());
            let mut out = vec![];
            quiet_if(old.len() > 400, || {
                while let Some(x) = call(None, || old.pop()).must("pop") {
                    out.push(x.key);
                    take(o, held, &x);
                    held.insert((x.key, x.uid));
                    call(None, || t.push(x)).must("push");
                }
            });
            let want: Vec<i64> = held.iter().map(|h| h.0).collect();
            same(o, &out, &want);
        }),
        _ => {}
    }
}

pub fn gen(rng: &mut Rng) -> Plan {
    let heaps = rng.range(1, 3);
    let span = *rng.pick(&[1, 3, 10, 1000, i64::MAX / 2]);
    let bias = rng.range(3, 7);
    let faults = rng.chance(2, 3);
    let mut p = plan(rng, vec![heaps], vec![], |r, _| {
        let i = r.range(0, 2);
        let mut o = if r.range(0, 9) < bias {
            let key = if r.chance(1, 40) { *r.pick(&[i64::MIN, i64::MAX]) } else { r.range(-span, span) };
            op(O::MhPush, vec![i, key])
        } else {
            match r.below(20) {
                0..=8 => op(O::MhPop, vec![i]),
                9..=11 => op(O::MhPeek, vec![i]),
                12..=13 => op(O::MhLen, vec![i]),
                14..=16 => op(O::MhAppend, vec![i, r.range(0, 2)]),
                17 => op(O::MhClear, vec![i]),
                18 => op(O::MhSorted, vec![i, r.range(0, 9)]),
                _ => op(O::MhRestart, vec![i]),
            }
        };
        if faults && matches!(kind(&o), O::MhPush | O::MhPop | O::MhAppend | O::MhSorted | O::MhPeek) && r.chance(1, 4) {
            o.fault = Some((K::Cmp as u8, if r.chance(1, 2) { 1 } else { r.range(1, 8) as u32 }));
        }
        o
    });
    // Bursts that make a heap large.
    if rng.chance(1, 25) {
        let k = huge(rng, 60).unwrap_or_else(|| rng.range(100, 1500));
        let t = rng.below(p.threads.len() as u64) as usize;
        let at = rng.below(p.threads[t].len() as u64 + 1) as usize;
        p.threads[t].insert(at, op(O::MhBulk, vec![rng.range(0, 2), k, rng.range(0, 3), word(rng), span.min(1 << 40)]));
    }
    // Sometimes start with many items.
    if rng.chance(1, 4) {
        let k = rng.range(8, 150);
        for _ in 0..k {
            p.threads[0].push(op(O::MhPush, vec![rng.range(0, 2), rng.range(-span, span)]));
        }
    }
    p
}

pub fn exec(p: &Plan) {
    let k = p.param(0).clamp(1, 3);
    let heaps = (0..k)
        .map(|i| {
            let t = if i == 1 { MinHeap::with_capacity(3) } else { MinHeap::new() };
            Shared::new(t, BTreeSet::new())
        })
        .collect();
    let st = Arc::new(St { heaps });
    quiet(|| {
        for o in &p.threads[0] {
            step(&st, 0, o);
        }
    });
    callers(st.clone(), &p.threads[1..], step);
    // Every item still held must come out, in order, and every item must be dropped exactly once.
    quiet(|| {
        for sh in &st.heaps {
            sh.write(|t, held| {
                let o = op(O::MhPop, vec![]);
                let mut last = None;
                while let Some(x) = call(None, || t.pop()).must("pop") {
                    check!(last.is_none_or(|l| l <= x.key), "final-audit:heap", "{} popped after {:?}", x.key, last);
                    last = Some(x.key);
                    ev(&x.key);
                    take(&o, held, &x);
                }
                check!(held.is_empty(), "final-audit:heap", "items {:?} never came out", held);
            });
        }
        let d = { let _off = Set::to(false); DROPS.lock().unwrap().clone() };
        for (uid, n) in d.iter().enumerate() {
            check!(*n == 1, "final-audit:heap", "item #{} was dropped {} times", uid, n);
        }
    });
}
