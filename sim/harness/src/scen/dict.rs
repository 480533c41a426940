//! AhoCorasick built by several callers in any order, against naive matching.
use super::*;
use crate::ctx::{call, callers, quiet_if, stat, Shared};
use crate::trace;
use rust_cp::string::aho_corasick::AhoCorasick;
use std::sync::Arc;

pub trait Automaton {
    fn insert(&mut self, s: &[u8], i: usize);
    fn build(&mut self);
    fn find(&self, t: &[u8]) -> Vec<Option<usize>>;
    fn find_all(&self, t: &[u8]) -> Vec<Vec<usize>>;
    fn find_cnt(&self, t: &[u8]) -> Vec<usize>;
}
impl<const LO: u8, const N: usize> Automaton for AhoCorasick<LO, N> {
    fn insert(&mut self, s: &[u8], i: usize) {
        AhoCorasick::insert(self, s, i)
    }
    fn build(&mut self) {
        AhoCorasick::build(self)
    }
    fn find(&self, t: &[u8]) -> Vec<Option<usize>> {
        AhoCorasick::find(self, t)
    }
    fn find_all(&self, t: &[u8]) -> Vec<Vec<usize>> {
        AhoCorasick::find_all(self, t)
    }
    fn find_cnt(&self, t: &[u8]) -> Vec<usize> {
        AhoCorasick::find_cnt(self, t)
    }
}

/// (first letter, alphabet size) of each window.
const WINDOWS: [(u8, u64); 5] = [(b'a', 26), (b'0', 2), (b'A', 3), (0, 256), (b'0', 10)];
pub fn empty(w: i64, n: usize) -> Box<dyn Automaton> {
    match w.rem_euclid(5) {
        0 => Box::new(AhoCorasick::<b'a', 26>::new(n)),
        1 => Box::new(AhoCorasick::<b'0', 2>::new(n)),
        2 => Box::new(AhoCorasick::<b'A', 3>::new(n)),
        3 => Box::new(AhoCorasick::<0, 256>::new(n)),
        _ => Box::new(AhoCorasick::<b'0', 10>::new(n)),
    }
}
pub fn bulk(w: i64, pats: &[&[u8]]) -> Box<dyn Automaton> {
    match w.rem_euclid(5) {
        0 => Box::new(AhoCorasick::<b'a', 26>::from(pats)),
        1 => Box::new(AhoCorasick::<b'0', 2>::from(pats)),
        2 => Box::new(AhoCorasick::<b'A', 3>::from(pats)),
        3 => Box::new(AhoCorasick::<0, 256>::from(pats)),
        _ => Box::new(AhoCorasick::<b'0', 10>::from(pats)),
    }
}
/// A letter: mostly from a tiny part of the window, including its last letter.
pub fn letter(w: i64, x: i64) -> u8 {
    let (lo, n) = WINDOWS[w.rem_euclid(5) as usize];
    let x = x.rem_euclid(40);
    let k = match x {
        0..=16 => 0,
        17..=33 => 1,
        34..=36 => 2,
        _ => n as i64 - 1,
    };
    lo + (k.min(n as i64 - 1)) as u8
}
pub fn letters(w: i64, xs: &[i64]) -> Vec<u8> {
    xs.iter().map(|&x| letter(w, x)).collect()
}
pub fn gen_text(rng: &mut Rng, max: i64) -> Vec<i64> {
    let n = rng.range(0, max);
    let base = *rng.pick(&[1, 20, 40, 40]);
    let mut v: Vec<i64> = (0..n).map(|_| rng.below(base) as i64).collect();
    // Periodic text stresses failure links.
    if rng.chance(1, 3) && n > 2 {
        let per = rng.range(1, 4.min(n));
        for i in per as usize..n as usize {
            v[i] = v[i - per as usize];
        }
    }
    v
}

/// A text given by its construction rather than letter by letter: pieces of patterns among noise.
pub fn long_text(w: i64, o: &Op, pats: &[Vec<u8>]) -> Vec<u8> {
    let n = o.arg(1).clamp(0, if pats.len() > 60 { 3000 } else { LONGEST }) as usize;
    let mut r = Rng::new(o.arg(2) as u64);
    let mut t = vec![];
    while t.len() < n {
        if !pats.is_empty() && r.chance(1, 2) {
            let p = &pats[r.below(pats.len() as u64) as usize];
            let k = if r.chance(1, 4) { r.below(p.len() as u64 + 1) as usize } else { p.len() };
            for _ in 0..r.range(1, 3) {
                t.extend(&p[..k]);
            }
        } else {
            let x = r.range(0, 39);
            let k = r.range(1, 6);
            t.extend(std::iter::repeat_n(letter(w, x), k as usize));
        }
    }
    t.truncate(n);
    t
}
/// Many patterns from one operation: (how many, seed, longest).
pub fn many(w: i64, o: &Op) -> Vec<Vec<u8>> {
    let mut r = Rng::new(o.arg(1) as u64);
    (0..o.arg(0).clamp(0, if o.arg(2) <= 20 { LONGEST } else { 700 }))
        .map(|_| {
            let n = o.arg(2).clamp(1, LONGEST);
            // Enormous ones in full length.
            let n = if n > 10_000 { n } else { r.range(1, n) };
            let base = *r.pick(&[2, 40, 40]);
            let alike = r.chance(1, 5);
            let x = r.below(40) as i64;
            (0..n).map(|_| letter(w, if alike { x } else { (r.below(base) as i64) * 17 })).collect()
        })
        .collect()
}

pub struct Answers {
    pub all: Vec<Vec<usize>>,
    pub cnt: Vec<usize>,
}
/// Every occurrence, longest first.
pub fn naive(pats: &[Vec<u8>], t: &[u8]) -> Answers {
    let mut cnt = vec![0; pats.len()];
    let mut by_len: Vec<usize> = (0..pats.len()).collect();
    by_len.sort_by_key(|&i| std::cmp::Reverse(pats[i].len()));
    if pats.len() > 700 {
        // Very many, none of them long: look up every suffix of each length.
        let at: std::collections::HashMap<&[u8], usize> = pats.iter().enumerate().map(|(i, p)| (&p[..], i)).collect();
        let longest = pats.iter().map(|p| p.len()).max().unwrap_or(0);
        let all = (0..t.len())
            .map(|e| {
                let hits: Vec<usize> = (1..=longest.min(e + 1)).rev().filter_map(|k| at.get(&t[e + 1 - k..=e]).copied()).collect();
                for &h in &hits {
                    cnt[h] += 1;
                }
                hits
            })
            .collect();
        return Answers { all, cnt };
    }
    let all = (0..t.len())
        .map(|e| {
            let hits: Vec<usize> = by_len.iter().copied().filter(|&i| t[..=e].ends_with(&pats[i])).collect();
            for &h in &hits {
                cnt[h] += 1;
            }
            hits
        })
        .collect();
    Answers { all, cnt }
}

struct St {
    w: i64,
    pats: Vec<Vec<u8>>,
    sh: Shared<Box<dyn Automaton>, Vec<bool>>,
    /// Built from the patterns in numeric order.
    reference: Shared<Box<dyn Automaton>, ()>,
}

fn insert_step(st: &St, _me: usize, o: &Op) {
    if kind(o) != O::AcInsert || st.pats.is_empty() {
        return;
    }
    let i = o.idx(0, st.pats.len());
    trace!("insert pattern {} {:?}", i, st.pats[i]);
    st.sh.write(|t, done| {
        if done[i] {
            stat("duplicated_delivery");
        }
        call(None, || t.insert(&st.pats[i], i)).must("insert");
        done[i] = true;
    })
}

/// A request that is abandoned at a letter outside the alphabet: whatever comes of it, the
/// dictionary answers other requests as before.
pub fn reject(w: i64, o: &Op, t: &dyn Automaton, pats: &[Vec<u8>]) {
    let (lo, n) = WINDOWS[w.rem_euclid(5) as usize];
    let mut r = Rng::new(o.arg(2) as u64);
    let mut text = vec![];
    for _ in 0..r.range(0, 4) {
        if pats.is_empty() || r.chance(1, 4) {
            text.push(letter(w, r.range(0, 39)));
        } else {
            text.extend(r.pick(pats).iter().take(2000));
        }
    }
    if n < 256 {
        let over = 256 - lo as i64 - n as i64;
        let x = r.range(1, over + lo as i64);
        text.push(if x <= over { (lo as i64 + n as i64 - 1 + x) as u8 } else { (x - over - 1) as u8 });
        text.extend(letters(w, &[0, 1, 2]));
        stat("rejected_call");
    }
    quiet_if(text.len() > 2000, || {
        call(None, || match o.arg(1).rem_euclid(3) {
            0 => drop(t.find(&text)),
            1 => drop(t.find_all(&text)),
            _ => drop(t.find_cnt(&text)),
        })
        .completed()
    });
}

pub fn query(o: &Op, t: &dyn Automaton, pats: &[Vec<u8>], text: &[u8], reference: Option<&dyn Automaton>) {
    let want = naive(pats, text);
    match kind(o) {
        O::AcFindAll => same(o, &call(None, || t.find_all(text)).must("find_all"), &want.all),
        O::AcFindCnt => same(o, &call(None, || t.find_cnt(text)).must("find_cnt"), &want.cnt),
        O::AcFind => {
            let got = call(None, || t.find(text)).must("find");
            if let Some(r) = reference {
                same(o, &got, &r.find(text));
            }
            plausible(o, &got, pats, text, &want);
        }
        _ => {}
    }
}

/// What `find` reports ends there and is the longest that does; it must report one where the text's
/// longest suffix that begins some pattern is itself a pattern.
fn plausible(o: &Op, got: &Vec<Option<usize>>, pats: &[Vec<u8>], text: &[u8], want: &Answers) {
    if got.len() != text.len() {
        wrong(o, format!("{} answers for {} positions", got.len(), text.len()));
    }
    let longest = pats.iter().map(|p| p.len()).max().unwrap_or(0);
    for (e, g) in got.iter().enumerate() {
        let hit = want.all[e].first().copied();
        if g.is_some() && *g != hit {
            wrong(o, format!("at {} it reports {:?}, the longest pattern ending there is {:?}", e, g, hit));
        }
        if g.is_none() && hit.is_some() && text.len() <= 300 && longest <= 100 && pats.len() <= 40 {
            let h = pats[hit.unwrap()].len();
            let longer = (h + 1..=longest.min(e + 1)).any(|k| pats.iter().any(|p| p.starts_with(&text[e + 1 - k..=e])));
            if !longer {
                wrong(o, format!("at {} it reports none, pattern {:?} ends there and nothing longer is begun", e, hit));
            }
        }
    }
}

fn query_step(st: &St, _me: usize, o: &Op) {
    if kind(o) == O::AcInsert {
        return;
    }
    if kind(o) == O::AcLong {
        let text = long_text(st.w, o, &st.pats);
        stat("bursts");
        trace!("{} {:?}", name(o), o.a);
        let o = &op([O::AcFindAll, O::AcFindCnt, O::AcFind][o.idx(0, 3)], vec![]);
        return quiet_if(text.len() > 2000, || st.sh.read(|t, _| st.reference.read(|r, _| query(o, t.as_ref(), &st.pats, &text, Some(r.as_ref())))));
    }
    if kind(o) == O::AcReject {
        trace!("{} {:?}", name(o), o.a);
        return st.sh.read(|t, _| reject(st.w, o, t.as_ref(), &st.pats));
    }
    let text = letters(st.w, &o.a);
    trace!("{} {:?}", name(o), text);
    st.sh.read(|t, _| st.reference.read(|r, _| query(o, t.as_ref(), &st.pats, &text, Some(r.as_ref()))));
}

pub fn gen(rng: &mut Rng) -> Plan {
    let mut w = *rng.pick(&[0, 0, 1, 1, 2, 3, 4]);
    let k = *rng.pick(&[1, 2, 3, 4, 6, 9, 15]);
    let mut setup = vec![];
    for _ in 0..k {
        let max = *rng.pick(&[4, 8, 20]);
        let mut t = gen_text(rng, max);
        if t.is_empty() {
            t = vec![0];
        }
        setup.push(op(O::AcPattern, t));
    }
    // Suffixes and prefixes of other patterns.
    for _ in 0..rng.below(4) {
        let mut t = setup[rng.below(setup.len() as u64) as usize].a.clone();
        let cut = rng.below(t.len() as u64) as usize;
        t = if rng.chance(1, 2) { t[cut..].to_vec() } else { t[..cut + 1].to_vec() };
        setup.push(op(O::AcPattern, t));
    }
    // Many patterns, or a few very long ones.
    let mut extra = 0;
    let mut vast = false;
    if rng.chance(1, 1500) {
        // More nodes, or more patterns, than 16 bits count.
        vast = true;
        w = rng.range(1, 2);
        let (k, n) = if rng.chance(1, 2) { (rng.range(1, 2), rng.range(60_000, 75_000)) } else { (rng.range(70_000, 90_000), 18) };
        extra = k;
        setup.push(op(O::AcMany, vec![k, word(rng), n]));
    } else if rng.chance(1, 150) {
        let (k, n) = match rng.below(4) {
            0 => (rng.range(1, 3), *rng.pick(&[255, 256, 300, 2000])),
            1 => (rng.range(200, 600), rng.range(2, 12)),
            _ => (rng.range(10, 80), rng.range(2, 60)),
        };
        extra = k;
        setup.push(op(O::AcMany, vec![k, word(rng), n]));
    }
    let kk = setup.len() as i64 - (extra > 0) as i64;
    let pats: Vec<Vec<i64>> = setup[..kk as usize].iter().map(|o| o.a.clone()).collect();
    let long = vast || rng.chance(1, 40);
    let mut p = plan(rng, vec![w], setup, |r, _| {
        if r.chance(1, 3) {
            return op(O::AcInsert, vec![r.range(0, kk + extra - 1)]);
        }
        if long && r.chance(1, 6) {
            let n = if vast { 100_000 } else { huge(r, 40).unwrap_or_else(|| r.range(100, 3000)) };
            return op(O::AcLong, vec![r.range(0, 2), n, word(r)]);
        }
        if r.chance(1, 25) {
            return op(O::AcReject, vec![0, r.range(0, 2), word(r)]);
        }
        let mut t = gen_text(r, 40);
        for _ in 0..r.below(4) {
            t.extend(r.pick(&pats).iter());
        }
        op(*r.pick(&[O::AcFind, O::AcFindAll, O::AcFindAll, O::AcFindCnt]), t)
    });
    // Each pattern is delivered at least once, by somebody, in random order.
    let n = p.threads.len();
    for i in 0..kk {
        let t = 1 + rng.below(n as u64 - 1) as usize;
        let at = rng.below(p.threads[t].len() as u64 + 1) as usize;
        p.threads[t].insert(at, op(O::AcInsert, vec![i]));
    }
    p
}

pub fn exec(p: &Plan) {
    let w = p.param(0);
    let mut pats: Vec<Vec<u8>> = vec![];
    let mut seen = std::collections::HashSet::new();
    for o in &p.threads[0] {
        let new = match kind(o) {
            O::AcPattern if !o.a.is_empty() => vec![letters(w, &o.a)],
            O::AcMany => many(w, o),
            _ => vec![],
        };
        for s in new {
            if seen.insert(s.clone()) {
                pats.push(s);
            }
        }
    }
    let k = pats.len();
    let refs: Vec<&[u8]> = pats.iter().map(|v| &v[..]).collect();
    let reference = call(None, || bulk(w, &refs)).must("AhoCorasick::from");
    let t = call(None, || empty(w, k)).must("AhoCorasick::new");
    let st = Arc::new(St { w, pats, sh: Shared::new(t, vec![false; k]), reference: Shared::new(reference, ()) });
    callers(st.clone(), &p.threads[1..], insert_step);
    st.sh.write(|t, done| {
        // Whatever was never delivered arrives last.
        for i in 0..k {
            if !done[i] {
                call(None, || t.insert(&st.pats[i], i)).must("insert");
            }
        }
        call(None, || t.build()).must("build");
    });
    callers(st.clone(), &p.threads[1..], query_step);
}
