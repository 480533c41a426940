//! `In` over truncated and damaged text, with parsers that fail or unwind.
use super::*;
use crate::ctx::{call, callers, ev, stat, Shared, R};
use crate::plan::K;
use crate::trace;
use rust_cp::misc::input::In;
use std::fmt::Debug;
use std::hash::Hash;
use std::str::FromStr;
use std::sync::Arc;

/// A caller's own token type whose parser may fail or unwind.
#[derive(Debug, PartialEq, Hash, Clone)]
struct Own(String);
impl FromStr for Own {
    type Err = ();
    fn from_str(s: &str) -> Result<Own, ()> {
        crate::ctx::cb(K::Parse);
        if s.contains('9') {
            Err(())
        } else {
            Ok(Own(s.to_string()))
        }
    }
}
/// f64 by bits.
#[derive(Debug, PartialEq, Hash, Clone)]
struct Float(u64);
impl FromStr for Float {
    type Err = ();
    fn from_str(s: &str) -> Result<Float, ()> {
        s.parse::<f64>().map(|x| Float(x.to_bits())).map_err(|_| ())
    }
}

/// The reader's text, split by the oracle, and how many tokens have been consumed.
struct Model {
    tokens: Vec<String>,
    at: usize,
}
impl Model {
    fn next(&mut self) -> Option<String> {
        let t = self.tokens.get(self.at).cloned();
        if t.is_some() {
            self.at += 1;
        }
        t
    }
}
fn tokens(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c.is_whitespace() {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

type Inst = Shared<In<'static>, Model>;
struct St {
    inst: Vec<Inst>,
}

fn settle<T: Debug + Hash + PartialEq>(o: &Op, got: R<T>, want: Option<T>) {
    match (got, want) {
        (R::Done(x), Some(y)) => same(o, &x, &y),
        (R::Done(x), None) => wrong(o, format!("returned {:?} where there is no such value", x)),
        (R::Injected, _) => ev(&"unwound"),
        (R::Panicked(_), None) => {
            stat("read_failed_as_it_must");
            ev(&"failed")
        }
        (R::Panicked(m), Some(y)) => wrong(o, format!("failed ({}) instead of returning {:?}", m, y)),
    }
}

/// Reads one value of type `T`.
fn read<T: FromStr + Debug + Hash + PartialEq>(o: &Op, t: &mut In<'static>, m: &mut Model, direct: Option<fn(&mut In<'static>) -> T>) {
    let tok = m.next();
    let want = crate::ctx::quiet(|| tok.as_deref().and_then(|s| s.parse::<T>().ok()));
    match kind(o) {
        O::InChecked => {
            let got = call(o.fault, || t.checked_read::<T>());
            settle(o, got, if tok.is_none() { Some(None) } else { want.map(Some) });
        }
        _ => {
            let got = call(o.fault, || match direct {
                Some(f) if o.arg(2) == 1 => f(t),
                _ => t.read::<T>(),
            });
            settle(o, got, want);
        }
    }
}
/// Reads `k` values: on failure at the j-th, exactly j tokens are gone.
fn vector<T: FromStr + Debug + Hash + PartialEq>(o: &Op, t: &mut In<'static>, m: &mut Model, k: usize) {
    let before = m.at;
    let mut want = Some(vec![]);
    for _ in 0..k {
        match crate::ctx::quiet(|| m.next().and_then(|s| s.parse::<T>().ok())) {
            Some(x) => want.as_mut().unwrap().push(x),
            None => {
                want = None;
                break;
            }
        }
    }
    let got = call(o.fault, || t.vec::<T>(k));
    if let (R::Injected, Some((_, n))) = (&got, o.fault) {
        // The n-th parse unwound; its token is consumed.
        m.at = before + n as usize;
    }
    settle(o, got, want);
}

fn step(st: &St, _me: usize, o: &Op) {
    if st.inst.is_empty() {
        return;
    }
    let sh = &st.inst[o.idx(0, st.inst.len())];
    trace!("{} {:?} {:?}", name(o), o.a, o.fault);
    sh.write(|t, m| match kind(o) {
        O::InRead | O::InChecked => match o.idx(1, TYPES as usize) {
            0 => read::<i32>(o, t, m, Some(|t| t.i32())),
            1 => read::<i64>(o, t, m, Some(|t| t.i64())),
            2 => read::<usize>(o, t, m, Some(|t| t.usize())),
            3 => read::<u8>(o, t, m, None),
            4 => read::<i128>(o, t, m, None),
            5 => read::<String>(o, t, m, None),
            6 => read::<char>(o, t, m, None),
            7 => read::<Float>(o, t, m, None),
            8 => read::<bool>(o, t, m, None),
            10 => read::<i8>(o, t, m, None),
            11 => read::<u16>(o, t, m, None),
            12 => read::<i16>(o, t, m, None),
            13 => read::<u32>(o, t, m, None),
            14 => read::<u64>(o, t, m, None),
            15 => read::<u128>(o, t, m, None),
            16 => read::<isize>(o, t, m, None),
            17 => read::<std::num::NonZeroU32>(o, t, m, None),
            _ => read::<Own>(o, t, m, None),
        },
        O::InBytes => {
            let want = m.next().map(|s| s.into_bytes());
            settle(o, call(None, || t.bytes()), want);
        }
        O::InChars => {
            let want = m.next().map(|s| s.chars().collect::<Vec<char>>());
            settle(o, call(None, || t.chars()), want);
        }
        O::InVec => {
            let k = o.arg(2).clamp(0, 700) as usize;
            match o.idx(1, 5) {
                0 => vector::<i32>(o, t, m, k),
                1 => vector::<i64>(o, t, m, k),
                2 => vector::<usize>(o, t, m, k),
                3 => vector::<String>(o, t, m, k),
                _ => vector::<Own>(o, t, m, k),
            }
        }
        _ => {}
    })
}

/// How many types are read; number 9 is the caller's own.
const TYPES: i64 = 18;
/// What damage, foreign software and foreign keyboards put next to or in place of digits.
const NOISE: [&str; 24] = [
    "\u{feff}", "\0", "\u{200b}", "\u{ad}", "\u{fffd}", "\u{1a}", "\u{7f}", "\u{8}", "\u{200e}", "\u{2212}", "\u{2013}", "\u{ff11}", "\u{661}", "_", ",", ".", ";", "\"", "'", "+", "-", "#",
    "0", "e",
];
const SEPS: [&str; 10] = [" ", "\n", "\t", "\r\n", "  ", "\u{a0}", "\u{2003}", "\u{3000}", "\u{b}\u{c}", " \n \n"];
const WORDS: [&str; 30] = [
    "0", "1", "-1", "+7", "007", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807",
    "-9223372036854775808", "9223372036854775808", "18446744073709551615", "255", "256", "-0", "1e3", "3.5", "abc", "é",
    "漢字", "true", "-", "+", "x", "1_000", "0x10", "inf", "\u{200b}5", "12,",
];

pub fn gen(rng: &mut Rng) -> Plan {
    let mut setup = vec![];
    let mut len = 0i64;
    for _ in 0..rng.range(0, 24) {
        let mut chunk = String::new();
        if rng.chance(1, 2) {
            chunk.push_str(&rng.range(-100, 100).to_string());
        } else {
            chunk.push_str(WORDS[rng.below(30) as usize]);
        }
        if rng.chance(1, 6) {
            let x = *rng.pick(&NOISE);
            match rng.below(4) {
                0 => chunk.insert_str(0, x),
                1 if chunk.is_char_boundary(1) => chunk.insert_str(1, x),
                _ => chunk.push_str(x),
            }
        }
        if !rng.chance(1, 12) {
            chunk.push_str(if rng.chance(2, 3) { " " } else { SEPS[rng.below(10) as usize] });
        }
        let b: Vec<i64> = chunk.bytes().map(|b| b as i64).collect();
        len += b.len() as i64;
        setup.push(op(O::InText, b));
    }
    let long = rng.chance(1, 50);
    if long {
        let k = huge(rng, 40).unwrap_or_else(|| *rng.pick(&[100, 255, 256, 257, 300, 1000, 4000]));
        let at = rng.below(setup.len() as u64 + 1) as usize;
        setup.insert(at, op(O::InLong, vec![rng.range(0, 3), k, word(rng)]));
    }
    if rng.chance(1, 4) {
        let s = SEPS[rng.below(10) as usize];
        setup.insert(0, op(O::InText, s.bytes().map(|b| b as i64).collect()));
    }
    if rng.chance(1, 12) {
        // at the very beginning or end
        let at = if rng.chance(1, 2) { 0 } else { setup.len() };
        setup.insert(at, op(O::InText, rng.pick(&NOISE).bytes().map(|b| b as i64).collect()));
    }
    if rng.chance(1, 2) {
        setup.push(op(O::InCut, vec![rng.range(0, len.max(1))]));
    }
    if rng.chance(1, 2) {
        for _ in 0..rng.range(1, 4) {
            let b = match rng.below(4) {
                0 => 32,
                1 => rng.range(48, 57),
                _ => rng.range(0, 255),
            };
            setup.push(op(O::InDamage, vec![rng.range(0, len.max(1)), b]));
        }
    }
    for _ in 0..rng.range(1, 2) {
        setup.push(op(O::InReader, vec![]));
    }
    let ty = rng.range(0, 3 * TYPES);
    plan(rng, vec![], setup, |r, _| {
        let i = r.range(0, 1);
        let t = if ty < TYPES && r.chance(2, 3) { ty } else { r.range(0, TYPES - 1) };
        let mut o = match r.below(16) {
            0..=7 => op(O::InRead, vec![i, t, r.range(0, 1)]),
            8..=11 => op(O::InChecked, vec![i, t]),
            12 => op(O::InBytes, vec![i]),
            13 => op(O::InChars, vec![i]),
            _ => op(O::InVec, vec![i, t % 5, if long && r.chance(1, 3) { r.range(0, 600) } else { r.range(0, 8) }]),
        };
        let own = match kind(&o) {
            O::InVec => o.arg(1) == 4,
            O::InRead | O::InChecked => o.arg(1) == 9,
            _ => false,
        };
        if own && r.chance(1, 3) {
            o.fault = Some((K::Parse as u8, r.range(1, 4) as u32));
        }
        o
    })
}

/// Long runs of separators, a long token, or many tokens.
fn long_text(o: &Op, bytes: &mut Vec<u8>) {
    let k = o.arg(1).clamp(0, LONGEST);
    let mut r = Rng::new(o.arg(2) as u64);
    match o.idx(0, 4) {
        0 => {
            let sep = SEPS[r.below(10) as usize];
            for _ in 0..k {
                bytes.extend(sep.bytes());
            }
        }
        1 => {
            let d = *r.pick(&[b'0', b'7', b'x']);
            bytes.extend(std::iter::repeat_n(d, k as usize));
            bytes.extend(b"5 ");
        }
        _ => {
            for _ in 0..k.min(20_000) {
                bytes.extend(r.range(-50, 50).to_string().bytes());
                bytes.extend(SEPS[if r.chance(9, 10) { 0 } else { r.below(10) as usize }].bytes());
            }
        }
    }
}

pub fn exec(p: &Plan) {
    let mut bytes: Vec<u8> = vec![];
    for o in &p.threads[0] {
        match kind(o) {
            O::InText => bytes.extend(o.a.iter().map(|&b| b as u8)),
            O::InLong => {
                stat("bursts");
                long_text(o, &mut bytes)
            }
            O::InCut => {
                stat("input_truncated");
                let n = o.idx(0, bytes.len() + 1);
                bytes.truncate(n);
            }
            O::InDamage if !bytes.is_empty() => {
                stat("input_byte_damaged");
                let n = o.idx(0, bytes.len());
                bytes[n] = o.arg(1) as u8;
            }
            _ => {}
        }
    }
    let text: &'static String = Box::leak(Box::new(String::from_utf8_lossy(&bytes).into_owned()));
    trace!("text {:?}", text);
    let mut inst = vec![];
    for o in &p.threads[0] {
        if kind(o) == O::InReader {
            inst.push(Shared::new(call(None, || In::new(text)).must("In::new"), Model { tokens: tokens(text), at: 0 }));
        }
    }
    let st = Arc::new(St { inst });
    callers(st.clone(), &p.threads[1..], step);
    // What is left comes out whole and in order, then nothing, repeatedly.
    for i in 0..st.inst.len() as i64 {
        let left = st.inst[i as usize].read(|_, m| m.tokens.len() - m.at);
        for _ in 0..left + 2 {
            step(&st, 0, &op(O::InChecked, vec![i, 5]));
        }
        step(&st, 0, &op(O::InRead, vec![i, 5]));
    }
}
