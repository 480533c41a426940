//! The tracing macro: what it evaluates, what it prints and where, when traced expressions or their
//! formatting unwind, leave early or trace themselves, and when the diagnostic stream fails.
use super::*;
use crate::ctx::{self, callers, ev, stat, R};
use crate::plan::K;
use crate::trace;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::os::fd::IntoRawFd;
use std::sync::{Arc, Mutex};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn pread(fd: i32, p: *mut u8, n: usize, at: i64) -> isize;
    fn lseek(fd: i32, at: i64, whence: i32) -> i64;
    fn getrlimit(which: i32, lim: *mut [u64; 2]) -> i32;
    fn setrlimit(which: i32, lim: *const [u64; 2]) -> i32;
    fn signal(sig: i32, to: usize) -> usize;
}
/// A trace of nothing. Whether that compiles without debug assertions, a separate program shows.
macro_rules! trace_nothing {
    () => {
        #[cfg(debug_assertions)]
        de!();
        if !TRACED && !std::env::current_exe().is_ok_and(|p| p.with_file_name("examples/empty_trace").exists()) {
            ctx::fail("does-not-compile", "a program that contains `de!()` does not compile without debug assertions".into());
        }
    };
}
const TRACED: bool = cfg!(debug_assertions);

fn contents(fd: i32) -> String {
    let n = unsafe { lseek(fd, 0, 1) }.max(0) as usize;
    let mut b = vec![0; n];
    let mut at = 0;
    while at < n {
        let k = unsafe { pread(fd, b[at..].as_mut_ptr(), n - at, at as i64) };
        if k <= 0 {
            ctx::fail("harness", "the captured stream cannot be read back".into());
        }
        at += k as usize;
    }
    String::from_utf8_lossy(&b).into_owned()
}

/// What one request has seen so far.
struct Call {
    /// Every value it makes is different from every other request's.
    n: i64,
    started: RefCell<Vec<i64>>,
    formatted: RefCell<Vec<i64>>,
    alive: Cell<i64>,
}
/// A traced value that owns something and whose formatting may unwind.
struct Val<'a>(&'a Call, i64);
impl fmt::Debug for Val<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        ctx::cb_at_once(K::Format);
        self.0.formatted.borrow_mut().push(self.1);
        write!(f, "V{}", self.0.n + self.1)
    }
}
impl Drop for Val<'_> {
    fn drop(&mut self) {
        self.0.alive.set(self.0.alive.get() - 1);
    }
}
impl Call {
    fn new(n: i64) -> Call {
        Call { n, started: RefCell::new(vec![]), formatted: RefCell::new(vec![]), alive: Cell::new(0) }
    }
    fn val(&self, i: i64) -> Val<'_> {
        self.started.borrow_mut().push(i);
        ctx::cb(K::Body);
        self.alive.set(self.alive.get() + 1);
        Val(self, i)
    }
    fn num(&self, i: i64) -> i64 {
        self.started.borrow_mut().push(i);
        ctx::cb(K::Body);
        self.n + i
    }
}
/// What should be printed: pieces in order, of which `Some(i)` is the i-th evaluation's.
type Piece = (Option<i64>, String);
fn seg(i: i64, text: &str, value: impl fmt::Display) -> Piece {
    (Some(i), format!(" {} = {}", text, value))
}
fn raw(s: impl Into<String>) -> Piece {
    (None, s.into())
}

const SITES: i64 = 12;
/// Traces, and answers what should have been evaluated and printed if nothing goes wrong.
#[rustfmt::skip]
#[allow(unused)]
fn site(which: i64, c: &Call) -> (Vec<i64>, Vec<Piece>) {
    let n = c.n;
    let v = |i: i64| format!("V{}", n + i);
    match which {
        0 => { let l = line!(); trace_nothing!(); (vec![], vec![raw(format!("#{}\n", l))]) }
        1 => { let l = line!(); de!(c.val(0)); (vec![0], vec![raw(format!("#{}", l)), seg(0, "c.val(0)", v(0)), raw("\n")]) }
        2 => { let l = line!(); de!(c.num(0), c.val(1)); (vec![0, 1], vec![raw(format!("#{}", l)), seg(0, "c.num(0)", n), seg(1, "c.val(1)", v(1)), raw("\n")]) }
        3 => { let l = line!(); de!(c.val(0), c.val(1), c.num(2),); (vec![0, 1, 2], vec![raw(format!("#{}", l)), seg(0, "c.val(0)", v(0)), seg(1, "c.val(1)", v(1)), seg(2, "c.num(2)", n + 2), raw("\n")]) }
        4 => {
            // borrowed, used afterwards
            let w = vec![n, n + 1];
            let l = line!(); de!(&w, w.len(), w[1] - 1);
            if w != [n, n + 1] { ctx::fail("changed", "tracing a reference changed what it refers to".into()) }
            (vec![], vec![raw(format!("#{} &w = [{}, {}] w.len() = 2 w[1] - 1 = {}\n", l, n, n + 1, n))])
        }
        5 => {
            // side effects happen once, in order
            let mut x = n;
            let l = line!(); de!({ x += 1; x }, { x *= 2; x });
            let want = if TRACED { (n + 1) * 2 } else { n };
            if x != want { ctx::fail("side-effects", format!("a traced expression's side effects left {} instead of {}", x, want)) }
            (vec![], vec![raw(format!("#{} {{ x += 1; x }} = {} {{ x *= 2; x }} = {}\n", l, n + 1, (n + 1) * 2))])
        }
        6 => {
            // traces within a traced expression
            let l = line!(); de!(c.val(0), { de!(c.num(1)); c.val(2) });
            (vec![0, 1, 2], vec![raw(format!("#{}", l)), seg(0, "c.val(0)", v(0)), raw(format!("#{}", l)), seg(1, "c.num(1)", n + 1), raw("\n"), seg(2, "{ de!(c.num(1)); c.val(2) }", v(2)), raw("\n")])
        }
        7 => {
            // leaves in the middle of tracing
            let l = line!(); de!(c.val(0), if c.num(1) > i64::MIN { return (vec![0, 1], vec![raw(format!("#{}", l)), seg(0, "c.val(0)", v(0))]) } else { 0 }, c.num(2));
            (vec![], vec![])
        }
        8 => {
            let l = line!(); de!("a\"b\n", 'c', 1.5f64, Some(n), (n, "x"), [(); 2]);
            (vec![], vec![raw(format!("#{} \"a\\\"b\\n\" = \"a\\\"b\\n\" 'c' = 'c' 1.5f64 = 1.5 Some(n) = Some({}) (n, \"x\") = ({}, \"x\") [(); 2] = [(), ()]\n", l, n, n))])
        }
        9 => {
            let l = line!(); de!(c.num(0), c.num(1), c.num(2), c.num(3), c.num(4), c.num(5), c.num(6), c.num(7), c.num(8), c.num(9), c.num(10), c.num(11), c.num(12), c.num(13));
            let mut p = vec![raw(format!("#{}", l))];
            p.extend((0..14).map(|i| seg(i, &format!("c.num({})", i), n + i)));
            p.push(raw("\n"));
            ((0..14).collect(), p)
        }
        10 => {
            // one call site, many times
            let (mut e, mut p) = (vec![], vec![]);
            for i in 0..3 {
                let l = line!(); de!(c.val(i));
                e.push(i);
                p.extend([raw(format!("#{}", l)), seg(i, "c.val(i)", v(i)), raw("\n")]);
            }
            (e, p)
        }
        _ => {
            let w = "é漢".repeat(3);
            let l = line!(); de!(w, c.val(0), &&n);
            (vec![0], vec![raw(format!("#{} w = {:?}", l, "é漢".repeat(3))), seg(0, "c.val(0)", v(0)), raw(format!(" &&n = {}\n", n))])
        }
    }
}

struct Book {
    calls: i64,
    /// The stream misbehaves now; how often that changed.
    bad: bool,
    epoch: u64,
    /// What undisturbed requests must have printed, each in this order.
    printed: Vec<Vec<Piece>>,
    /// Whether something may have been printed in part.
    ragged: bool,
}
struct St {
    book: Mutex<Book>,
    fds: [i32; 4],
    /// The file size limit, as it was.
    limit: [u64; 2],
}
impl St {
    fn book<T>(&self, f: impl FnOnce(&mut Book) -> T) -> T {
        f(&mut self.book.lock().unwrap())
    }
    fn stream(&self, mode: i64, room: i64) {
        let [err, full, broken, _] = self.fds;
        unsafe {
            setrlimit(1, &self.limit);
            match mode {
                1 => { stat("stream_full"); dup2(full, 2); }
                2 => { stat("stream_broken"); dup2(broken, 2); }
                3 => { stat("stream_closed"); close(2); }
                4 => {
                    stat("stream_fills_up");
                    dup2(err, 2);
                    setrlimit(1, &[lseek(err, 0, 1) as u64 + room as u64, self.limit[1]]);
                }
                _ => { dup2(err, 2); }
            }
        }
        self.book(|b| {
            b.bad = (1..=4).contains(&mode);
            b.epoch += 1;
            b.ragged |= b.bad;
        });
    }
}

fn step(st: &St, _me: usize, o: &Op) {
    trace!("{} {:?} {:?}", name(o), o.a, o.fault);
    if kind(o) == O::DbStream {
        return st.stream(o.arg(0), o.arg(1).rem_euclid(60));
    }
    let (n, bad, epoch) = st.book(|b| {
        b.calls += 1;
        (b.calls * 100 + 1_000_000, b.bad, b.epoch)
    });
    let c = Call::new(n);
    let which = o.arg(0).rem_euclid(SITES);
    let got = ctx::call(o.fault, || site(which, &c));
    let disturbed = st.book(|b| bad || b.bad || b.epoch != epoch);
    let (started, formatted) = (c.started.take(), c.formatted.take());
    ev(&(&started, got.completed()));
    if c.alive.get() != 0 {
        wrong(o, format!("{} traced values were not dropped exactly once", c.alive.get()));
    }
    let (want, pieces) = match &got {
        R::Done((e, p)) => (e.clone(), p.clone()),
        _ => {
            // What an undisturbed request would do, with nothing printed.
            let all: Vec<i64> = (0..14).collect();
            (all, vec![])
        }
    };
    if !TRACED {
        if !started.is_empty() || !formatted.is_empty() {
            wrong(o, format!("a build without tracing evaluated {:?}", started));
        }
        got.must("tracing");
        return;
    }
    match got {
        R::Done(_) => {
            if started != want {
                wrong(o, format!("evaluated {:?} instead of {:?}", started, want));
            }
            st.book(|b| {
                if disturbed {
                    b.ragged = true;
                } else {
                    b.printed.push(pieces);
                }
            });
        }
        R::Panicked(m) if !disturbed => wrong(o, format!("panicked: {}", m)),
        // Stopped part-way: by a fault or by the stream.
        r => {
            if !want.starts_with(&started) {
                wrong(o, format!("evaluated {:?} before it was interrupted", started));
            }
            st.book(|b| b.ragged = true);
            if let (R::Injected, false) = (&r, disturbed) {
                stat("interrupted_traces");
                // Values formatted before the interruption are on the stream.
                st.book(|b| b.printed.push(formatted.iter().map(|i| (Some(*i), format!(" = V{}", n + i))).collect()));
            }
        }
    }
}

pub fn gen(rng: &mut Rng) -> Plan {
    let faults = rng.chance(1, 2);
    let streams = rng.chance(1, 3);
    plan(rng, vec![], vec![], |r, _| {
        if streams && r.chance(1, 4) {
            return op(O::DbStream, vec![if r.chance(1, 2) { 0 } else { r.range(1, 4) }, r.range(0, 59)]);
        }
        let mut o = op(O::DbTrace, vec![r.range(0, SITES - 1)]);
        if faults && r.chance(1, 4) {
            o.fault = Some(((if r.chance(1, 2) { K::Body } else { K::Format }) as u8, r.range(1, 4) as u32));
        }
        o
    })
}

pub fn exec(p: &Plan) {
    let st = unsafe {
        simrt::say_to(dup(2));
        signal(25, 1); // a file size limit is an error, not a death
        let (out, err) = (memfd_create(c"out".as_ptr().cast(), 0), memfd_create(c"err".as_ptr().cast(), 0));
        let full = std::fs::OpenOptions::new().write(true).open("/dev/full").map_or(-1, |f| f.into_raw_fd());
        let mut ends = [0; 2];
        if out < 0 || err < 0 || full < 0 || pipe(ends.as_mut_ptr()) != 0 {
            ctx::fail("harness", "no streams to trace to".into());
        }
        close(ends[0]);
        dup2(out, 1);
        dup2(err, 2);
        let mut limit = [u64::MAX; 2];
        getrlimit(1, &mut limit);
        Arc::new(St { book: Mutex::new(Book { calls: 0, bad: false, epoch: 0, printed: vec![], ragged: false }), fds: [err, full, ends[1], out], limit })
    };
    callers(st.clone(), &p.threads[1..], step);
    // Once the stream works again, so does tracing.
    st.stream(0, 0);
    for i in 0..SITES {
        step(&st, 0, &op(O::DbTrace, vec![i]));
    }
    let (text, out) = (contents(st.fds[0]), contents(st.fds[3]));
    let o = op(O::DbTrace, vec![]);
    ev(&text);
    if !out.is_empty() {
        wrong(&o, format!("tracing printed on the standard output: {:?}", out));
    }
    if !TRACED {
        if !text.is_empty() {
            wrong(&o, format!("a build without tracing printed {:?}", text));
        }
        return;
    }
    let (lone, ragged) = (p.threads.len() <= 2, st.book(|b| b.ragged));
    st.book(|b| {
        for pieces in &b.printed {
            let mut at = 0;
            for (_, s) in pieces.iter().filter(|p| p.0.is_some()) {
                let mut m = text.match_indices(s.as_str());
                match (m.next(), m.next()) {
                    (Some((i, _)), None) if i >= at => at = i + s.len(),
                    (Some(_), None) => wrong(&o, format!("{:?} was printed out of order", s)),
                    (None, _) => wrong(&o, format!("{:?} was not printed", s)),
                    _ => wrong(&o, format!("{:?} was printed twice", s)),
                }
            }
        }
        let all: String = b.printed.iter().flatten().map(|p| p.1.as_str()).collect();
        if lone && !ragged && all != text {
            wrong(&o, format!("printed {:?} instead of {:?}", text, all));
        }
        // Several callers' lines may mix, but nothing is added or lost.
        let count = |s: &str| {
            let mut c = std::collections::BTreeMap::new();
            s.bytes().for_each(|x| *c.entry(x).or_insert(0) += 1);
            c
        };
        if !ragged && count(&all) != count(&text) {
            wrong(&o, format!("printed {:?}, not a mixture of {:?}", text, all));
        }
    });
}
