//! Runs one plan in a forked child process, so that no run sees what another left behind.
use crate::ctx;
use crate::plan::{Plan, Scenario};
use simrt::{Report, SITES};
use std::collections::BTreeMap;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};

pub const MAX_STEPS: u64 = 2_000_000;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn setrlimit(which: i32, lim: *const [u64; 2]) -> i32;
    fn poll(fds: *mut PollFd, n: u64, ms: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

static OUT: AtomicI32 = AtomicI32::new(-1);

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// None: the run passed.
    pub violation: Option<(String, String)>,
    pub steps: u64,
    pub hash: u64,
    pub ihash: u64,
    pub switches: [u64; SITES],
    pub points: [u64; SITES],
    pub stale_loads: u64,
    pub lock_waits: u64,
    pub longest_stall: u64,
    pub threads: u64,
    pub probed: u64,
    pub taken: BTreeMap<u64, u32>,
    pub stats: BTreeMap<String, u64>,
}

fn emit(violation: Option<(&str, &str)>, r: &Report) -> ! {
    use std::fmt::Write;
    let mut s = String::new();
    if let Some((c, m)) = violation {
        let clean = |x: &str| x.replace(['\n', '\r'], " ").chars().take(600).collect::<String>();
        writeln!(s, "V {}\nM {}", clean(c), clean(m)).unwrap();
        write!(s, "T").unwrap();
        for (k, v) in &r.taken {
            write!(s, " {}:{}", k, v).unwrap();
        }
        s.push('\n');
    }
    let j = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    writeln!(s, "R {} {} {} {} {} {} {} {}", r.steps, r.hash, r.stale_loads, r.lock_waits, r.longest_stall, r.threads, r.ihash, r.probed).unwrap();
    writeln!(s, "W {}\nP {}", j(&r.switches), j(&r.points)).unwrap();
    for (k, v) in ctx::stats() {
        writeln!(s, "S {} {}", k, v).unwrap();
    }
    s.push_str("E\n");
    let fd = OUT.load(SeqCst);
    let b = s.as_bytes();
    let mut at = 0;
    unsafe {
        while at < b.len() {
            let n = write(fd, b[at..].as_ptr().cast(), b.len() - at);
            if n <= 0 {
                break;
            }
            at += n as usize;
        }
        _exit(0)
    }
}

pub fn child_fail(class: &str, msg: String, r: Report) -> ! {
    emit(Some((class, &msg)), &r)
}
fn rt_fail(class: &str, msg: String, r: Report) -> ! {
    child_fail(class, msg, r)
}

pub fn exec(sc: &Scenario, plan: &Plan, trace: bool) -> Outcome {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0); // die with the parent
            close(fds[0]);
            OUT.store(fds[1], SeqCst);
            setrlimit(0, &[10, 11]); // CPU seconds
            setrlimit(9, &[2 << 30, 2 << 30]); // address space
            setrlimit(4, &[0, 0]); // no core files
            ctx::set_hook();
            let r = simrt::run(plan.sched.clone(), plan.probe, MAX_STEPS, trace, rt_fail, || {
                if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.exec)(plan))) {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    ctx::fail("unexpected-panic", format!("outside any operation: {}", m));
                }
            });
            emit(None, &r);
        }
        close(fds[1]);
        // Wait for the result or a hang.
        let mut text = Vec::new();
        let mut file = std::fs::File::from_raw_fd(fds[0]);
        let mut hung = false;
        let mut buf = [0u8; 16384];
        loop {
            let mut p = PollFd { fd: fds[0], events: 1, revents: 0 };
            let n = poll(&mut p, 1, 120_000);
            if n == 0 {
                hung = true;
                kill(pid, 9);
                break;
            }
            if n < 0 {
                continue;
            }
            match file.read(&mut buf) {
                Ok(0) => break,
                Ok(k) => text.extend_from_slice(&buf[..k]),
                Err(_) => continue,
            }
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let sig = st & 0x7f;
        parse(&String::from_utf8_lossy(&text), sig, hung)
    }
}

fn parse(t: &str, sig: i32, hung: bool) -> Outcome {
    let mut o = Outcome::default();
    let mut class = None;
    let mut msg = String::new();
    let mut complete = false;
    for l in t.lines() {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        let nums = || rest.split(' ').map(|x| x.parse::<u64>().unwrap_or(0)).collect::<Vec<_>>();
        match k {
            "V" => class = Some(rest.to_string()),
            "M" => msg = rest.to_string(),
            "T" => {
                for x in rest.split_whitespace() {
                    if let Some((a, b)) = x.split_once(':') {
                        o.taken.insert(a.parse().unwrap(), b.parse().unwrap());
                    }
                }
            }
            "R" => {
                let n = nums();
                o.steps = n[0];
                o.hash = n[1];
                o.stale_loads = n[2];
                o.lock_waits = n[3];
                o.longest_stall = n[4];
                o.threads = n[5];
                o.ihash = n[6];
                o.probed = n[7];
            }
            "W" => o.switches.copy_from_slice(&nums()),
            "P" => o.points.copy_from_slice(&nums()),
            "S" => {
                let (n, v) = rest.split_once(' ').unwrap();
                o.stats.insert(n.to_string(), v.parse().unwrap());
            }
            "E" => complete = true,
            _ => {}
        }
    }
    if complete {
        o.violation = class.map(|c| (c, msg));
    } else if hung || sig == 24 || sig == 9 {
        o.violation = Some(("no-progress".into(), "the run used up its CPU or wall-clock allowance without reaching a scheduling point limit".into()));
    } else {
        o.violation = Some((format!("crash-signal-{}", sig), format!("the simulated process died with signal {}", sig)));
    }
    o
}
