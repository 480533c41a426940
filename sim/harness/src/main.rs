//! Deterministic simulation of callers of rust_cp: search, minimise, replay.
#[cfg(probed)]
#[global_allocator]
static ALLOC: simrt::probe::Alloc = simrt::probe::Alloc;

#[macro_use]
extern crate rust_cp;

mod ctx;
mod engine;
mod minimise;
mod orchestrate;
mod plan;
mod scen;

use engine::exec;
use plan::{Plan, Scenario};
use scen::SCENARIOS;
use simrt::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::time::Instant;

/// The standard library's only source of entropy (hash map keys), made a constant.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = 0x5A ^ (i as u8).wrapping_mul(31);
    }
    len as isize
}
extern "C" {
    fn personality(p: u64) -> i32;
}
/// Fixed addresses, so that even undefined behaviour repeats.
fn fix_addresses() {
    const NO_RANDOMIZE: u64 = 0x0040000;
    unsafe {
        let p = personality(0xffffffff);
        if p >= 0 && p as u64 & NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() && personality(p as u64 | NO_RANDOMIZE) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIM_REEXEC", "1").exec();
            eprintln!("re-exec failed: {}", e);
        }
    }
}

pub fn scenario(id: &str) -> &'static Scenario {
    SCENARIOS.iter().find(|s| s.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}
pub fn profile() -> &'static str {
    if cfg!(probed) {
        "probed"
    } else if cfg!(debug_assertions) {
        "checked"
    } else {
        "optimised"
    }
}
/// The plan of one run.
pub fn plan_of(sc: &Scenario, seed: u64, index: u64) -> Plan {
    let id = sc.id.bytes().fold(0, |h, b| mix(h, b as u64));
    let mut rng = Rng::new(mix(mix(mix(0x51D, seed), id), index));
    let mut p = (sc.gen)(&mut rng);
    if rng.chance(7, 8) {
        p.probe = Some((rng.next(), *rng.pick(&[1, 3, 8, 25, 80, 300])));
    }
    p
}

fn worker(a: &[String]) {
    let sc = scenario(&a[0]);
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (from, to, stride, seed, secs) = (n(1), n(2), n(3), n(4), n(5));
    let known: Vec<&str> = a[6..].iter().map(|s| s.as_str()).collect();
    let start = Instant::now();
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut sums: BTreeMap<String, u64> = BTreeMap::new();
    let (mut hashes, mut inter) = (BTreeSet::new(), BTreeSet::new());
    let mut samples = 0;
    let mut most = 0;
    let mut i = from;
    let mut done = 0u64;
    // For finding scenarios that come near a run's CPU allowance.
    let slow: Option<u128> = std::env::var("SIM_SLOW").ok().and_then(|x| x.parse().ok());
    while i < to && start.elapsed().as_secs() < secs {
        let p = plan_of(sc, seed, i);
        let began = Instant::now();
        let o = exec(sc, &p, false);
        if slow.is_some_and(|ms| began.elapsed().as_millis() > ms) {
            eprintln!("slow: {} index {} took {:?}", sc.id, i, began.elapsed());
        }
        done += 1;
        let mut add = |k: &str, v: u64| *sums.entry(k.to_string()).or_insert(0) += v;
        if let Some((class, msg)) = &o.violation {
            if known.contains(&class.as_str()) {
                add("known_violations", 1);
            } else {
                writeln!(out, "VIOL {} {} {}", i, class.replace(' ', "_"), msg).unwrap();
                out.flush().unwrap();
                break;
            }
        }
        add("runs", 1);
        add("steps", o.steps);
        most = most.max(o.steps);
        add("preemptions", o.switches.iter().sum());
        for (k, (s, q)) in simrt::SITE_NAMES.iter().zip(o.switches.iter().zip(&o.points)) {
            add(&format!("switches_at_{}", k), *s);
            add(&format!("points_at_{}", k), *q);
        }
        add("stale_loads", o.stale_loads);
        add("plain_accesses_probed", o.probed);
        add("lock_waits", o.lock_waits);
        add("threads", o.threads);
        if o.longest_stall > 20 {
            add("runs_with_a_caller_stalled_over_20_points", 1);
        }
        add("multi_caller_runs", (o.threads > 2) as u64);
        let mut unwound = 0;
        for (k, v) in &o.stats {
            add(&format!("stat:{}", k), *v);
            if k.starts_with("unwind_in") {
                unwound += v;
            }
        }
        for op in p.threads.iter().flatten() {
            add(&format!("op:{}", sc.ops[op.code as usize]), 1);
            if op.fault.is_some() {
                add("faults_planned", 1);
            }
        }
        if p.nops() >= 3 && (o.switches.iter().sum::<u64>() > 1 || unwound > 0) {
            add("nontrivial", 1);
            hashes.insert(mix(o.hash, o.ihash));
            if samples < 1 && o.steps < 150 {
                samples += 1;
                let mut q = p.clone();
                q.sched = simrt::Schedule::Explicit(o.taken.clone());
                writeln!(out, "SAMPLE index {} steps {} schedule {:?} | {}", i, o.steps, p.sched, q.to_text(sc).replace('\n', " ; ")).unwrap();
            }
        }
        inter.insert(o.ihash);
        if i / stride % 61 == 0 {
            let o2 = exec(sc, &p, false);
            add("redone", 1);
            if (o.hash, o.ihash, o.steps, &o.stats) != (o2.hash, o2.ihash, o2.steps, &o2.stats) {
                add("redone_differently", 1);
                eprintln!("warning: {} run {} did not repeat exactly", sc.id, i);
            }
        }
        if done % 16 == 0 {
            writeln!(out, "P {}", i).unwrap();
            out.flush().unwrap();
        }
        i += stride;
    }
    if i < to && start.elapsed().as_secs() >= secs {
        sums.insert("stopped_by_clock".into(), 1);
    }
    writeln!(out, "MAX {}", most).unwrap();
    for (k, v) in &sums {
        writeln!(out, "SUM {} {}", k.replace(' ', "_"), v).unwrap();
    }
    for (tag, set) in [("H", &hashes), ("I", &inter)] {
        let v: Vec<u64> = set.iter().copied().collect();
        for c in v.chunks(200) {
            let t: Vec<String> = c.iter().map(|x| format!("{:x}", x)).collect();
            writeln!(out, "{} {}", tag, t.join(" ")).unwrap();
        }
    }
    writeln!(out, "END").unwrap();
}

pub fn replay_parts(path: &str) -> (BTreeMap<String, String>, String) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{}: {}", path, e);
        std::process::exit(2)
    });
    let mut m = BTreeMap::new();
    for l in text.lines() {
        if let Some((k, v)) = l.split_once(' ') {
            if ["property", "profile", "class", "message", "hash", "origin"].contains(&k) {
                m.insert(k.to_string(), v.to_string());
            }
        }
    }
    (m, text)
}

fn replay(path: &str, trace: bool) -> i32 {
    let (m, text) = replay_parts(path);
    let sc = scenario(&m["property"]);
    if m["profile"] != profile() {
        eprintln!("this file is for the {} build; this is the {} build", m["profile"], profile());
        return 2;
    }
    let p = Plan::from_text(&text, sc);
    let o = exec(sc, &p, trace);
    match o.violation {
        None => {
            println!("the run passes: not a violation on this tree");
            0
        }
        Some((class, msg)) => {
            let same = class == m["class"] && format!("{:x}", o.hash) == m["hash"];
            println!("{}: {}", class, msg);
            println!("{}", if same { "reproduced exactly (same violation, same event history)" } else { "a violation, but not the recorded one" });
            println!("VIOLATION property={} replay={}", sc.id, path);
            1
        }
    }
}

fn main() {
    fix_addresses();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let code = match s(0) {
        "worker" => {
            worker(&a[1..]);
            0
        }
        "check" => orchestrate::check(s(1), s(2)),
        "min" => minimise::main(s(1), s(2).parse().unwrap(), s(3).parse().unwrap(), s(4), &s(5).replace('_', " ")),
        "replay" => replay(s(1), false),
        "trace" => replay(s(1), true),
        "one" => {
            let sc = scenario(s(1));
            let p = plan_of(sc, s(2).parse().unwrap(), s(3).parse().unwrap());
            print!("{}", p.to_text(sc));
            let o = exec(sc, &p, s(4) == "trace");
            println!("{:#?}", o);
            0
        }
        // Hashes of a range of runs, one per line, for comparing whole searches.
        "hashes" => {
            let sc = scenario(s(1));
            let n = |i: usize| s(i).parse::<u64>().unwrap();
            for i in n(3)..n(4) {
                let o = exec(sc, &plan_of(sc, n(2), i), false);
                println!("{} {:x} {:x} {} {:?}", i, o.hash, o.ihash, o.steps, o.violation.map(|v| v.0));
            }
            0
        }
        _ => {
            eprintln!("usage: check ID TIER | worker .. | min .. | replay FILE | trace FILE | one ID SEED INDEX [trace] | hashes ID SEED FROM TO");
            2
        }
    };
    std::process::exit(code);
}
