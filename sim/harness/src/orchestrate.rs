//! Runs one property's search over several worker processes and both builds.
use crate::scenario;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::Instant;

const WORKERS: u64 = 8;

fn verif() -> String {
    std::env::var("SIM_VERIF").unwrap_or_else(|_| "/verif".into())
}
/// Callers of these really run inside one structure at the same time.
const PROBED: [&str; 10] = ["C01", "C02", "C03", "C05", "C06", "C08", "C14", "C17", "C18", "C19"];
fn bin(id: &str, w: u64) -> String {
    let build = match w % 8 {
        3 | 6 if PROBED.contains(&id) && std::env::var_os("SIM_PROBED").is_some() => "SIM_PROBED",
        0 | 2 | 4 | 6 => "SIM_CHECKED",
        _ => "SIM_OPTIMISED",
    };
    std::env::var(build).expect("SIM_CHECKED and SIM_OPTIMISED name the builds")
}
/// (runs, seconds allowed to each worker)
fn budget(id: &str, tier: &str) -> (u64, u64) {
    let quick: u64 = match id {
        "C02" => 48_000,
        "C18" => 32_000,
        _ => 80_000,
    };
    let scale: u64 = std::env::var("SIM_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(100);
    if tier == "thorough" {
        (quick * 25 * scale / 100, 780)
    } else {
        (quick * scale / 100, 240)
    }
}

struct Known {
    class: String,
    text: String,
}
fn known_findings(id: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", verif())).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter(|l| l.split_whitespace().next() == Some(&format!("property={}", id)))
        .filter_map(|l| {
            let class = l.split_whitespace().find_map(|w| w.strip_prefix("class="))?.to_string();
            let text = l.split_whitespace().skip(2).collect::<Vec<_>>().join(" ");
            Some(Known { class, text })
        })
        .collect()
}

enum Msg {
    Line(u64, String),
    Gone(u64),
}

#[derive(Default)]
struct Totals {
    sums: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    inter: BTreeSet<u64>,
    samples: Vec<String>,
    most: u64,
    /// index -> (class, message)
    viol: BTreeMap<u64, (String, String)>,
    bad: Vec<String>,
}

fn search(id: &str, seed: u64, runs: u64, secs: u64, from: &[u64], known: &[Known], tot: &mut Totals) {
    let (tx, rx) = mpsc::channel();
    let mut kids = BTreeMap::new();
    for w in 0..WORKERS {
        if from[w as usize] >= runs {
            continue;
        }
        let mut c = Command::new(bin(id, w));
        c.arg("worker").arg(id);
        for x in [from[w as usize], runs, WORKERS, seed, secs] {
            c.arg(x.to_string());
        }
        c.args(known.iter().map(|k| &k.class));
        let mut kid = c.stdout(Stdio::piped()).spawn().expect("starting a worker");
        let out = kid.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send(Msg::Line(w, l)).is_err() {
                    return;
                }
            }
            let _ = tx.send(Msg::Gone(w));
        });
        kids.insert(w, kid);
    }
    drop(tx);
    let mut ended = BTreeSet::new();
    let mut killed = BTreeSet::new();
    let mut alive = kids.len();
    while alive > 0 {
        let Ok(m) = rx.recv() else { break };
        match m {
            Msg::Gone(w) => {
                alive -= 1;
                let _ = kids.get_mut(&w).unwrap().wait();
                if !ended.contains(&w) && !killed.contains(&w) {
                    tot.bad.push(format!("worker {} ended early", w));
                }
            }
            Msg::Line(w, l) => {
                let (k, rest) = l.split_once(' ').unwrap_or((&l, ""));
                match k {
                    "P" => {
                        let at: u64 = rest.parse().unwrap_or(0);
                        // Nothing below the first violation can still come from this worker.
                        if tot.viol.keys().next().is_some_and(|&v| at > v) && killed.insert(w) {
                            let _ = kids.get_mut(&w).unwrap().kill();
                        }
                    }
                    "VIOL" => {
                        let mut it = rest.splitn(3, ' ');
                        let i: u64 = it.next().unwrap().parse().unwrap();
                        let c = it.next().unwrap_or("").to_string();
                        tot.viol.insert(i, (c, it.next().unwrap_or("").to_string()));
                    }
                    "SUM" => {
                        if let Some((k, v)) = rest.rsplit_once(' ') {
                            *tot.sums.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                        }
                    }
                    "MAX" => tot.most = tot.most.max(rest.parse().unwrap_or(0)),
                    "H" => tot.hashes.extend(rest.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok())),
                    "I" => tot.inter.extend(rest.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok())),
                    "SAMPLE" => tot.samples.push(rest.to_string()),
                    "END" => {
                        ended.insert(w);
                    }
                    _ => {}
                }
            }
        }
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn check(id: &str, tier: &str) -> i32 {
    let start = Instant::now();
    let sc = scenario(id);
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let (runs, secs) = budget(id, tier);
    let known = known_findings(id);
    let mut tot = Totals::default();
    let mut from: Vec<u64> = (0..WORKERS).collect();
    let mut unconfirmed = 0u64;
    let mut found: Option<(String, String, String)> = None;
    let dir = format!("{}/replays", verif());
    std::fs::create_dir_all(&dir).expect("creating the replay directory");
    loop {
        search(id, seed, runs, secs, &from, &known, &mut tot);
        let Some((&i, (class, msg))) = tot.viol.iter().next() else { break };
        let (class, msg) = (class.clone(), msg.clone());
        let path = format!("{}/{}-s{}-i{}.replay", dir, id, seed, i);
        if std::env::var_os("SIM_NOMIN").is_some() {
            // For measuring what the search detects, in a hurry.
            found = Some((path, class, msg));
            break;
        }
        let st = Command::new(bin(id, i)).arg("min").arg(id).arg(seed.to_string()).arg(i.to_string()).arg(&path).arg(&class).status().expect("minimising");
        if st.code() == Some(0) {
            if let Ok(o) = Command::new(bin(id, i)).arg("trace").arg(&path).output() {
                let text = String::from_utf8_lossy(&o.stderr).to_string();
                if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(&path) {
                    let _ = writeln!(f, "# trace of the minimised run:");
                    for l in text.lines().take(400) {
                        let _ = writeln!(f, "# {}", l.chars().take(300).collect::<String>());
                    }
                }
            }
            found = Some((path, class, msg));
            break;
        }
        // It did not happen again: not evidence of anything. Go on behind it.
        unconfirmed += 1;
        eprintln!("note: {} run {} ({}: {}) did not fail when repeated", id, i, class, msg);
        if unconfirmed > 20 {
            tot.bad.push("too many violations that do not repeat".into());
            break;
        }
        tot = Totals { bad: std::mem::take(&mut tot.bad), ..Totals::default() };
        from[(i % WORKERS) as usize] = i + WORKERS;
    }
    let wall = start.elapsed().as_secs_f64();
    write_evidence(id, tier, seed, runs, &tot, found.is_some(), unconfirmed, &known, wall);
    let ran = tot.sums.get("runs").copied().unwrap_or(0);
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", id, k.text);
    }
    if let Some((path, class, msg)) = found {
        println!("{}: {}", class, msg);
        println!("VIOLATION property={} replay={}", id, path);
        return 1;
    }
    if !tot.bad.is_empty() || ran == 0 {
        eprintln!("the search itself failed: {:?}", tot.bad);
        return 2;
    }
    println!("{}: no violation in {} simulated runs ({:.1} s)", sc.id, ran, wall);
    0
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(id: &str, tier: &str, seed: u64, planned: u64, tot: &Totals, viol: bool, unconfirmed: u64, known: &[Known], wall: f64) {
    let g = |k: &str| tot.sums.get(k).copied().unwrap_or(0);
    let strip = |p: &str| -> BTreeMap<String, u64> { tot.sums.iter().filter_map(|(k, v)| k.strip_prefix(p).map(|k| (k.to_string(), *v))).collect() };
    let mut faults: BTreeMap<String, u64> = strip("stat:").into_iter().filter(|(k, _)| k != "ops").collect();
    faults.insert("preemption".into(), g("preemptions"));
    faults.insert("stale_atomic_load".into(), g("stale_loads"));
    faults.insert("blocked_on_lock".into(), g("lock_waits"));
    faults.insert("runs_with_a_caller_stalled_over_20_points".into(), g("runs_with_a_caller_stalled_over_20_points"));
    let samples: Vec<String> = tot.samples.iter().take(4).map(|s| jstr(s)).collect();
    let assumptions = [
        "rust_cp is compiled from the working tree unmodified, with std's atomics, locks, threads and clocks replaced by simulated ones; every other part of std is real",
        "the memory model never shows an execution the language forbids; it treats SeqCst slightly more strongly than the language does",
        "user code handed to the library obeys its documented contract (monoid laws, total orders, monotone predicates) except where it unwinds",
    ];
    let text = format!(
        "{{\n \"property\": {id}, \"tier\": {tier}, \"seed\": {seed}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {dist},\n  \"rule\": {rule},\n  \"samples\": [{samples}],\n  \"planned_runs\": {planned},\n  \"nontrivial_runs\": {nontriv},\n  \"distinct_interleavings\": {inter},\n  \"interleaving_measure\": \"hash of the sequence (kind of scheduling point, thread chosen) of a run\",\n  \"plain_accesses_checked_for_races\": {probed},\n  \"runs_per_hour\": {rph},\n  \"simulated_scheduling_points\": {steps},\n  \"most_scheduling_points_in_one_run\": {most},\n  \"scheduling_points_allowed_per_run\": {allowed},\n  \"simulated_time\": \"one tick per scheduling point\",\n  \"operations_executed\": {nops},\n  \"operations_planned\": {ops},\n  \"faults_planned\": {fplanned},\n  \"faults_and_disturbances\": {faults},\n  \"scheduling_points_by_kind\": {points},\n  \"switches_by_kind\": {switches},\n  \"multi_caller_runs\": {multi},\n  \"runs_repeated_to_test_determinism\": {redone},\n  \"repeated_runs_that_differed\": {rediff},\n  \"violations_that_did_not_repeat\": {unconf},\n  \"known_finding_hits\": {kh},\n  \"known_findings\": [{kn}],\n  \"workers_stopped_by_clock\": {clock},\n  \"builds\": [\"checked (opt-level 2, debug assertions, overflow checks): even run indices\", \"optimised (opt-level 3): odd run indices\"{third}],\n  \"real_components\": [\"rust_cp, all of it\", \"core, alloc and the rest of std\", \"the allocator\"],\n  \"stub_components\": [\"std atomics, Mutex, RwLock, Condvar, Once*, LazyLock, thread::spawn, sleep, Instant as seen by rust_cp\", \"caller threads (one runs at a time)\", \"user code handed to the library\", \"input streams\"]\n }},\n \"assumptions\": [{assume}],\n \"wall_s\": {wall:.3},\n \"violations\": {viol}\n}}\n",
        id = jstr(id),
        tier = jstr(tier),
        runs = g("runs"),
        dist = tot.hashes.len(),
        rule = jstr("a run is a seeded random workload (structures, operations per caller, arguments, faults) under a seeded schedule; non-trivial: at least 3 operations and (more than one switch between threads, or user code unwound inside a call); distinct: different hash of (interleaving, results observed)"),
        samples = samples.join(", "),
        nontriv = g("nontrivial"),
        inter = tot.inter.len(),
        rph = (g("runs") as f64 / wall.max(0.001) * 3600.0) as u64,
        steps = g("steps"),
        most = tot.most,
        third = if PROBED.contains(&id) { ", \"probed (as checked, every plain memory access of rust_cp outside the own stack is checked for races and may be a scheduling point): run indices 3 and 6 of every 8 instead\"" } else { "" },
        probed = g("plain_accesses_probed"),
        allowed = crate::engine::MAX_STEPS,
        nops = g("stat:ops"),
        ops = jmap(&strip("op:")),
        fplanned = g("faults_planned"),
        faults = jmap(&faults),
        points = jmap(&strip("points_at_")),
        switches = jmap(&strip("switches_at_")),
        multi = g("multi_caller_runs"),
        redone = g("redone"),
        rediff = g("redone_differently"),
        unconf = unconfirmed,
        kh = g("known_violations"),
        kn = known.iter().map(|k| jstr(&k.text)).collect::<Vec<_>>().join(", "),
        clock = g("stopped_by_clock"),
        assume = assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        viol = viol as u64,
    );
    let dir = format!("{}/evidence", verif());
    std::fs::create_dir_all(&dir).expect("creating the evidence directory");
    std::fs::write(format!("{}/{}.json", dir, id), text).expect("writing evidence");
}
