//! A run's plan: parameters, the operations of each caller with their faults, and the schedule.
use simrt::{Policy, Rng, Schedule};
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub code: u8,
    pub a: Vec<i64>,
    /// Unwind at the n-th (1-based) invocation of user code of this kind during the operation.
    pub fault: Option<(u8, u32)>,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub params: Vec<i64>,
    pub threads: Vec<Vec<Op>>,
    pub sched: Schedule,
    /// Seed and gap of the preemptions at plain memory accesses (probed builds only).
    pub probe: Option<(u64, u64)>,
}

pub const KINDS: [&str; 11] = ["combine", "map", "compose", "predicate", "add", "compare", "clone", "parse", "body", "identity", "format"];

/// Kinds of user code the library calls back.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum K {
    Combine = 0,
    Map = 1,
    Compose = 2,
    Pred = 3,
    Add = 4,
    Cmp = 5,
    #[allow(dead_code)]
    CloneE = 6,
    Parse = 7,
    Body = 8,
    Identity = 9,
    Format = 10,
}
/// Not an unwinding: any user code, at its n-th invocation (low 8 bits), uses the library itself
/// (a small plan seeded by the other bits).
pub const NESTED: u8 = 31;
fn fault_name(k: u8) -> &'static str {
    KINDS.get(k as usize).copied().unwrap_or("nested")
}

pub struct Scenario {
    pub id: &'static str,
    pub ops: &'static [&'static str],
    pub gen: fn(&mut Rng) -> Plan,
    pub exec: fn(&Plan),
}

impl Op {
    pub fn new(code: u8, a: Vec<i64>) -> Op {
        Op { code, a, fault: None }
    }
    pub fn arg(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    /// Argument `i` mapped into `0..n` (`n > 0`).
    pub fn idx(&self, i: usize, n: usize) -> usize {
        self.arg(i).rem_euclid(n as i64) as usize
    }
}

pub fn gen_sched(rng: &mut Rng) -> Schedule {
    let policy = match rng.below(10) {
        0 => Policy::RoundRobin,
        1..=3 => Policy::Pct { changes: 1 + rng.below(4), span: 8 << rng.below(8) },
        _ => Policy::Random { num: *rng.pick(&[4, 20, 60, 150, 400, 700]) },
    };
    let stale_num = *rng.pick(&[0, 50, 300]);
    Schedule::Seeded { seed: rng.next(), policy, stale_num }
}

impl Plan {
    pub fn nops(&self) -> usize {
        self.threads.iter().map(|t| t.len()).sum()
    }
    pub fn nfaults(&self) -> usize {
        self.threads.iter().flatten().filter(|o| o.fault.is_some()).count()
    }
    pub fn param(&self, i: usize) -> i64 {
        self.params.get(i).copied().unwrap_or(0)
    }

    pub fn to_text(&self, sc: &Scenario) -> String {
        let mut s = String::new();
        let j = |v: &[i64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        writeln!(s, "params {}", j(&self.params)).unwrap();
        for t in &self.threads {
            writeln!(s, "thread").unwrap();
            for o in t {
                write!(s, "op {} {}", sc.ops[o.code as usize], j(&o.a)).unwrap();
                if let Some((k, n)) = o.fault {
                    write!(s, " ! {} {}", fault_name(k), n).unwrap();
                }
                s.push('\n');
            }
        }
        if let Some((seed, gap)) = self.probe {
            writeln!(s, "probe {} {}", seed, gap).unwrap();
        }
        match &self.sched {
            Schedule::Explicit(m) => {
                write!(s, "schedule explicit").unwrap();
                for (k, v) in m {
                    write!(s, " {}:{}", k, v).unwrap();
                }
                s.push('\n');
            }
            Schedule::Seeded { seed, policy, stale_num } => {
                let p = match policy {
                    Policy::Random { num } => format!("random {} 0", num),
                    Policy::Pct { changes, span } => format!("pct {} {}", changes, span),
                    Policy::RoundRobin => "rr 0 0".to_string(),
                };
                writeln!(s, "schedule seeded {} {} {}", seed, p, stale_num).unwrap();
            }
        }
        s
    }

    pub fn from_text(text: &str, sc: &Scenario) -> Plan {
        let mut p = Plan { params: vec![], threads: vec![], sched: Schedule::Explicit(BTreeMap::new()), probe: None };
        for line in text.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            match w.first().copied() {
                Some("params") => p.params = w[1..].iter().map(|x| x.parse().expect("param")).collect(),
                Some("probe") => p.probe = Some((w[1].parse().expect("seed"), w[2].parse().expect("gap"))),
                Some("thread") => p.threads.push(vec![]),
                Some("op") => {
                    let code = sc.ops.iter().position(|n| *n == w[1]).expect("operation name") as u8;
                    let bang = w.iter().position(|x| *x == "!").unwrap_or(w.len());
                    let a = w[2..bang].iter().map(|x| x.parse().expect("argument")).collect();
                    let fault = if bang < w.len() {
                        let k = (0..=NESTED).find(|&k| fault_name(k) == w[bang + 1] && (k == NESTED || (k as usize) < KINDS.len())).expect("fault kind");
                        Some((k, w[bang + 2].parse().expect("count")))
                    } else {
                        None
                    };
                    p.threads.last_mut().expect("thread").push(Op { code, a, fault });
                }
                Some("schedule") => {
                    p.sched = if w[1] == "explicit" {
                        Schedule::Explicit(
                            w[2..]
                                .iter()
                                .map(|x| {
                                    let (a, b) = x.split_once(':').expect("decision");
                                    (a.parse().unwrap(), b.parse().unwrap())
                                })
                                .collect(),
                        )
                    } else {
                        let n = |i: usize| w[i].parse::<u64>().unwrap();
                        let policy = match w[3] {
                            "random" => Policy::Random { num: n(4) },
                            "pct" => Policy::Pct { changes: n(4), span: n(5) },
                            _ => Policy::RoundRobin,
                        };
                        Schedule::Seeded { seed: n(2), policy, stale_num: n(6) }
                    };
                }
                _ => {}
            }
        }
        p
    }
}
