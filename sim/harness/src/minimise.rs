//! Makes a failing run as small as it can and writes it down.
use crate::engine::{exec, Outcome};
use crate::plan::{Plan, Scenario};
use crate::{plan_of, profile, scenario};
use simrt::{mix, Policy, Schedule};
use std::collections::BTreeMap;
use std::time::Instant;

struct Min {
    sc: &'static Scenario,
    class: String,
    best: Plan,
    execs: u64,
    start: Instant,
    secs: u64,
}
impl Min {
    fn spent(&self) -> bool {
        self.execs > 3000 || self.start.elapsed().as_secs() > self.secs
    }
    fn hits(&mut self, p: &Plan) -> Option<Outcome> {
        self.execs += 1;
        let o = exec(self.sc, p, false);
        match &o.violation {
            Some((c, _)) if *c == self.class => Some(o),
            _ => None,
        }
    }
    /// Keeps `p` if it still fails the same way, under its own schedule, none, or a few fresh ones.
    fn attempt(&mut self, p: Plan) -> bool {
        if self.spent() {
            return false;
        }
        let mut tries = vec![p.clone()];
        let mut bare = p.clone();
        bare.sched = Schedule::Explicit(BTreeMap::new());
        if bare.sched != p.sched {
            tries.push(bare);
            for k in 0..3u64 {
                let mut q = p.clone();
                q.sched = Schedule::Seeded { seed: mix(self.execs, k), policy: Policy::Random { num: [100, 400, 30][k as usize] }, stale_num: 50 };
                tries.push(q);
            }
        }
        for mut q in tries {
            if let Some(o) = self.hits(&q) {
                q.sched = Schedule::Explicit(o.taken);
                self.best = q;
                return true;
            }
        }
        false
    }
    fn drop_ops(&mut self) {
        let mut chunk = self.best.nops().max(1);
        while chunk >= 1 {
            let mut at = 0;
            while at < self.best.nops() {
                let mut q = self.best.clone();
                let mut i = 0;
                for t in q.threads.iter_mut() {
                    t.retain(|_| {
                        i += 1;
                        i - 1 < at || i > at + chunk
                    });
                }
                if !self.attempt(q) {
                    at += chunk;
                }
                if self.spent() {
                    return;
                }
            }
            chunk /= 2;
        }
        let mut t = self.best.threads.len();
        while t > 1 {
            t -= 1;
            if self.best.threads[t].is_empty() {
                let mut q = self.best.clone();
                q.threads.remove(t);
                self.attempt(q);
            }
        }
    }
    fn each_op(&mut self, mut f: impl FnMut(&mut Self, usize, usize)) {
        for t in 0..self.best.threads.len() {
            for i in 0..self.best.threads[t].len() {
                if t < self.best.threads.len() && i < self.best.threads[t].len() {
                    f(self, t, i);
                }
            }
        }
    }
    fn probes(&mut self) {
        if let Some((seed, gap)) = self.best.probe {
            let mut q = self.best.clone();
            q.probe = None;
            if !self.attempt(q) && gap != 1 {
                let mut q = self.best.clone();
                q.probe = Some((seed, 1));
                self.attempt(q);
            }
        }
    }
    fn faults(&mut self) {
        self.each_op(|m, t, i| {
            if let Some((k, n)) = m.best.threads[t][i].fault {
                for f in [None, Some((k, 1)), Some((k, n / 2)), Some((k, n - 1))] {
                    if f != Some((k, n)) && f.map_or(true, |x| x.1 >= 1) {
                        let mut q = m.best.clone();
                        q.threads[t][i].fault = f;
                        if m.attempt(q) {
                            break;
                        }
                    }
                }
            }
        });
    }
    fn shrink(&mut self, x: i64, put: &dyn Fn(&mut Plan, i64)) {
        let mut x = x;
        for c in [0, 1] {
            if x != c {
                let mut q = self.best.clone();
                put(&mut q, c);
                if self.attempt(q) {
                    return;
                }
            }
        }
        while x.unsigned_abs() > 1 && !self.spent() {
            let mut ok = false;
            for y in [x / 16, x / 2, x - x.signum()] {
                let mut q = self.best.clone();
                put(&mut q, y);
                if self.attempt(q) {
                    x = y;
                    ok = true;
                    break;
                }
            }
            if !ok {
                break;
            }
        }
    }
    fn args(&mut self) {
        for i in 0..self.best.params.len() {
            let x = self.best.params[i];
            self.shrink(x, &|q, y| q.params[i] = y);
        }
        self.each_op(|m, t, i| {
            // Long lists: cut pieces out.
            let mut chunk = m.best.threads[t][i].a.len() / 2;
            while chunk >= 1 && m.best.threads[t][i].a.len() > 6 {
                let mut at = 0;
                while at + chunk <= m.best.threads[t][i].a.len() {
                    let mut q = m.best.clone();
                    q.threads[t][i].a.drain(at..at + chunk);
                    if !m.attempt(q) {
                        at += chunk;
                    }
                    if m.spent() {
                        return;
                    }
                }
                chunk /= 2;
            }
            for j in 0..m.best.threads[t][i].a.len() {
                let x = m.best.threads[t][i].a[j];
                m.shrink(x, &|q, y| q.threads[t][i].a[j] = y);
            }
        });
    }
    fn decisions(&mut self) {
        let all = |p: &Plan| match &p.sched {
            Schedule::Explicit(d) => d.clone(),
            _ => BTreeMap::new(),
        };
        let mut chunk = all(&self.best).len();
        while chunk >= 1 {
            let mut at = 0;
            loop {
                let d: Vec<(u64, u32)> = all(&self.best).into_iter().collect();
                if at >= d.len() || self.spent() {
                    break;
                }
                let keep = d.iter().enumerate().filter(|(i, _)| *i < at || *i >= at + chunk).map(|(_, x)| *x).collect();
                let mut q = self.best.clone();
                q.sched = Schedule::Explicit(keep);
                match self.hits(&q) {
                    Some(o) if o.taken.len() < d.len() => {
                        q.sched = Schedule::Explicit(o.taken);
                        self.best = q;
                    }
                    _ => at += chunk,
                }
            }
            chunk /= 2;
        }
    }
}

/// Confirms run `index`, minimises it and writes `path`.  Exit 0: done; 4: it does not fail when repeated.
pub fn main(id: &str, seed: u64, index: u64, path: &str, class: &str) -> i32 {
    let sc = scenario(id);
    let p = plan_of(sc, seed, index);
    let first = (0..5).map(|_| exec(sc, &p, false)).find(|o| matches!(&o.violation, Some((c, _)) if c == class));
    let Some(o) = first else { return 4 };
    let (ops0, dec0) = (p.nops(), o.taken.len());
    let mut q = p.clone();
    q.sched = Schedule::Explicit(o.taken.clone());
    // A run that dies outright leaves no decisions behind; keep its seeded schedule then.
    let slow = class == "no-progress";
    let mut m = Min { sc, class: class.to_string(), best: p.clone(), execs: 0, start: Instant::now(), secs: if slow { 60 } else { 45 } };
    if m.hits(&q).is_some() {
        m.best = q;
    }
    for _ in 0..4 {
        m.probes();
        let before = m.best.to_text(sc);
        m.faults();
        m.drop_ops();
        m.args();
        m.decisions();
        if m.spent() || m.best.to_text(sc) == before {
            break;
        }
    }
    let o = exec(sc, &m.best, false);
    let (class, msg) = o.violation.clone().unwrap_or((class.to_string(), "did not fail when run once more".into()));
    let dec1 = match &m.best.sched {
        Schedule::Explicit(d) => d.len().to_string(),
        _ => "seeded".into(),
    };
    let text = format!(
        "# Replay with: /verif/replay.sh {}\n# minimised in {} executions from {} operations and {} decisions to {} operations and {} decisions\nproperty {}\nprofile {}\nclass {}\nmessage {}\nhash {:x}\norigin seed {} index {}\n{}",
        path,
        m.execs,
        ops0,
        dec0,
        m.best.nops(),
        dec1,
        id,
        profile(),
        class,
        msg,
        o.hash,
        seed,
        index,
        m.best.to_text(sc)
    );
    std::fs::write(path, text).expect("writing the replay file");
    0
}
