//! Minimisation of a failing scenario: fewer clients, calls, faults,
//! disturbances and preemptions, as long as the same kind of violation remains.
use crate::core::{Env, FREE, Sched};
use crate::props::{Ctx, Def, Fail};
use crate::scen::*;
use std::time::Instant;

pub struct Min {
    pub scen: Scenario,
    pub msg: String,
    pub digest: u64,
    pub tried: u64,
    pub before: (usize, usize, usize),
}
/// the words of a message, without names of calls, numbers and values
fn class(m: &str) -> String {
    let m = match m.find(": ") {
        Some(k) if m.starts_with("client ") => &m[k + 2..],
        _ => m,
    };
    let w: Vec<&str> = m
        .split(|c: char| !c.is_ascii_alphabetic())
        .filter(|w| w.len() > 2 && *w != "NaN" && *w != "inf")
        .take(6)
        .collect();
    w.join(" ")
}
fn size(s: &Scenario) -> (usize, usize, usize) {
    let p = match &s.sched {
        Sched::Explicit(l) => l.len(),
        _ => 0,
    };
    (s.tasks.iter().map(|t| t.len()).sum::<usize>() + s.setup.len(), s.faults.len(), p)
}
struct Sh<'a> {
    d: &'a Def,
    class: String,
    until: Instant,
    best: Scenario,
    msg: String,
    trace: Vec<(u64, u8)>,
    digest: u64,
    tried: u64,
}
impl Sh<'_> {
    fn time(&self) -> bool {
        Instant::now() < self.until
    }
    fn test(&mut self, s: Scenario) -> bool {
        if !self.time() {
            return false;
        }
        self.tried += 1;
        let mut c = Ctx::default();
        if let Err(Fail::V(m)) = (self.d.check)(&s, &mut c)
            && class(&m) == self.class
        {
            self.best = s;
            self.msg = m;
            self.trace = c.trace;
            self.digest = c.digest;
            return true;
        }
        false
    }
    /// try a structural change, under the schedule as it is, serially, and
    /// under a few fresh random ones
    fn test_any(&mut self, s: Scenario) -> bool {
        if s.tasks.iter().filter(|t| !t.is_empty()).count() <= 1 || matches!(s.sched, Sched::Serial) {
            let mut k = s;
            if k.tasks.iter().filter(|t| !t.is_empty()).count() <= 1 {
                k.sched = Sched::Serial;
            }
            return self.test(k);
        }
        if self.test(s.clone()) {
            return true;
        }
        if let Sched::Edges { seed, frac, p, gap } = s.sched {
            for i in 1..4 {
                let mut k = s.clone();
                k.sched = Sched::Edges { seed: crate::rng::mix(seed, i) >> 1, frac, p, gap };
                if self.test(k) {
                    return true;
                }
            }
        }
        if let Sched::Random { seed, gap, major } = s.sched {
            for i in 1..4 {
                let mut k = s.clone();
                k.sched = Sched::Random { seed: crate::rng::mix(seed, i) >> 1, gap, major };
                if self.test(k) {
                    return true;
                }
            }
        }
        false
    }
    fn drop_op(&self, t: usize, i: usize) -> Scenario {
        let mut s = self.best.clone();
        s.tasks[t].remove(i);
        s.faults.retain(|f| f.task != t || f.op != i);
        for f in s.faults.iter_mut() {
            if f.task == t && f.op > i {
                f.op -= 1;
            }
        }
        s
    }
    fn drop_tail(&self, t: usize, i: usize) -> Scenario {
        let mut s = self.best.clone();
        s.tasks[t].truncate(i);
        s.faults.retain(|f| f.task != t || f.op < i);
        s
    }
    fn structure(&mut self) {
        let mut s = self.best.clone();
        s.sched = Sched::Serial;
        self.test(s);
        loop {
            let before = size(&self.best);
            // clients
            for t in (0..self.best.tasks.len()).rev() {
                if self.best.tasks[t].is_empty() {
                    continue;
                }
                let s = self.drop_tail(t, 0);
                self.test_any(s);
            }
            // tails, then single calls
            for t in 0..self.best.tasks.len() {
                let mut k = self.best.tasks[t].len() / 2;
                while k > 0 && self.time() {
                    let n = self.best.tasks[t].len();
                    if n > k {
                        let s = self.drop_tail(t, n - k);
                        if self.test_any(s) {
                            continue;
                        }
                    }
                    k /= 2;
                }
                let mut i = self.best.tasks[t].len();
                while i > 0 && self.time() {
                    i -= 1;
                    if i < self.best.tasks[t].len() {
                        let s = self.drop_op(t, i);
                        self.test_any(s);
                    }
                }
            }
            // faults
            let mut i = self.best.faults.len();
            while i > 0 && self.time() {
                i -= 1;
                let mut s = self.best.clone();
                s.faults.remove(i);
                if !self.test_any(s) && self.best.faults[i].count > 1 {
                    let mut s = self.best.clone();
                    s.faults[i].count = 1;
                    self.test_any(s);
                }
            }
            // setup
            let mut i = self.best.setup.len();
            while i > 0 && self.time() {
                i -= 1;
                let mut s = self.best.clone();
                s.setup.remove(i);
                self.test_any(s);
            }
            if size(&self.best) == before || !self.time() {
                break;
            }
        }
        let d = Env::default();
        let e = self.best.env.clone();
        for k in 0..6 {
            let mut s = self.best.clone();
            match k {
                0 => s.env.fill = d.fill,
                1 => s.env.reuse = d.reuse,
                2 => (s.env.clock, s.env.clock_base) = (d.clock, d.clock_base),
                3 => s.env.entropy = d.entropy,
                4 => s.env.hot = 0.,
                _ => (s.env.blas, s.env.blas_seed) = (d.blas, d.blas_seed),
            }
            if s.env != e {
                self.test_any(s);
            }
        }
    }
    /// drop data sets nothing refers to
    fn data(&mut self) {
        let mut s = self.best.clone();
        let mut used: Vec<usize> = s
            .setup
            .iter()
            .chain(s.tasks.iter().flatten())
            .filter_map(|o| if let Op::Build { ds, .. } = o { Some(*ds) } else { None })
            .collect();
        used.sort();
        used.dedup();
        if used.len() == s.data.len() || used.is_empty() {
            return;
        }
        s.data = used.iter().map(|i| s.data[*i].clone()).collect();
        for o in s.setup.iter_mut().chain(s.tasks.iter_mut().flatten()) {
            if let Op::Build { ds, .. } = o {
                *ds = used.iter().position(|u| u == ds).unwrap();
            }
        }
        self.test(s);
    }
    fn schedule(&mut self) {
        if !matches!(self.best.sched, Sched::Random { .. }) {
            return;
        }
        let mut s = self.best.clone();
        s.sched = Sched::Explicit(self.trace.clone());
        if !self.test(s) {
            return;
        }
        let Sched::Explicit(l) = &self.best.sched else { return };
        let mut chunk = l.len() / 2;
        while chunk > 0 && self.time() {
            let mut i = 0;
            loop {
                let Sched::Explicit(l) = &self.best.sched else { return };
                if i >= l.len() || !self.time() {
                    break;
                }
                let mut m = l.clone();
                let j = (i + chunk).min(m.len());
                m.drain(i..j);
                let mut s = self.best.clone();
                s.sched = Sched::Explicit(m);
                if !self.test(s) {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
        let _ = FREE;
    }
}
pub fn minimise(d: &Def, seed: u64, run: u64, until: Instant) -> Option<Min> {
    // the failure must happen again before anything else is believed
    for _ in 0..3 {
        let mut c = Ctx::default();
        let (s, r) = crate::one(d, seed, run, &mut c);
        let (Some(s), Err(Fail::V(msg))) = (s, r) else { continue };
        let mut c = Ctx::default();
        let Err(Fail::V(msg2)) = (d.check)(&s, &mut c) else { continue };
        let mut sh = Sh {
            d,
            class: class(&msg2),
            until,
            best: s.clone(),
            msg: msg2,
            trace: c.trace,
            digest: c.digest,
            tried: 0,
        };
        let _ = msg;
        let before = size(&s);
        sh.structure();
        sh.data();
        sh.schedule();
        return Some(Min { scen: sh.best, msg: sh.msg, digest: sh.digest, tried: sh.tried, before });
    }
    // a failure while the scenario was still being generated
    None
}
