//! glmsim: deterministic simulation of client sessions against ndarray-glm.
#![allow(dead_code)]
//!
//!   glmsim check <property> <quick|thorough> <seed>
//!   glmsim replay <file>
//!   glmsim runs <property> <seed> <first> <count>      (debugging)
//!   glmsim show <property> <seed> <run>                (debugging)
//!   glmsim determinism <seed> <count>                  (self test)
mod cmp;
#[allow(unknown_lints, suspicious_runtime_symbol_definitions)]
mod core;
mod evid;
mod exec;
mod gen_;
mod props;
mod refm;
mod rng;
mod scen;
mod shrink;

use props::{Ctx, Def, Fail};
use scen::Scenario;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

#[global_allocator]
static A: core::SimAlloc = core::SimAlloc;

pub const WORKERS: usize = 8;

/// Everything one worker has to say at the end of a batch.
#[derive(Default, serde::Serialize, serde::Deserialize)]
pub struct Report {
    pub runs: u64,
    pub nontrivial: u64,
    pub scen_hashes: Vec<u64>,
    pub execs: u64,
    pub steps: u64,
    pub traces: Vec<u64>,
    pub compared: u64,
    pub fired: u64,
    pub faulty_runs: u64,
    pub rechecked: u64,
    pub diverged: Vec<u64>,
    pub found: Vec<(u64, String)>,
    pub harness: Vec<(u64, String)>,
    pub samples: Vec<String>,
    pub clients: [u64; 5],
    pub ops: u64,
    pub families: std::collections::BTreeMap<String, u64>,
    pub late: bool,
}

/// One simulated run: generated from (property, seed, run) and judged.
pub fn one(d: &Def, seed: u64, run: u64, c: &mut Ctx) -> (Option<Scenario>, Result<bool, Fail>) {
    match props::generate(d, seed, run, c) {
        Ok(s) => {
            let r = (d.check)(&s, c);
            (Some(s), r)
        }
        Err(e) => (None, Err(e)),
    }
}

fn worker(d: &Def, seed: u64, w: usize, n: u64, deadline: Instant) -> Report {
    let mut rep = Report::default();
    let stop = &core::shm_block(0).stop_at;
    core::shm_select(w + 1);
    let mut all = Ctx::default();
    let mut seen = std::collections::HashSet::new();
    let mut run = w as u64;
    // debugging: name the runs that take longest
    let slow: Option<f64> = std::env::var("GLMSIM_SLOW").ok().and_then(|v| v.parse().ok());
    while run < n && run < stop.load(SeqCst) {
        if Instant::now() > deadline {
            rep.late = true;
            break;
        }
        let mut c = Ctx::default();
        let t = Instant::now();
        let (s, r) = one(d, seed, run, &mut c);
        if slow.is_some_and(|m| t.elapsed().as_secs_f64() > m) {
            eprintln!("slow run {run}: {:.1} s", t.elapsed().as_secs_f64());
        }
        rep.runs += 1;
        rep.execs += c.execs;
        rep.steps += c.steps;
        rep.compared += c.compared;
        rep.fired += c.fired;
        rep.faulty_runs += (c.fired > 0) as u64;
        if let Some(s) = &s {
            let k = s.tasks.iter().filter(|t| !t.is_empty()).count();
            rep.clients[k.min(4)] += 1;
            rep.ops += s.tasks.iter().map(|t| t.len() as u64).sum::<u64>() + s.setup.len() as u64;
            for x in &s.data {
                *rep.families.entry(format!("{:?}", x.fam)).or_default() += 1;
            }
        }
        match &r {
            Ok(nt) => {
                let s = s.as_ref().unwrap();
                if *nt {
                    rep.nontrivial += 1;
                    let mut k = s.clone();
                    k.run = 0;
                    let h = rng::hash_str(&serde_json::to_string(&k).unwrap());
                    if seen.insert(h) {
                        rep.scen_hashes.push(h);
                    }
                    if rep.samples.is_empty() && w < 3 {
                        rep.samples.push(evid::describe(s));
                    }
                }
            }
            Err(Fail::V(m)) => {
                rep.found.push((run, m.clone()));
                stop.fetch_min(run, SeqCst);
            }
            Err(Fail::H(m)) => rep.harness.push((run, m.clone())),
        }
        // prove determinism on a sample of the batch itself
        if (run / WORKERS as u64) % 23 == 7 && r.is_ok() {
            let mut c2 = Ctx::default();
            let (s2, r2) = one(d, seed, run, &mut c2);
            rep.rechecked += 1;
            if s2 != s || r2.is_err() || c2.digest != c.digest || c2.trace != c.trace {
                rep.diverged.push(run);
            }
        }
        all.hashes.extend(c.hashes);
        run += WORKERS as u64;
    }
    rep.traces = all.hashes.into_iter().collect();
    rep
}

/// Run a batch over forked workers.
pub fn batch(d: &Def, seed: u64, n: u64, budget: Duration) -> Vec<Report> {
    core::shm_block(0).stop_at.store(u64::MAX, SeqCst);
    let deadline = Instant::now() + budget;
    let mut kids = vec![];
    for w in 0..WORKERS {
        let mut p = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(p[0]);
                let rep = worker(d, seed, w, n, deadline);
                let b = serde_json::to_vec(&rep).unwrap();
                let mut k = 0;
                while k < b.len() {
                    let r = core::write(p[1], b.as_ptr().add(k), b.len() - k);
                    if r <= 0 {
                        libc::_exit(8);
                    }
                    k += r as usize;
                }
                libc::_exit(0);
            }
            libc::close(p[1]);
            kids.push((pid, p[0]));
        }
    }
    kids.into_iter()
        .map(|(pid, fd)| unsafe {
            let mut b = vec![];
            let mut tmp = [0u8; 65536];
            loop {
                let r = libc::read(fd, tmp.as_mut_ptr() as *mut _, tmp.len());
                if r < 0 {
                    continue;
                }
                if r == 0 {
                    break;
                }
                b.extend_from_slice(&tmp[..r as usize]);
            }
            libc::close(fd);
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            serde_json::from_slice(&b).unwrap_or_else(|_| Report {
                harness: vec![(u64::MAX, format!("worker ended with status {st}"))],
                ..Report::default()
            })
        })
        .collect()
}

fn check(id: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let Some(d) = props::def(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let quick = tier != "thorough";
    let env = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
    let n = env("GLMSIM_RUNS").unwrap_or(if quick { d.quick } else { d.thorough });
    let soft = env("GLMSIM_BUDGET").unwrap_or(if quick { 420 } else { 3 * 3600 });
    println!("glmsim property={id} tier={tier} seed={seed} runs={n} workers={WORKERS}");
    let reps = batch(d, seed, n, Duration::from_secs(soft));
    let search_s = t0.elapsed().as_secs_f64();
    let known = evid::known(id);
    let mut found: Vec<(u64, String)> = reps.iter().flat_map(|r| r.found.clone()).collect();
    found.sort();
    let harness: Vec<(u64, String)> = reps.iter().flat_map(|r| r.harness.clone()).collect();
    let mut code = 0;
    let mut replay = None;
    if let Some((run, msg)) = found.first() {
        println!("run {run}: {msg}");
        let sd = Instant::now() + Duration::from_secs(if quick { 60 } else { 300 });
        match shrink::minimise(d, seed, *run, sd) {
            Some(m) => {
                let known_hit = known.iter().find(|k| m.msg.contains(&k.needle));
                let path = evid::write_replay(id, tier, seed, *run, msg, &m);
                println!("minimised: {}", m.msg);
                if let Some(k) = known_hit {
                    println!("KNOWN-FINDING: property={id} {}", k.text);
                } else {
                    println!("VIOLATION property={id} replay={path}");
                    code = 1;
                }
                replay = Some((path, m.msg));
            }
            None => {
                eprintln!("the failure of run {run} does not reproduce: {msg}");
                code = 2;
            }
        }
    }
    for k in &known {
        if replay.as_ref().is_none_or(|r| !r.1.contains(&k.needle)) {
            println!("KNOWN-FINDING: property={id} {}", k.text);
        }
    }
    if code == 0 && !harness.is_empty() {
        for (r, m) in harness.iter().take(3) {
            eprintln!("harness error in run {r}: {m}");
        }
        code = 2;
    }
    let div: usize = reps.iter().map(|r| r.diverged.len()).sum();
    if div > 0 {
        eprintln!("warning: {div} runs were not repeated exactly");
    }
    evid::write(d, tier, seed, n, &reps, search_s, t0.elapsed().as_secs_f64(), replay, code);
    let runs: u64 = reps.iter().map(|r| r.runs).sum();
    let nt: u64 = reps.iter().map(|r| r.nontrivial).sum();
    println!("{id}: {runs} runs ({nt} non-trivial) in {search_s:.1} s, exit {code}");
    code
}

fn replay(path: &str) -> i32 {
    let Ok(b) = std::fs::read(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let Ok(f) = serde_json::from_slice::<evid::Replay>(&b) else {
        eprintln!("{path} is not a replay file");
        return 2;
    };
    let Some(d) = props::def(&f.property) else { return 2 };
    let mut c = Ctx::default();
    match (d.check)(&f.scenario, &mut c) {
        Err(Fail::V(m)) => {
            println!("{m}");
            println!("reproduced {}", if m == f.violation { "exactly" } else { "with a different message" });
            println!("digest {:016x}, recorded {}", c.digest, f.digest);
            println!("VIOLATION property={} replay={path}", f.property);
            1
        }
        Err(Fail::H(m)) => {
            eprintln!("harness error: {m}");
            2
        }
        Ok(_) => {
            println!("the property held on this scenario");
            0
        }
    }
}

/// Repeat whole batches and compare every digest.
fn determinism(seed: u64, n: u64) -> i32 {
    let mut bad = 0;
    for d in props::DEFS {
        for s in seed..seed + 4 {
            let r = (0..2)
                .map(|_| {
                    (0..n)
                        .map(|run| {
                            let mut c = Ctx::default();
                            let (s, r) = one(d, s, run, &mut c);
                            (serde_json::to_string(&s).unwrap(), format!("{r:?}"), c.digest, c.trace)
                        })
                        .collect::<Vec<_>>()
                })
                .collect::<Vec<_>>();
            let k = r[0].iter().zip(&r[1]).filter(|(a, b)| a != b).count();
            println!("{} seed {s}: {n} runs repeated, {k} differ", d.id);
            bad += k;
        }
    }
    (bad > 0) as i32
}

fn main() {
    core::settle();
    core::shm_init(WORKERS + 1);
    std::panic::set_hook(Box::new(|_| {}));
    core::warm_up();
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize, d: u64| a.get(i).and_then(|v| v.parse().ok()).unwrap_or(d);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() >= 5 => check(&a[2], &a[3], num(4, 1)),
        Some("replay") if a.len() >= 3 => replay(&a[2]),
        Some("determinism") => determinism(num(2, 1), num(3, 20)),
        Some("runs") if a.len() >= 6 => {
            let d = props::def(&a[2]).expect("property");
            let mut bad = 0;
            for run in num(4, 0)..num(4, 0) + num(5, 1) {
                let mut c = Ctx::default();
                let t0 = Instant::now();
                if let (s, Err(e)) = one(d, num(3, 1), run, &mut c) {
                    bad += 1;
                    println!("{run} {:?} {e:?}", s.map(|s| s.data[0].fam));
                }
                if std::env::var_os("GLMSIM_COST").is_some() {
                    println!("cost {run} {} {} {}", c.steps, c.execs, t0.elapsed().as_millis());
                }
            }
            println!("{bad} bad");
            (bad > 0) as i32
        }
        Some("show") if a.len() >= 5 => {
            let d = props::def(&a[2]).expect("property");
            let s = props::generate(d, num(3, 1), num(4, 0), &mut Ctx::default()).ok();
            if let Some(s) = &s {
                println!("{}", evid::describe(s));
                println!("{}", serde_json::to_string(s).unwrap());
            }
            0
        }
        _ => {
            eprintln!("usage: glmsim check <property> <quick|thorough> <seed> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
