//! Evidence files, replay files, known findings.
use crate::core::{self, FK_NAMES, NFK, Sched};
use crate::props::Def;
use crate::scen::*;
use crate::{Report, shrink};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::Ordering::SeqCst;

pub fn root() -> String {
    std::env::var("GLMSIM_ROOT").unwrap_or_else(|_| "/verif".into())
}
#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub tier: String,
    /// what the minimised scenario violates
    pub violation: String,
    /// what the run as generated violated
    pub first_violation: String,
    pub digest: String,
    pub summary: String,
    pub shrink_attempts: u64,
    pub how: String,
    pub scenario: Scenario,
}
pub fn write_replay(id: &str, tier: &str, seed: u64, run: u64, first: &str, m: &shrink::Min) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{seed}-{run}.json");
    let r = Replay {
        property: id.into(),
        seed,
        run,
        tier: tier.into(),
        violation: m.msg.clone(),
        first_violation: first.into(),
        digest: format!("{:016x}", m.digest),
        summary: format!(
            "{} (shrunk from {} calls and {} faults)",
            describe(&m.scen),
            m.before.0,
            m.before.1
        ),
        shrink_attempts: m.tried,
        how: format!("./check --replay {path}"),
        scenario: m.scen.clone(),
    };
    if let Err(e) = std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()) {
        eprintln!("cannot write {path}: {e}");
    }
    path
}
pub struct Known {
    pub needle: String,
    pub text: String,
}
/// Lines `known: property=<id> match=<text of the violation> ; <what fails>`.
pub fn known(id: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", root())) else { return vec![] };
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?.strip_prefix(&format!("property={id} match="))?;
            let (n, w) = l.split_once(" ; ")?;
            Some(Known { needle: n.into(), text: w.into() })
        })
        .collect()
}
fn short(o: &Op) -> String {
    match o {
        Op::Build { ds, slot } => format!("build d{ds}->m{slot}"),
        Op::DropModel { slot } => format!("drop m{slot}"),
        Op::DropFit { slot } => format!("drop f{slot}"),
        Op::Weigh => "drop all".into(),
        Op::Fit { model, o, slot } => {
            let m = match model {
                MRef::Shared(i) => format!("shared{i}"),
                MRef::Own(i) => format!("m{i}"),
            };
            let i = match &o.init {
                Init::None => String::new(),
                Init::Abs(_) => " from a given point".into(),
                Init::FromFit { slot, mag, .. } => format!(" from f{slot}~{mag}"),
                Init::FromHist { slot, frac } => format!(" from history({frac:.2}) of f{slot}"),
            };
            let k = o.max_iter.map_or(String::new(), |k| format!(" max {k}"));
            format!("fit {m}->f{slot} l1={:.3} l2={:.3}{k}{i}", o.l1, o.l2)
        }
        Op::Query { slot, q, .. } => format!("{q:?}(f{slot})"),
    }
}
pub fn describe(s: &Scenario) -> String {
    let d: Vec<String> = s
        .data
        .iter()
        .map(|d| {
            let c: Vec<&str> = d
                .calls
                .iter()
                .map(|c| match c {
                    glmdrv::BCall::Offset(_) => "offset",
                    glmdrv::BCall::VarW(_) => "var_w",
                    glmdrv::BCall::FreqW(_) => "freq_w",
                    glmdrv::BCall::NoConst => "no_const",
                    glmdrv::BCall::NoStd => "no_std",
                })
                .collect();
            format!("{:?} {}x{} [{}]", d.fam, d.n, d.p, c.join(","))
        })
        .collect();
    let ops = |l: &[Op]| l.iter().map(short).collect::<Vec<_>>().join(", ");
    let t: Vec<String> =
        s.tasks.iter().enumerate().map(|(i, l)| format!("client {i}: {}", ops(l))).collect();
    let f: Vec<String> = s
        .faults
        .iter()
        .map(|f| format!("client {} call {} {:?}#{}x{} {:?}", f.task, f.op, f.site, f.nth, f.count, f.act))
        .collect();
    let sc = match &s.sched {
        Sched::Serial => "serial".to_string(),
        Sched::Random { seed, gap, major } => format!("random(seed {seed}, gap {gap:.0}, major {major})"),
        Sched::Edges { seed, frac, p, gap } => {
            format!("edges(seed {seed}, fraction {frac:.4}, p {p:.2}, gap {gap:.0})")
        }
        Sched::Explicit(l) => format!("explicit({} switches: {:?})", l.len(), &l[..l.len().min(12)]),
    };
    let env = if s.env == crate::core::Env::default() { String::new() } else { format!("; env {:?}", s.env) };
    format!(
        "run {}; data {}; setup {}; {}; faults [{}]; schedule {sc}{env}",
        s.run,
        d.join(" | "),
        ops(&s.setup),
        t.join("; "),
        f.join(", ")
    )
}

#[allow(clippy::too_many_arguments)]
pub fn write(
    d: &Def,
    tier: &str,
    seed: u64,
    planned: u64,
    reps: &[Report],
    search_s: f64,
    wall: f64,
    replay: Option<(String, String)>,
    code: i32,
) {
    let sum = |f: fn(&Report) -> u64| reps.iter().map(f).sum::<u64>();
    let scen: HashSet<u64> = reps.iter().flat_map(|r| r.scen_hashes.iter().copied()).collect();
    let traces: HashSet<u64> = reps.iter().flat_map(|r| r.traces.iter().copied()).collect();
    let mut fk: BTreeMap<&str, u64> = BTreeMap::new();
    let mut cov = vec![0u8; 1 << 18];
    for w in 1..=crate::WORKERS {
        let b = core::shm_block(w);
        for k in 0..NFK {
            *fk.entry(FK_NAMES[k]).or_default() += b.fk[k].load(SeqCst);
        }
        for (a, b) in cov.iter_mut().zip(b.cov.iter()) {
            *a |= *b;
        }
    }
    let edges = cov.iter().filter(|c| **c != 0).count();
    let (fault, env): (BTreeMap<_, _>, BTreeMap<_, _>) = fk
        .into_iter()
        .partition(|(k, _)| (k.starts_with("lapack_f") || k.starts_with("link_") || k.starts_with("stderr_")) && !k.ends_with("callback") && !k.ends_with("_ok"));
    let mut fam: BTreeMap<String, u64> = BTreeMap::new();
    let mut clients = [0u64; 5];
    for r in reps {
        for (k, v) in &r.families {
            *fam.entry(k.clone()).or_default() += v;
        }
        for i in 0..5 {
            clients[i] += r.clients[i];
        }
    }
    let runs = sum(|r| r.runs);
    let samples: Vec<&String> = reps.iter().flat_map(|r| r.samples.iter()).take(3).collect();
    let per_h = |v: u64| (v as f64 / search_s.max(1e-3) * 3600.).round();
    let j = json!({
        "property": d.id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": scen.len(),
            "rule": d.rule,
            "samples": samples,
            "planned_runs": planned,
            "stopped_early_by_time_budget": reps.iter().any(|r| r.late),
            "simulated_executions": sum(|r| r.execs),
            "simulated_runs_per_hour": per_h(runs),
            "executions_per_hour": per_h(sum(|r| r.execs)),
            "seeds": format!("one batch seed ({seed}); run k draws everything from mix(property, seed, k), so each run has a seed of its own"),
            "seeds_per_hour": per_h(runs),
            "simulated_time": {
                "unit": "logical steps (basic blocks of the library plus seam calls); the library reads no clock, so there is no wall-like simulated time to report",
                "steps": sum(|r| r.steps),
            },
            "calls_by_clients": sum(|r| r.ops),
            "answers_compared": sum(|r| r.compared),
            "runs_by_number_of_clients": {"1": clients[1], "2": clients[2], "3": clients[3], "4+": clients[4]},
            "models_by_family": fam,
            "faults_fired_by_kind": fault,
            "seam_events": env,
            "faults_fired": sum(|r| r.fired),
            "runs_in_which_a_fault_fired": sum(|r| r.faulty_runs),
            "distinct_interleavings": {
                "measure": "hash of the sequence of (basic block or seam call, next client) over all context switches of an execution",
                "count": traces.len(),
            },
            "library_edges": {"hit": edges, "instrumented": core::n_guards(), "measure": "SanitizerCoverage edges of ndarray-glm and its monomorphised callers"},
            "determinism": {
                "runs_repeated": sum(|r| r.rechecked),
                "runs_that_differed": reps.iter().map(|r| r.diverged.len()).sum::<usize>(),
                "measure": "digest of every answer bit for bit, step counts and switch traces",
            },
            "components": {
                "real": ["ndarray-glm (all modules reached by the sessions), built from /repo", "ndarray, ndarray-linalg, lax, statrs", "OpenBLAS/LAPACK kernels (one thread)", "std threads, OnceCell, panics and unwinding"],
                "simulated": ["thread scheduling (one client at a time, switched at basic blocks, allocations, LAPACK/BLAS calls, link callbacks)", "global allocator", "clock, sleep, futex, sched_yield, getrandom, stderr writes", "order of BLAS reductions (only where env.blas says so)"],
                "stub": ["link functions of the Sim* families are defined by the harness and call back into the simulator"],
            },
            "violation": replay.as_ref().map(|r| json!({"replay": r.0, "message": r.1})),
            "exit": code,
        },
        "assumptions": [
            "sampling: the runs listed here, not all schedules and faults",
            "LAPACK failures are reported through info, as the interface documents; LAPACK and BLAS themselves are trusted",
            "the reference model (sim/src/refm.rs) is right about the documented definitions",
            "x86-64 Linux, one simulated process; weak memory orderings are not simulated",
        ],
        "wall_s": wall,
        "violations": (code == 1) as u32,
    });
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}.json", d.id);
    if let Err(e) = std::fs::write(&path, serde_json::to_vec_pretty(&j).unwrap()) {
        eprintln!("cannot write {path}: {e}");
    }
}
