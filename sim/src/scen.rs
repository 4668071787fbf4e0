//! A scenario: everything one simulated execution depends on.
use crate::core::{Env, Fault, Sched};
use crate::rng::{Rng, mix};
use glmdrv::{Data, ErrOut, FitMeta, Q, QArg, QOut};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MRef {
    /// model built by the setup task, shared by reference
    Shared(usize),
    /// model built by this task
    Own(usize),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Init {
    None,
    Abs(Vec<f64>),
    /// the result of the fit in `slot`, perturbed by relative magnitude `mag`
    FromFit { slot: usize, mag: f64, seed: u64 },
    /// history entry (fraction of the length) of the fit or error in `slot`
    FromHist { slot: usize, frac: f64 },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FSpec {
    pub max_iter: Option<usize>,
    pub tol: Option<f64>,
    pub l1: f64,
    pub l2: f64,
    pub init: Init,
}
impl FSpec {
    pub fn plain() -> FSpec {
        FSpec { max_iter: None, tol: None, l1: 0., l2: 0., init: Init::None }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Arg {
    AtResult,
    Zeros,
    /// the result perturbed at random, or a relative of that: `mode` varies the
    /// argument of the same seed in ways a careless cache key would not see
    Perturb {
        seed: u64,
        mag: f64,
        #[serde(default)]
        mode: u8,
    },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Build { ds: usize, slot: usize },
    DropModel { slot: usize },
    Fit { model: MRef, o: FSpec, slot: usize },
    DropFit { slot: usize },
    Query { slot: usize, q: Q, a: Arg },
    /// drop everything this client holds and weigh the heap
    Weigh,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub run: u64,
    pub note: String,
    pub data: Vec<Data>,
    pub setup: Vec<Op>,
    pub tasks: Vec<Vec<Op>>,
    pub faults: Vec<Fault>,
    pub sched: Sched,
    pub env: Env,
}
pub const NSLOT: usize = 16;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Built,
    BuildErr(ErrOut),
    Fit(FitMeta),
    FitErr(ErrOut),
    Q(QOut),
    Panic(String),
    Skipped,
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub task: usize,
    pub op: usize,
    pub out: Out,
    pub fired: u32,
    /// occurrences of each fault site during the call
    pub cnt: [u32; crate::core::NSITES],
    pub start: u64,
    pub end: u64,
    pub init: Option<Vec<f64>>,
}

/// the index of the intercept, if the builder calls leave one
pub fn has_intercept(d: &Data) -> bool {
    !d.calls.iter().any(|c| matches!(c, glmdrv::BCall::NoConst))
}
/// Numbers a replay file cannot hold, by a name it can.
pub const NAN_MARK: f64 = glmdrv::NAN_MARK;
pub const INF_MARK: f64 = -7.78e303;
pub const NINF_MARK: f64 = -7.79e303;
pub fn unmark(v: f64) -> f64 {
    match v {
        _ if v == NAN_MARK => f64::NAN,
        _ if v == INF_MARK => f64::INFINITY,
        _ if v == NINF_MARK => f64::NEG_INFINITY,
        _ => v,
    }
}
fn unmark_all(v: &mut [f64]) {
    for x in v {
        *x = unmark(*x);
    }
}
pub fn unmark_data(d: &Data) -> Data {
    let mut d = d.clone();
    unmark_all(&mut d.x);
    unmark_all(&mut d.y);
    for c in d.calls.iter_mut() {
        if let glmdrv::BCall::Offset(v) | glmdrv::BCall::VarW(v) = c {
            unmark_all(v);
        }
    }
    d
}
pub fn n_par(d: &Data) -> usize {
    d.p + has_intercept(d) as usize
}

pub fn resolve_arg(a: &Arg, q: Q, result: &[f64], d: &Data) -> QArg {
    let mut o = QArg::default();
    match q {
        Q::Predict => {
            // convex combinations of training rows stay inside the domain
            let (seed, mode) = match a {
                Arg::Perturb { seed, mode, .. } => (*seed, *mode),
                _ => (7, 0),
            };
            let neg = crate::refm::kind(d.fam).negdom();
            let mut r = Rng::new(mix(seed, 0x9ed1c7));
            let rows = if r.p(0.15) { 5 + r.below(6) } else { 1 + r.below(4) };
            let off = d.calls.iter().find_map(|c| match c {
                glmdrv::BCall::Offset(v) => Some(v),
                _ => None,
            });
            let mut po = vec![];
            for _ in 0..rows {
                let (i, j, t) = (r.below(d.n), r.below(d.n), r.f());
                for c in 0..d.p {
                    o.px.push(d.x[i * d.p + c] * t + d.x[j * d.p + c] * (1. - t));
                }
                if let Some(v) = off {
                    po.push(v[i % v.len()] * t + v[j % v.len()] * (1. - t));
                }
            }
            o.pn = rows;
            o.layout = d.layout;
            if off.is_some() {
                o.poff = Some(po);
            }
            let p = d.p;
            match mode {
                1 => {
                    o.px = (0..rows).rev().flat_map(|i| o.px[i * p..(i + 1) * p].to_vec()).collect();
                    if let Some(v) = &mut o.poff {
                        v.reverse();
                    }
                }
                2 if p > 0 => {
                    let (i, c) = (rows / 2, p / 2);
                    let t = if neg { 0.02 } else { 0.7 };
                    let k = r.below(d.n);
                    o.px[i * p + c] += t * (d.x[k * p + c] - o.px[i * p + c]);
                }
                3 if !neg => {
                    o.poff = match &o.poff {
                        Some(_) => None,
                        None => Some((0..rows).map(|_| r.range(-0.5, 0.5)).collect()),
                    }
                }
                4 => {
                    if let Some(v) = &mut o.poff {
                        let k = rows / 2;
                        v[k] *= 0.99;
                    }
                }
                5 => o.layout = *r.pick(&glmdrv::LAYOUTS),
                _ => {}
            }
        }
        Q::Fisher | Q::Score | Q::LrAgainst | Q::ScoreAgainst | Q::WaldAgainst => {
            o.layout = d.vlayout.unwrap_or(d.layout);
            o.par = match a {
                Arg::AtResult => result.to_vec(),
                Arg::Zeros => vec![0.; result.len()],
                Arg::Perturb { seed, mag, mode } => {
                    let v = perturb(result, *seed, *mag);
                    let n = v.len();
                    let dv: Vec<f64> = v.iter().zip(result).map(|(a, b)| a - b).collect();
                    let add = |k: &dyn Fn(usize) -> f64| (0..n).map(|i| result[i] + k(i)).collect();
                    match mode {
                        1 => add(&|i| dv[(i + 1) % n]),
                        2 => add(&|i| if i == *seed as usize % n { dv[i] } else { 0. }),
                        3 => add(&|i| -dv[i]),
                        4 => add(&|i| dv[i] * 1e-3),
                        5 if n > 1 => {
                            let mut w = v.clone();
                            w.swap(0, 1 + *seed as usize % (n - 1));
                            // not where the model makes no sense
                            let k = crate::refm::kind(d.fam);
                            let q = crate::refm::Prob::new(d, 0., 0.);
                            let tame = k == crate::refm::K::Lin || q.lp(&w).iter().all(|x| x.abs() < 6.);
                            if tame && !k.negdom() { w } else { add(&|i| dv[n - 1 - i]) }
                        }
                        _ => v,
                    }
                }
            };
        }
        _ => {}
    }
    o
}
pub fn perturb(v: &[f64], seed: u64, mag: f64) -> Vec<f64> {
    let mut r = Rng::new(mix(seed, 0x5eed));
    v.iter().map(|x| x * (1. + mag * r.range(-1., 1.)) + mag * 0.1 * r.range(-1., 1.)).collect()
}
