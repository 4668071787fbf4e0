//! The properties: how scenarios are drawn and how an execution is judged.
//! Every judgement is a pure function of the scenario.
use crate::cmp::*;
use crate::core::{Act, Blas, Env, Fault, Fill, NSITES, Reuse, Sched, Site};
use crate::exec::{Exec, Status, execute_lim, q_is_result};
use crate::gen_::{self as g, Cfg};
use crate::refm::{K, Prob, kind};
use crate::rng::Rng;
use crate::scen::*;
use glmdrv::{ALL_Q, BCall, Data, Fam, FitMeta, LAYOUTS, Layout, Q, QOut};
use std::collections::{BTreeMap, HashSet};

#[derive(Debug, Clone)]
pub enum Fail {
    V(String),
    H(String),
}
pub type R<T = ()> = Result<T, Fail>;
fn bad<T>(m: String) -> R<T> {
    Err(Fail::V(m))
}
#[derive(Default)]
pub struct Ctx {
    pub execs: u64,
    pub steps: u64,
    pub hashes: HashSet<u64>,
    pub compared: u64,
    pub fired: u64,
    pub clients: u64,
    /// preemption trace of the scenario as given
    pub trace: Vec<(u64, u8)>,
    pub digest: u64,
}
impl Ctx {
    pub fn run(&mut self, s: &Scenario) -> R<Exec> {
        self.run_lim(s, lim(s))
    }
    pub fn run_lim(&mut self, s: &Scenario, lim: u64) -> R<Exec> {
        let mut e = execute_lim(s, lim);
        if matches!(e.status, Status::Harness(_) | Status::Timeout) {
            e = execute_lim(s, lim);
        }
        self.execs += 1;
        self.steps += e.steps;
        self.hashes.insert(e.hash);
        self.digest = crate::rng::mix(self.digest, e.digest());
        self.fired += e.recs.iter().map(|r| r.fired as u64).sum::<u64>();
        match &e.status {
            Status::Ok => Ok(e),
            Status::Harness(m) => Err(Fail::H(m.clone())),
            Status::Crash(9) => Err(Fail::H("simulated process killed".into())),
            Status::Crash(k) => bad(format!("the simulated process died of signal {k}")),
            Status::Deadlock => bad("deadlock: every unfinished client is blocked".into()),
            Status::StepLimit => bad(format!("no return within {lim} steps")),
            Status::Timeout => bad("a call did not return".into()),
        }
    }
    /// the scenario itself: its schedule is what a replay reproduces
    fn main(&mut self, s: &Scenario, lim: u64) -> R<Exec> {
        let e = self.run_lim(s, lim)?;
        self.trace = e.trace.clone();
        Ok(e)
    }
}
pub struct Def {
    pub id: &'static str,
    pub make: fn(&mut Rng, &mut Ctx) -> R<Scenario>,
    pub check: fn(&Scenario, &mut Ctx) -> R<bool>,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

// ------------------------------------------------------------------ helpers
/// Steps after which a session counts as stuck: every fit may use its full
/// iteration budget.
fn lim(s: &Scenario) -> u64 {
    // half-units of work: a fit is one, a refit-all query several
    let n = s.data.iter().map(|d| d.n * (1 + d.p / 8)).max().unwrap_or(0) as u64 / 80;
    let f: u64 = s
        .tasks
        .iter()
        .flatten()
        .map(|o| match o {
            Op::Fit { .. } => 1 + n,
            Op::Query { q: Q::LooExact, .. } => 4 + 4 * n * n,
            Op::Query { q: Q::PExact, .. } => 4 + 4 * n,
            _ => 0,
        })
        .sum();
    crate::exec::STEP_LIMIT * (1 + f / 2)
}
fn scen(data: Vec<Data>, setup: Vec<Op>, tasks: Vec<Vec<Op>>) -> Scenario {
    let mut s = Scenario {
        prop: String::new(),
        run: 0,
        note: String::new(),
        data,
        setup,
        tasks,
        faults: vec![],
        sched: Sched::Serial,
        env: Env::default(),
    };
    thin(&mut s);
    s
}
/// A refit for each of many observations, many times over, takes too long.
fn thin(s: &mut Scenario) {
    let cost = s.data.iter().map(|d| d.n * d.n * (d.p + 3)).max().unwrap_or(0);
    let ops = || s.setup.iter().chain(s.tasks.iter().flatten());
    let k = ops().filter(|o| matches!(o, Op::Query { q: Q::LooExact, .. })).count();
    if k * cost > 500_000 {
        for o in s.setup.iter_mut().chain(s.tasks.iter_mut().flatten()) {
            if let Op::Query { q, .. } = o
                && *q == Q::LooExact
            {
                *q = Q::Cooks;
            }
        }
    }
}
fn name(o: &Op) -> String {
    match o {
        Op::Query { q, slot, .. } => format!("query {q:?} on fit {slot}"),
        Op::Fit { slot, o, .. } => {
            format!("fit {slot} (max_iter {:?}, l1 {}, l2 {})", o.max_iter, o.l1, o.l2)
        }
        Op::Build { ds, slot } => format!("build of data {ds} into {slot}"),
        Op::DropModel { slot } => format!("drop of model {slot}"),
        Op::DropFit { slot } => format!("drop of fit {slot}"),
        Op::Weigh => "drop of everything".into(),
    }
}
fn at(s: &Scenario, t: usize, i: usize) -> String {
    format!("client {t} op {i}, {}", name(&s.tasks[t][i]))
}
fn query_of(o: &Op) -> Option<Q> {
    match o {
        Op::Query { q, .. } => Some(*q),
        _ => None,
    }
}
/// the earlier ops of a client that op `i` depends on, and `i` itself
pub fn slice(ops: &[Op], i: usize) -> Vec<usize> {
    fn need(ops: &[Op], i: usize, v: &mut Vec<usize>) {
        if v.contains(&i) {
            return;
        }
        v.push(i);
        let last_fit = |s: usize| {
            (0..i).rev().find(|k| matches!(&ops[*k], Op::Fit{slot,..} | Op::DropFit{slot} if *slot==s))
        };
        match &ops[i] {
            Op::Query { slot, .. } => {
                if let Some(k) = last_fit(*slot) {
                    need(ops, k, v);
                }
            }
            Op::Fit { model, o, .. } => {
                if let MRef::Own(m) = model
                    && let Some(k) = (0..i)
                        .rev()
                        .find(|k| matches!(&ops[*k], Op::Build{slot,..} | Op::DropModel{slot} if slot==m))
                {
                    need(ops, k, v);
                }
                if let Init::FromFit { slot, .. } | Init::FromHist { slot, .. } = &o.init
                    && let Some(k) = last_fit(*slot)
                {
                    need(ops, k, v);
                }
            }
            _ => {}
        }
    }
    let mut v = vec![];
    need(ops, i, &mut v);
    v.sort();
    v
}
/// op `i` of client `t` in a world of its own
fn alone(s: &Scenario, t: usize, i: usize) -> Scenario {
    let idx = slice(&s.tasks[t], i);
    let ops: Vec<Op> = idx.iter().map(|k| s.tasks[t][*k].clone()).collect();
    // keep only the shared models this slice uses
    let mut o = scen(s.data.clone(), s.setup.clone(), vec![ops]);
    o.prop = s.prop.clone();
    o.env.reuse = Reuse::Never;
    o
}
/// data set behind the fit op `i` of client `t`
fn data_of<'a>(s: &'a Scenario, t: usize, i: usize) -> Option<&'a Data> {
    let ops = &s.tasks[t];
    let Op::Fit { model, .. } = &ops[i] else { return None };
    let find = |l: &[Op], m: usize| {
        l.iter().rev().find_map(|o| match o {
            Op::Build { ds, slot } if *slot == m => Some(*ds),
            _ => None,
        })
    };
    let ds = match model {
        MRef::Shared(m) => find(&s.setup, *m)?,
        MRef::Own(m) => find(&ops[..i], *m)?,
    };
    Some(&s.data[ds])
}
/// the fit op whose result the query op `i` reads
fn fit_of(ops: &[Op], i: usize) -> Option<usize> {
    let Op::Query { slot, .. } = &ops[i] else { return None };
    (0..i).rev().find(|k| matches!(&ops[*k], Op::Fit{slot: s,..} if s==slot))
}
fn fopt(o: &Op) -> &FSpec {
    match o {
        Op::Fit { o, .. } => o,
        _ => unreachable!(),
    }
}
/// Is an error a fair answer to this fit?  ADMM takes undamped scoring steps,
/// which may diverge from a supplied start or with a non-canonical link; slow
/// problems may run out of iterations; and a start can be out of range.  All of
/// these are reported to the caller.
fn excused(q: &Prob, kind: &str, init: &Option<Vec<f64>>) -> bool {
    if q.l1 > 0. {
        return kind == "MaxIter" || init.is_some() || !q.k.canonical();
    }
    kind == "MaxIter" && q.slow() || init.as_ref().is_some_and(|b| q.far(b))
}
/// Judge everything one client saw against the reference model.
/// `need_ok`: calls on which no fault fired must succeed.
fn judge(s: &Scenario, t: usize, e: &Exec, c: &mut Ctx, need_ok: bool) -> R<u64> {
    let ops = &s.tasks[t];
    let mut n = 0;
    let mut metas: BTreeMap<usize, FitMeta> = BTreeMap::new();
    let mut tainted: HashSet<usize> = HashSet::new();
    for (i, o) in ops.iter().enumerate() {
        let Some(rec) = e.get(t, i) else { return bad(format!("{}: no answer", at(s, t, i))) };
        match o {
            Op::Build { ds, .. } if need_ok && rec.fired == 0 => {
                if rec.out != Out::Built {
                    return bad(format!("{}: {} (data {ds})", at(s, t, i), brief(&rec.out)));
                }
            }
            Op::Fit { o: f, .. } => {
                let Some(d) = data_of(s, t, i) else { continue };
                let q = Prob::new(d, f.l1, f.l2);
                if rec.fired > 0 {
                    tainted.insert(i);
                }
                match &rec.out {
                    Out::Fit(m) => {
                        let r = check_like(&q, m)
                            .and_then(|_| check_hist(&q, &m.hist))
                            .and_then(|_| if q.k.concave() && f.tol.is_none_or(|t| t < 1e-7) { check_opt(&q, &m.result) } else { Ok(()) });
                        if let Err(x) = r {
                            return bad(format!("{}: {x}", at(s, t, i)));
                        }
                        metas.insert(i, m.clone());
                        n += 1;
                    }
                    Out::FitErr(x) => {
                        let _ = check_hist(&q, &x.hist).or_else(|x| bad(format!("{}: {x}", at(s, t, i))))?;
                        if need_ok
                            && rec.fired == 0
                            && f.max_iter.is_none_or(|m| m > 50)
                            && f.l1 == 0.
                            && !excused(&q, &x.kind, &rec.init)
                        {
                            return bad(format!("{}: {}", at(s, t, i), brief(&rec.out)));
                        }
                    }
                    Out::Panic(_) if rec.fired == 0 => {
                        return bad(format!("{}: {}", at(s, t, i), brief(&rec.out)));
                    }
                    _ => {}
                }
            }
            Op::Query { q: qq, a, .. } => {
                let Some(k) = fit_of(ops, i) else { continue };
                let Some(m) = metas.get(&k) else { continue };
                let Some(d) = data_of(s, t, k) else { continue };
                // a callback that failed while the fit was being finished is part of that fit
                let dirty = tainted.contains(&k)
                    && s.faults.iter().any(|f| {
                        f.task == t && f.op == k && f.site != Site::Lapack && f.site != Site::Stderr
                    });
                if dirty {
                    continue;
                }
                let f = fopt(&ops[k]);
                let q = Prob::new(d, f.l1, f.l2);
                match check_query(&q, d, m, *qq, a, &rec.out) {
                    Ok(true) => {
                        n += 1;
                        c.compared += 1;
                    }
                    Ok(false) => {}
                    Err(x) => return bad(format!("{} ({:?}): {x}", at(s, t, i), d.fam)),
                }
                if need_ok && rec.fired == 0 {
                    match &rec.out {
                        Out::Q(QOut::Vals { .. } | QOut::Meta(_) | QOut::NotAvail) => {}
                        // nested refits may be infeasible or starved
                        Out::Q(QOut::Err(_)) if matches!(qq, Q::LooExact | Q::PExact) => {}
                        x => return bad(format!("{} ({:?}): {}", at(s, t, i), d.fam, brief(x))),
                    }
                }
            }
            _ => {}
        }
    }
    Ok(n)
}
/// a random fault on one of the ops of the probe execution
fn pick_fault(r: &mut Rng, e: &Exec, t: usize, ops: &[usize], sites: &[Site]) -> Option<(usize, Site, u32)> {
    let mut c = vec![];
    for i in ops {
        if let Some(rec) = e.get(t, *i) {
            for s in sites {
                let n = rec.cnt[*s as usize];
                if n > 0 {
                    c.push((*i, *s, n));
                }
            }
        }
    }
    if c.is_empty() {
        return None;
    }
    let (i, s, n) = *r.pick(&c);
    // early occurrences and the last one get extra weight
    let nth = match r.below(4) {
        0 => r.below((n as usize).min(3)) as u32,
        1 => n - 1,
        _ => r.below(n as usize) as u32,
    };
    Some((i, s, nth))
}
const LINKS: [Site; 4] = [Site::LinkFunc, Site::LinkInv, Site::LinkNat, Site::LinkDnat];
fn rand_sched(r: &mut Rng) -> Sched {
    if r.p(0.45) {
        return Sched::Edges {
            seed: r.u64() >> 1,
            frac: 10f64.powf(r.range(-3., -1.2)),
            p: r.range(0.2, 1.),
            gap: 10f64.powf(r.range(3., 7.)),
        };
    }
    Sched::Random {
        seed: r.u64() >> 1,
        gap: 10f64.powf(r.range(1.7, 4.8)),
        major: *r.pick(&[0., 0.001, 0.01, 0.05]),
    }
}
fn q_op(slot: usize, q: Q, r: &mut Rng, f: Fam) -> Op {
    Op::Query { slot, q, a: g::qarg(r, f) }
}
fn last_steps(e: &Exec) -> u64 {
    e.steps
}

// ---------------------------------------------------------------------- C01
/// Many clients that start up at the same moment: everything done once per data
/// set or once per fit happens in all of them at about the same time.
fn c01_storm(r: &mut Rng) -> R<Scenario> {
    let mut cfg = Cfg::all().size(14, 3);
    cfg.wide = 0.35;
    cfg.nostd = 0.1;
    cfg.long = 0.;
    cfg.huge = 0.;
    let (d0, odd) = g::data_any(r, &cfg, 0.05);
    let mut data = vec![d0];
    let mut tasks = vec![];
    let crowd = r.p(0.07);
    for t in 0..if crowd { r.int(10, 16) } else { r.int(3, 6) } {
        if t > 0 {
            let d = if r.p(0.85) { g::sibling_any(r, &data[0], odd) } else { g::data(r, &cfg) };
            data.push(d);
        }
        let f = data[t].fam;
        let mut ops = vec![Op::Build { ds: t, slot: 0 }];
        let mut o = if odd { g::fspec_any(r, f) } else { g::fspec(r, f, 0.05, 0.5) };
        if o.l1 > 0. {
            o.tol = Some(1e-6);
            o.max_iter = Some(100);
        }
        ops.push(Op::Fit { model: MRef::Own(0), o, slot: 0 });
        for q in g::queries(r, 2, 0.03) {
            ops.push(q_op(0, q, r, f));
        }
        tasks.push(ops);
    }
    let mut s = scen(data, vec![], tasks);
    s.env.reuse = *r.pick(&[Reuse::Lifo, Reuse::Fifo]);
    s.sched = rand_sched(r);
    s.env.hot = rand_hot(r);
    Ok(s)
}
fn rand_hot(r: &mut Rng) -> f64 {
    // the shipped code makes no such access, so this costs other schedules nothing
    if r.p(0.1) { 0. } else { 10f64.powf(r.range(-1.6, -0.02)) }
}
fn c01_make(r: &mut Rng, c: &mut Ctx) -> R<Scenario> {
    if r.p(0.25) {
        return c01_storm(r);
    }
    let mut cfg = Cfg::all().size(24, 3);
    cfg.wide = 0.12;
    let nsh = r.int(1, 2);
    let (d0, odd) = g::data_any(r, &cfg, 0.1);
    let mut data = vec![d0];
    if nsh == 2 {
        let s = if r.p(0.6) { g::sibling_any(r, &data[0], odd) } else { g::data(r, &cfg) };
        data.push(s);
    }
    let setup = (0..nsh).map(|i| Op::Build { ds: i, slot: i }).collect();
    let nt = r.int(2, 4);
    let mut tasks: Vec<Vec<Op>> = vec![];
    // clients that do the same thing at the same time, each to its own data
    let twins = r.p(0.4);
    for t in 0..nt {
        let mut ops: Vec<Op> = vec![];
        if twins && t > 0 {
            ops = tasks[0].clone();
            for o in ops.iter_mut() {
                if let Op::Build { ds, .. } = o {
                    let d = g::sibling_any(r, &data[*ds], odd);
                    data.push(d);
                    *ds = data.len() - 1;
                }
            }
            tasks.push(ops);
            continue;
        }
        let own = r.p(if twins { 0.8 } else { 0.45 });
        if own {
            let d = if r.p(0.5) { g::sibling_any(r, &data[0], odd) } else { g::data(r, &cfg) };
            data.push(d);
            ops.push(Op::Build { ds: data.len() - 1, slot: 0 });
        }
        let own_ds = data.len() - 1;
        for f in 0..r.int(1, 2) {
            let (model, ds) = if own && r.p(if twins { 0.8 } else { 0.4 }) {
                (MRef::Own(0), own_ds)
            } else {
                let k = r.below(nsh);
                (MRef::Shared(k), k)
            };
            let fam = data[ds].fam;
            let mut o = if odd || r.p(0.1) { g::fspec_any(r, fam) } else { g::fspec(r, fam, 0.12, 0.5) };
            if o.l1 > 0. && !odd {
                // no need to be precise: answers are compared with the same fit run alone
                o.tol = Some(1e-8);
                o.max_iter = Some(600);
            }
            if f > 0 && r.p(0.4) {
                // a restart that only makes sense on the same model
                if let Some(Op::Fit { model: m0, .. }) = ops.iter().find(|o| matches!(o, Op::Fit { .. }))
                    && *m0 == model
                    && !kind(fam).negdom()
                {
                    o.init = g::warm(r, 0.3);
                }
            }
            ops.push(Op::Fit { model, o, slot: f });
            for q in g::queries(r, r_int(2, 5, f), 0.12) {
                ops.push(q_op(f, q, r, fam));
            }
        }
        tasks.push(ops);
    }
    let mut s = scen(data, setup, tasks);
    s.env.reuse = *r.pick(&[Reuse::Lifo, Reuse::Lifo, Reuse::Fifo]);
    if r.p(0.3) {
        // something goes wrong, or takes forever, for one client
        let e = c.run(&s)?;
        let t = r.below(s.tasks.len());
        let all: Vec<usize> = (0..s.tasks[t].len()).collect();
        let links = e.recs.iter().any(|x| x.task == t && LINKS.iter().any(|l| x.cnt[*l as usize] > 0));
        let sites: &[Site] = if links { &LINKS } else { &[Site::Lapack] };
        if let Some((op, site, nth)) = pick_fault(r, &e, t, &all, sites) {
            let act = match site {
                Site::Lapack => Act::Fail,
                _ if r.p(0.6) => Act::Stall,
                _ if r.p(0.6) => Act::Panic,
                _ => Act::Nan,
            };
            s.faults.push(Fault { task: t, op, site, nth, count: 1, act });
        }
    }
    s.sched = rand_sched(r);
    s.env.hot = rand_hot(r);
    Ok(s)
}
fn r_int(a: usize, b: usize, k: usize) -> usize {
    if k == 0 { b } else { a }
}
fn c01_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let un = glmdrv::unshareable();
    if !un.is_empty() {
        return bad(format!("models cannot be shared between threads: {}", un.join("; ")));
    }
    let mut solo = vec![];
    let mut total = 0;
    for t in 0..s.tasks.len() {
        let mut o = s.clone();
        o.sched = Sched::Serial;
        o.env.hot = 0.;
        for k in 0..o.tasks.len() {
            if k != t {
                o.tasks[k].clear();
            }
        }
        let e = c.run(&o)?;
        total += last_steps(&e);
        solo.push(e);
    }
    let e = c.main(s, total * 4 + 20_000_000)?;
    for t in 0..s.tasks.len() {
        for i in 0..s.tasks[t].len() {
            let (Some(a), Some(b)) = (e.get(t, i), solo[t].get(t, i)) else {
                return bad(format!("{}: no answer", at(s, t, i)));
            };
            c.compared += 1;
            if let Err(x) = out_close(query_of(&s.tasks[t][i]), &a.out, &b.out, SAME) {
                return bad(format!("{}: interleaved vs alone: {x}", at(s, t, i)));
            }
        }
    }
    Ok(e.trace.len() >= s.tasks.len() && s.tasks.iter().filter(|t| !t.is_empty()).count() > 1)
}

// ---------------------------------------------------------------------- C02
/// Models come and go at the same place, asked much the same questions.
fn c02_guests(r: &mut Rng) -> Scenario {
    let mut cfg = Cfg::all().size(16, 3);
    if r.p(0.5) {
        (cfg.offset, cfg.varw, cfg.freqw) = (0.1, 0.1, 0.1);
    }
    let (d0, odd) = g::data_any(r, &cfg, 0.1);
    let f = d0.fam;
    let qs: Vec<Q> = loop {
        let v = g::queries(r, 4, 0.1);
        if v.iter().any(|q| nested(*q)) || r.p(0.5) {
            break v;
        }
    };
    let mut o = if odd { g::fspec_any(r, f) } else { g::fspec(r, f, 0.1, 0.4) };
    let mut data = vec![d0];
    let mut ops = vec![];
    let stays = r.p(0.4);
    for k in 0..r.int(3, 7) {
        if k > 0 {
            let from = data[r.below(data.len())].clone();
            data.push(if r.p(0.85) { g::sibling_any(r, &from, odd) } else { from });
        }
        let slot = if stays && k == 0 { 1 } else { 0 };
        ops.push(Op::Build { ds: k, slot });
        for _ in 0..r.int(1, 2) {
            if r.p(0.3) {
                o = if odd { g::fspec_any(r, f) } else { g::fspec(r, f, 0.1, 0.4) };
            }
            ops.push(Op::Fit { model: MRef::Own(slot), o: o.clone(), slot });
            for q in &qs {
                if r.p(0.8) {
                    ops.push(q_op(slot, *q, r, f));
                }
            }
        }
        if r.p(0.9) && slot == 0 {
            ops.push(Op::DropModel { slot });
        }
        if stays && k > 0 {
            ops.push(q_op(1, *r.pick(&qs), r, f));
        }
    }
    scen(data, vec![], vec![ops])
}
fn c02_make(r: &mut Rng, _: &mut Ctx) -> R<Scenario> {
    if r.p(0.25) {
        return Ok(c02_guests(r));
    }
    let cfg = Cfg::all().size(20, 3);
    let (d0, odd) = g::data_any(r, &cfg, 0.12);
    let mut data = vec![d0.clone(), g::sibling_any(r, &d0, odd)];
    let f0 = d0.fam;
    let mut ops = vec![Op::Build { ds: 0, slot: 0 }];
    let any = odd || r.p(0.1);
    let spec = |r: &mut Rng, l1: f64, l2: f64| if any { g::fspec_any(r, f0) } else { g::fspec(r, f0, l1, l2) };
    let o0 = spec(r, 0.15, 0.5);
    ops.push(Op::Fit { model: MRef::Own(0), o: o0.clone(), slot: 0 });
    let mut live = vec![(0usize, f0)];
    if r.p(0.6) {
        // a second fit on the same model, or on its sibling
        let m = r.below(2);
        if m == 1 {
            ops.push(Op::Build { ds: 1, slot: 1 });
        }
        let o = if r.p(0.5) { spec(r, 0.1, 0.6) } else { o0.clone() };
        ops.push(Op::Fit { model: MRef::Own(m), o, slot: 1 });
        live.push((1, f0));
    }
    let mut qs = g::queries(r, 4, 0.25);
    for _ in 0..r.int(10, 22) {
        match r.below(10) {
            0 => {
                // another model of the same shape comes and goes
                let k = if r.p(0.7) { 1 } else {
                    data.push(g::sibling_any(r, &d0, odd));
                    data.len() - 1
                };
                ops.push(Op::Build { ds: k, slot: 5 });
                let o = if r.p(0.6) { o0.clone() } else { spec(r, 0.05, 0.6) };
                ops.push(Op::Fit { model: MRef::Own(5), o, slot: 5 });
                let q = if r.p(0.7) { *r.pick(&qs) } else { *r.pick(ALL_Q) };
                if g::cheap(q) {
                    ops.push(q_op(5, q, r, f0));
                }
                if r.p(0.7) {
                    ops.push(Op::DropModel { slot: 5 });
                }
            }
            1 => {
                // the same fit made again in place of the old one
                let (sl, _) = *r.pick(&live);
                if sl == 0 {
                    let o = if r.p(0.5) { o0.clone() } else { spec(r, 0.05, 0.7) };
                    ops.push(Op::DropFit { slot: 0 });
                    ops.push(Op::Fit { model: MRef::Own(0), o, slot: 0 });
                }
            }
            2 | 3 => {
                let k = r.below(qs.len());
                let (sl, f) = *r.pick(&live);
                let mut op = q_op(sl, qs[k], r, f);
                // nearly the same question as before
                let old = ops.iter().rev().find_map(|o| match o {
                    Op::Query { slot, q, a } if *slot == sl && *q == qs[k] => Some(*a),
                    _ => None,
                });
                if let (Some(old), Op::Query { a, .. }, true) = (old, &mut op, r.p(0.7)) {
                    *a = g::kin(r, &old);
                }
                ops.push(op);
            }
            _ => {
                let (sl, f) = *r.pick(&live);
                let q = if r.p(0.25) {
                    *r.pick(&[Q::Predict, Q::Fisher, Q::Score, Q::LrAgainst, Q::ScoreAgainst, Q::WaldAgainst])
                } else {
                    loop {
                        let q = *r.pick(ALL_Q);
                        if g::cheap(q) || r.p(0.15) {
                            break q;
                        }
                    }
                };
                qs.push(q);
                ops.push(q_op(sl, q, r, f));
            }
        }
    }
    ops.push(Op::Query { slot: 0, q: Q::Meta, a: Arg::AtResult });
    Ok(scen(data, vec![], vec![ops]))
}
fn c02_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let mut memo: BTreeMap<String, Rec> = BTreeMap::new();
    let mut n = 0;
    for t in 0..s.tasks.len() {
        for i in 0..s.tasks[t].len() {
            if !matches!(s.tasks[t][i], Op::Query { .. } | Op::Fit { .. }) {
                continue;
            }
            let a = alone(s, t, i);
            let key = serde_json::to_string(&a.tasks).unwrap();
            let fresh = match memo.get(&key) {
                Some(x) => x.clone(),
                None => {
                    let x = c.run(&a)?;
                    let r = match x.get(0, a.tasks[0].len() - 1) {
                        Some(r) => r.clone(),
                        None => return bad(format!("{}: no answer", at(s, t, i))),
                    };
                    memo.insert(key, r.clone());
                    r
                }
            };
            let Some(got) = e.get(t, i) else { return bad(format!("{}: no answer", at(s, t, i))) };
            c.compared += 1;
            n += 1;
            if let Err(x) = out_close(query_of(&s.tasks[t][i]), &got.out, &fresh.out, SAME) {
                return bad(format!("{}: in this history vs on a fresh fit: {x}", at(s, t, i)));
            }
        }
    }
    Ok(n > 3)
}

// ---------------------------------------------------------------------- C03
fn c03_make(r: &mut Rng, c: &mut Ctx) -> R<Scenario> {
    let mut cfg = Cfg::all().size(20, 3);
    if r.p(0.6) {
        cfg.fams = g::SIM_FAMS.to_vec();
    }
    let (d, odd) = g::data_any(r, &cfg, 0.08);
    let f = d.fam;
    let o = if odd { g::fspec_any(r, f) } else { g::fspec(r, f, 0.12, 0.5) };
    let mut qs: Vec<Q> = g::queries(r, 6, 0.3);
    // queries that share cached intermediates
    for q in [Q::Covariance, Q::Hat, Q::Leverage, Q::Cooks, Q::InflCoef, Q::WaldZ, Q::LrTest, Q::NullLike] {
        if r.p(0.4) {
            let i = r.below(qs.len() + 1);
            qs.insert(i, q);
        }
    }
    let mut ops = vec![Op::Build { ds: 0, slot: 0 }, Op::Fit { model: MRef::Own(0), o: o.clone(), slot: 0 }];
    for q in &qs {
        ops.push(q_op(0, *q, r, f));
    }
    let k = ops.len();
    // the same calls again, shuffled, and a refit
    let mut again: Vec<Op> = ops[2..k].to_vec();
    g::shuffle(r, &mut again);
    ops.extend(again);
    let o2 = if r.p(0.5) { o.clone() } else { g::fspec(r, f, 0., 0.5) };
    ops.push(Op::Fit { model: MRef::Own(0), o: o2, slot: 1 });
    for q in g::queries(r, 4, 0.1) {
        ops.push(q_op(1, q, r, f));
    }
    let mut s = scen(vec![d], vec![], vec![ops]);
    if odd {
        s.note = "odd".into();
    }
    let e = c.run(&s)?;
    let cand: Vec<usize> = (1..k).collect();
    for _ in 0..r.int(1, 2) {
        let sites: &[Site] = if f.is_sim() && r.p(0.5) { &LINKS } else { &[Site::Lapack] };
        if let Some((op, site, nth)) = pick_fault(r, &e, 0, &cand, sites) {
            let act = if site == Site::Lapack { Act::Fail } else { Act::Panic };
            s.faults.push(Fault { task: 0, op, site, nth, count: r.int(1, 3) as u32, act });
        }
    }
    Ok(s)
}
fn c03_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let mut base = s.clone();
    base.faults.clear();
    let b = c.run(&base)?;
    let e = c.main(s, b.steps * 8 + 50_000_000)?;
    let ops = &s.tasks[0];
    let mut fired = false;
    let mut tainted: HashSet<usize> = HashSet::new();
    let mut failed: HashSet<usize> = HashSet::new();
    for (i, o) in ops.iter().enumerate() {
        let (Some(x), Some(y)) = (e.get(0, i), b.get(0, i)) else {
            return bad(format!("{}: no answer", at(s, 0, i)));
        };
        c.compared += 1;
        let q = query_of(o);
        let link = s.faults.iter().any(|f| f.op == i && f.act == Act::Panic);
        let src = fit_of(ops, i);
        let l1 = match o {
            Op::Fit { o, .. } => o.l1 > 0.,
            _ => src.is_some_and(|k| fopt(&ops[k]).l1 > 0.),
        };
        if let Some(k) = src
            && failed.contains(&k)
            && x.out == Out::Skipped
        {
            continue;
        }
        let loose = Tol { rel: if l1 { 1e-3 } else { 1e-5 }, path: false };
        if x.fired > 0 {
            fired = true;
            match (&x.out, o) {
                (Out::FitErr(_), Op::Fit { .. }) => {
                    failed.insert(i);
                }
                (Out::Panic(_), Op::Fit { .. }) if link => {
                    failed.insert(i);
                }
                (Out::Fit(m), Op::Fit { o, .. }) => {
                    tainted.insert(i);
                    if let Some(d) = data_of(s, 0, i)
                        && kind(d.fam).concave()
                        && s.note.is_empty()
                    {
                        let p = Prob::new(d, o.l1, o.l2);
                        if let Err(x) = check_opt(&p, &m.result).and_then(|_| check_like(&p, m)) {
                            return bad(format!("{}: despite the fault Ok was returned: {x}", at(s, 0, i)));
                        }
                    }
                }
                (Out::Q(QOut::Err(_)), Op::Query { .. }) => {}
                (Out::Panic(_), Op::Query { q, .. }) if link || !q_is_result(*q) => {}
                (_, Op::Query { .. }) => {
                    let after = src.is_some_and(|k| tainted.contains(&k));
                    if !s.note.is_empty() && (after || nested(q.unwrap())) {
                        continue;
                    }
                    let t = if after || nested(q.unwrap()) { loose } else { SAME };
                    if let Err(m) = out_close(q, &x.out, &y.out, t) {
                        return bad(format!("{}: a fault in this call changed its answer: {m}", at(s, 0, i)));
                    }
                }
                _ => {
                    if let Err(m) = out_close(q, &x.out, &y.out, SAME) {
                        return bad(format!("{}: a fault in this call changed its outcome: {m}", at(s, 0, i)));
                    }
                }
            }
            continue;
        }
        // a fit started from a tainted or failed one
        let t = if src.is_some_and(|k| tainted.contains(&k)) {
            if l1 || !s.note.is_empty() || matches!(q, Some(Q::Meta)) {
                continue;
            }
            loose
        } else {
            SAME
        };
        if let Err(m) = out_close(q, &x.out, &y.out, t) {
            return bad(format!("{}: after an earlier call had failed: {m}", at(s, 0, i)));
        }
    }
    Ok(fired)
}
fn nested(q: Q) -> bool {
    matches!(
        q,
        Q::NullLike | Q::LrTest | Q::ScoreTest | Q::WaldTest | Q::RSq | Q::PLr | Q::LooExact | Q::PExact
    )
}

// ---------------------------------------------------------------------- C04
fn c04_make(r: &mut Rng, _: &mut Ctx) -> R<Scenario> {
    let cfg = Cfg::all().concave();
    let d = g::data(r, &cfg);
    let mut o = g::fspec(r, d.fam, 0.3, 0.5);
    if r.p(0.25) && !kind(d.fam).negdom() {
        o.init = g::start(r, &d, 0.3);
    }
    let l1 = o.l1 > 0.;
    let mut ops = vec![Op::Build { ds: 0, slot: 0 }, Op::Fit { model: MRef::Own(0), o: o.clone(), slot: 0 }];
    for k in 1..=r.int(2, 4) {
        let b = if l1 && r.p(0.5) { r.int(5, 400) } else { r.int(0, 7) };
        let mut ob = o.clone();
        ob.max_iter = Some(b);
        ops.push(Op::Fit { model: MRef::Own(0), o: ob, slot: k });
        // resume, possibly interrupted again
        let mut from = k;
        for j in 0..r.int(1, 3) {
            let mut or = o.clone();
            or.init = Init::FromHist { slot: from, frac: if r.p(0.6) { 1. } else { r.f() } };
            let again = j < 2 && r.p(0.5);
            if again {
                or.max_iter = Some(r.int(0, 4));
            }
            let to = 5 + (k * 3 + j) % 10;
            ops.push(Op::Fit { model: MRef::Own(0), o: or, slot: to });
            from = to;
            if !again {
                break;
            }
        }
    }
    Ok(scen(vec![d], vec![], vec![ops]))
}
fn c04_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let d = &s.data[0];
    let Some(i0) = s.tasks[0].iter().position(|o| matches!(o, Op::Fit { .. })) else { return Ok(false) };
    let o0 = fopt(&s.tasks[0][i0]);
    let q = Prob::new(d, o0.l1, o0.l2);
    let full = match e.get(0, i0).map(|r| &r.out) {
        Some(Out::Fit(m)) => m.clone(),
        Some(Out::FitErr(x)) if excused(&q, &x.kind, &e.get(0, i0).and_then(|r| r.init.clone())) => return Ok(false),
        x => return bad(format!("{}: {:?}", at(s, 0, i0), x.map(brief))),
    };
    let mut hit = false;
    for (i, o) in s.tasks[0].iter().enumerate().skip(i0 + 1) {
        let Op::Fit { o, .. } = o else { continue };
        let Some(rec) = e.get(0, i) else { return bad(format!("{}: no answer", at(s, 0, i))) };
        let v = |m: String| bad(format!("{}: {m}", at(s, 0, i)));
        c.compared += 1;
        if rec.out == Out::Skipped {
            continue;
        }
        if let (Out::FitErr(x), Some(k)) = (&rec.out, o.max_iter)
            && x.kind == "MaxIter"
        {
            hit = true;
            if x.n_iter != Some(k) {
                return v(format!("MaxIter reports {:?} iterations for a budget of {k}", x.n_iter));
            }
            if x.hist.len() < k || x.hist.len() > k + 1 {
                return v(format!("MaxIter carries {} history entries for a budget of {k}", x.hist.len()));
            }
            if let Err(m) = check_hist(&q, &x.hist) {
                return v(format!("history of MaxIter is not in the scale of the data: {m}"));
            }
        }
        if o.init == o0.init {
            let k = o.max_iter.unwrap_or(usize::MAX);
            match &rec.out {
                Out::Fit(m) if full.n_iter <= k => {
                    let mut m = m.clone();
                    m.opts = full.opts.clone();
                    if let Err(x) = meta_close(&m, &full, SAME) {
                        return v(format!("budget {k} suffices but the fit differs from the unlimited one: {x}"));
                    }
                }
                Out::FitErr(x) if x.kind == "MaxIter" && full.n_iter > k => {
                    let n = x.hist.len();
                    if n > full.hist.len() {
                        return v(format!("{n} entries in the history but the unlimited fit takes {}", full.n_iter));
                    }
                    if let Err(m) = hist_close(&x.hist, &full.hist[..n], 1e-8) {
                        return v(format!("interrupted history is not a prefix of the unlimited one: {m}"));
                    }
                }
                x => return v(format!("budget {k}, unlimited fit takes {}: {}", full.n_iter, brief(x))),
            }
            continue;
        }
        match &rec.out {
            Out::Fit(m) => {
                if let Err(x) = check_opt(&q, &m.result).and_then(|_| check_like(&q, m)) {
                    return v(format!("resumed fit: {x}"));
                }
            }
            Out::FitErr(x) if x.kind == "MaxIter" && (o.max_iter.is_some_and(|k| k < 20000)) => {}
            // the solver's own budget can be too small for L1 from anywhere
            Out::FitErr(x) if excused(&q, &x.kind, &rec.init) => {}
            x => return v(format!("resumed fit: {}", brief(x))),
        }
    }
    Ok(hit)
}

// ---------------------------------------------------------------------- C05
fn c05_make(r: &mut Rng, c: &mut Ctx) -> R<Scenario> {
    let fams: Vec<Fam> = g::SIM_FAMS.iter().copied().filter(|f| kind(*f).concave()).collect();
    let d = g::data(r, &Cfg::all().fams(&fams));
    let mut o = g::fspec(r, d.fam, 0., 0.5);
    if r.p(0.6) {
        let m = 10f64.powf(r.range(-1.5, 0.));
        o.init = g::start(r, &d, m);
    }
    // from far away, Fisher scoring with this link advances by a constant
    if !kind(d.fam).canonical() {
        o.max_iter = Some(20000);
    }
    let ops = vec![Op::Build { ds: 0, slot: 0 }, Op::Fit { model: MRef::Own(0), o, slot: 0 }];
    let mut s = scen(vec![d], vec![], vec![ops]);
    let e = c.run(&s)?;
    let n = e.get(0, 1).map_or(1, |x| x.cnt[Site::LinkDnat as usize]).max(1);
    for _ in 0..r.int(1, 4) {
        let f = match r.below(5) {
            // step too long by 1/f
            0 | 1 => 10f64.powf(-r.range(0.2, 4.)),
            2 => 10f64.powf(r.range(0.2, 3.)),
            3 => -10f64.powf(-r.range(0., 1.5)),
            _ => -10f64.powf(r.range(0., 1.)),
        };
        let nth = if r.p(0.7) { r.below(3) } else { r.below(n as usize + 2) } as u32;
        s.faults.push(Fault {
            task: 0,
            op: 1,
            site: Site::LinkDnat,
            nth,
            count: r.int(1, 3) as u32,
            act: Act::Scale(f),
        });
    }
    Ok(s)
}
fn c05_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let d = &s.data[0];
    let mut fired = false;
    for (i, o) in s.tasks[0].iter().enumerate() {
        let Op::Fit { o, .. } = o else { continue };
        let Some(rec) = e.get(0, i) else { return bad(format!("{}: no answer", at(s, 0, i))) };
        let v = |m: String| bad(format!("{}: {m}", at(s, 0, i)));
        fired |= rec.fired > 0;
        let q = Prob::new(d, o.l1, o.l2);
        // steps computed after the last disturbed one
        let last = s.faults.iter().filter(|f| f.op == i).map(|f| f.nth + f.count).max().unwrap_or(0);
        let clean = rec.cnt[Site::LinkDnat as usize] > last;
        let m = match &rec.out {
            Out::Fit(m) => m,
            Out::FitErr(x) if !clean || excused(&q, &x.kind, &rec.init) => continue,
            // thrown where the likelihood overflows: no way back, and reported
            Out::FitErr(x) if x.kind == "BadInput" && rec.fired > 0 && matches!(q.k, K::Pois | K::Bin12 | K::ExpLog) => continue,
            x => return v(brief(x)),
        };
        let start = rec.init.as_ref().map(|b| q.obj(b));
        let eps = |l: f64| like_tol(l, &q, &m.result) * 0.05;
        let mut prev = start;
        for (k, h) in m.hist.iter().enumerate() {
            let l = h.1;
            c.compared += 1;
            if let Some(p) = prev
                && p.is_finite()
                && !(l >= p - eps(p))
            {
                return v(format!("step {k} was accepted although the likelihood fell from {p:.12e} to {l:.12e}"));
            }
            prev = Some(l);
        }
        if let Some(st) = start
            && !(m.like >= st - eps(st))
        {
            return v(format!("the result {:.12e} is worse than the start {st:.12e}", m.like));
        }
        if let Err(x) = check_like(&q, m).and_then(|_| check_hist(&q, &m.hist)) {
            return v(x);
        }
        // without a penalty, a step that is only too long or too short points uphill, so the
        // search must find ground
        let uphill = o.l2 == 0. && s.faults.iter().all(|f| matches!(f.act, Act::Scale(x) if x > 0.));
        if (clean || uphill) && let Err(x) = check_opt(&q, &m.result) {
            return v(format!("no recovery after {} disturbed steps: {x}", rec.fired));
        }
    }
    Ok(fired)
}

// ---------------------------------------------------------------------- C06
fn c06_make(r: &mut Rng, c: &mut Ctx) -> R<Scenario> {
    let mut cfg = Cfg::all().concave();
    if r.p(0.7) {
        cfg.fams.retain(|f| f.is_sim());
    }
    let d = g::data(r, &cfg);
    let mut o = g::fspec(r, d.fam, 0.25, 0.5);
    if r.p(0.35) && !kind(d.fam).negdom() {
        let m = 10f64.powf(r.range(-1.5, 0.3));
        o.init = g::start(r, &d, m);
    }
    let ops = vec![
        Op::Build { ds: 0, slot: 0 },
        Op::Fit { model: MRef::Own(0), o: o.clone(), slot: 0 },
        Op::Fit { model: MRef::Own(0), o, slot: 1 },
    ];
    let mut s = scen(vec![d], vec![], vec![ops]);
    let e = c.run(&s)?;
    for _ in 0..r.int(1, 2) {
        let sites: &[Site] = if s.data[0].fam.is_sim() && r.p(0.75) { &LINKS } else { &[Site::Lapack] };
        if let Some((op, site, nth)) = pick_fault(r, &e, 0, &[1], sites) {
            let act = match site {
                Site::Lapack => Act::Fail,
                _ if r.p(0.6) => Act::Nan,
                _ => Act::Inf,
            };
            let count = if r.p(0.3) { 1000 } else { r.int(1, 3) as u32 };
            s.faults.push(Fault { task: 0, op, site, nth, count, act });
        }
    }
    Ok(s)
}
fn c06_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let d = &s.data[0];
    let mut fired = false;
    for (i, o) in s.tasks[0].iter().enumerate() {
        let Op::Fit { o, .. } = o else { continue };
        let Some(rec) = e.get(0, i) else { return bad(format!("{}: no answer", at(s, 0, i))) };
        let v = |m: String| bad(format!("{}: {m}", at(s, 0, i)));
        fired |= rec.fired > 0;
        c.compared += 1;
        let q = Prob::new(d, o.l1, o.l2);
        match &rec.out {
            Out::Fit(m) => {
                if let Err(x) = check_opt(&q, &m.result).and_then(|_| check_like(&q, m)) {
                    return v(format!("Ok was returned but {x}"));
                }
            }
            Out::Panic(_) => return v(brief(&rec.out)),
            Out::FitErr(x) => {
                if rec.fired == 0 && !excused(&q, &x.kind, &rec.init) && rec.init.is_none() {
                    return v(brief(&rec.out));
                }
            }
            _ => {}
        }
    }
    Ok(fired)
}

// ---------------------------------------------------------------------- C07
fn c07_make(r: &mut Rng, c: &mut Ctx) -> R<Scenario> {
    let mut cfg = Cfg::all().size(16, 3);
    cfg.fams.retain(|f| !kind(*f).negdom());
    let mut d = g::data(r, &cfg);
    let f = d.fam;
    let mut o = g::fspec(r, f, 0.1, 0.3);
    for k in 0..3 {
        if !r.p(0.5) && !(k == 2) {
            continue;
        }
        match r.below(3) {
            0 => {
                // negative penalties are warned about and ignored
                if r.p(0.5) {
                    o.l2 = -10f64.powf(r.range(-2., 0.));
                } else {
                    o.l1 = -10f64.powf(r.range(-2., 0.));
                    o.max_iter = None;
                    o.tol = None;
                }
            }
            1 => {
                // a constant column makes the starting problem singular
                let j = r.below(d.p);
                let z = if r.p(0.5) { 0. } else { 2.5 };
                for i in 0..d.n {
                    d.x[i * d.p + j] = z;
                }
                o.l2 = o.l2.abs().max(0.3);
            }
            _ => {
                // fewer observations than features
                let (n, p) = (r.int(2, 3), r.int(4, 6));
                let keep: Vec<usize> = (0..n).collect();
                d.y = keep.iter().map(|i| d.y[*i]).collect();
                d.x = (0..n * p).map(|_| r.normal()).collect();
                for cl in d.calls.iter_mut() {
                    match cl {
                        BCall::Offset(v) | BCall::VarW(v) => v.truncate(n),
                        BCall::FreqW(v) => v.truncate(n),
                        _ => {}
                    }
                }
                d.n = n;
                d.p = p;
                o.l2 = o.l2.abs().max(0.5);
                break;
            }
        }
    }
    let mut ops = vec![Op::Build { ds: 0, slot: 0 }, Op::Fit { model: MRef::Own(0), o, slot: 0 }];
    for q in g::queries(r, 5, 0.3) {
        ops.push(Op::Query { slot: 0, q, a: Arg::AtResult });
    }
    ops.push(Op::Fit { model: MRef::Own(0), o: g::fspec(r, f, 0., 1.), slot: 1 });
    let mut s = scen(vec![d], vec![], vec![ops]);
    let e = c.run(&s)?;
    let all: Vec<usize> = (0..s.tasks[0].len()).collect();
    for _ in 0..r.int(1, 3) {
        if let Some((op, site, nth)) = pick_fault(r, &e, 0, &all, &[Site::Stderr]) {
            let act = match r.below(6) {
                0 => Act::Errno(libc::EPIPE),
                1 => Act::Errno(libc::ENOSPC),
                2 => Act::Errno(libc::EIO),
                3 => Act::Errno(libc::EAGAIN),
                4 => Act::Errno(libc::EINTR),
                _ => Act::Short,
            };
            let count = match act {
                Act::Errno(libc::EINTR) => r.int(1, 5) as u32,
                Act::Short => r.int(1, 8) as u32,
                _ => if r.p(0.5) { 100_000 } else { r.int(1, 2) as u32 },
            };
            s.faults.push(Fault { task: 0, op, site, nth, count, act });
        }
    }
    Ok(s)
}
fn c07_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let mut base = s.clone();
    base.faults.clear();
    let b = c.run(&base)?;
    let e = c.main(s, b.steps * 4 + 20_000_000)?;
    let mut fired = false;
    for i in 0..s.tasks[0].len() {
        let (Some(x), Some(y)) = (e.get(0, i), b.get(0, i)) else {
            return bad(format!("{}: no answer", at(s, 0, i)));
        };
        fired |= x.fired > 0;
        c.compared += 1;
        if let Err(m) = out_close(query_of(&s.tasks[0][i]), &x.out, &y.out, SAME) {
            return bad(format!("{}: with failing diagnostics output vs without: {m}", at(s, 0, i)));
        }
    }
    Ok(fired)
}

// ---------------------------------------------------------------------- C08
fn c08_make(r: &mut Rng, c: &mut Ctx) -> R<Scenario> {
    let mut cfg = Cfg::all().size(18, 3);
    cfg.offset = 0.5;
    cfg.noconst = 0.3;
    if r.p(0.5) {
        cfg.fams.retain(|f| f.is_sim());
    }
    let d = g::data(r, &cfg);
    let f = d.fam;
    let mut o = g::fspec(r, f, 0.08, 0.5);
    let mut ops = vec![Op::Build { ds: 0, slot: 0 }, Op::Fit { model: MRef::Own(0), o: o.clone(), slot: 0 }];
    if r.p(0.35) {
        // a budget that suffices only because of the starting point
        o.max_iter = Some(r.int(1, 4));
        o.init = Init::FromFit { slot: 0, mag: 0., seed: 0 };
        ops.push(Op::Fit { model: MRef::Own(0), o: o.clone(), slot: 1 });
    } else {
        ops.push(Op::Fit { model: MRef::Own(0), o: o.clone(), slot: 1 });
    }
    let nest = [Q::LooExact, Q::PExact, Q::NullLike, Q::LrTest, Q::ScoreTest, Q::WaldTest, Q::PLr, Q::RSq];
    let mut cand = vec![];
    let mut body = vec![];
    for _ in 0..r.int(2, 5) {
        let q = *r.pick(&nest);
        body.push(q_op(1, q, r, f));
        if r.p(0.4) {
            let q = *r.pick(ALL_Q);
            body.push(q_op(1, q, r, f));
        }
    }
    for b in &body {
        if nested(query_of(b).unwrap()) {
            cand.push(ops.len());
        }
        ops.push(b.clone());
    }
    let mut again = body.clone();
    g::shuffle(r, &mut again);
    ops.extend(again);
    ops.push(Op::Query { slot: 1, q: Q::Covariance, a: Arg::AtResult });
    ops.push(Op::Query { slot: 1, q: Q::Meta, a: Arg::AtResult });
    let mut s = scen(vec![d], vec![], vec![ops]);
    if r.p(0.75) {
        let e = c.run(&s)?;
        for _ in 0..r.int(1, 2) {
            let sites: &[Site] = if f.is_sim() && r.p(0.5) { &LINKS } else { &[Site::Lapack] };
            if let Some((op, site, nth)) = pick_fault(r, &e, 0, &cand, sites) {
                let act = match site {
                    Site::Lapack => Act::Fail,
                    _ => Act::Panic,
                };
                s.faults.push(Fault { task: 0, op, site, nth, count: r.int(1, 3) as u32, act });
            }
        }
    }
    Ok(s)
}
fn c08_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let n = judge(s, 0, &e, c, false)?;
    // without a fault these never panic, and a repetition is answered alike
    let ops = &s.tasks[0];
    let mut fitfault = false;
    let mut first: BTreeMap<String, usize> = BTreeMap::new();
    for (i, o) in ops.iter().enumerate() {
        let Some(rec) = e.get(0, i) else { return bad(format!("{}: no answer", at(s, 0, i))) };
        if matches!(o, Op::Fit { .. }) && rec.fired > 0 {
            fitfault = true;
        }
        let Op::Query { q, .. } = o else { continue };
        if rec.fired == 0 {
            if let Out::Panic(m) = &rec.out {
                return bad(format!("{}: panic {m:?}", at(s, 0, i)));
            }
            let key = format!("{o:?}");
            if let Some(k) = first.get(&key) {
                c.compared += 1;
                if let Err(m) = out_close(Some(*q), &rec.out, &e.get(0, *k).unwrap().out, SAME) {
                    return bad(format!("{}: answered differently than in op {k}: {m}", at(s, 0, i)));
                }
            } else {
                first.insert(key, i);
            }
        } else if let Out::Panic(m) = &rec.out {
            let link = s.faults.iter().any(|f| f.op == i && f.act == Act::Panic);
            if !link && q_is_result(*q) {
                return bad(format!("{}: panic {m:?} instead of an error", at(s, 0, i)));
            }
        }
    }
    Ok(!fitfault && n > 0 && ops.iter().any(|o| query_of(o).is_some_and(nested)))
}

// ---------------------------------------------------------------------- C09
fn c09_make(r: &mut Rng, _: &mut Ctx) -> R<Scenario> {
    let d = g::data(r, &Cfg::all().concave());
    let f = d.fam;
    let o = g::fspec(r, f, 0.2, 0.5);
    let mut ops = vec![Op::Build { ds: 0, slot: 0 }, Op::Fit { model: MRef::Own(0), o: o.clone(), slot: 0 }];
    for q in g::queries(r, 6, 0.15) {
        ops.push(q_op(0, q, r, f));
    }
    let mut o2 = g::fspec(r, f, 0., 0.7);
    if o2.l1 == o.l1 && o2.l2 == o.l2 || r.p(0.5) {
        o2 = o.clone();
        o2.init = Init::FromFit { slot: 0, mag: 0., seed: 0 };
    }
    ops.push(Op::Fit { model: MRef::Own(0), o: o2, slot: 1 });
    let mut s = scen(vec![d], vec![], vec![ops]);
    s.env.blas = if r.p(0.5) { Blas::Reorder } else { Blas::ReorderJitter };
    s.env.blas_seed = r.u64() >> 1;
    Ok(s)
}
fn c09_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let n = judge(s, 0, &e, c, true)?;
    Ok(n > 2)
}

// ---------------------------------------------------------------------- C10
/// must this specification build?
pub fn should_build(d: &Data) -> bool {
    let (mut o, mut w, mut f) = (0, 0, 0);
    for c in &d.calls {
        match c {
            BCall::Offset(v) => {
                o += 1;
                if v.len() != d.n {
                    return false;
                }
            }
            BCall::VarW(v) => {
                w += 1;
                if v.len() != d.n {
                    return false;
                }
            }
            BCall::FreqW(v) => {
                f += 1;
                if v.len() != d.n {
                    return false;
                }
            }
            _ => {}
        }
    }
    if o > 1 || w > 1 || f > 1 || d.y.len() != d.n {
        return false;
    }
    let k = kind(d.fam);
    d.y.iter().all(|y| match k {
        K::Logit | K::Clog => (0. ..=1.).contains(y),
        _ if k.positive_y() => *y > 0.,
        _ => true,
    })
}
fn canon(d: &Data) -> Data {
    let mut s = d.clone();
    let rank = |c: &BCall| match c {
        BCall::Offset(_) => 0,
        BCall::VarW(_) => 1,
        BCall::FreqW(_) => 2,
        BCall::NoConst => 3,
        BCall::NoStd => 4,
    };
    s.calls.sort_by_key(rank);
    s.calls.dedup();
    s
}
fn misuse(r: &mut Rng, d: &Data) -> Data {
    let mut s = d.clone();
    let n = d.n;
    let fresh = |r: &mut Rng, k: usize| match k {
        0 => BCall::Offset((0..n).map(|_| 0.1 * r.normal()).collect()),
        1 => BCall::VarW((0..n).map(|_| r.range(0.5, 2.)).collect()),
        _ => BCall::FreqW((0..n).map(|_| r.int(1, 3)).collect()),
    };
    let same = |a: &BCall, k: usize| {
        matches!((a, k), (BCall::Offset(_), 0) | (BCall::VarW(_), 1) | (BCall::FreqW(_), 2))
    };
    match r.below(5) {
        0..=2 => {
            // the same thing specified again, anywhere
            let k = r.below(3);
            if !s.calls.iter().any(|c| same(c, k)) {
                let i = r.below(s.calls.len() + 1);
                let b = fresh(r, k);
                s.calls.insert(i, b);
            }
            for _ in 0..r.int(1, 2) {
                let b = if r.p(0.3) { s.calls.iter().find(|c| same(c, k)).unwrap().clone() } else { fresh(r, k) };
                let i = r.below(s.calls.len() + 1);
                s.calls.insert(i, b);
            }
        }
        3 => {
            // a wrong length
            let k = r.below(4);
            if k == 3 {
                if r.p(0.5) {
                    s.y.pop();
                } else {
                    let v = s.y[0];
                    s.y.push(v);
                }
            } else {
                s.calls.retain(|c| !same(c, k));
                let mut b = fresh(r, k);
                let m = *r.pick(&[0, 1, n - 1, n + 1, 2 * n]);
                match &mut b {
                    BCall::Offset(v) | BCall::VarW(v) => v.resize(m, 0.7),
                    BCall::FreqW(v) => v.resize(m, 1),
                    _ => {}
                }
                let i = r.below(s.calls.len() + 1);
                s.calls.insert(i, b);
            }
        }
        _ => {
            let k = kind(d.fam);
            let i = r.below(n);
            if matches!(k, K::Logit | K::Clog) {
                s.y[i] = *r.pick(&[-0.25, 1.5, -1., 2., -1e-12, 1. + 1e-12, -1e300, 1e300, NAN_MARK]);
            } else if k.positive_y() {
                s.y[i] = *r.pick(&[0., -0., -1., -1e-9, -1e-300, -1e300, NAN_MARK]);
            } else {
                s.y.pop();
            }
        }
    }
    s
}
fn c10_make(r: &mut Rng, _: &mut Ctx) -> R<Scenario> {
    let mut cfg = Cfg::all().size(16, 3);
    cfg.offset = 0.6;
    cfg.varw = 0.6;
    cfg.freqw = 0.6;
    cfg.noconst = 0.35;
    cfg.nostd = 0.4;
    let nt = r.int(1, 3);
    let mut data = vec![];
    let mut tasks = vec![];
    for _ in 0..nt {
        let d = g::data(r, &cfg);
        let fit = g::fspec(r, d.fam, 0.15, 0.6);
        let mut ops = vec![];
        let mut slot = 0;
        for _ in 0..r.int(2, 4) {
            if r.p(0.5) {
                let m = misuse(r, &d);
                data.push(m);
                ops.push(Op::Build { ds: data.len() - 1, slot: 7 });
            }
            let mut v = d.clone();
            g::shuffle(r, &mut v.calls);
            for _ in 0..r.below(3) {
                // switches may be repeated
                let sw: Vec<BCall> =
                    v.calls.iter().filter(|c| matches!(c, BCall::NoConst | BCall::NoStd)).cloned().collect();
                if !sw.is_empty() {
                    let b = r.pick(&sw).clone();
                    let i = r.below(v.calls.len() + 1);
                    v.calls.insert(i, b);
                }
            }
            data.push(v);
            ops.push(Op::Build { ds: data.len() - 1, slot });
            ops.push(Op::Fit { model: MRef::Own(slot), o: fit.clone(), slot });
            for q in g::queries(r, 3, 0.05) {
                ops.push(Op::Query { slot, q, a: Arg::AtResult });
            }
            slot += 1;
        }
        tasks.push(ops);
    }
    let mut s = scen(data, vec![], tasks);
    if nt > 1 {
        s.sched = rand_sched(r);
    }
    Ok(s)
}
fn c10_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let mut n = 0;
    let mut memo: BTreeMap<String, Rec> = BTreeMap::new();
    for t in 0..s.tasks.len() {
        for (i, o) in s.tasks[t].iter().enumerate() {
            let Some(rec) = e.get(t, i) else { return bad(format!("{}: no answer", at(s, t, i))) };
            c.compared += 1;
            if let Op::Build { ds, .. } = o {
                let d = &s.data[*ds];
                let want = should_build(d);
                let calls: Vec<String> = d
                    .calls
                    .iter()
                    .map(|c| match c {
                        BCall::Offset(v) => format!("offset[{}]", v.len()),
                        BCall::VarW(v) => format!("var_weights[{}]", v.len()),
                        BCall::FreqW(v) => format!("freq_weights[{}]", v.len()),
                        BCall::NoConst => "no_constant".into(),
                        BCall::NoStd => "no_standardize".into(),
                    })
                    .collect();
                match (&rec.out, want) {
                    (Out::Built, true) | (Out::BuildErr(_), false) => {}
                    (x, _) => {
                        return bad(format!(
                            "{}: builder calls {calls:?} on {} responses ({:?}): {} but {} is due",
                            at(s, t, i),
                            d.y.len(),
                            d.fam,
                            brief(x),
                            if want { "a model" } else { "an error" }
                        ));
                    }
                }
                n += 1;
                continue;
            }
            if rec.out == Out::Skipped {
                continue;
            }
            // same options in canonical order, built alone
            let mut a = alone(s, t, i);
            for o in &a.tasks[0] {
                if let Op::Build { ds, .. } = o {
                    a.data[*ds] = canon(&a.data[*ds]);
                }
            }
            let used: Vec<String> = a.tasks[0]
                .iter()
                .map(|o| match o {
                    Op::Build { ds, .. } => serde_json::to_string(&a.data[*ds]).unwrap(),
                    Op::Fit { o, .. } => format!("{o:?}"),
                    Op::Query { q, a, .. } => format!("{q:?}{a:?}"),
                    _ => String::new(),
                })
                .collect();
            let key = used.join("|");
            let fresh = match memo.get(&key) {
                Some(x) => x.clone(),
                None => {
                    let x = c.run(&a)?;
                    let Some(r) = x.get(0, a.tasks[0].len() - 1) else {
                        return bad(format!("{}: no answer", at(s, t, i)));
                    };
                    memo.insert(key, r.clone());
                    r.clone()
                }
            };
            if let Err(m) = out_close(query_of(o), &rec.out, &fresh.out, SAME) {
                return bad(format!("{}: with this order of builder calls vs the canonical order: {m}", at(s, t, i)));
            }
        }
    }
    Ok(n > 1)
}

// ---------------------------------------------------------------------- C11
fn c11_make(r: &mut Rng, _: &mut Ctx) -> R<Scenario> {
    let mut cfg = Cfg::all().concave().size(24, 3);
    if r.p(0.7) {
        cfg.fams.retain(|f| g::l1_ok(*f));
    }
    let d = g::data(r, &cfg);
    let f = d.fam;
    let _np = n_par(&d);
    let far = !kind(f).negdom();
    let mut ops = vec![Op::Build { ds: 0, slot: 0 }];
    let (mut l1, mut l2) = g::penalty(r, f, 0.6, 0.6);
    let nf = r.int(3, 6);
    let mut done: Vec<usize> = vec![];
    for k in 0..nf {
        let mut o = FSpec { l1, l2, ..FSpec::plain() };
        if l1 > 0. {
            o.max_iter = Some(20000);
            o.tol = Some(1e-13);
        }
        if k > 0 {
            match r.below(5) {
                0 => {}
                1 if far && r.p(0.3) => o.init = Init::Abs((0.._np).map(|_| r.range(-0.4, 0.4)).collect()),
                1 if far => o.init = g::start(r, &d, 0.4),
                2 => o.init = Init::FromHist { slot: *r.pick(&done), frac: r.f() },
                3 => o.init = Init::FromFit { slot: *r.pick(&done), mag: 0., seed: 0 },
                _ => {
                    o.init = Init::FromFit {
                        slot: *r.pick(&done),
                        mag: if far { 10f64.powf(r.range(-6., -0.3)) } else { 1e-3 },
                        seed: r.u64() >> 1,
                    }
                }
            }
        }
        ops.push(Op::Fit { model: MRef::Own(0), o, slot: k });
        done.push(k);
        for q in g::queries(r, 3, 0.05) {
            ops.push(q_op(k, q, r, f));
        }
        // walk along a path, or stay
        match r.below(4) {
            0 => {}
            1 => {
                let s = 10f64.powf(r.range(-0.7, 0.7));
                l1 *= s;
            }
            2 => l2 *= 10f64.powf(r.range(-0.7, 0.7)),
            _ => (l1, l2) = g::penalty(r, f, 0.5, 0.5),
        }
        if r.p(0.25) {
            // an abandoned attempt in between
            let o = FSpec {
                max_iter: Some(r.int(0, 3)),
                tol: None,
                l1: if g::l1_ok(f) { r.range(0.1, 2.) } else { 0. },
                l2: r.range(0., 2.),
                init: Init::None,
            };
            ops.push(Op::Fit { model: MRef::Own(0), o, slot: 12 });
        }
    }
    Ok(scen(vec![d], vec![], vec![ops]))
}
fn c11_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let n = judge(s, 0, &e, c, false)?;
    let mut opts: BTreeMap<String, (usize, FitMeta)> = BTreeMap::new();
    for (i, o) in s.tasks[0].iter().enumerate() {
        let Op::Fit { o: f, .. } = o else { continue };
        let Some(rec) = e.get(0, i) else { return bad(format!("{}: no answer", at(s, 0, i))) };
        // the same call without the history before it
        let mut a = s.clone();
        a.env.reuse = Reuse::Never;
        let mut o2 = o.clone();
        if let Op::Fit { o, .. } = &mut o2 {
            o.init = rec.init.clone().map_or(Init::None, Init::Abs);
        }
        let b = s.tasks[0].iter().find(|o| matches!(o, Op::Build { .. })).cloned();
        a.tasks = vec![b.into_iter().chain([o2]).collect()];
        if rec.out == Out::Skipped {
            continue;
        }
        let x = c.run(&a)?;
        let Some(y) = x.get(0, a.tasks[0].len() - 1) else {
            return bad(format!("{}: no answer", at(s, 0, i)));
        };
        c.compared += 1;
        if let Err(m) = out_close(None, &rec.out, &y.out, SAME) {
            return bad(format!("{}: after other fits vs on a fresh model: {m}", at(s, 0, i)));
        }
        if f.max_iter.is_some_and(|k| k < 10) {
            continue;
        }
        match &rec.out {
            Out::Fit(m) => {
                let key = format!("{:e} {:e}", f.l1, f.l2);
                let q = Prob::new(&s.data[0], f.l1, f.l2);
                if let Some((k, m0)) = opts.get(&key) {
                    let gap = (m.like - m0.like).abs();
                    if gap > 4. * gap_tol(&q, m.like) + like_tol(m.like, &q, &m.result) {
                        return bad(format!(
                            "{}: likelihood {:.12e} but {:.12e} from the other starting point of op {k}",
                            at(s, 0, i), m.like, m0.like
                        ));
                    }
                    let n2 = m.result.len();
                    let h = q.fisher(&m.result, true);
                    let d: Vec<f64> = (0..n2).map(|j| m.result[j] - m0.result[j]).collect();
                    if 0.5 * crate::refm::quad(&h, &d) > 8. * gap_tol(&q, m.like) {
                        return bad(format!(
                            "{}: coefficients {:?} but {:?} from the other starting point of op {k}",
                            at(s, 0, i), m.result, m0.result
                        ));
                    }
                } else {
                    opts.insert(key, (i, m.clone()));
                }
            }
            Out::FitErr(x) if !excused(&Prob::new(&s.data[0], f.l1, f.l2), &x.kind, &rec.init) => {
                return bad(format!("{}: {}", at(s, 0, i), brief(&rec.out)));
            }
            Out::Panic(_) => return bad(format!("{}: {}", at(s, 0, i), brief(&rec.out))),
            _ => {}
        }
    }
    Ok(n > 1)
}

// ---------------------------------------------------------------------- C12
fn c12_make(r: &mut Rng, _: &mut Ctx) -> R<Scenario> {
    let cfg = Cfg::all().size(24, 3);
    let (d, odd) = g::data_any(r, &cfg, 0.15);
    let f = d.fam;
    let mut data = vec![d];
    let mut ops = vec![];
    if r.p(0.4) {
        // something else used the memory first
        let e = g::sibling_any(r, &data[0], odd);
        data.push(e);
        ops.push(Op::Build { ds: 1, slot: 3 });
        ops.push(Op::Fit { model: MRef::Own(3), o: if odd { g::fspec_any(r, f) } else { g::fspec(r, f, 0., 0.5) }, slot: 3 });
        ops.push(Op::DropModel { slot: 3 });
    }
    ops.push(Op::Build { ds: 0, slot: 0 });
    for k in 0..r.int(1, 2) {
        ops.push(Op::Fit { model: MRef::Own(0), o: if odd { g::fspec_any(r, f) } else { g::fspec(r, f, 0.2, 0.5) }, slot: k });
        for q in g::queries(r, 6, 0.2) {
            ops.push(q_op(k, q, r, f));
        }
    }
    let mut s = scen(data, vec![], vec![ops]);
    s.env = Env {
        fill: *r.pick(&[Fill::Zero, Fill::Ones, Fill::Nan, Fill::Rand, Fill::Big, Fill::Nan]),
        reuse: *r.pick(&[Reuse::Lifo, Reuse::Fifo, Reuse::Never]),
        clock: r.below(4) as u8,
        clock_base: r.u64() >> 2,
        entropy: r.u64() >> 1,
        blas: Blas::Native,
        ..Env::default()
    };
    Ok(s)
}
fn c12_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let mut base = s.clone();
    base.env = Env::default();
    let b = c.run(&base)?;
    let e = c.main(s, b.steps * 4 + 20_000_000)?;
    for i in 0..s.tasks[0].len() {
        let (Some(x), Some(y)) = (e.get(0, i), b.get(0, i)) else {
            return bad(format!("{}: no answer", at(s, 0, i)));
        };
        c.compared += 1;
        if let Err(m) = out_close(query_of(&s.tasks[0][i]), &x.out, &y.out, SAME) {
            return bad(format!("{}: in environment {:?} vs the default one: {m}", at(s, 0, i), s.env));
        }
        if let Out::Panic(m) = &x.out
            && m.contains("HARNESS-INVARIANT")
        {
            return bad(format!("{}: {m}", at(s, 0, i)));
        }
    }
    Ok(s.env != Env::default())
}

// ---------------------------------------------------------------------- C13
fn c13_make(r: &mut Rng, c: &mut Ctx) -> R<Scenario> {
    let mut cfg = Cfg::all();
    if r.p(0.4) {
        cfg.fams = g::SIM_FAMS.to_vec();
    }
    let mut d = g::data(r, &cfg);
    // no change of scale, so that a restart begins exactly where a fit ended
    let plain = r.p(0.15);
    if plain && !d.calls.contains(&BCall::NoStd) {
        d.calls.push(BCall::NoStd);
    }
    let f = d.fam;
    let _np = n_par(&d);
    let mut ops = vec![Op::Build { ds: 0, slot: 0 }];
    for k in 0..r.int(2, 4) {
        let mut o = g::fspec(r, f, 0.35, 0.5);
        match r.below(6) {
            0 => o.max_iter = Some(r.int(0, 6)),
            1 if !kind(f).negdom() => o.init = g::start(r, &d, 0.5),
            2 if k > 0 => o.init = Init::FromFit { slot: k - 1, mag: 0., seed: 1 },
            3 if k > 0 => {
                o.init = Init::FromFit { slot: k - 1, mag: if kind(f).negdom() { 1e-3 } else { 0.2 }, seed: r.u64() >> 1 }
            }
            4 if k > 0 => o.init = Init::FromHist { slot: k - 1, frac: r.f() },
            5 if o.l1 == 0. => o.tol = Some(10f64.powf(-r.range(2., 12.))),
            _ => {}
        }
        if plain && k > 0 {
            let prev = ops.iter().rev().find_map(|x| match x {
                Op::Fit { o, slot, .. } if *slot == k - 1 => Some(o.clone()),
                _ => None,
            });
            if let Some(p) = prev {
                o = FSpec { init: Init::FromFit { slot: k - 1, mag: 0., seed: 1 }, max_iter: o.max_iter, ..p };
            }
        }
        ops.push(Op::Fit { model: MRef::Own(0), o, slot: k });
        if r.p(0.3) {
            let q = *r.pick(ALL_Q);
            if g::cheap(q) {
                ops.push(q_op(k, q, r, f));
            }
        }
        ops.push(Op::Query { slot: k, q: Q::Meta, a: Arg::AtResult });
    }
    let mut s = scen(vec![d], vec![], vec![ops]);
    if f.is_sim() && r.p(0.7) {
        let e = c.run(&s)?;
        let fits: Vec<usize> =
            (0..s.tasks[0].len()).filter(|i| matches!(s.tasks[0][*i], Op::Fit { .. })).collect();
        for _ in 0..r.int(1, 3) {
            if let Some((op, site, nth)) = pick_fault(r, &e, 0, &fits, &[Site::LinkDnat]) {
                let a = 10f64.powf(r.range(-2., 1.));
                let act = Act::Scale(if r.p(0.3) { -a } else { a });
                s.faults.push(Fault { task: 0, op, site, nth, count: r.int(1, 3) as u32, act });
            }
        }
    } else if r.p(0.3) {
        let e = c.run(&s)?;
        let fits: Vec<usize> =
            (0..s.tasks[0].len()).filter(|i| matches!(s.tasks[0][*i], Op::Fit { .. })).collect();
        if let Some((op, site, nth)) = pick_fault(r, &e, 0, &fits, &[Site::Lapack]) {
            s.faults.push(Fault { task: 0, op, site, nth, count: 1, act: Act::Fail });
        }
    }
    Ok(s)
}
fn c13_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let d = &s.data[0];
    let mut n = 0;
    for (i, o) in s.tasks[0].iter().enumerate() {
        let Some(rec) = e.get(0, i) else { return bad(format!("{}: no answer", at(s, 0, i))) };
        let v = |m: String| bad(format!("{}: {m}", at(s, 0, i)));
        let (fi, fo) = match o {
            Op::Fit { o, .. } => (i, o),
            Op::Query { q: Q::Meta, .. } => match fit_of(&s.tasks[0], i) {
                Some(k) => (k, fopt(&s.tasks[0][k])),
                None => continue,
            },
            _ => continue,
        };
        let q = Prob::new(d, fo.l1, fo.l2);
        let init = e.get(0, fi).and_then(|r| r.init.clone());
        match &rec.out {
            Out::FitErr(x) => {
                if x.kind == "MaxIter" {
                    n += 1;
                    c.compared += x.hist.len() as u64;
                    let lim = fo.max_iter.map_or(x.n_iter.unwrap_or(0), |k| k);
                    if x.n_iter != Some(lim) || x.hist.len() > lim + 1 || x.hist.len() < lim {
                        return v(format!("MaxIter reports {:?} iterations and {} entries for a limit of {lim}", x.n_iter, x.hist.len()));
                    }
                    if let Err(m) = check_hist(&q, &x.hist) {
                        return v(m);
                    }
                }
            }
            Out::Fit(m) | Out::Q(QOut::Meta(m)) => {
                n += 1;
                c.compared += 1 + m.hist.len() as u64;
                if let Err(x) = check_like(&q, m).and_then(|_| check_hist(&q, &m.hist)) {
                    return v(x);
                }
                if m.hist.len() != m.n_iter {
                    return v(format!("n_iter is {} but the history has {} entries", m.n_iter, m.hist.len()));
                }
                let lim = fo.max_iter.unwrap_or(m.opts[0] as usize);
                if m.n_iter > lim {
                    return v(format!("{} iterations taken but {lim} allowed", m.n_iter));
                }
                if m.hist.is_empty() {
                    if let Some(b) = &init
                        && let Err(x) = vec_close(&m.result, b, 1e-7)
                    {
                        return v(format!("no iteration was taken but the result is not the initial guess: {x}"));
                    }
                } else {
                    let best = m.hist.iter().map(|h| h.1).fold(f64::NEG_INFINITY, f64::max);
                    if (best - m.like).abs() > 1e-12 * (1. + best.abs()) {
                        return v(format!("model_like {:.15e} but the best entry of the history has {best:.15e}", m.like));
                    }
                    let near = m.hist.iter().any(|h| {
                        (h.1 - m.like).abs() <= 1e-12 * (1. + best.abs()) && vec_close(&h.0, &m.result, 1e-9).is_ok()
                    });
                    if !near {
                        return v("the result is not the history's best entry".into());
                    }
                }
            }
            Out::Panic(_) if rec.fired == 0 => return v(brief(&rec.out)),
            _ => {}
        }
    }
    Ok(n > 0)
}

// ---------------------------------------------------------------------- C14
fn c14_make(r: &mut Rng, c: &mut Ctx) -> R<Scenario> {
    let cfg = Cfg::all().size(30, 4);
    let nt = *r.pick(&[1, 1, 2, 3]);
    let mut data = vec![g::data(r, &cfg)];
    let setup = vec![Op::Build { ds: 0, slot: 0 }];
    let mut tasks = vec![];
    for t in 0..nt {
        let mut ops = vec![];
        let mut slot = 0;
        for _ in 0..r.int(1, 2) {
            let (model, ds) = if t > 0 && r.p(0.4) {
                (MRef::Shared(0), 0)
            } else {
                data.push(g::data(r, &cfg));
                ops.push(Op::Build { ds: data.len() - 1, slot });
                (MRef::Own(slot), data.len() - 1)
            };
            let fam = data[ds].fam;
            for j in 0..r.int(1, 2) {
                let mut o = g::fspec(r, fam, 0.15, 0.5);
                if j > 0 && r.p(0.5) {
                    o.init = Init::FromFit { slot: slot + j - 1, mag: 0., seed: 0 };
                }
                ops.push(Op::Fit { model, o, slot: slot + j });
                for q in g::queries(r, 10, 0.15) {
                    ops.push(q_op(slot + j, q, r, fam));
                }
            }
            slot += 2;
        }
        tasks.push(ops);
    }
    let mut s = scen(data, setup, tasks);
    if nt > 1 {
        s.sched = rand_sched(r);
    }
    if r.p(0.4) {
        let e = c.run(&s)?;
        for _ in 0..r.int(1, 3) {
            let t = r.below(nt);
            let all: Vec<usize> = (0..s.tasks[t].len()).collect();
            let sites: &[Site] = if r.p(0.4) { &LINKS } else { &[Site::Lapack] };
            if let Some((op, site, nth)) = pick_fault(r, &e, t, &all, sites) {
                let act = if site == Site::Lapack { Act::Fail } else { Act::Panic };
                s.faults.push(Fault { task: t, op, site, nth, count: r.int(1, 2) as u32, act });
            }
        }
    }
    if r.p(0.3) {
        s.env.fill = *r.pick(&[Fill::Nan, Fill::Rand]);
        s.env.reuse = *r.pick(&[Reuse::Lifo, Reuse::Fifo, Reuse::Never]);
    }
    Ok(s)
}
fn c14_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let mut n = 0;
    for t in 0..s.tasks.len() {
        n += judge(s, t, &e, c, true)?;
    }
    Ok(n > 3)
}

// ---------------------------------------------------------------------- C15
const ROUNDS: usize = 14;
fn c15_make(r: &mut Rng, c: &mut Ctx) -> R<Scenario> {
    let mut cfg = Cfg::all().size(14, 3);
    if r.p(0.4) {
        cfg.fams = g::SIM_FAMS.to_vec();
    }
    cfg.offset = if r.p(0.3) { 1. } else { 0.3 };
    let (mut d, odd) = g::data_any(r, &cfg, 0.15);
    let f = d.fam;
    d.single = !f.is_sim() && r.p(0.15);
    let mut ops = vec![];
    for k in 0..r.int(1, 2) {
        if r.p(0.3) {
            ops.push((true, Op::Build { ds: 0, slot: 7 }));
        }
        ops.push((false, Op::Build { ds: 0, slot: k }));
        for j in 0..r.int(1, 2) {
            let mut o = if odd { g::fspec_any(r, f) } else { g::fspec(r, f, 0.15, 0.4) };
            if r.p(0.3) {
                o.max_iter = Some(r.int(0, 4));
            }
            ops.push((false, Op::Fit { model: MRef::Own(k), o, slot: j }));
            if r.p(0.2) {
                let o = FSpec { init: Init::FromHist { slot: j, frac: r.f() }, ..g::fspec(r, f, 0., 0.4) };
                ops.push((false, Op::Fit { model: MRef::Own(k), o, slot: 2 }));
            }
            let n = if r.p(0.3) { 12 } else { 5 };
            for q in g::queries(r, n, 0.12) {
                ops.push((false, q_op(if r.p(0.2) { 2 } else { j }, q, r, f)));
            }
        }
    }
    // the same every round, or every round other data
    let vary = r.p(0.5);
    let mut data = vec![];
    let m = if vary { ROUNDS } else { 1 };
    let mut wrong = misuse(r, &d);
    for _ in 0..m {
        data.push(if data.is_empty() { d.clone() } else { g::sibling_any(r, &d, odd) });
        if data.len() > 1 {
            wrong = misuse(r, &data[data.len() - 1]);
        }
        data.push(wrong.clone());
    }
    let mut s = scen(data, vec![], vec![vec![]]);
    let mut faults = vec![];
    if r.p(0.5) {
        // what may fail, from one round on its own
        let mut t = s.clone();
        t.tasks[0] = ops.iter().map(|(bad, o)| fix_ds(o, 0, *bad)).collect();
        let e = c.run(&t)?;
        let cand: Vec<usize> = (0..ops.len()).filter(|i| !matches!(ops[*i].1, Op::Build { .. })).collect();
        for _ in 0..r.int(1, 2) {
            let sites: &[Site] = if f.is_sim() && r.p(0.5) { &LINKS } else { &[Site::Lapack, Site::Lapack, Site::Stderr] };
            if let Some((op, site, nth)) = pick_fault(r, &e, 0, &cand, sites) {
                let act = match site {
                    Site::Lapack => Act::Fail,
                    Site::Stderr => Act::Errno(5),
                    _ => Act::Panic,
                };
                faults.push(Fault { task: 0, op, site, nth, count: r.int(1, 2) as u32, act });
            }
        }
    }
    for k in 0..ROUNDS {
        for f in &faults {
            s.faults.push(Fault { op: f.op + s.tasks[0].len(), ..f.clone() });
        }
        for (bad, o) in &ops {
            s.tasks[0].push(fix_ds(o, k % m, *bad));
        }
        s.tasks[0].push(Op::Weigh);
    }
    Ok(s)
}
fn fix_ds(o: &Op, k: usize, bad: bool) -> Op {
    match o {
        Op::Build { slot, .. } => Op::Build { ds: 2 * k + bad as usize, slot: *slot },
        o => o.clone(),
    }
}
/// Growth that goes on: caches may fill up in the first rounds.
fn c15_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let ops = &s.tasks[0];
    let mut w = vec![];
    for (i, o) in ops.iter().enumerate() {
        let Some(rec) = e.get(0, i) else { return bad(format!("{}: no answer", at(s, 0, i))) };
        c.compared += 1;
        if matches!(o, Op::Weigh) {
            w.push((i, rec.start, rec.end));
        }
    }
    if w.len() < ROUNDS {
        return Ok(false);
    }
    let tail = &w[w.len() - ROUNDS / 2 - 1..];
    let up = |f: &dyn Fn(&(usize, u64, u64)) -> u64| {
        let n = tail.windows(2).filter(|p| f(&p[1]) > f(&p[0])).count();
        n + 1 >= tail.len() - 1 && f(&tail[tail.len() - 1]) > f(&tail[0])
    };
    if up(&|x| x.1) || up(&|x| x.2) {
        let (a, b) = (tail[0], tail[tail.len() - 1]);
        return bad(format!(
            "{}: after everything was dropped, {} blocks ({} bytes) are left, {} rounds of the same calls earlier {} ({})",
            at(s, 0, b.0),
            b.1,
            b.2,
            tail.len() - 1,
            a.1,
            a.2
        ));
    }
    Ok(ops.len() > 3 * ROUNDS)
}

// ---------------------------------------------------------------------- C16
/// A number from anywhere.
fn wild(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => NAN_MARK,
        1 => *r.pick(&[INF_MARK, NINF_MARK]),
        2 => 0.,
        3 => -0.,
        4 => *r.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON]),
        5 | 6 => 10f64.powf(r.range(-310., 308.)) * *r.pick(&[1., -1.]),
        7 | 8 => 10f64.powf(r.range(-20., 20.)) * *r.pick(&[1., -1.]),
        _ => r.normal(),
    }
}
/// an infinite penalty means nothing
fn tame(v: f64) -> f64 {
    if v < -1e300 { 1e3 } else { v }
}
fn c16_make(r: &mut Rng, c: &mut Ctx) -> R<Scenario> {
    let mut cfg = Cfg::all().size(12, 3);
    cfg.long = 0.;
    cfg.huge = 0.;
    cfg.wide = 0.;
    if r.p(0.5) {
        cfg.fams = g::SIM_FAMS.to_vec();
    }
    let (mut d, _) = g::data_any(r, &cfg, 0.7);
    let f = d.fam;
    let k = kind(f);
    if r.p(0.3) {
        for _ in 0..r.int(1, 2) {
            let i = r.below(d.x.len());
            d.x[i] = wild(r);
        }
    }
    if r.p(0.2) {
        let i = r.below(d.y.len());
        match k {
            K::Lin => d.y[i] = wild(r),
            _ if k.positive_y() => d.y[i] = 10f64.powf(r.range(-308., 308.)),
            K::Pois => d.y[i] = *r.pick(&[0., 1e3, 4e9]),
            _ => {}
        }
    }
    for c in d.calls.iter_mut() {
        if r.p(0.15) {
            match c {
                BCall::Offset(v) | BCall::VarW(v) if !v.is_empty() => {
                    let i = r.below(v.len());
                    v[i] = wild(r);
                }
                BCall::FreqW(v) if !v.is_empty() => {
                    let i = r.below(v.len());
                    v[i] = *r.pick(&[0, 1_000_000_000_000, usize::MAX / 2]);
                }
                _ => {}
            }
        }
    }
    d.single = !f.is_sim() && r.p(0.25);
    let np = n_par(&d);
    let mut ops = vec![Op::Build { ds: 0, slot: 0 }];
    for k in 0..r.int(1, 2) {
        let mut o = g::fspec_any(r, f);
        o.max_iter = Some(*r.pick(&[0, 1, 2, 5, 20, 20, 60, 128]));
        if r.p(0.3) {
            o.tol = Some(wild(r));
        }
        if r.p(0.1) {
            o.l2 = tame(wild(r));
        }
        if r.p(0.1) {
            o.l1 = tame(wild(r));
        }
        if r.p(0.2) {
            o.init = Init::Abs((0..np).map(|_| if r.p(0.5) { wild(r) } else { 0. }).collect());
        }
        ops.push(Op::Fit { model: MRef::Own(0), o, slot: k });
        for q in g::queries(r, 6, 0.08) {
            // (the quantile function of statrs may take minutes)
            if q != Q::ResidQuantile {
                ops.push(q_op(k, q, r, f));
            }
        }
    }
    let mut s = scen(vec![d], vec![], vec![ops]);
    if r.p(0.6) {
        let e = c.run(&s)?;
        let cand: Vec<usize> = (1..s.tasks[0].len()).collect();
        for _ in 0..r.int(1, 3) {
            let sites: &[Site] = if f.is_sim() && r.p(0.7) { &LINKS } else { &[Site::Lapack] };
            if let Some((op, site, nth)) = pick_fault(r, &e, 0, &cand, sites) {
                let act = match site {
                    Site::Lapack => Act::Fail,
                    _ => match r.below(5) {
                        0 => Act::Nan,
                        1 => Act::Inf,
                        2 => Act::Scale(0.),
                        3 => Act::Scale(10f64.powf(r.range(-300., 300.))),
                        _ => Act::Scale(*r.pick(&[-1., 1e-6, 1e6, -1e-3, 0.5, 2.])),
                    },
                };
                let count = *r.pick(&[1, 2, 10, 1000, 1_000_000, u32::MAX / 2]);
                s.faults.push(Fault { task: 0, op, site, nth, count, act });
            }
        }
    }
    Ok(s)
}
/// Nothing is asked of a fit with negative weights or penalties, or with numbers
/// whose products overflow, but an end.
fn c16_sane(d: &Data, o: &FSpec) -> bool {
    let top = if d.single { 1e12 } else { 1e100 };
    let mild = |v: &f64| *v == 0. || (1. / top..top).contains(&v.abs()) || !unmark(*v).is_finite();
    let calls = d.calls.iter().all(|c| match c {
        BCall::VarW(v) => v.iter().all(|x| mild(x) && unmark(*x) >= 0.),
        BCall::Offset(v) => v.iter().all(mild),
        _ => true,
    });
    let init = match &o.init {
        Init::Abs(v) => v.iter().all(mild),
        _ => true,
    };
    calls && init && d.x.iter().chain(&d.y).all(mild) && [o.l1, o.l2].iter().all(|v| mild(v) && *v >= 0.)
}
fn c16_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let ops = &s.tasks[0];
    for (i, o) in ops.iter().enumerate() {
        let Some(rec) = e.get(0, i) else { return bad(format!("{}: no answer", at(s, 0, i))) };
        c.compared += 1;
        if std::env::var("C16D").is_ok() {
            eprintln!("{} {} {}", rec.end - rec.start, name(o), brief(&rec.out));
        }
        let Op::Fit { o, .. } = o else { continue };
        let max = o.max_iter.unwrap();
        let sane = data_of(s, 0, i).is_some_and(|d| c16_sane(d, o));
        match &rec.out {
            Out::Fit(m) if m.n_iter > max => {
                return bad(format!("{}: {} iterations", at(s, 0, i), m.n_iter));
            }
            Out::Fit(m) if sane && (!m.like.is_finite() || m.result.iter().any(|x| !x.is_finite())) => {
                return bad(format!("{}: Ok with a result that is not finite: {}", at(s, 0, i), brief(&rec.out)));
            }
            Out::FitErr(x) if x.kind == "MaxIter" && x.n_iter != Some(max) => {
                return bad(format!("{}: gave up after {:?} iterations", at(s, 0, i), x.n_iter));
            }
            _ => {}
        }
    }
    Ok(ops.len() > 2)
}

// ---------------------------------------------------------------------- C22
fn c22_make(r: &mut Rng, _: &mut Ctx) -> R<Scenario> {
    let mut cfg = Cfg::all().size(24, 4);
    (cfg.offset, cfg.varw, cfg.freqw) = (0.4, 0.4, 0.4);
    let mut d = g::data(r, &cfg);
    let f = d.fam;
    let o = g::fspec(r, f, 0.08, 0.5);
    let mut body = vec![Op::Fit { model: MRef::Own(0), o, slot: 0 }];
    for q in g::queries(r, 7, 0.1) {
        body.push(q_op(0, q, r, f));
    }
    if r.p(0.5) {
        body.push(Op::Query { slot: 0, q: Q::Predict, a: g::qarg(r, f) });
    }
    if r.p(0.3) {
        let o = FSpec { init: Init::FromFit { slot: 0, mag: 0.01, seed: r.u64() >> 1 }, ..g::fspec(r, f, 0., 0.4) };
        body.push(Op::Fit { model: MRef::Own(0), o, slot: 1 });
        for q in g::queries(r, 3, 0.) {
            body.push(q_op(1, q, r, f));
        }
    }
    let mut all = LAYOUTS[1..].to_vec();
    g::shuffle(r, &mut all);
    (d.layout, d.vlayout) = (Layout::Rows, None);
    let mut data = vec![d.clone()];
    for l in &all[..r.int(1, 3)] {
        let mut e = d.clone();
        e.layout = *l;
        e.vlayout = if r.p(0.6) { None } else { Some(*r.pick(&LAYOUTS)) };
        data.push(e);
    }
    let tasks = (0..data.len())
        .map(|k| {
            let mut v = vec![Op::Build { ds: k, slot: 0 }];
            v.extend(body.iter().cloned());
            v
        })
        .collect();
    let mut s = scen(data, vec![], tasks);
    if r.p(0.5) {
        s.sched = rand_sched(r);
    }
    s.env.fill = *r.pick(&[Fill::None, Fill::Nan, Fill::Rand, Fill::Big]);
    s.env.reuse = *r.pick(&[Reuse::Lifo, Reuse::Fifo, Reuse::Never]);
    Ok(s)
}
/// fits that stopped at slightly different points
const NEAR: Tol = Tol { rel: 1e-4, path: false };
fn c22_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let mut n = 0;
    for t in 0..s.tasks.len() {
        n += judge(s, t, &e, c, true)?;
    }
    for t in 1..s.tasks.len() {
        for (i, o) in s.tasks[t].iter().enumerate() {
            let src = fit_of(&s.tasks[t], i).unwrap_or(i);
            if matches!(&s.tasks[t][src], Op::Fit { o, .. } if o.l1 > 0.) || s.tasks[0].get(i) != Some(o) {
                continue;
            }
            let (Some(x), Some(y)) = (e.get(t, i), e.get(0, i)) else {
                return bad(format!("{}: no answer", at(s, t, i)));
            };
            // refits of what is left may be ill-posed; whether an error is fair is judged above
            let no = |o: &Out| matches!(o, Out::FitErr(_) | Out::Skipped);
            if no(&x.out) || no(&y.out) || query_of(o).is_some_and(|q| !g::cheap(q)) {
                continue;
            }
            c.compared += 1;
            if let Err(m) = out_close(query_of(o), &x.out, &y.out, NEAR) {
                return bad(format!("{}: with arrays laid out as {:?} vs row by row: {m}", at(s, t, i), s.data[t].layout));
            }
        }
    }
    Ok(n > 2 && s.tasks.len() > 1)
}
// ---------------------------------------------------------------------- C23
/// The same observations in other units, or as a model of single precision.
fn c23_make(r: &mut Rng, c: &mut Ctx) -> R<Scenario> {
    let mut cfg = Cfg::all().size(24, 3);
    cfg.fams.retain(|f| !f.is_sim() && kind(*f).concave());
    let mut d = g::data(r, &cfg);
    let f = d.fam;
    // numbers of both types
    let cut = |v: &mut Vec<f64>| v.iter_mut().for_each(|x| *x = *x as f32 as f64);
    cut(&mut d.x);
    cut(&mut d.y);
    for k in d.calls.iter_mut() {
        if let BCall::Offset(v) | BCall::VarW(v) = k {
            cut(v);
        }
    }
    let std = !d.calls.contains(&BCall::NoStd);
    let icpt = has_intercept(&d);
    let o = g::fspec(r, f, 0., if std { 0.4 } else { 0. });
    let mut body = vec![Op::Fit { model: MRef::Own(0), o: FSpec { tol: None, ..o }, slot: 0 }];
    let mut qs = g::queries(r, 9, 0.3);
    qs.retain(|q| !matches!(q, Q::Predict | Q::LooExact));
    for q in qs {
        let a = if r.p(0.5) { Arg::AtResult } else if kind(f).negdom() { Arg::AtResult } else { Arg::Zeros };
        body.push(Op::Query { slot: 0, q, a });
    }
    let mut data = vec![d.clone()];
    for _ in 0..r.int(1, 2) {
        let mut e = d.clone();
        if r.p(0.4) {
            e.single = true;
        } else {
            for j in 0..d.p {
                let m = if std { 6. } else { 2. };
                let sc = if r.p(0.7) { 10f64.powf(r.range(-m, m)) * if r.p(0.2) { -1. } else { 1. } } else { 1. };
                let col: Vec<f64> = (0..d.n).map(|i| d.x[i * d.p + j]).collect();
                let w = col.iter().fold(0f64, |a, x| a.max((x - col[0]).abs()));
                let sh = if std && icpt && r.p(0.5) { w * 10f64.powf(r.range(0., 6.)) } else { 0. };
                for i in 0..d.n {
                    e.x[i * d.p + j] = (col[i] + sh) * sc;
                }
            }
        }
        data.push(e);
    }
    let tasks: Vec<Vec<Op>> = (0..data.len())
        .map(|k| {
            let mut v = vec![Op::Build { ds: k, slot: 0 }];
            v.extend(body.iter().cloned());
            v
        })
        .collect();
    let mut s = scen(data, vec![], tasks);
    if r.p(0.6) {
        s.sched = rand_sched(r);
    }
    s.env.fill = *r.pick(&[Fill::None, Fill::Nan, Fill::Rand, Fill::Big]);
    s.env.blas = *r.pick(&[Blas::Native, Blas::Native, Blas::Reorder, Blas::ReorderJitter]);
    s.env.blas_seed = r.u64() >> 1;
    if r.p(0.25) {
        let e = c.run(&s)?;
        let t = r.below(s.tasks.len());
        let all: Vec<usize> = (0..s.tasks[t].len()).collect();
        if let Some((op, site, nth)) = pick_fault(r, &e, t, &all, &[Site::Lapack]) {
            s.faults.push(Fault { task: t, op, site, nth, count: r.int(1, 2) as u32, act: Act::Fail });
        }
    }
    Ok(s)
}
/// how the features of `e` relate to those of `d`: scale and shift of each
fn units(d: &Data, e: &Data) -> Vec<(f64, f64)> {
    (0..d.p)
        .map(|j| {
            let at = |i: usize| d.x[i * d.p + j];
            let (mut lo, mut hi) = (0, 0);
            for i in 0..d.n {
                if at(i) < at(lo) {
                    lo = i;
                }
                if at(i) > at(hi) {
                    hi = i;
                }
            }
            if at(hi) == at(lo) {
                return (1., 0.);
            }
            let sc = (e.x[hi * d.p + j] - e.x[lo * d.p + j]) / (at(hi) - at(lo));
            (sc, e.x[lo * d.p + j] / sc - at(lo))
        })
        .collect()
}
/// in the units of the original features, without what depends on their origin
fn to_units(q: &Prob, u: &[(f64, f64)], qq: Option<Q>, v: &[f64]) -> Option<Vec<f64>> {
    let k = q.icpt as usize;
    let moved = u.iter().any(|x| x.1 != 0.);
    let from = if moved { k } else { 0 };
    let f = |i: usize| if i < k { 1. } else { u[i - k].0 };
    match qq {
        // coefficients
        None => Some((from..q.npar).map(|i| v[i] * f(i)).collect()),
        Some(Q::Covariance) => {
            Some((from..q.npar).flat_map(|i| (from..q.npar).map(move |j| (i, j))).map(|(i, j)| v[i * q.npar + j] * f(i) * f(j)).collect())
        }
        Some(Q::InflCoef) => {
            Some(v.chunks(q.npar).flat_map(|w| (from..q.npar).map(|i| w[i] * f(i)).collect::<Vec<_>>()).collect())
        }
        Some(Q::WaldZ) => Some((from..q.npar).map(|i| v[i] * f(i).signum()).collect()),
        // (without its intercept a penalised model has other penalties)
        Some(Q::PExact) if q.l1 + q.l2 > 0. => Some(v[k..].to_vec()),
        Some(Q::PWald | Q::PExact) => Some(v[from..].to_vec()),
        Some(Q::Fisher | Q::Score | Q::ScoreTest | Q::ScoreAgainst | Q::WaldAgainst | Q::LrAgainst | Q::Predict | Q::Meta | Q::LooExact) => None,
        Some(_) => Some(v.to_vec()),
    }
}
/// close to single precision, given how badly the numbers are conditioned
fn single_close(q: &Prob, m: &FitMeta, qq: Q, a: &[f64], b: &[f64], cd: f64) -> Result<bool, String> {
    if a.len() != b.len() {
        return Err(format!("{qq:?} has {} numbers instead of {}", a.len(), b.len()));
    }
    let s = q.stats(&m.result, m.like);
    let sc = b.iter().filter(|x| x.is_finite()).fold(0f64, |s, x| s.max(x.abs()));
    let l = 1. + m.like.abs() + q.sumw();
    let tol = match qq {
        Q::Aic | Q::Bic | Q::Deviance | Q::NullLike | Q::LrTest | Q::Rss => 1e-4 * (l + sc),
        Q::Ndf | Q::TestNdf => 0.,
        Q::Leverage | Q::Hat => 1e-5 * cd + 1e-2 * sc,
        Q::Covariance => (2e-2 + 1e-5 * cd) * sc,
        Q::ResidResp | Q::ResidWork | Q::ResidPear | Q::ResidPart => 2e-2 * sc.max(1.) + 1e-5 * cd,
        Q::WaldZ => 0.05 + 2e-2 * sc,
        Q::Dispersion => 1e-2 * sc,
        Q::RSq | Q::PLr => 1e-2,
        Q::PWald => 5e-2,
        _ => return Ok(false),
    };
    if matches!(qq, Q::WaldZ | Q::PWald | Q::Dispersion | Q::Covariance | Q::RSq) && q.k.dispersed() && !(s.deviance() > 1e-3 * l) {
        return Ok(false);
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if y.is_finite() && !((x - y).abs() <= tol) {
            return Err(format!("{qq:?}[{i}] is {x:e} in single precision and {y:e} in double"));
        }
    }
    Ok(true)
}
fn c23_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let mut n = 0;
    if s.tasks.is_empty() {
        return Ok(false);
    }
    for t in 1..s.tasks.len() {
        for (i, o) in s.tasks[t].iter().enumerate() {
            if s.tasks[0].get(i) != Some(o) && i > 0 {
                continue;
            }
            let (Some(x), Some(y)) = (e.get(t, i), e.get(0, i)) else {
                return bad(format!("{}: no answer", at(s, t, i)));
            };
            if x.fired + y.fired > 0 {
                continue;
            }
            let k = match o {
                Op::Fit { .. } => i,
                Op::Query { .. } => match fit_of(&s.tasks[t], i) {
                    Some(k) => k,
                    None => continue,
                },
                _ => {
                    if std::mem::discriminant(&x.out) != std::mem::discriminant(&y.out) {
                        return bad(format!("{}: {} but {} with the original", at(s, t, i), brief(&x.out), brief(&y.out)));
                    }
                    continue;
                }
            };
            let (Some(d), Some(z)) = (data_of(s, 0, k), data_of(s, t, k)) else { continue };
            let w = fopt(&s.tasks[0][k]);
            let q = Prob::new(d, w.l1, w.l2);
            let Some(Out::Fit(m)) = e.get(0, k).map(|r| &r.out) else { continue };
            let h = q.fisher(&m.result, true);
            let cd = crate::refm::cond(&h);
            let what = if z.single { "in single precision" } else { "in other units" };
            if z.single {
                if !(cd < 1e3) {
                    continue;
                }
                match (&x.out, o) {
                    (Out::Fit(f), Op::Fit { .. }) => {
                        let l = q.obj(&m.result);
                        let g = q.obj(&m.result) - q.obj(&f.result);
                        let tol = 1e4 * like_tol(l, &q, &m.result);
                        if !(g <= tol) {
                            return bad(format!("{} ({:?}): the optimum in single precision is {g:e} short of that in double", at(s, t, i), d.fam));
                        }
                        n += 1;
                    }
                    (Out::Q(QOut::Vals { v: a, .. }), Op::Query { q: qq, .. }) => {
                        if let Out::Q(QOut::Vals { v: b, .. }) = &y.out {
                            match single_close(&q, m, *qq, a, b, cd) {
                                Ok(u) => n += u as usize,
                                Err(x) => return bad(format!("{} ({:?}): {x}", at(s, t, i), d.fam)),
                            }
                        }
                    }
                    (Out::Skipped, _) => {}
                    (_, Op::Fit { .. }) if !q.slow() => return bad(format!("{} ({:?}) {what}: {}", at(s, t, i), d.fam, brief(&x.out))),
                    _ => {}
                }
                continue;
            }
            let u = units(d, z);
            let pair = match (&x.out, &y.out, o) {
                (Out::Fit(a), Out::Fit(b), _) => {
                    if let Err(m) = vec_close(&[a.like], &[b.like], 1e-6) {
                        return bad(format!("{} ({:?}) {what}: model_like {m}", at(s, t, i), d.fam));
                    }
                    to_units(&q, &u, None, &a.result).zip(to_units(&q, &u.iter().map(|x| (1., x.1)).collect::<Vec<_>>(), None, &b.result))
                }
                (Out::Q(QOut::Vals { v: a, .. }), Out::Q(QOut::Vals { v: b, .. }), Op::Query { q: qq, .. }) => {
                    to_units(&q, &u, Some(*qq), a).zip(to_units(&q, &u.iter().map(|x| (1., x.1)).collect::<Vec<_>>(), Some(*qq), b))
                }
                (Out::Skipped, _, _) | (_, Out::Skipped, _) => None,
                (Out::FitErr(_), Out::Fit(_), _) if !q.slow() => {
                    return bad(format!("{} ({:?}) {what}: {}", at(s, t, i), d.fam, brief(&x.out)));
                }
                _ => None,
            };
            let Some((a, b)) = pair else { continue };
            // statistics in the units of the caller cannot have more digits than the features
            let far = (0..d.p).any(|j| {
                let w = (0..d.n).fold(0f64, |m, i| m.max((d.x[i * d.p + j] - d.x[j]).abs()));
                u[j].1.abs() > 300. * w
            });
            let internal = |q: Q| {
                use Q::*;
                matches!(q, Aic | Bic | Deviance | Dispersion | LrTest | NullLike | ResidResp | ResidPear | ResidDev | ResidWork | PLr | Rss | RSq | Leverage)
            };
            if far && query_of(o).is_some_and(|q| !internal(q)) {
                continue;
            }
            if !(cd < 1e6) {
                continue;
            }
            // coefficients count in units of their error
            let unit: Option<Vec<f64>> = match query_of(o) {
                None => to_units(&q, &u.iter().map(|x| (1., x.1)).collect::<Vec<_>>(), None, &(0..q.npar).map(|i| 1. / h[i][i].sqrt()).collect::<Vec<_>>()),
                Some(Q::WaldZ) => Some(vec![1.; a.len()]),
                _ => None,
            };
            if let Some(w) = unit {
                c.compared += 1;
                n += 1;
                for i in 0..a.len() {
                    if !(same_special(a[i], b[i]) || (a[i] - b[i]).abs() <= 1e-3 * (b[i].abs() + w[i])) {
                        return bad(format!("{} ({:?}) {what}: [{i}] is {:e} instead of {:e}", at(s, t, i), d.fam, a[i], b[i]));
                    }
                }
                continue;
            }
            let wrap = |v: Vec<f64>| Out::Q(QOut::Vals { r: v.len(), c: 1, v });
            c.compared += 1;
            n += 1;
            if let Err(m) = out_close(query_of(o), &wrap(a), &wrap(b), Tol { rel: 1e-3, path: false }) {
                return bad(format!("{} ({:?}) {what}: {m}", at(s, t, i), d.fam));
            }
        }
    }
    Ok(n > 2)
}
// ---------------------------------------------------------------------- C24
/// Data at the edge of what rounding can push over: statistics that are zero or
/// one but for the last bit.
fn c24_edge(r: &mut Rng, d: &Data) -> (Data, bool) {
    let mut e = d.clone();
    let k = kind(d.fam);
    let (n, p) = (d.n, d.p);
    let inner = |y: f64| match k {
        K::Logit | K::Clog => y > 0.02 && y < 0.98,
        K::Pois => y > 0.,
        K::Bin12 => y > 0. && y < 12.,
        _ => true,
    };
    let freq = |i: usize| d.calls.iter().all(|c| !matches!(c, BCall::FreqW(v) if v[i] == 0));
    match r.below(5) {
        // an observation with a coefficient of its own
        0 => {
            let i = r.below(n);
            if k.negdom() || !inner(d.y[i]) || !freq(i) {
                return (e, false);
            }
            let v = 10f64.powf(r.range(-1., 1.));
            e.x = (0..n)
                .flat_map(|j| {
                    let mut w = d.x[j * p..(j + 1) * p].to_vec();
                    w.push(if j == i { v } else { 0. });
                    w
                })
                .collect();
            e.p += 1;
        }
        // a feature that is exactly balanced, so that it explains nothing
        1 => {
            let (v, u) = (10f64.powf(r.range(-1., 1.)), if k.negdom() { 0. } else { r.range(-1., 1.) });
            e.x.clear();
            e.y.clear();
            for h in [v, -v] {
                for j in 0..n {
                    e.x.extend_from_slice(&d.x[j * p..(j + 1) * p]);
                    e.x.push(u + h);
                    e.y.push(d.y[j]);
                }
            }
            for c in e.calls.iter_mut() {
                match c {
                    BCall::Offset(v) | BCall::VarW(v) => v.extend_from_within(..),
                    BCall::FreqW(v) => v.extend_from_within(..),
                    _ => {}
                }
            }
            e.n *= 2;
            e.p += 1;
        }
        // groups that are fitted exactly
        2 => {
            if k.negdom() {
                return (e, false);
            }
            let gs = r.int(2, 3);
            let lvl: Vec<f64> = (0..gs)
                .map(|_| match k {
                    K::Logit | K::Clog => r.range(0.1, 0.85),
                    K::Pois => r.int(1, 6) as f64,
                    K::Bin12 => r.int(2, 10) as f64,
                    _ => r.range(0.5, 3.),
                })
                .collect();
            e.p = gs - 1;
            e.x.clear();
            for j in 0..n {
                let g = j % gs;
                for c in 1..gs {
                    e.x.push((g == c) as u8 as f64);
                }
                e.y[j] = lvl[g];
            }
            e.calls.retain(|c| !matches!(c, BCall::Offset(_) | BCall::NoConst | BCall::FreqW(_)));
            return (e, k.dispersed());
        }
        _ => {}
    }
    (e, false)
}
fn c24_make(r: &mut Rng, c: &mut Ctx) -> R<Scenario> {
    let mut cfg = Cfg::all().size(24, 3);
    cfg.fams.retain(|f| kind(*f).concave());
    let nt = *r.pick(&[1, 1, 2]);
    let mut data = vec![];
    let mut tasks = vec![];
    for t in 0..nt {
        let d = g::data(r, &cfg);
        // (the distribution of an exact fit has no width: its quantiles take minutes)
        let (d, exact) = c24_edge(r, &d);
        let f = d.fam;
        data.push(d);
        let mut ops = vec![Op::Build { ds: t, slot: 0 }];
        for k in 0..r.int(1, 2) {
            ops.push(Op::Fit { model: MRef::Own(0), o: g::fspec(r, f, 0.05, 0.35), slot: k });
            for q in g::queries(r, 10, 0.3) {
                ops.push(q_op(k, q, r, f));
            }
            let must = [Q::Leverage, Q::ResidDev, Q::Deviance, Q::LrTest, Q::PLr, Q::PWald, Q::ScoreTest, Q::Cooks];
            for q in must {
                if r.p(0.4) {
                    ops.push(q_op(k, q, r, f));
                }
            }
            if r.p(0.5) {
                ops.push(q_op(k, Q::PExact, r, f));
            }
        }
        if exact {
            ops.retain(|o| !matches!(o, Op::Query { q: Q::ResidQuantile, .. }));
        }
        tasks.push(ops);
    }
    let mut s = scen(data, vec![], tasks);
    if nt > 1 {
        s.sched = rand_sched(r);
    }
    s.env.blas = *r.pick(&[Blas::Native, Blas::Reorder, Blas::Reorder, Blas::ReorderJitter]);
    s.env.blas_seed = r.u64() >> 1;
    if r.p(0.25) {
        let e = c.run(&s)?;
        let t = r.below(nt);
        let all: Vec<usize> = (0..s.tasks[t].len()).collect();
        if let Some((op, site, nth)) = pick_fault(r, &e, t, &all, &[Site::Lapack]) {
            s.faults.push(Fault { task: t, op, site, nth, count: r.int(1, 2) as u32, act: Act::Fail });
        }
    }
    Ok(s)
}
/// is one answer within the range of what it is called?
fn c24_range(q: &Prob, m: &FitMeta, qq: Q, v: &[f64]) -> Result<bool, String> {
    let b = &m.result;
    let pen = q.l1 > 0. || q.l2 > 0.;
    let s = q.stats(b, m.like);
    let h = q.fisher(b, true);
    let cd = crate::refm::cond(&h);
    if !(cd < 1e7) {
        return Ok(false);
    }
    let (phi, dev) = (s.phi(), s.deviance());
    // what remains of exact fits is rounding
    let exact = q.k.dispersed() && !(dev > 1e-8 * q.sumw() && phi.is_finite() && phi > 0.);
    let tol = 1e-9 * cd.max(1e2);
    let each = |ok: &dyn Fn(f64) -> bool, what: &str| -> Result<bool, String> {
        for (i, x) in v.iter().enumerate() {
            if !ok(*x) {
                return Err(format!("{qq:?}[{i}] is {x:e}, {what}"));
            }
        }
        Ok(true)
    };
    let lev = s.lev();
    let near_one = lev.as_ref().is_none_or(|h| h.iter().any(|x| *x > 1. - 1e-6));
    let scale = 1. + q.sumw() + m.like.abs();
    // a predictor of zero is no model for a link that is negative everywhere
    if q.k.negdom() && !q.icpt && matches!(qq, Q::PLr | Q::LrTest | Q::WaldTest | Q::ScoreTest | Q::PExact) {
        return Ok(false);
    }
    match qq {
        Q::PLr => each(&|x| (0. ..=1.).contains(&x), "not a probability"),
        Q::PWald if !exact => each(&|x| (0. ..=1.).contains(&x), "not a probability"),
        Q::PExact if !exact => each(&|x| (0. ..=1.).contains(&x), "not a probability"),
        Q::Leverage => {
            each(&|x| (-tol..=1. + tol).contains(&x), "not a leverage")?;
            let sum: f64 = v.iter().sum();
            let k = q.npar as f64;
            if !pen && (sum - k).abs() > tol * k {
                return Err(format!("leverages add up to {sum} instead of {k}"));
            }
            if sum > k * (1. + tol) {
                return Err(format!("leverages add up to {sum}, more than {k}"));
            }
            Ok(true)
        }
        Q::Deviance => each(&|x| x >= -1e-9 * scale, "negative"),
        Q::Dispersion if !exact => each(&|x| x >= 0., "negative"),
        Q::ResidDev => {
            each(&|x| x.is_finite(), "not a residual")?;
            for i in 0..q.n {
                let e = q.y[i] - s.mu[i];
                if v[i] * e < 0. && e.abs() > 1e-6 * (1. + q.y[i].abs()) {
                    return Err(format!("ResidDev[{i}] is {:e} but the response residual {e:e}", v[i]));
                }
            }
            Ok(true)
        }
        Q::ResidPear | Q::ResidResp | Q::ResidWork | Q::ResidPart => each(&|x| x.is_finite(), "not a residual"),
        Q::ResidDevStd | Q::ResidPearStd if !exact && !near_one => each(&|x| x.is_finite(), "not a residual"),
        Q::Cooks if !exact && !near_one => each(&|x| x >= 0. && x.is_finite(), "not a distance"),
        Q::Covariance if !exact => {
            for i in 0..q.npar {
                let x = v[i * q.npar + i];
                if !(x > 0.) {
                    return Err(format!("the variance of coefficient {i} is {x:e}"));
                }
            }
            Ok(true)
        }
        Q::LrTest if !pen => each(&|x| x >= -1e-8 * scale, "negative"),
        Q::WaldTest | Q::ScoreTest => each(&|x| x >= -1e-8 * scale, "negative"),
        Q::WaldAgainst | Q::ScoreAgainst => each(&|x| x.is_nan() || x >= -1e-8 * scale, "negative"),
        Q::LrAgainst => each(&|x| x.is_nan() || x >= -1e-7 * scale, "negative"),
        Q::RSq if !pen && !exact && q.icpt => each(&|x| (-1e-8..=1. + 1e-8).contains(&x), "not a share"),
        Q::Rss => each(&|x| x >= 0., "negative"),
        Q::Predict => each(
            &|x| match q.k {
                K::Logit | K::Clog => (0. ..=1.).contains(&x),
                K::Bin12 => (0. ..=12.).contains(&x),
                K::Pois | K::ExpLog | K::GamLog | K::IgLog => x >= 0.,
                _ => x.is_finite(),
            },
            "not a mean",
        ),
        Q::ResidQuantile if !exact => {
            let Some(e) = s.quantile() else { return Ok(false) };
            for i in 0..q.n {
                if e[i].abs() < 6. && !v[i].is_finite() {
                    return Err(format!("ResidQuantile[{i}] is {:e}", v[i]));
                }
            }
            Ok(true)
        }
        _ => Ok(false),
    }
}
fn c24_check(s: &Scenario, c: &mut Ctx) -> R<bool> {
    let e = c.main(s, lim(s))?;
    let mut n = 0;
    for t in 0..s.tasks.len() {
        for (i, o) in s.tasks[t].iter().enumerate() {
            let Op::Query { q: qq, .. } = o else { continue };
            let Some(k) = fit_of(&s.tasks[t], i) else { continue };
            let (Some(f), Some(a)) = (e.get(t, k), e.get(t, i)) else {
                return bad(format!("{}: no answer", at(s, t, i)));
            };
            let Out::Fit(m) = &f.out else { continue };
            let Some(d) = data_of(s, t, k) else { continue };
            let w = fopt(&s.tasks[t][k]);
            let q = Prob::new(d, w.l1, w.l2);
            match &a.out {
                Out::Q(QOut::Vals { v, .. }) => match c24_range(&q, m, *qq, v) {
                    Ok(true) => {
                        n += 1;
                        c.compared += 1;
                    }
                    Ok(false) => {}
                    Err(x) => return bad(format!("{} ({:?}): {x}", at(s, t, i), d.fam)),
                },
                // (the reference distributions do not exist for what remains of exact fits)
                Out::Panic(_) if a.fired == 0 => {
                    let st = q.stats(&m.result, m.like);
                    let exact = q.k.dispersed() && !(st.deviance() > 1e-8 * q.sumw());
                    if !exact || !matches!(qq, Q::ResidQuantile | Q::PWald | Q::PExact | Q::PLr) {
                        return bad(format!("{} ({:?}): {}", at(s, t, i), d.fam, brief(&a.out)));
                    }
                }
                _ => {}
            }
        }
    }
    Ok(n > 3)
}


pub const DEFS: &[Def] = &[
    Def {
        id: "C01",
        make: c01_make,
        check: c01_check,
        quick: 8000,
        thorough: 160000,
        rule: "2-4 clients with random sequences of builds, fits and queries on shared and private models, under a seeded preemptive schedule; each client is also run alone and every answer compared. Non-trivial: at least two clients with calls and at least as many context switches as clients.",
    },
    Def {
        id: "C02",
        make: c02_make,
        check: c02_check,
        quick: 5000,
        thorough: 200000,
        rule: "one client, a random history of queries, refits, and models created, used and dropped; every fit and query is repeated in a fresh process with only the calls it depends on, and compared. Non-trivial: more than three answers compared.",
    },
    Def {
        id: "C03",
        make: c03_make,
        check: c03_check,
        quick: 6000,
        thorough: 240000,
        rule: "a session is probed for its LAPACK calls and link callbacks, one or two of these are made to fail (info > 0) or panic, and the later calls are compared with the fault-free session. Non-trivial: a fault fired.",
    },
    Def {
        id: "C04",
        make: c04_make,
        check: c04_check,
        quick: 14000,
        thorough: 560000,
        rule: "a fit is cut at random iteration budgets and resumed from its history, possibly cut again; histories are compared with the uncut fit and resumed fits with the optimality conditions. Non-trivial: at least one fit was cut.",
    },
    Def {
        id: "C05",
        make: c05_make,
        check: c05_check,
        quick: 40000,
        thorough: 1600000,
        rule: "1-4 windows of iterations get a link derivative scaled by a factor between -10 and 1000 (steps too long, too short, backwards); monotonicity, truth of the history, and recovery are checked. Non-trivial: a fault fired.",
    },
    Def {
        id: "C06",
        make: c06_make,
        check: c06_check,
        quick: 12000,
        thorough: 480000,
        rule: "failing factorisations and NaN/infinite link values at random points of the initial guess and the iterations; every Ok is checked against the optimality conditions of the reference model. Non-trivial: a fault fired.",
    },
    Def {
        id: "C07",
        make: c07_make,
        check: c07_check,
        quick: 12000,
        thorough: 480000,
        rule: "sessions that make the library warn; its writes to stderr fail with EPIPE, ENOSPC, EIO, EAGAIN, EINTR or are cut short; every outcome is compared with the session in which they succeed. Non-trivial: a write failed.",
    },
    Def {
        id: "C08",
        make: c08_make,
        check: c08_check,
        quick: 13000,
        thorough: 520000,
        rule: "sessions of statistics that refit reduced problems, with failures inside nested refits; each answer is compared with independent fits by the reference model, and repeated answers with the first. Non-trivial: a nested statistic was asked for and the parent fit was not disturbed.",
    },
    Def {
        id: "C09",
        make: c09_make,
        check: c09_check,
        quick: 20000,
        thorough: 800000,
        rule: "every ddot/gemv/gemm sums in a freshly drawn order and blocking, in half the runs with factorisation results jittered by rounding; all answers are compared with the reference model. Non-trivial: more than two answers compared.",
    },
    Def {
        id: "C10",
        make: c10_make,
        check: c10_check,
        quick: 3000,
        thorough: 120000,
        rule: "1-3 interleaved clients build the same specification with shuffled and repeated builder calls and with misuse in between; build outcomes follow the specification and later answers equal those of the canonical order built alone. Non-trivial: at least two builds judged.",
    },
    Def {
        id: "C11",
        make: c11_make,
        check: c11_check,
        quick: 4500,
        thorough: 180000,
        rule: "a sequence of fits with changing penalties and starting points on one model; each is repeated on a fresh model, checked for optimality, and equal problems for equal answers. Non-trivial: more than one fit judged.",
    },
    Def {
        id: "C12",
        make: c12_make,
        check: c12_check,
        quick: 12000,
        thorough: 480000,
        rule: "the session runs again with poisoned or zeroed allocations, another address reuse policy, jumping or frozen clocks and other entropy, and every outcome is compared. Non-trivial: the environment differs from the default.",
    },
    Def {
        id: "C13",
        make: c13_make,
        check: c13_check,
        quick: 12000,
        thorough: 480000,
        rule: "fits with budgets, warm starts, disturbed steps and failures; history, iteration count, likelihoods and result are recomputed from the raw data. Non-trivial: at least one trace judged.",
    },
    Def {
        id: "C14",
        make: c14_make,
        check: c14_check,
        quick: 4500,
        thorough: 180000,
        rule: "1-3 interleaved clients with random sessions over all families and settings, in 40% of runs with failing LAPACK calls or panicking links, in 30% with poisoned memory; every answer is compared with the reference model. Non-trivial: more than three answers judged.",
    },
    Def {
        id: "C15",
        make: c15_make,
        check: c15_check,
        quick: 3000,
        thorough: 120000,
        rule: "a session of builds (also refused ones), fits (also cut, resumed and failing ones) and queries (also failing and panicking ones) is repeated 14 times, on the same data or each time on other data of the same shape; at the end of each round everything is dropped and the simulated heap is weighed. Non-trivial: at least three calls a round.",
    },
    Def {
        id: "C16",
        make: c16_make,
        check: c16_check,
        quick: 20000,
        thorough: 800000,
        rule: "one client builds, fits and queries with numbers from anywhere (NaN, infinities, subnormal to 1e308, negative or zero weights, tolerances and penalties), spoiled data, budgets of 0-128 iterations, and link functions and LAPACK that misbehave for 1 call or for ever; every call must return within a step limit, within its budget, and Ok only with finite numbers. Non-trivial: at least a fit and a query.",
    },
    Def {
        id: "C22",
        make: c22_make,
        check: c22_check,
        quick: 7000,
        thorough: 200000,
        rule: "2-4 clients hold the same numbers in arrays laid out by rows, by columns, reversed on both axes, or strided inside larger arrays (garbage in the gaps), and make the same calls, in poisoned memory and under a seeded schedule; answers are compared with each other and with the reference model. Non-trivial: at least two layouts and three answers.",
    },
    Def {
        id: "C23",
        make: c23_make,
        check: c23_check,
        quick: 12000,
        thorough: 400000,
        rule: "Two or three clients hold the same observations: as they are, with the features in other units (scaled by 1e-6..1e6, with standardization also moved by up to 1e6 of their width), or as a model of f32 elements; same fit and queries, under schedules, poisoned memory, reordered and jittered linear algebra and LAPACK failures. Answers that were not hit by a fault must agree: other units to 1e-4 after conversion, single precision to what its rounding allows at the condition of the information. Non-trivial: at least three answers compared.",
    },
    Def {
        id: "C24",
        make: c24_make,
        check: c24_check,
        quick: 12000,
        thorough: 400000,
        rule: "1-2 clients fit data at the edge of what rounding can push over (an observation with a coefficient of its own, exactly balanced features, groups that are fitted exactly) and ordinary data, with sums and factorizations whose rounding the simulator decides and LAPACK failures; every p-value, leverage, residual, variance, distance and test statistic that is answered must lie in its range. Non-trivial: at least four answers judged.",
    },
];
pub fn def(id: &str) -> Option<&'static Def> {
    DEFS.iter().find(|d| d.id == id)
}
/// the scenario of one run: a function of property, seed and run number only
pub fn generate(d: &Def, seed: u64, run: u64, c: &mut Ctx) -> R<Scenario> {
    let h = crate::rng::mix(crate::rng::mix(crate::rng::hash_str(d.id), seed), run);
    let mut r = Rng::new(h);
    let mut s = (d.make)(&mut r, c)?;
    thin(&mut s);
    s.prop = d.id.into();
    s.run = run;
    Ok(s)
}
#[allow(dead_code)]
const _: usize = NSITES;
