//! Scenario ingredients: well-posed data sets, fit options, query lists.
use crate::refm::{K, Prob, cond, kind};
use crate::rng::Rng;
use crate::scen::*;
use glmdrv::{ALL_Q, BCall, Data, Fam, LAYOUTS, Layout, Q};

pub const REAL_FAMS: [Fam; 11] = [
    Fam::Linear,
    Fam::Logistic,
    Fam::LogisticCloglog,
    Fam::Poisson,
    Fam::Binomial12,
    Fam::ExpNegRec,
    Fam::ExpLog,
    Fam::GammaNegRec,
    Fam::GammaLog,
    Fam::IgNegRecSq,
    Fam::IgLog,
];
pub const SIM_FAMS: [Fam; 6] = [
    Fam::SimLinear,
    Fam::SimLogistic,
    Fam::SimPoisson,
    Fam::SimExpLog,
    Fam::SimGammaLog,
    Fam::SimIgLog,
];
pub fn any_fam(r: &mut Rng) -> Fam {
    if r.p(0.3) { *r.pick(&SIM_FAMS) } else { *r.pick(&REAL_FAMS) }
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub fams: Vec<Fam>,
    pub nmax: usize,
    pub pmax: usize,
    pub offset: f64,
    pub varw: f64,
    pub freqw: f64,
    pub noconst: f64,
    pub nostd: f64,
    /// chance of many columns, and of many rows
    pub wide: f64,
    pub long: f64,
    /// chance of a data set well beyond those sizes, in rows or in columns
    pub huge: f64,
}
impl Cfg {
    pub fn all() -> Cfg {
        let mut f = REAL_FAMS.to_vec();
        f.extend(SIM_FAMS);
        Cfg { fams: f, nmax: 40, pmax: 4, offset: 0.3, varw: 0.3, freqw: 0.3, noconst: 0.2, nostd: 0.25, wide: 0.04, long: 0.02, huge: 0.004 }
    }
    pub fn fams(mut self, f: &[Fam]) -> Cfg {
        self.fams = f.to_vec();
        self
    }
    pub fn size(mut self, n: usize, p: usize) -> Cfg {
        self.nmax = n;
        self.pmax = p;
        self
    }
    pub fn concave(mut self) -> Cfg {
        self.fams.retain(|f| kind(*f).concave());
        self
    }
    pub fn l1able(mut self) -> Cfg {
        self.fams.retain(|f| l1_ok(*f));
        self
    }
}
pub fn l1_ok(f: Fam) -> bool {
    matches!(kind(f), K::Lin | K::Logit | K::Pois | K::Bin12 | K::ExpLog | K::GamLog)
}

fn draw_y(k: K, mu: f64, r: &mut Rng, noise: f64) -> f64 {
    match k {
        K::Lin => mu + noise * r.normal(),
        K::Logit | K::Clog => {
            if noise < 0.15 {
                // fractional responses are valid too
                (mu + 0.2 * r.range(-1., 1.)).clamp(0., 1.)
            } else {
                r.p(mu) as u8 as f64
            }
        }
        K::Pois => r.poisson(mu),
        K::Bin12 => (0..12).filter(|_| r.p(mu / 12.)).count() as f64,
        K::ExpNr | K::ExpLog => (mu * r.expo()).max(1e-3 * mu),
        K::GamNr | K::GamLog => (mu * r.gamma(3.) / 3.).max(1e-3 * mu),
        K::IgNr | K::IgLog => mu * (1. + 0.3 * r.range(-1., 1.)),
    }
}

fn attempt(r: &mut Rng, c: &Cfg) -> Data {
    let fam = *r.pick(&c.fams);
    let k = kind(fam);
    let p = if r.p(c.wide) { r.int(5, 9) } else if r.p(0.75) { r.int(1, c.pmax.min(3)) } else { r.int(1, c.pmax) };
    let noconst = r.p(c.noconst);
    let huge = r.p(c.huge);
    let p = if huge && r.p(0.4) { r.int(10, 24) } else { p };
    let kp = p + !noconst as usize;
    let lo = match k {
        K::Logit | K::Clog => 6 * kp + 6,
        _ => 2 * kp + 5,
    };
    let n = if huge {
        let hi = if r.p(0.15) { 3.05 } else { 2.6 };
        (10f64.powf(r.range(2.2, hi)) as usize).max(lo + kp)
    } else if r.p(c.long) { r.int(lo.max(60), 160) } else { r.int(lo.min(c.nmax), c.nmax.max(lo + (kp > 5) as usize * lo / 2)) };
    let mut x = vec![0.; n * p];
    let mut u = vec![vec![0.; p]; n];
    for j in 0..p {
        let ty = r.below(if k.negdom() { 3 } else { 6 });
        let far = if r.p(0.1) { 2.2 } else { 1.3 };
        let (sc, sh) = (10f64.powf(r.range(-far, far)), r.range(-3., 3.) * if r.p(0.08) { 10. } else { 1. });
        let th = r.int(2, 4);
        for i in 0..n {
            // latent in roughly [-1,1]
            let v = match ty {
                0 => r.range(-1., 1.),
                1 => (2. * i as f64 / (n - 1) as f64) - 1.,
                2 => ((i % th == 0) as u8 as f64) * 2. - 1.,
                3 => 0.6 * r.normal(),
                4 if j > 0 => 0.6 * u[i][j - 1] + 0.4 * r.range(-1., 1.),
                _ => (r.int(0, 4) as f64 - 2.) / 2.,
            };
            u[i][j] = v;
            x[i * p + j] = if ty == 2 && !k.negdom() {
                (v + 1.) / 2.
            } else if k.negdom() && noconst {
                sc * (v + 1.5)
            } else {
                sc * (v + sh)
            };
        }
    }
    let mut calls = vec![];
    let mut off = vec![0.; n];
    if r.p(c.offset) {
        let same = r.p(0.12);
        let amp = if r.p(0.3) { 1. } else { 0.4 };
        for o in off.iter_mut() {
            *o = if k.negdom() {
                match k {
                    K::IgNr => -0.02 * r.f(),
                    _ => -0.2 * r.f(),
                }
            } else {
                amp * r.normal()
            };
        }
        if same {
            let o = off[0];
            off.fill(o);
        }
        calls.push(BCall::Offset(off.clone()));
    }
    if r.p(c.varw) {
        let e = r.range(0.3, 1.2);
        let wild = r.p(0.25);
        calls.push(BCall::VarW(
            (0..n).map(|_| if wild { 10f64.powf(r.range(-e, e)) } else { r.range(0.3, 2.5) }).collect(),
        ));
    }
    if r.p(c.freqw) {
        let z = r.below(10);
        let hi = 10f64.powf(r.range(0.7, 2.5)) as usize;
        calls.push(BCall::FreqW(
            (0..n)
                .map(|_| match z {
                    0..=3 => r.int(0, 3),
                    // a few large groups
                    4 if r.p(0.2) => r.int(1, hi),
                    // mostly left out
                    5 => (r.p(0.5)) as usize * r.int(1, 2),
                    6 => 1,
                    _ => r.int(1, 4),
                })
                .collect(),
        ));
    }
    if noconst {
        calls.push(BCall::NoConst);
    }
    if r.p(c.nostd) {
        calls.push(BCall::NoStd);
    }
    for i in (1..calls.len()).rev() {
        let j = r.below(i + 1);
        calls.swap(i, j);
    }
    let amp = r.range(0.1, 1.0) / (p as f64).sqrt();
    let noise = r.range(0.1, 0.6);
    let ysc = if k == K::Lin { 10f64.powf(r.range(-1., 1.)) } else { 1. };
    let beta: Vec<f64> = (0..p).map(|_| amp * r.range(-1., 1.)).collect();
    let base = r.range(-0.6, 0.9);
    let mut y = vec![0.; n];
    for i in 0..n {
        let mut lin: f64 = (0..p).map(|j| beta[j] * u[i][j]).sum();
        let w = match k {
            K::ExpNr | K::GamNr => {
                if noconst {
                    lin = (0..p).map(|j| beta[j].abs() * (u[i][j] + 1.5)).sum();
                    -(0.3 + lin) + off[i]
                } else {
                    -(1.2 + lin) + off[i]
                }
            }
            K::IgNr => {
                if noconst {
                    lin = (0..p).map(|j| beta[j].abs() * (u[i][j] + 1.5)).sum();
                    -(0.1 + 0.3 * lin) + off[i]
                } else {
                    -(0.5 + 0.3 * lin) + off[i]
                }
            }
            K::Pois => 0.8 + base + lin + off[i],
            K::Clog => -0.3 + 0.4 * base + lin + off[i],
            _ => (if noconst { 0. } else { base }) + lin + off[i],
        };
        y[i] = draw_y(k, k.mean(w), r, noise);
        if k == K::Lin {
            y[i] *= ysc;
        }
    }
    if ysc != 1. {
        for c in calls.iter_mut() {
            if let BCall::Offset(v) = c {
                for o in v.iter_mut() {
                    *o *= ysc;
                }
            }
        }
    }
    let layout = if r.p(0.7) { Layout::Rows } else { *r.pick(&LAYOUTS) };
    let vlayout = if r.p(0.8) { None } else { Some(*r.pick(&LAYOUTS)) };
    let ytype = if r.p(0.75) { 0 } else { r.int(1, 3) as u8 };
    if ytype > 0 {
        // single precision loses nothing
        for v in y.iter_mut() {
            *v = *v as f32 as f64;
        }
    }
    Data { fam, n, p, x, y, calls, layout, vlayout, ytype, single: false }
}
/// Is the unpenalised problem one every correct fitter solves comfortably?
pub fn well_posed(d: &Data) -> bool {
    let q = Prob::new(d, 0., 0.);
    // responses that are all at the edge of the domain have no finite link
    let sum: f64 = d.y.iter().sum();
    let edge = match q.k {
        K::Logit | K::Clog => sum <= 0. || sum >= d.n as f64,
        K::Bin12 => sum <= 0. || sum >= 12. * d.n as f64,
        K::Pois => sum <= 0.,
        _ => false,
    };
    if edge {
        return false;
    }
    let eff = q.f.iter().filter(|v| **v > 0.).count();
    if eff < q.npar + 4 {
        return false;
    }
    let Some((b, l)) = q.optimum(None) else { return false };
    let h = q.fisher(&b, false);
    if cond(&h) > 3e4 || !l.is_finite() {
        return false;
    }
    let s = q.stats(&b, l);
    let Some(lev) = s.lev() else { return false };
    if (0..q.n).any(|i| lev[i] > 0.93) {
        return false;
    }
    let g: Vec<f64> = q.lp(&b);
    for i in 0..q.n {
        let w = g[i];
        let ok = match q.k {
            K::Lin => true,
            K::Logit | K::Bin12 => w.abs() < 4.5,
            K::Clog => w > -4. && w < 1.3,
            K::Pois | K::ExpLog | K::GamLog | K::IgLog => w.abs() < 4.,
            K::ExpNr | K::GamNr => w < -0.15 && w > -12.,
            K::IgNr => w < -0.08 && w > -8.,
        };
        if !ok {
            return false;
        }
    }
    let dev = s.deviance();
    let phi = s.phi();
    if !(dev > 1e-4 * q.sumw() && phi.is_finite()) {
        return false;
    }
    // for families with a bounded domain, the optimum must not be near the edge
    // and the usual starting point must lie inside
    if q.k.negdom() {
        let st = q.start();
        if q.lp(&st).iter().any(|w| *w > -0.02) || !q.obj(&st).is_finite() {
            return false;
        }
        // undamped scoring from the start must stay inside
        let mut c = st;
        for _ in 0..12 {
            let gg = q.grad(&c);
            let Some(d) = crate::refm::solve_vec(&q.fisher(&c, true), &gg) else { return false };
            for (a, b) in c.iter_mut().zip(&d) {
                *a += b;
            }
            if q.lp(&c).iter().any(|w| *w > -0.01) {
                return false;
            }
        }
    }
    true
}
pub fn data(r: &mut Rng, c: &Cfg) -> Data {
    for _ in 0..4000 {
        let d = attempt(r, c);
        if well_posed(&d) {
            return d;
        }
    }
    panic!("generator could not produce a well-posed data set for {c:?}");
}
/// Data for checks that compare executions with each other: with chance `odd`
/// something is wrong with the problem (the second value says so).
pub fn data_any(r: &mut Rng, c: &Cfg, odd: f64) -> (Data, bool) {
    let d = data(r, c);
    if !r.p(odd) {
        return (d, false);
    }
    (spoil(r, d), true)
}
fn spoil(r: &mut Rng, mut d: Data) -> Data {
    let k = kind(d.fam);
    let (n, p) = (d.n, d.p);
    // an exact fit makes quantile residuals of the gamma family take minutes (in statrs)
    let exact = matches!(k, K::GamNr | K::GamLog);
    match if exact { *r.pick(&[0, 6, 6, 7]) } else { r.below(8) } {
        // exactly or nearly collinear columns, or a constant one
        0 => {
            let (a, b) = (r.below(p), r.below(p));
            let e = if r.p(0.5) { 0. } else { 10f64.powf(r.range(-12., -5.)) };
            for i in 0..n {
                d.x[i * p + a] = if a == b { 1. } else { d.x[i * p + b] * 2. } + e * r.normal();
            }
        }
        // fewer rows than parameters, or just enough
        1 | 2 => {
            let m = r.int(1, n_par(&d) + 2).min(n);
            d.n = m;
            d.x.truncate(m * p);
            d.y.truncate(m);
            for c in d.calls.iter_mut() {
                match c {
                    BCall::Offset(v) | BCall::VarW(v) => v.truncate(m),
                    BCall::FreqW(v) => v.truncate(m),
                    _ => {}
                }
            }
        }
        // separated or saturated responses
        3 => {
            let t = d.x[r.below(n) * p];
            for i in 0..n {
                let up = d.x[i * p] > t;
                match k {
                    K::Logit | K::Clog => d.y[i] = up as u8 as f64,
                    K::Bin12 => d.y[i] = 12. * up as u8 as f64,
                    K::Pois => d.y[i] = if up { 40. } else { 0. },
                    K::Lin => d.y[i] = 1.,
                    _ => d.y[i] = if up { 1e4 } else { 1e-4 },
                }
            }
        }
        // all responses the same
        4 => {
            let v = d.y[r.below(n)];
            d.y.fill(v);
        }
        // hardly any weight left
        5 => {
            d.calls.retain(|c| !matches!(c, BCall::FreqW(_) | BCall::VarW(_)));
            if r.p(0.5) {
                d.calls.push(BCall::FreqW((0..n).map(|_| r.p(0.15) as usize).collect()));
            } else {
                d.calls.push(BCall::VarW((0..n).map(|_| if r.p(0.3) { 0. } else { 10f64.powf(r.range(-6., 6.)) }).collect()));
            }
        }
        // columns of very different size
        6 => {
            for j in 0..p {
                let s = 10f64.powf(r.range(-9., 9.));
                for i in 0..n {
                    d.x[i * p + j] *= s;
                }
            }
        }
        // one row far out
        _ => {
            let i = r.below(n);
            for j in 0..p {
                d.x[i * p + j] *= 10f64.powf(r.range(0., 4.));
            }
        }
    }
    d
}
/// Any options at all, for problems of any kind.
pub fn fspec_any(r: &mut Rng, f: Fam) -> FSpec {
    let mut o = fspec(r, f, 0., 0.5);
    if l1_ok(f) && r.p(0.1) {
        o.l1 = 10f64.powf(r.range(-2., 2.));
    }
    if o.l1 > 0. || r.p(0.3) {
        o.max_iter = Some(r.int(0, 60));
    }
    o.tol = *r.pick(&[None, None, None, Some(0.), Some(1e-10), Some(1e-6), Some(1e-3), Some(0.1)]);
    o
}
/// Same shape as `d`, differing in a single component.
pub fn sibling(r: &mut Rng, d: &Data) -> Data {
    sibling_any(r, d, false)
}
/// `odd`: the result need not be a well-posed problem
pub fn sibling_any(r: &mut Rng, d: &Data, odd: bool) -> Data {
    for _ in 0..200 {
        let mut s = d.clone();
        let k = kind(d.fam);
        let i = r.below(d.n);
        match r.below(7) {
            0 => {
                let j = r.below(d.n);
                s.y.swap(i, j);
            }
            1 if k == K::Lin => s.y[i] += r.normal() * 0.3,
            1 => s.y.rotate_left(1),
            2 => {
                let c = r.below(d.p);
                s.x[i * d.p + c] = d.x[r.below(d.n) * d.p + c];
            }
            3 => {
                let c = r.below(d.p);
                let f = r.range(0.5, 3.);
                for q in 0..d.n {
                    s.x[q * d.p + c] *= f;
                }
            }
            4 => {
                for c in s.calls.iter_mut() {
                    if let BCall::Offset(v) = c {
                        v.rotate_left(1);
                    }
                }
            }
            5 => {
                for c in s.calls.iter_mut() {
                    if let BCall::VarW(v) = c {
                        v[i] *= 1.7;
                    }
                }
            }
            _ => {
                for c in s.calls.iter_mut() {
                    if let BCall::FreqW(v) = c {
                        v[i] += 1;
                    }
                }
            }
        }
        if s != *d && (odd || well_posed(&s)) {
            return s;
        }
    }
    d.clone()
}
pub fn penalty(r: &mut Rng, f: Fam, l1p: f64, l2p: f64) -> (f64, f64) {
    let l1 = if l1_ok(f) && r.p(l1p) { 10f64.powf(r.range(-1.5, 0.8)) } else { 0. };
    let l2 = if r.p(l2p) { 10f64.powf(if r.p(0.1) { r.range(-6., 4.) } else { r.range(-2., 1.3) }) } else { 0. };
    (l1, l2)
}
/// Fit options that a well-posed problem satisfies.
pub fn fspec(r: &mut Rng, f: Fam, l1p: f64, l2p: f64) -> FSpec {
    let (l1, l2) = penalty(r, f, l1p, l2p);
    let mut o = FSpec { l1, l2, ..FSpec::plain() };
    if l1 > 0. {
        o.max_iter = Some(20000);
        o.tol = Some(1e-13);
    } else if r.p(0.05) {
        o.tol = Some(0.);
    }
    o
}
/// A start of magnitude `m` that is not absurd for the scale of the data.
pub fn start(r: &mut Rng, d: &Data, m: f64) -> Init {
    let q = Prob::new(d, 0., 0.);
    let mut b: Vec<f64> = (0..q.npar).map(|_| m * r.range(-1., 1.)).collect();
    while q.k != K::Lin && q.lp(&b).iter().any(|w| w.abs() > 6.) {
        b.iter_mut().for_each(|x| *x *= 0.6);
        // large offsets are not the start's fault
        if b.iter().all(|x| x.abs() < 1e-9) {
            break;
        }
    }
    Init::Abs(b)
}
pub fn warm(r: &mut Rng, m: f64) -> Init {
    Init::FromFit { slot: 0, mag: if r.p(0.3) { 0. } else { m }, seed: r.u64() >> 1 }
}
pub fn qarg(r: &mut Rng, f: Fam) -> Arg {
    match r.below(4) {
        0 => Arg::AtResult,
        1 if !kind(f).negdom() => Arg::Zeros,
        _ => Arg::Perturb {
            seed: r.u64() >> 1,
            mag: if kind(f).negdom() { 0.02 } else { 10f64.powf(r.range(-3., -0.7)) },
            mode: if r.p(0.7) { 0 } else { r.below(6) as u8 },
        },
    }
}
/// An argument that a careless cache could take for `a`.
pub fn kin(r: &mut Rng, a: &Arg) -> Arg {
    match a {
        Arg::Perturb { seed, mag, mode } => {
            let m = r.below(6) as u8;
            Arg::Perturb { seed: *seed, mag: *mag, mode: if m == *mode { 0 } else { m } }
        }
        a => *a,
    }
}
pub fn cheap(q: Q) -> bool {
    !matches!(q, Q::LooExact | Q::PExact)
}
/// A random multiset of queries; `heavy` is the chance of each nested-refit query.
pub fn queries(r: &mut Rng, k: usize, heavy: f64) -> Vec<Q> {
    let c: Vec<Q> = ALL_Q.iter().copied().filter(|q| cheap(*q)).collect();
    let mut v: Vec<Q> = (0..k).map(|_| *r.pick(&c)).collect();
    for q in [Q::LooExact, Q::PExact] {
        if r.p(heavy) {
            let i = r.below(v.len() + 1);
            v.insert(i, q);
        }
    }
    v
}
pub fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = r.below(i + 1);
        v.swap(i, j);
    }
}
