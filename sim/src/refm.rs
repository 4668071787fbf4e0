//! Independent reference model: penalised maximum likelihood for GLMs and the
//! documented statistics, from raw data and definitions only.
use glmdrv::{BCall, Data, Fam};
use statrs::distribution::{
    ChiSquared, ContinuousCDF, Exp, FisherSnedecor, Gamma as GammaD, Normal, StudentsT,
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Lin,
    Logit,
    Clog,
    Pois,
    Bin12,
    ExpNr,
    ExpLog,
    GamNr,
    GamLog,
    IgNr,
    IgLog,
}
pub fn kind(f: Fam) -> K {
    match f {
        Fam::Linear | Fam::SimLinear => K::Lin,
        Fam::Logistic | Fam::SimLogistic => K::Logit,
        Fam::LogisticCloglog => K::Clog,
        Fam::Poisson | Fam::SimPoisson => K::Pois,
        Fam::Binomial12 => K::Bin12,
        Fam::ExpNegRec => K::ExpNr,
        Fam::ExpLog | Fam::SimExpLog => K::ExpLog,
        Fam::GammaNegRec => K::GamNr,
        Fam::GammaLog | Fam::SimGammaLog => K::GamLog,
        Fam::IgNegRecSq => K::IgNr,
        Fam::IgLog | Fam::SimIgLog => K::IgLog,
    }
}
/// xlogx
fn xl(x: f64) -> f64 {
    if x == 0. { 0. } else { x * x.ln() }
}
impl K {
    pub fn dispersed(self) -> bool {
        matches!(self, K::Lin | K::GamNr | K::GamLog | K::IgNr | K::IgLog)
    }
    pub fn negdom(self) -> bool {
        matches!(self, K::ExpNr | K::GamNr | K::IgNr)
    }
    /// is the log-likelihood concave in the linear predictor
    pub fn concave(self) -> bool {
        self != K::IgLog
    }
    pub fn canonical(self) -> bool {
        !matches!(self, K::Clog | K::ExpLog | K::GamLog | K::IgLog)
    }
    pub fn positive_y(self) -> bool {
        matches!(self, K::ExpNr | K::ExpLog | K::GamNr | K::GamLog | K::IgNr | K::IgLog)
    }
    pub fn link(self, y: f64) -> f64 {
        match self {
            K::Lin => y,
            K::Logit => (y / (1. - y)).ln(),
            K::Clog => (-(-y).ln_1p()).ln(),
            K::Pois | K::ExpLog | K::GamLog | K::IgLog => y.ln(),
            K::Bin12 => (y / (12. - y)).ln(),
            K::ExpNr | K::GamNr => -1. / y,
            K::IgNr => -0.5 / (y * y),
        }
    }
    pub fn mean(self, w: f64) -> f64 {
        match self {
            K::Lin => w,
            K::Logit => 1. / (1. + (-w).exp()),
            K::Clog => -(-w.exp()).exp_m1(),
            K::Pois | K::ExpLog | K::GamLog | K::IgLog => w.exp(),
            K::Bin12 => 12. / (1. + (-w).exp()),
            K::ExpNr | K::GamNr => -1. / w,
            K::IgNr => 1. / (-2. * w).sqrt(),
        }
    }
    pub fn nat(self, w: f64) -> f64 {
        match self {
            K::Clog => w.exp().exp_m1().ln(),
            K::ExpLog | K::GamLog => -(-w).exp(),
            K::IgLog => -0.5 * (-2. * w).exp(),
            _ => w,
        }
    }
    pub fn dnat(self, w: f64) -> f64 {
        match self {
            K::Clog => {
                let e = w.exp();
                e / -(-e).exp_m1()
            }
            K::ExpLog | K::GamLog => (-w).exp(),
            K::IgLog => (-2. * w).exp(),
            _ => 1.,
        }
    }
    pub fn var(self, m: f64) -> f64 {
        match self {
            K::Lin => 1.,
            K::Logit | K::Clog => m * (1. - m),
            K::Pois => m,
            K::Bin12 => m * (12. - m) / 12.,
            K::ExpNr | K::ExpLog | K::GamNr | K::GamLog => m * m,
            K::IgNr | K::IgLog => m * m * m,
        }
    }
    /// log-likelihood term in the natural parameter
    pub fn ll_nat(self, y: f64, e: f64) -> f64 {
        match self {
            K::Lin => y * e - 0.5 * e * e,
            K::Logit | K::Clog => {
                if e < 0. {
                    y * e - e.exp().ln_1p()
                } else {
                    (y - 1.) * e - (-e).exp().ln_1p()
                }
            }
            K::Pois => y * e - e.exp(),
            K::Bin12 => {
                let l = if e > 0. { e + (-e).exp().ln_1p() } else { e.exp().ln_1p() };
                y * e - 12. * l
            }
            K::ExpNr | K::ExpLog | K::GamNr | K::GamLog => y * e + (-e).ln(),
            K::IgNr | K::IgLog => y * e + (-2. * e).sqrt(),
        }
    }
    pub fn ll(self, y: f64, w: f64) -> f64 {
        self.ll_nat(y, self.nat(w))
    }
    pub fn sat(self, y: f64) -> f64 {
        match self {
            K::Lin => 0.5 * y * y,
            K::Logit | K::Clog => xl(y) + xl(1. - y),
            K::Pois => xl(y) - y,
            K::Bin12 => xl(y) + xl(12. - y) - xl(12.),
            K::ExpNr | K::ExpLog | K::GamNr | K::GamLog => -(1. + y.ln()),
            K::IgNr | K::IgLog => 0.5 / y,
        }
    }
}

pub type Mat = Vec<Vec<f64>>;
pub fn mzero(r: usize, c: usize) -> Mat {
    vec![vec![0.; c]; r]
}
/// Solve A X = B by Gaussian elimination with partial pivoting.
pub fn solve(a: &Mat, b: &Mat) -> Option<Mat> {
    let n = a.len();
    let m = b.first().map_or(0, |r| r.len());
    let mut a = a.clone();
    let mut b = b.clone();
    for i in 0..n {
        let p = (i..n).max_by(|x, y| a[*x][i].abs().total_cmp(&a[*y][i].abs()))?;
        if !(a[p][i].abs() > 0.) || !a[p][i].is_finite() {
            return None;
        }
        a.swap(i, p);
        b.swap(i, p);
        for r in i + 1..n {
            let f = a[r][i] / a[i][i];
            if f != 0. {
                for c in i..n {
                    a[r][c] -= f * a[i][c];
                }
                for c in 0..m {
                    b[r][c] -= f * b[i][c];
                }
            }
        }
    }
    for i in (0..n).rev() {
        for c in 0..m {
            let mut s = b[i][c];
            for k in i + 1..n {
                s -= a[i][k] * b[k][c];
            }
            b[i][c] = s / a[i][i];
        }
    }
    Some(b)
}
pub fn solve_vec(a: &Mat, b: &[f64]) -> Option<Vec<f64>> {
    let m: Mat = b.iter().map(|v| vec![*v]).collect();
    Some(solve(a, &m)?.into_iter().map(|r| r[0]).collect())
}
pub fn inv(a: &Mat) -> Option<Mat> {
    let n = a.len();
    let mut i = mzero(n, n);
    for (k, r) in i.iter_mut().enumerate() {
        r[k] = 1.;
    }
    solve(a, &i)
}
pub fn mul(a: &Mat, b: &Mat) -> Mat {
    let (r, k, c) = (a.len(), b.len(), b.first().map_or(0, |x| x.len()));
    let mut o = mzero(r, c);
    for i in 0..r {
        for t in 0..k {
            let v = a[i][t];
            for j in 0..c {
                o[i][j] += v * b[t][j];
            }
        }
    }
    o
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn mv(a: &Mat, v: &[f64]) -> Vec<f64> {
    a.iter().map(|r| dot(r, v)).collect()
}
pub fn quad(a: &Mat, v: &[f64]) -> f64 {
    dot(v, &mv(a, v))
}
/// crude condition number of a symmetric positive matrix after diagonal scaling
pub fn cond(a: &Mat) -> f64 {
    let n = a.len();
    let mut s = a.clone();
    for i in 0..n {
        for j in 0..n {
            s[i][j] = a[i][j] / (a[i][i] * a[j][j]).sqrt();
        }
    }
    match inv(&s) {
        None => f64::INFINITY,
        Some(v) => {
            let f = |m: &Mat| {
                m.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0., f64::max)
            };
            let c = f(&s) * f(&v);
            if c.is_finite() { c } else { f64::INFINITY }
        }
    }
}

/// A problem: raw data plus penalty scales.
#[derive(Clone, Debug)]
pub struct Prob {
    pub k: K,
    pub n: usize,
    pub x: Mat,
    pub y: Vec<f64>,
    pub off: Vec<f64>,
    pub has_off: bool,
    pub w: Vec<f64>,
    pub has_w: bool,
    pub f: Vec<f64>,
    pub has_f: bool,
    pub icpt: bool,
    pub std: bool,
    /// penalty scale of each non-intercept coefficient
    pub sc: Vec<f64>,
    /// centring used only for conditioning the search
    pub l1: f64,
    pub l2: f64,
    pub npar: usize,
}
pub fn scales(x: &Mat, w: &[f64], f: &[f64], n: usize, p: usize) -> Vec<f64> {
    // weighted sample standard deviation with the effective sample size
    let tot: f64 = (0..n).map(|i| w[i] * f[i]).sum();
    let v2: f64 = (0..n).map(|i| w[i] * w[i] * f[i]).sum();
    let neff = tot * tot / v2;
    (0..p)
        .map(|j| {
            let m = (0..n).map(|i| w[i] * f[i] * x[i][j]).sum::<f64>() / tot;
            let v = (0..n).map(|i| w[i] * f[i] * (x[i][j] - m).powi(2)).sum::<f64>() / tot * neff
                / (neff - 1.);
            if v > 0. { v.sqrt() } else { 1. }
        })
        .collect()
}
impl Prob {
    pub fn new(d: &Data, l1: f64, l2: f64) -> Prob {
        let (n, p) = (d.n, d.p);
        let mut icpt = true;
        let mut std = true;
        let (mut off, mut w, mut f) = (None, None, None);
        for c in &d.calls {
            match c {
                BCall::Offset(v) => off = Some(v.clone()),
                BCall::VarW(v) => w = Some(v.clone()),
                BCall::FreqW(v) => f = Some(v.iter().map(|x| *x as f64).collect()),
                BCall::NoConst => icpt = false,
                BCall::NoStd => std = false,
            }
        }
        let x: Mat = (0..n).map(|i| d.x[i * p..(i + 1) * p].to_vec()).collect();
        let (has_off, has_w, has_f) = (off.is_some(), w.is_some(), f.is_some());
        let y = match kind(d.fam) {
            K::Pois | K::Bin12 => d.y.iter().map(|v| v.trunc()).collect(),
            _ => d.y.clone(),
        };
        let mut o = Prob {
            k: kind(d.fam),
            n,
            x,
            y,
            off: off.unwrap_or_else(|| vec![0.; n]),
            has_off,
            w: w.unwrap_or_else(|| vec![1.; n]),
            has_w,
            f: f.unwrap_or_else(|| vec![1.; n]),
            has_f,
            icpt,
            std,
            sc: vec![1.; p],
            l1,
            l2,
            npar: p + icpt as usize,
        };
        o.rescale();
        o
    }
    fn rescale(&mut self) {
        let p = self.sc.len();
        if self.std {
            self.sc = scales(&self.x, &self.w, &self.f, self.n, p);
        } else {
            self.sc = vec![1.; p];
        }
    }
    /// drop observation i (frequency zero), re-standardising
    pub fn without_obs(&self, i: usize) -> Prob {
        let mut o = self.clone();
        o.f[i] = 0.;
        o.rescale();
        o
    }
    /// drop a coefficient, keeping the scales of the others
    pub fn without_par(&self, k: usize) -> Prob {
        let mut o = self.clone();
        if self.icpt && k == 0 {
            o.icpt = false;
        } else {
            let c = k - self.icpt as usize;
            for r in o.x.iter_mut() {
                r.remove(c);
            }
            o.sc.remove(c);
        }
        o.npar -= 1;
        o
    }
    /// the full row of the design matrix in external coordinates
    pub fn row(&self, i: usize) -> Vec<f64> {
        let mut r = Vec::with_capacity(self.npar);
        if self.icpt {
            r.push(1.);
        }
        r.extend_from_slice(&self.x[i]);
        r
    }
    pub fn lp(&self, b: &[f64]) -> Vec<f64> {
        (0..self.n)
            .map(|i| {
                let mut s = self.off[i];
                let o = self.icpt as usize;
                if self.icpt {
                    s += b[0];
                }
                for j in 0..self.x[i].len() {
                    s += self.x[i][j] * b[j + o];
                }
                s
            })
            .collect()
    }
    fn pen_scale(&self, k: usize) -> f64 {
        // scale of coefficient k in the penalty (0 for the intercept)
        if self.icpt {
            if k == 0 { 0. } else { self.sc[k - 1] }
        } else {
            self.sc[k]
        }
    }
    pub fn pen1(&self, b: &[f64]) -> f64 {
        self.l1 * (0..self.npar).map(|k| (b[k] * self.pen_scale(k)).abs()).sum::<f64>()
    }
    pub fn pen2(&self, b: &[f64]) -> f64 {
        0.5 * self.l2 * (0..self.npar).map(|k| (b[k] * self.pen_scale(k)).powi(2)).sum::<f64>()
    }
    pub fn loglik(&self, b: &[f64]) -> f64 {
        let w = self.lp(b);
        (0..self.n)
            .map(|i| {
                if self.f[i] * self.w[i] == 0. {
                    0.
                } else {
                    self.f[i] * self.w[i] * self.k.ll(self.y[i], w[i])
                }
            })
            .sum()
    }
    pub fn obj(&self, b: &[f64]) -> f64 {
        self.loglik(b) - self.pen1(b) - self.pen2(b)
    }
    /// gradient of the smooth part (data - L2)
    pub fn grad(&self, b: &[f64]) -> Vec<f64> {
        let w = self.lp(b);
        let mut g = vec![0.; self.npar];
        for i in 0..self.n {
            let c = self.f[i] * self.w[i];
            if c == 0. {
                continue;
            }
            let e = c * self.k.dnat(w[i]) * (self.y[i] - self.k.mean(w[i]));
            for (g, x) in g.iter_mut().zip(self.row(i)) {
                *g += e * x;
            }
        }
        for k in 0..self.npar {
            g[k] -= self.l2 * self.pen_scale(k).powi(2) * b[k];
        }
        g
    }
    pub fn fisher(&self, b: &[f64], reg: bool) -> Mat {
        let w = self.lp(b);
        let mut h = mzero(self.npar, self.npar);
        for i in 0..self.n {
            let c = self.f[i] * self.w[i];
            if c == 0. {
                continue;
            }
            let d = self.k.dnat(w[i]);
            let v = c * d * d * self.k.var(self.k.mean(w[i]));
            let r = self.row(i);
            for a in 0..self.npar {
                for e in 0..self.npar {
                    h[a][e] += v * r[a] * r[e];
                }
            }
        }
        if reg {
            for k in 0..self.npar {
                h[k][k] += self.l2 * self.pen_scale(k).powi(2);
            }
        }
        h
    }
    /// Is this starting point so far out that full Newton steps overflow?
    pub fn far(&self, b: &[f64]) -> bool {
        let big = |b: &[f64]| self.lp(b).iter().any(|v| !(v.abs() < 60.));
        if b.len() != self.npar || big(b) || !self.obj(b).is_finite() {
            return true;
        }
        let Some(d) = solve_vec(&self.fisher(b, true), &self.grad(b)) else { return true };
        let n: Vec<f64> = b.iter().zip(&d).map(|(a, c)| a + c).collect();
        big(&n)
    }
    /// Fisher scoring converges linearly, at a rate set by how far the expected
    /// information is from the observed one at the optimum.  Is it too slow
    /// here for the default iteration limit?
    pub fn slow(&self) -> bool {
        if self.l1 > 0. {
            return true;
        }
        let Some((b, _)) = self.optimum(None) else { return true };
        let p = self.npar;
        let Some(hi) = inv(&self.fisher(&b, true)) else { return true };
        let mut j = mzero(p, p);
        for k in 0..p {
            let e = 1e-5 * (1. + b[k].abs());
            let (mut u, mut v) = (b.clone(), b.clone());
            u[k] += e;
            v[k] -= e;
            let (gu, gv) = (self.grad(&u), self.grad(&v));
            for i in 0..p {
                j[i][k] = -(gu[i] - gv[i]) / (2. * e);
            }
        }
        let m = mul(&hi, &j);
        let mut v: Vec<f64> = (0..p).map(|k| 1. + 0.37 * k as f64).collect();
        let mut rate = 0.;
        for _ in 0..300 {
            let mv = mv(&m, &v);
            let w: Vec<f64> = v.iter().zip(&mv).map(|(a, b)| a - b).collect();
            let n = dot(&w, &w).sqrt();
            rate = n / dot(&v, &v).sqrt();
            if !(n > 1e-200) {
                break;
            }
            v = w.iter().map(|x| x / n).collect();
        }
        !(rate < 0.75)
    }
    pub fn sumw(&self) -> f64 {
        (0..self.n).map(|i| self.f[i] * self.w[i]).sum()
    }
    pub fn nobs(&self) -> f64 {
        self.f.iter().sum()
    }
    pub fn neff(&self) -> f64 {
        if !self.has_w {
            return self.nobs();
        }
        let v2: f64 = (0..self.n).map(|i| self.w[i] * self.w[i] * self.f[i]).sum();
        self.sumw().powi(2) / v2
    }
    /// weighted column means, for conditioning the search
    fn centre(&self) -> Vec<f64> {
        let t = self.sumw();
        (0..self.sc.len())
            .map(|j| (0..self.n).map(|i| self.w[i] * self.f[i] * self.x[i][j]).sum::<f64>() / t)
            .collect()
    }

    /// Distance to optimality at b: an upper estimate of the objective gap from
    /// one (proximal) Newton model.  None if b is outside the domain.
    pub fn decrement(&self, b: &[f64]) -> Option<f64> {
        let g = self.grad(b);
        let h = self.fisher(b, true);
        if g.iter().any(|v| !v.is_finite()) {
            return None;
        }
        if self.l1 == 0. {
            let d = solve_vec(&h, &g)?;
            return Some(0.5 * dot(&g, &d));
        }
        let d = self.prox_dir(b, &g, &h);
        let nb: Vec<f64> = b.iter().zip(&d).map(|(a, c)| a + c).collect();
        let m = dot(&g, &d) - 0.5 * quad(&h, &d) - self.pen1(&nb) + self.pen1(b);
        Some(m)
    }
    /// minimiser direction of the proximal quadratic model, by coordinate descent
    fn prox_dir(&self, b: &[f64], g: &[f64], h: &Mat) -> Vec<f64> {
        let p = self.npar;
        let mut d = vec![0.; p];
        let mut hd = vec![0.; p];
        for _ in 0..20000 {
            let mut mx = 0.0f64;
            for k in 0..p {
                let a = h[k][k];
                if !(a > 0.) {
                    continue;
                }
                let r = g[k] - (hd[k] - a * d[k]);
                let t = self.l1 * self.pen_scale(k);
                // maximise r*u - a u^2/2 - t|b+u|
                let z = a * b[k] + r;
                let nb = if z > t {
                    (z - t) / a
                } else if z < -t {
                    (z + t) / a
                } else {
                    0.
                };
                let u = nb - b[k];
                let du = u - d[k];
                if du != 0. {
                    for j in 0..p {
                        hd[j] += h[j][k] * du;
                    }
                    d[k] = u;
                    mx = mx.max(du.abs() * a.sqrt());
                }
            }
            if mx < 1e-13 {
                break;
            }
        }
        d
    }
    pub fn start(&self) -> Vec<f64> {
        let t = self.sumw();
        let yb = (0..self.n).map(|i| self.w[i] * self.f[i] * self.y[i]).sum::<f64>() / t;
        // weighted least squares of the link of the shrunken response
        let p = self.npar;
        let mut h = mzero(p, p);
        let mut g = vec![0.; p];
        for i in 0..self.n {
            let c = self.f[i] * self.w[i];
            let r = self.row(i);
            let z = self.k.link(0.5 * (self.y[i] + yb)) - self.off[i];
            for a in 0..p {
                g[a] += c * r[a] * z;
                for b in 0..p {
                    h[a][b] += c * r[a] * r[b];
                }
            }
        }
        for (k, r) in h.iter_mut().enumerate() {
            r[k] *= 1. + 1e-9;
        }
        let b = solve_vec(&h, &g).unwrap_or_else(|| vec![0.; p]);
        if self.obj(&b).is_finite() {
            return b;
        }
        let mut c = vec![0.; p];
        if self.icpt {
            c[0] = self.k.link(yb)
                - (0..self.n).map(|i| self.w[i] * self.f[i] * self.off[i]).sum::<f64>() / t;
        }
        c
    }
    /// Maximise the penalised likelihood.  None if no well-behaved optimum is found.
    pub fn optimum(&self, from: Option<&[f64]>) -> Option<(Vec<f64>, f64)> {
        // work in centred, scaled coordinates
        let p = self.npar;
        let o = self.icpt as usize;
        let cen = if self.icpt { self.centre() } else { vec![0.; self.sc.len()] };
        let csc = scales(&self.x, &self.w, &self.f, self.n, self.sc.len());
        let mut q = self.clone();
        for r in q.x.iter_mut() {
            for j in 0..r.len() {
                r[j] = (r[j] - cen[j]) / csc[j];
            }
        }
        for j in 0..self.sc.len() {
            q.sc[j] = self.sc[j] / csc[j];
        }
        let to_int = |b: &[f64]| {
            let mut c = b.to_vec();
            for j in 0..p - o {
                if self.icpt {
                    c[0] += b[j + o] * cen[j];
                }
                c[j + o] = b[j + o] * csc[j];
            }
            c
        };
        let to_ext = |b: &[f64]| {
            let mut c = b.to_vec();
            for j in 0..p - o {
                c[j + o] = b[j + o] / csc[j];
                if self.icpt {
                    c[0] -= c[j + o] * cen[j];
                }
            }
            c
        };
        let mut b = match from {
            Some(f) => to_int(f),
            None => q.start(),
        };
        let mut l = q.obj(&b);
        if !l.is_finite() {
            b = q.start();
            l = q.obj(&b);
            if !l.is_finite() {
                return None;
            }
        }
        let mut small = 0;
        for _ in 0..400 {
            let g = q.grad(&b);
            let h = q.fisher(&b, true);
            let (d, m) = if q.l1 == 0. {
                let d = solve_vec(&h, &g)?;
                let m = 0.5 * dot(&g, &d);
                (d, m)
            } else {
                let d = q.prox_dir(&b, &g, &h);
                let nb: Vec<f64> = b.iter().zip(&d).map(|(a, c)| a + c).collect();
                let m = dot(&g, &d) - 0.5 * quad(&h, &d) - q.pen1(&nb) + q.pen1(&b);
                (d, m)
            };
            if !m.is_finite() {
                return None;
            }
            if m.abs() < 1e-13 * (1. + l.abs()) {
                small += 1;
            }
            let mut t = 1.;
            let mut moved = false;
            for _ in 0..60 {
                let nb: Vec<f64> = b.iter().zip(&d).map(|(a, c)| a + t * c).collect();
                let nl = q.obj(&nb);
                if nl.is_finite() && (nl > l || (small > 0 && nl >= l - 1e-13 * (1. + l.abs()))) {
                    b = nb;
                    l = nl;
                    moved = true;
                    break;
                }
                t *= 0.5;
            }
            if !moved || small >= 3 {
                break;
            }
        }
        let dec = q.decrement(&b)?;
        if !(dec.abs() < 1e-10 * (1. + l.abs())) {
            return None;
        }
        let e = to_ext(&b);
        let l = self.obj(&e);
        if l.is_finite() { Some((e, l)) } else { None }
    }

    // ------------------------------------------------------------ statistics
    pub fn stats<'a>(&'a self, b: &'a [f64], like: f64) -> Stats<'a> {
        let lp = self.lp(b);
        let mu: Vec<f64> = lp.iter().map(|w| self.k.mean(*w)).collect();
        Stats { p: self, b, lp, mu, like }
    }
    /// null model: (loglik, params)
    pub fn null(&self) -> Option<(f64, Vec<f64>)> {
        let mut par = vec![0.; self.npar];
        let mut q = self.clone();
        q.x = vec![vec![]; self.n];
        q.sc = vec![];
        q.l1 = 0.;
        q.l2 = 0.;
        q.npar = self.icpt as usize;
        if self.icpt {
            let b = if self.has_off {
                q.optimum(None)?.0[0]
            } else {
                let t = self.sumw();
                self.k.link((0..self.n).map(|i| self.w[i] * self.f[i] * self.y[i]).sum::<f64>() / t)
            };
            par[0] = b;
            let l = q.loglik(&[b]);
            if l.is_finite() { Some((l, par)) } else { None }
        } else {
            let l = q.loglik(&[]);
            if l.is_finite() { Some((l, par)) } else { None }
        }
    }
}
pub struct Stats<'a> {
    pub p: &'a Prob,
    pub b: &'a [f64],
    pub lp: Vec<f64>,
    pub mu: Vec<f64>,
    pub like: f64,
}
impl Stats<'_> {
    pub fn resid(&self) -> Vec<f64> {
        (0..self.p.n).map(|i| self.p.y[i] - self.mu[i]).collect()
    }
    pub fn dev_terms(&self) -> Vec<f64> {
        let p = self.p;
        (0..p.n)
            .map(|i| 2. * p.w[i] * (p.k.sat(p.y[i]) - p.k.ll(p.y[i], self.lp[i])))
            .collect()
    }
    pub fn deviance(&self) -> f64 {
        dot(&self.dev_terms(), &self.p.f)
    }
    pub fn phi(&self) -> f64 {
        let p = self.p;
        if !p.k.dispersed() {
            return 1.;
        }
        let k = p.npar as f64;
        let ne = p.neff();
        let s = if k >= ne { 0. } else { (1. - k / ne) * p.sumw() };
        self.deviance() / s
    }
    pub fn sum_log_w(&self) -> f64 {
        (0..self.p.n).map(|i| self.p.f[i] * self.p.w[i].ln()).sum()
    }
    pub fn finv(&self) -> Option<Mat> {
        inv(&self.p.fisher(self.b, true))
    }
    pub fn cov(&self) -> Option<Mat> {
        let fi = self.finv()?;
        let fd = self.p.fisher(self.b, false);
        let mut c = mul(&mul(&fi, &fd), &fi);
        let phi = self.phi();
        for r in c.iter_mut() {
            for v in r.iter_mut() {
                *v *= phi;
            }
        }
        Some(c)
    }
    pub fn hat(&self) -> Option<Mat> {
        let p = self.p;
        let fi = self.finv()?;
        let rows: Mat = (0..p.n).map(|i| p.row(i)).collect();
        let t = mul(&rows, &fi);
        let mut h = mzero(p.n, p.n);
        for i in 0..p.n {
            let l = p.k.var(self.mu[i]) * p.k.dnat(self.lp[i]);
            for j in 0..p.n {
                h[i][j] = l * dot(&t[i], &rows[j]) * p.f[j] * p.w[j] * p.k.dnat(self.lp[j]);
            }
        }
        Some(h)
    }
    pub fn lev(&self) -> Option<Vec<f64>> {
        let h = self.hat()?;
        Some((0..self.p.n).map(|i| h[i][i]).collect())
    }
    pub fn pear(&self) -> Vec<f64> {
        let p = self.p;
        (0..p.n).map(|i| p.w[i].sqrt() * (p.y[i] - self.mu[i]) / p.k.var(self.mu[i]).sqrt()).collect()
    }
    pub fn infl(&self) -> Option<Mat> {
        let p = self.p;
        let h = self.lev()?;
        let fi = self.finv()?;
        Some(
            (0..p.n)
                .map(|i| {
                    let c = p.f[i] * p.w[i] * p.k.dnat(self.lp[i]) * (p.y[i] - self.mu[i])
                        / (1. - h[i]);
                    mv(&fi, &p.row(i)).iter().map(|v| v * c).collect()
                })
                .collect(),
        )
    }
    pub fn student(&self) -> Option<Vec<f64>> {
        let p = self.p;
        let h = self.lev()?;
        let d = self.dev_terms();
        let r = self.pear();
        let dev = self.deviance();
        let k = p.npar as f64;
        let v1 = p.sumw();
        let v2: f64 = (0..p.n).map(|i| p.f[i] * p.w[i] * p.w[i]).sum();
        Some(
            (0..p.n)
                .map(|i| {
                    let q = h[i] / (1. - h[i]);
                    let dl = d[i] + q * (q + 2.) * r[i] * r[i];
                    let s = if p.k.dispersed() {
                        let tot = dev - p.f[i] * (d[i] + q * r[i] * r[i]);
                        let sc = if p.has_w {
                            let a = v1 - p.f[i] * p.w[i];
                            let b = v2 - p.f[i] * p.w[i] * p.w[i];
                            a - b / a * k
                        } else {
                            p.nobs() - k - p.f[i]
                        };
                        dl / (tot / sc)
                    } else {
                        dl
                    };
                    (p.y[i] - self.mu[i]).signum() * s.sqrt()
                })
                .collect(),
        )
    }
    pub fn work(&self) -> Vec<f64> {
        let p = self.p;
        (0..p.n)
            .map(|i| (p.y[i] - self.mu[i]) / (p.k.dnat(self.lp[i]) * p.k.var(self.mu[i])))
            .collect()
    }
    pub fn part(&self) -> Mat {
        let p = self.p;
        let w = self.work();
        let o = p.icpt as usize;
        let t = p.sumw();
        (0..p.n)
            .map(|i| {
                (0..p.x[i].len())
                    .map(|j| {
                        let m = if p.icpt {
                            (0..p.n).map(|r| p.f[r] * p.w[r] * p.x[r][j]).sum::<f64>() / t
                        } else {
                            0.
                        };
                        w[i] + (p.x[i][j] - m) * self.b[j + o]
                    })
                    .collect()
            })
            .collect()
    }
    /// gradient of the penalised likelihood at `b` with the sign convention for L1
    pub fn score_at(&self, b: &[f64]) -> Vec<f64> {
        let p = self.p;
        let mut g = p.grad(b);
        for k in 0..p.npar {
            let s = p.pen_scale(k);
            if s != 0. && b[k] != 0. {
                g[k] -= p.l1 * s * b[k].signum();
            }
        }
        g
    }
    pub fn p_wald(&self) -> Option<Vec<f64>> {
        let c = self.cov()?;
        let ndf = self.p.nobs() - self.p.npar as f64;
        let mut o = vec![];
        for k in 0..self.p.npar {
            let z = (self.b[k] / c[k][k].sqrt()).abs();
            o.push(if self.p.k.dispersed() {
                2. * StudentsT::new(0., 1., ndf).ok()?.sf(z)
            } else {
                2. * Normal::standard().sf(z)
            });
        }
        Some(o)
    }
    pub fn p_exact_one(&self, dev_red: f64) -> Option<f64> {
        let dd = dev_red - self.deviance();
        let ndf = self.p.nobs() - self.p.npar as f64;
        Some(if self.p.k.dispersed() {
            FisherSnedecor::new(1., ndf).ok()?.sf(dd / self.phi())
        } else {
            1. - ChiSquared::new(1.).ok()?.cdf(dd)
        })
    }
    pub fn quantile(&self) -> Option<Vec<f64>> {
        let p = self.p;
        let phi = self.phi();
        let nd = Normal::standard();
        (0..p.n)
            .map(|i| {
                let f = match p.k {
                    K::Lin => Normal::new(self.mu[i], (phi / p.w[i]).sqrt()).ok()?.cdf(p.y[i]),
                    K::ExpNr | K::ExpLog => Exp::new(1. / self.mu[i]).ok()?.cdf(p.y[i]),
                    K::GamNr | K::GamLog => {
                        let a = p.w[i] / phi;
                        GammaD::new(a, a / self.mu[i]).ok()?.cdf(p.y[i])
                    }
                    _ => return None,
                };
                Some(nd.inverse_cdf(f))
            })
            .collect()
    }
    pub fn p_lr(stat: f64, ndf: usize) -> Option<f64> {
        if ndf == 0 {
            return Some(1.);
        }
        Some(ChiSquared::new(ndf as f64).ok()?.sf(stat))
    }
}
