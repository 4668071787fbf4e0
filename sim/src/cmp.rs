//! Comparison of answers: with each other and with the reference model.
use crate::refm::*;
use crate::scen::*;
use glmdrv::{Data, ErrOut, FitMeta, Q, QOut};

#[derive(Clone, Copy, Debug)]
pub struct Tol {
    pub rel: f64,
    /// compare iteration counts and histories too
    pub path: bool,
}
pub const SAME: Tol = Tol { rel: 1e-8, path: true };
pub const ACC: Tol = Tol { rel: 1e-6, path: false };

pub fn same_special(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b
}
pub fn vec_close(a: &[f64], b: &[f64], rel: f64) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("length {} vs {}", a.len(), b.len()));
    }
    let s = a
        .iter()
        .zip(b)
        .filter(|(x, y)| x.is_finite() && y.is_finite())
        .fold(0.0f64, |m, (x, y)| m.max(x.abs().min(y.abs())));
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if same_special(*x, *y) {
            continue;
        }
        // element-relative, or relative to the vector's scale
        let d = (x - y).abs();
        if d.is_finite() && (d <= rel * x.abs().max(y.abs()) || d <= rel * 1e-2 * s.max(1e-12) || d < 1e-13)
        {
            continue;
        }
        if d.is_finite() && d <= rel * s && s < 1e8 && x.abs().max(y.abs()) < 1e-3 * s {
            continue;
        }
        return Err(format!("[{i}] {x:e} vs {y:e}"));
    }
    Ok(())
}
/// square-root quantities: compare squares, treat NaN from a rounding-negative as zero
fn sq_close(a: &[f64], b: &[f64], rel: f64) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("length {} vs {}", a.len(), b.len()));
    }
    let z = |v: f64| if v.is_nan() { 0. } else { v * v.abs() };
    let s = a.iter().chain(b).map(|v| z(*v).abs()).filter(|v| v.is_finite()).fold(0., f64::max);
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let d = (z(*x) - z(*y)).abs();
        if !(same_special(*x, *y) || d <= rel * s.max(1e-4) * 10.) {
            return Err(format!("[{i}] {x:e} vs {y:e}"));
        }
    }
    Ok(())
}
fn is_sqrt(q: Q) -> bool {
    matches!(q, Q::ResidDev | Q::ResidDevStd | Q::ResidStudent)
}
fn is_p(q: Q) -> bool {
    matches!(q, Q::PLr | Q::PWald | Q::PExact)
}
fn p_close(a: &[f64], b: &[f64], abs: f64, rel: f64) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("length {} vs {}", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if !(same_special(*x, *y) || (x - y).abs() <= abs + rel * x.abs().max(y.abs())) {
            return Err(format!("[{i}] {x:e} vs {y:e}"));
        }
    }
    Ok(())
}
pub fn meta_close(a: &FitMeta, b: &FitMeta, t: Tol) -> Result<(), String> {
    vec_close(&a.result, &b.result, t.rel).map_err(|e| format!("result {e}"))?;
    vec_close(&[a.like], &[b.like], t.rel).map_err(|e| format!("model_like {e}"))?;
    if t.path {
        if a.n_iter != b.n_iter {
            return Err(format!("n_iter {} vs {}", a.n_iter, b.n_iter));
        }
        hist_close(&a.hist, &b.hist, t.rel)?;
        vec_close(&a.opts, &b.opts, 1e-12).map_err(|e| format!("options {e}"))?;
        match (&a.init, &b.init) {
            (None, None) => {}
            (Some(x), Some(y)) => vec_close(x, y, t.rel).map_err(|e| format!("options.init_guess {e}"))?,
            _ => return Err("options.init_guess presence differs".into()),
        }
    }
    Ok(())
}
pub fn hist_close(a: &[(Vec<f64>, f64)], b: &[(Vec<f64>, f64)], rel: f64) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("history length {} vs {}", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        vec_close(&x.0, &y.0, rel).map_err(|e| format!("history[{i}].guess {e}"))?;
        vec_close(&[x.1], &[y.1], rel).map_err(|e| format!("history[{i}].like {e}"))?;
    }
    Ok(())
}
pub fn err_close(a: &ErrOut, b: &ErrOut, t: Tol) -> Result<(), String> {
    if a.kind != b.kind {
        return Err(format!("error {} vs {}", a.kind, b.kind));
    }
    if t.path {
        if a.n_iter != b.n_iter {
            return Err(format!("error n_iter {:?} vs {:?}", a.n_iter, b.n_iter));
        }
        hist_close(&a.hist, &b.hist, t.rel)?;
    }
    Ok(())
}
/// do two outcomes of the same call agree?
pub fn out_close(q: Option<Q>, a: &Out, b: &Out, t: Tol) -> Result<(), String> {
    match (a, b) {
        (Out::Fit(x), Out::Fit(y)) => meta_close(x, y, t),
        (Out::FitErr(x), Out::FitErr(y)) | (Out::BuildErr(x), Out::BuildErr(y)) => err_close(x, y, t),
        (Out::Q(QOut::Meta(x)), Out::Q(QOut::Meta(y))) => meta_close(x, y, t),
        (Out::Q(QOut::Err(x)), Out::Q(QOut::Err(y))) => err_close(x, y, t),
        (Out::Q(QOut::Vals { r, c, v }), Out::Q(QOut::Vals { r: r2, c: c2, v: v2 })) => {
            if (r, c) != (r2, c2) {
                return Err(format!("shape {r}x{c} vs {r2}x{c2}"));
            }
            match q {
                Some(q) if is_sqrt(q) => sq_close(v, v2, t.rel),
                Some(q) if is_p(q) => p_close(v, v2, t.rel, t.rel * 100.),
                // differences and quadratic forms that vanish at the optimum
                Some(
                    Q::Score | Q::LrAgainst | Q::ScoreAgainst | Q::WaldAgainst | Q::LrTest
                    | Q::ScoreTest | Q::WaldTest,
                ) => {
                    let s = v.iter().chain(v2).fold(1.0f64, |m, x| if x.is_finite() { m.max(x.abs()) } else { m });
                    for (i, (x, y)) in v.iter().zip(v2).enumerate() {
                        if !(same_special(*x, *y) || (x - y).abs() <= t.rel * s * 10.) {
                            return Err(format!("[{i}] {x:e} vs {y:e}"));
                        }
                    }
                    Ok(())
                }
                _ => vec_close(v, v2, t.rel),
            }
        }
        (Out::Panic(_), Out::Panic(_)) => Ok(()),
        (a, b) if a == b => Ok(()),
        (a, b) => Err(format!("{} vs {}", brief(a), brief(b))),
    }
}
pub fn brief(o: &Out) -> String {
    let v6 = |v: &[f64]| {
        let s: Vec<String> = v.iter().take(6).map(|x| format!("{x:.9e}")).collect();
        format!("[{}{}]", s.join(", "), if v.len() > 6 { ", .." } else { "" })
    };
    match o {
        Out::Unit => "unit".into(),
        Out::Built => "built".into(),
        Out::BuildErr(e) => format!("build error {}: {}", e.kind, e.msg),
        Out::Fit(m) => format!("fit {} like {:.9e} n_iter {}", v6(&m.result), m.like, m.n_iter),
        Out::FitErr(e) => format!("fit error {}: {}", e.kind, e.msg),
        Out::Q(QOut::Vals { r, c, v }) => format!("{r}x{c} {}", v6(v)),
        Out::Q(QOut::Meta(m)) => format!("fields {} like {:.9e} n_iter {}", v6(&m.result), m.like, m.n_iter),
        Out::Q(QOut::Err(e)) => format!("query error {}: {}", e.kind, e.msg),
        Out::Q(QOut::NotAvail) => "not available".into(),
        Out::Panic(m) => format!("panic {m:?}"),
        Out::Skipped => "skipped".into(),
    }
}

// ------------------------------------------------------------- vs reference
pub fn like_tol(l: f64, q: &Prob, b: &[f64]) -> f64 {
    let lp = q.lp(b);
    let s: f64 = (0..q.n).map(|i| (q.f[i] * q.w[i] * (q.y[i] * q.k.nat(lp[i])).abs()).min(1e300)).sum();
    1e-9 * (1. + l.abs() + s)
}
/// every entry of a history carries the penalised likelihood of its coefficients
pub fn check_hist(q: &Prob, hist: &[(Vec<f64>, f64)]) -> Result<(), String> {
    for (i, (b, l)) in hist.iter().enumerate() {
        if b.len() != q.npar {
            return Err(format!("history[{i}] has {} coefficients, expected {}", b.len(), q.npar));
        }
        let o = q.obj(b);
        if !o.is_finite() || !l.is_finite() || o.abs() > 1e12 {
            continue;
        }
        if (o - l).abs() > like_tol(o, q, b) * 10. {
            return Err(format!("history[{i}] likelihood {l:.12e} but its coefficients have {o:.12e}"));
        }
    }
    Ok(())
}
/// the likelihood reported with a successful fit belongs to its coefficients
pub fn check_like(q: &Prob, m: &FitMeta) -> Result<(), String> {
    if m.result.len() != q.npar {
        return Err(format!("{} coefficients, expected {}", m.result.len(), q.npar));
    }
    let o = q.obj(&m.result);
    if !o.is_finite() && m.like == o {
        return Ok(());
    }
    if !((o - m.like).abs() <= like_tol(o, q, &m.result) * 10.) {
        return Err(format!("model_like {:.12e} but the coefficients have {o:.12e}", m.like));
    }
    Ok(())
}
/// objective gap allowed for a converged fit
pub fn gap_tol(q: &Prob, l: f64) -> f64 {
    if q.l1 > 0. { 3e-6 * (1. + l.abs()) } else { 1e-10 * (1. + l.abs()) }
}
pub fn check_opt(q: &Prob, b: &[f64]) -> Result<(), String> {
    if b.iter().any(|v| !v.is_finite()) {
        return Err(format!("non-finite coefficients {b:?}"));
    }
    if b.len() != q.npar {
        return Err(format!("{} coefficients, expected {}", b.len(), q.npar));
    }
    let l = q.obj(b);
    match q.decrement(b) {
        None => Err(format!("coefficients {b:?} have an undefined gradient")),
        Some(m) if m.abs() <= gap_tol(q, l) => Ok(()),
        Some(m) => Err(format!(
            "coefficients {b:?} are not the optimum: penalised likelihood {l:.9e} can rise by about {m:.3e}"
        )),
    }
}
fn is1(v: &Out) -> Option<f64> {
    match v {
        Out::Q(QOut::Vals { r: 1, c: 1, v }) => Some(v[0]),
        _ => None,
    }
}
/// Compare a successful query with the reference model evaluated at the fit's
/// own coefficients.  Ok(false): not comparable here.
pub fn check_query(q: &Prob, d: &Data, m: &FitMeta, qq: Q, a: &Arg, out: &Out) -> Result<bool, String> {
    let v = match out {
        Out::Q(QOut::Vals { v, .. }) => v,
        _ => return Ok(false),
    };
    let pen = q.l1 > 0. || q.l2 > 0.;
    let b = &m.result;
    let s = q.stats(b, m.like);
    let arg = resolve_arg(a, qq, b, d);
    let k = q.npar as f64;
    let rel = 2e-6;
    let flat = |m: Mat| m.into_iter().flatten().collect::<Vec<f64>>();
    let sc1 = |x: f64| Ok::<_, String>(Some(vec![x]));
    let npar = q.npar;
    let exp: Option<Vec<f64>> = (|| -> Result<Option<Vec<f64>>, String> {
        match qq {
            Q::Aic => sc1(s.deviance() + 2. * k - 2. * s.sum_log_w()),
            Q::Bic if !pen => sc1(k * q.nobs().ln() - 2. * q.loglik(b) - 2. * s.sum_log_w()),
            Q::Cooks => Ok(s.lev().map(|h| {
                let r = s.pear();
                let phi = s.phi();
                (0..q.n).map(|i| r[i] * r[i] * h[i] / (k * phi * (1. - h[i]).powi(2))).collect()
            })),
            Q::Covariance => Ok(s.cov().map(flat)),
            Q::Deviance => sc1(s.deviance()),
            Q::Dispersion => sc1(s.phi()),
            Q::Fisher => Ok(Some(flat(q.fisher(&arg.par, true)))),
            Q::Hat => Ok(s.hat().map(flat)),
            Q::InflCoef => Ok(s.infl().map(flat)),
            Q::Leverage => Ok(s.lev()),
            Q::Ndf => sc1(q.nobs() - k),
            Q::TestNdf => sc1(k - q.icpt as u8 as f64),
            Q::NullLike => Ok(q.null().map(|n| vec![n.0])),
            Q::Predict => {
                let o = q.icpt as usize;
                Ok(Some(
                    (0..arg.pn)
                        .map(|i| {
                            let mut w = if q.icpt { b[0] } else { 0. };
                            for j in 0..d.p {
                                w += arg.px[i * d.p + j] * b[j + o];
                            }
                            if let Some(f) = &arg.poff {
                                w += f[i];
                            }
                            q.k.mean(w)
                        })
                        .collect(),
                ))
            }
            Q::ResidPear => Ok(Some(s.pear())),
            Q::ResidPearStd => Ok(s.lev().map(|h| {
                let (r, phi) = (s.pear(), s.phi());
                (0..q.n).map(|i| r[i] / (phi * (1. - h[i])).sqrt()).collect()
            })),
            Q::ResidResp => Ok(Some(s.resid())),
            Q::ResidWork => Ok(Some(s.work())),
            Q::ResidPart => Ok(Some(flat(s.part()))),
            Q::WaldZ => Ok(s.cov().map(|c| (0..npar).map(|i| b[i] / c[i][i].sqrt()).collect())),
            Q::Rss => sc1((0..q.n).map(|i| q.f[i] * q.w[i] * (q.y[i] - s.mu[i]).powi(2)).sum()),
            Q::RSq if !pen => Ok(q.null().map(|n| {
                let d0 = s.deviance() + 2. * (q.loglik(b) - n.0);
                vec![1. - s.deviance() / d0]
            })),
            _ => Ok(None),
        }
    })()?;
    if let Some(e) = exp {
        if e.iter().any(|x| !x.is_finite()) {
            return Ok(false);
        }
        return vec_close(v, &e, rel)
            .map(|_| true)
            .map_err(|e| format!("{qq:?} differs from the reference: {e} (got vs reference)"));
    }
    let w = |e: String| format!("{qq:?} differs from the reference: {e} (got vs reference)");
    // scalar tests that vanish near the optimum: absolute scale of the problem
    let scalar = |e: f64, scale: f64| -> Result<bool, String> {
        let Some(g) = is1(out) else { return Err(w("not a scalar".into())) };
        if !e.is_finite() || !scale.is_finite() {
            return Ok(false);
        }
        if (g - e).abs() <= 1e-6 * e.abs() + scale {
            Ok(true)
        } else {
            Err(w(format!("{g:e} vs {e:e}")))
        }
    };
    let lsc = like_tol(m.like, q, b) * 100.;
    match qq {
        Q::ResidDev | Q::ResidDevStd => {
            let dt = s.dev_terms();
            let den: Vec<f64> = if qq == Q::ResidDev {
                vec![1.; q.n]
            } else {
                let Some(h) = s.lev() else { return Ok(false) };
                let phi = s.phi();
                h.iter().map(|h| (1. - h) * phi).collect()
            };
            let e: Vec<f64> = (0..q.n)
                .map(|i| (q.y[i] - s.mu[i]).signum() * (dt[i].max(0.) / den[i]).sqrt())
                .collect();
            if e.iter().any(|x| !x.is_finite()) {
                return Ok(false);
            }
            sq_close(v, &e, rel).map(|_| true).map_err(w)
        }
        Q::ResidStudent => match s.student() {
            Some(e) if e.iter().all(|x| x.is_finite()) => sq_close(v, &e, rel * 10.).map(|_| true).map_err(w),
            _ => Ok(false),
        },
        Q::Score => {
            let e = s.score_at(&arg.par);
            if e.iter().any(|x| !x.is_finite()) {
                return Ok(false);
            }
            let h = q.fisher(&arg.par, true);
            for i in 0..npar {
                let sc = e[i].abs() + 1e-3 * h[i][i].sqrt() + lsc;
                // nothing to judge where the information itself overflows
                if !sc.is_finite() {
                    continue;
                }
                // a coefficient shrunk to rounding noise has no defined sign
                if q.l1 > 0. && arg.par[i].abs() * h[i][i].sqrt() < 1e-6 {
                    continue;
                }
                if !((v[i] - e[i]).abs() <= 1e-5 * sc) {
                    return Err(w(format!("[{i}] {:e} vs {:e}", v[i], e[i])));
                }
            }
            Ok(true)
        }
        Q::LrTest => match q.null() {
            Some(n) => scalar(-2. * (n.0 - m.like), lsc),
            None => Ok(false),
        },
        Q::LrAgainst => scalar(2. * (m.like - q.obj(&arg.par)), lsc),
        Q::WaldAgainst | Q::WaldTest => {
            let alt = if qq == Q::WaldTest {
                match q.null() {
                    Some(n) => n.1,
                    None => return Ok(false),
                }
            } else {
                arg.par.clone()
            };
            let d: Vec<f64> = b.iter().zip(&alt).map(|(x, y)| x - y).collect();
            scalar(quad(&q.fisher(&alt, true), &d), 1e-9)
        }
        Q::ScoreAgainst | Q::ScoreTest => {
            let alt = if qq == Q::ScoreTest {
                match q.null() {
                    Some(n) => n.1,
                    None => return Ok(false),
                }
            } else {
                arg.par.clone()
            };
            if q.l1 > 0. && qq == Q::ScoreAgainst && alt.iter().any(|x| x.abs() < 1e-6) {
                return Ok(false);
            }
            let g = s.score_at(&alt);
            let f = q.fisher(&alt, true);
            let Some(fi) = inv(&f) else { return Ok(false) };
            // rounding is magnified where few observations decide the information
            let cond = (0..npar).map(|i| f[i][i] * fi[i][i]).fold(1., f64::max);
            if !(cond < 1e8) {
                return Ok(false);
            }
            let e = quad(&fi, &g);
            scalar(e, 1e-9 + 1e-12 * cond * e.abs())
        }
        Q::PLr => match q.null() {
            Some(n) => match Stats::p_lr(-2. * (n.0 - m.like), npar - q.icpt as usize) {
                Some(p) => p_close(v, &[p], 1e-6, 1e-4).map(|_| true).map_err(w),
                None => Ok(false),
            },
            None => Ok(false),
        },
        Q::PWald => match s.p_wald() {
            Some(p) if p.iter().all(|x| x.is_finite()) => {
                p_close(v, &p, 1e-6, 1e-4).map(|_| true).map_err(w)
            }
            _ => Ok(false),
        },
        Q::PExact => {
            if npar < 2 {
                return Ok(false);
            }
            let mut any = false;
            for i in 0..npar {
                if q.icpt && i == 0 && pen {
                    continue;
                }
                let r = q.without_par(i);
                let from: Vec<f64> =
                    b.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, x)| *x).collect();
                let Some((rb, rl)) = sole_optimum(&r, &from) else { continue };
                if !clear_of_edge(&r, &rb) {
                    continue;
                }
                let Some(p) = s.p_exact_one(r.stats(&rb, rl).deviance()) else { continue };
                if !p.is_finite() {
                    continue;
                }
                any = true;
                let t = if q.l1 > 0. { 3e-3 } else { 1e-5 };
                p_close(&v[i..i + 1], &[p], t, 10. * t)
                    .map_err(|e| w(format!("parameter {i}: {e}")))?;
            }
            Ok(any)
        }
        Q::LooExact => {
            let mut any = false;
            for i in 0..q.n {
                // a spread of rows keeps the cost bounded
                if q.n > 8 && i % (q.n / 6) != (b[0].to_bits() % 3) as usize {
                    continue;
                }
                let r = q.without_obs(i);
                let Some((rb, rl)) = sole_optimum(&r, b) else { continue };
                if !clear_of_edge(&r, &rb) || cond(&r.fisher(&rb, false)) > 1e6 {
                    continue;
                }
                any = true;
                let g = &v[i * npar..(i + 1) * npar];
                if g.iter().any(|x| !x.is_finite()) {
                    return Err(w(format!("row {i} is not finite")));
                }
                let dd: Vec<f64> = g.iter().zip(&rb).map(|(x, y)| x - y).collect();
                let gap = 0.5 * quad(&r.fisher(&rb, true), &dd);
                if !(gap <= gap_tol(&r, rl) * 10.) {
                    return Err(w(format!("row {i}: {g:?} vs {rb:?}")));
                }
            }
            Ok(any)
        }
        Q::ResidQuantile => match s.quantile() {
            Some(e) => {
                for i in 0..q.n {
                    if e[i].abs() < 4.5 && !((v[i] - e[i]).abs() <= 1e-5 * (1. + e[i].abs())) {
                        return Err(w(format!("[{i}] {:e} vs {:e}", v[i], e[i])));
                    }
                }
                Ok(true)
            }
            None => Ok(false),
        },
        _ => Ok(false),
    }
}
/// the optimum, where a likelihood with several has shown only one
fn sole_optimum(q: &Prob, from: &[f64]) -> Option<(Vec<f64>, f64)> {
    let o = q.optimum(Some(from))?;
    if !q.k.concave() {
        let far: Vec<f64> = o.0.iter().map(|x| 1.5 * x).collect();
        for start in [None, Some(&far[..])] {
            let x = q.optimum(start)?;
            if (x.1 - o.1).abs() > 1e-7 * (1. + o.1.abs()) {
                return None;
            }
        }
    }
    Some(o)
}
/// is the linear predictor inside the domain with a margin
pub fn clear_of_edge(q: &Prob, b: &[f64]) -> bool {
    !q.k.negdom() || q.lp(b).iter().enumerate().all(|(i, w)| q.f[i] == 0. || *w < -0.02)
}
