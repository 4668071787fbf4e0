//! Object-safe driver over the public API of ndarray-glm.
//!
//! Every generic function of the library is monomorphised in this crate, which
//! is compiled with SanitizerCoverage edge callbacks; those callbacks are the
//! simulator's preemption points.  Only public API is used.
use ndarray::{Array1, Array2, ArrayView1, ArrayView2, ArrayViewMut2, ShapeBuilder, s};
use ndarray_glm::error::RegressionError;
use ndarray_glm::num::Float;
use num_traits::ToPrimitive as _;
use ndarray_glm::{
    Binomial, Exponential, Fit, FitOptions, Gamma, InvGaussian, Linear, Logistic, ModelBuilder,
    Poisson, exp_link, gamma_link, inv_gauss_link,
    link::{Link, Transform},
    logistic_link,
    model::Model,
};
use serde::{Deserialize, Serialize};

pub mod simlink;
use simlink::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Fam {
    Linear,
    Logistic,
    LogisticCloglog,
    Poisson,
    Binomial12,
    ExpNegRec,
    ExpLog,
    GammaNegRec,
    GammaLog,
    IgNegRecSq,
    IgLog,
    SimLinear,
    SimLogistic,
    SimPoisson,
    SimExpLog,
    SimGammaLog,
    SimIgLog,
}
pub const ALL_FAMS: [Fam; 17] = [
    Fam::Linear,
    Fam::Logistic,
    Fam::LogisticCloglog,
    Fam::Poisson,
    Fam::Binomial12,
    Fam::ExpNegRec,
    Fam::ExpLog,
    Fam::GammaNegRec,
    Fam::GammaLog,
    Fam::IgNegRecSq,
    Fam::IgLog,
    Fam::SimLinear,
    Fam::SimLogistic,
    Fam::SimPoisson,
    Fam::SimExpLog,
    Fam::SimGammaLog,
    Fam::SimIgLog,
];
impl Fam {
    pub fn is_sim(self) -> bool {
        self >= Fam::SimLinear
    }
    pub fn name(self) -> String {
        format!("{self:?}")
    }
}

/// One call on the model builder.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BCall {
    Offset(Vec<f64>),
    VarW(Vec<f64>),
    FreqW(Vec<usize>),
    NoConst,
    NoStd,
}

/// Raw data and the sequence of builder calls.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Data {
    pub fam: Fam,
    pub n: usize,
    pub p: usize,
    /// row-major n*p
    pub x: Vec<f64>,
    pub y: Vec<f64>,
    pub calls: Vec<BCall>,
    /// how the caller's arrays lie in memory
    #[serde(default)]
    pub layout: Layout,
    /// that of the one-dimensional arrays, if another one
    #[serde(default)]
    pub vlayout: Option<Layout>,
    /// the type of the responses: 0 the widest, others if the values allow
    #[serde(default)]
    pub ytype: u8,
    /// a model of f32 elements
    #[serde(default)]
    pub single: bool,
}
impl Data {
    /// k: 0 response, 1 offset, 2 variance weights, 3 frequency weights
    fn vl(&self, k: usize) -> Layout {
        match self.vlayout {
            None => self.layout,
            Some(l) => LAYOUTS[(l as usize + k * 5) % LAYOUTS.len()],
        }
    }
}

/// Memory layout of the arrays lent to the library.  All of them hold the same
/// numbers; what lies in the gaps is garbage.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub enum Layout {
    #[default]
    Rows,
    Cols,
    /// negative strides on both axes
    Reversed,
    /// every second row and third column of a larger array
    Strided,
    /// by rows, with one axis reversed
    RowsUp,
    RowsBack,
    /// by columns, with one axis or both reversed
    ColsUp,
    ColsBack,
    ColsReversed,
    /// a window in the middle of a larger array
    Window,
    ColsWindow,
    /// by columns, every second row from the end
    Thin,
}
pub const LAYOUTS: [Layout; 12] = {
    use Layout::*;
    [Rows, Cols, Reversed, Strided, RowsUp, RowsBack, ColsUp, ColsBack, ColsReversed, Window, ColsWindow, Thin]
};
impl Layout {
    /// by columns?, row step, column step, margin
    fn geo(self) -> (bool, isize, isize, usize) {
        match self {
            Layout::Rows => (false, 1, 1, 0),
            Layout::Cols => (true, 1, 1, 0),
            Layout::Reversed => (false, -1, -1, 0),
            Layout::Strided => (false, 2, 3, 0),
            Layout::RowsUp => (false, -1, 1, 0),
            Layout::RowsBack => (false, 1, -1, 0),
            Layout::ColsUp => (true, -1, 1, 0),
            Layout::ColsBack => (true, 1, -1, 0),
            Layout::ColsReversed => (true, -1, -1, 0),
            Layout::Window => (false, 1, 1, 2),
            Layout::ColsWindow => (true, 1, 1, 2),
            Layout::Thin => (true, -2, 1, 1),
        }
    }
    /// owner of the memory, to be viewed by `mat`
    fn mat_own<F: Float>(self, x: &[F], n: usize, p: usize) -> Array2<F> {
        let x = ArrayView2::from_shape((n, p), x).unwrap();
        let (f, rs, cs, m) = self.geo();
        let dim = (n * rs.unsigned_abs() + 2 * m, p * cs.unsigned_abs() + 2 * m);
        let mut o = Array2::from_elem(dim.set_f(f), F::nan());
        self.slot(o.view_mut()).assign(&x);
        o
    }
    fn slot<F>(self, mut o: ArrayViewMut2<'_, F>) -> ArrayViewMut2<'_, F> {
        let (_, rs, cs, m) = self.geo();
        let (r, c) = o.dim();
        o.slice_collapse(s![m as isize..(r - m) as isize;rs, m as isize..(c - m) as isize;cs]);
        o
    }
    fn mat<F>(self, o: &Array2<F>) -> ArrayView2<'_, F> {
        let (_, rs, cs, m) = self.geo();
        let (r, c) = o.dim();
        o.slice(s![m as isize..(r - m) as isize;rs, m as isize..(c - m) as isize;cs])
    }
    fn vec_own<T: Copy>(self, y: &[T]) -> Array1<T> {
        if y.is_empty() {
            return Array1::from_vec(vec![]);
        }
        let (_, st, _, m) = self.geo();
        let n = y.len();
        let len = n * st.unsigned_abs() + 2 * m;
        let mut a = Array1::from_elem(len, y[n / 2]);
        a.slice_mut(s![m as isize..(len - m) as isize;st]).assign(&ArrayView1::from(y));
        a
    }
    /// an owned array with the same strides
    fn owned<T: Copy>(self, y: &[T]) -> Array1<T> {
        let mut a = self.vec_own(y);
        let (_, st, _, m) = self.geo();
        if a.len() > 0 {
            a.slice_collapse(s![m as isize..(a.len() - m) as isize;st]);
        }
        a
    }
    fn vec<T>(self, o: &Array1<T>) -> ArrayView1<'_, T> {
        let (_, st, _, m) = self.geo();
        if o.is_empty() {
            return o.view();
        }
        o.slice(s![m as isize..(o.len() - m) as isize;st])
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct ErrOut {
    pub kind: String,
    pub msg: String,
    pub n_iter: Option<usize>,
    pub hist: Vec<(Vec<f64>, f64)>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct FitMeta {
    pub result: Vec<f64>,
    pub like: f64,
    pub n_iter: usize,
    pub hist: Vec<(Vec<f64>, f64)>,
    /// max_iter, tol, l1, l2
    pub opts: Vec<f64>,
    pub init: Option<Vec<f64>>,
}

#[derive(Clone, Debug, Default)]
pub struct FOpts {
    pub max_iter: Option<usize>,
    pub tol: Option<f64>,
    pub l1: f64,
    pub l2: f64,
    pub init: Option<Vec<f64>>,
    pub layout: Layout,
}

macro_rules! queries {
    ($($v:ident),*) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
        pub enum Q { $($v),* }
        pub const ALL_Q: &[Q] = &[$(Q::$v),*];
    };
}
queries!(
    Meta, Aic, Bic, Cooks, Covariance, Deviance, Dispersion, Fisher, Hat, InflCoef, Leverage,
    LooExact, LrTest, LrAgainst, Ndf, NullLike, Predict, ResidDev, ResidDevStd, ResidPart,
    ResidPear, ResidPearStd, ResidResp, ResidStudent, ResidWork, Score, ScoreTest, ScoreAgainst,
    TestNdf, WaldTest, WaldAgainst, WaldZ, PLr, PWald, PExact, RSq, Rss, ResidQuantile
);

#[derive(Clone, Debug, Default)]
pub struct QArg {
    /// parameter vector argument (Fisher, Score, *Against)
    pub par: Vec<f64>,
    /// predict: new data (rows, row-major) and offset
    pub px: Vec<f64>,
    pub pn: usize,
    pub poff: Option<Vec<f64>>,
    pub layout: Layout,
}

#[derive(Clone, Debug, PartialEq)]
pub enum QOut {
    Vals { r: usize, c: usize, v: Vec<f64> },
    Meta(FitMeta),
    Err(ErrOut),
    NotAvail,
}

pub trait DynModel {
    fn fit<'a>(&'a self, o: &FOpts) -> Result<Box<dyn DynFit + 'a>, ErrOut>;
}
pub trait DynFit {
    fn query(&self, q: Q, a: &QArg) -> QOut;
    fn meta(&self) -> FitMeta;
}

fn tv<F: Float>(a: &Array1<F>) -> Vec<f64> {
    a.iter().map(|v| v.to_f64().unwrap()).collect()
}
fn err_out<F: Float>(e: RegressionError<F>) -> ErrOut {
    let msg = format!("{e}");
    let mut o = ErrOut { msg, ..Default::default() };
    #[allow(unreachable_patterns)]
    match e {
        RegressionError::BadInput(_) => o.kind = "BadInput".into(),
        RegressionError::InvalidY(_) => o.kind = "InvalidY".into(),
        RegressionError::BuildError(_) => o.kind = "BuildError".into(),
        RegressionError::LinalgError { .. } => o.kind = "LinalgError".into(),
        RegressionError::MaxIter { n_iter, history } => {
            o.kind = "MaxIter".into();
            o.n_iter = Some(n_iter);
            o.hist = history
                .iter()
                .map(|s| (tv(&s.guess), s.like.to_f64().unwrap()))
                .collect();
        }
        _ => o.kind = "Other".into(),
    }
    o
}
fn s1(v: f64) -> QOut {
    QOut::Vals { r: 1, c: 1, v: vec![v] }
}
/// the numbers as elements of the model
fn cv<F: Float>(a: &[f64]) -> Vec<F> {
    a.iter().map(|v| F::from(*v).unwrap()).collect()
}
fn g1<F: Float>(v: F) -> QOut {
    s1(v.to_f64().unwrap())
}
fn v1<F: Float>(a: &Array1<F>) -> QOut {
    QOut::Vals { r: a.len(), c: 1, v: tv(a) }
}
fn v2<F: Float>(a: &Array2<F>) -> QOut {
    QOut::Vals { r: a.nrows(), c: a.ncols(), v: a.iter().map(|v| v.to_f64().unwrap()).collect() }
}
fn r1<F: Float>(a: Result<Array1<F>, RegressionError<F>>) -> QOut {
    match a {
        Ok(a) => v1(&a),
        Err(e) => QOut::Err(err_out(e)),
    }
}
fn r2<F: Float>(a: Result<Array2<F>, RegressionError<F>>) -> QOut {
    match a {
        Ok(a) => v2(&a),
        Err(e) => QOut::Err(err_out(e)),
    }
}
fn r2r<F: Float>(a: Result<&Array2<F>, RegressionError<F>>) -> QOut {
    match a {
        Ok(a) => v2(a),
        Err(e) => QOut::Err(err_out(e)),
    }
}

macro_rules! fit_meta {
    ($s:expr) => {
        FitMeta {
            result: tv(&$s.result),
            like: $s.model_like.to_f64().unwrap(),
            n_iter: $s.n_iter,
            hist: $s.history.iter().map(|h| (tv(&h.guess), h.like.to_f64().unwrap())).collect(),
            opts: vec![
                $s.options.max_iter as f64,
                $s.options.tol.to_f64().unwrap(),
                $s.options.l1.to_f64().unwrap(),
                $s.options.l2.to_f64().unwrap(),
            ],
            init: $s.options.init_guess.as_ref().map(|g| tv(g)),
        }
    };
}

macro_rules! quantile {
    (yes, $s:expr) => {
        v1(&$s.resid_quantile())
    };
    (no, $s:expr) => {
        QOut::NotAvail
    };
}
macro_rules! linear_only {
    (yes, $e:expr) => {
        g1($e)
    };
    (no, $e:expr) => {
        QOut::NotAvail
    };
}

macro_rules! family {
    ($m:ty, quant=$qt:ident, lin=$ln:ident) => {
        family!($m, f64, quant = $qt, lin = $ln);
    };
    ($m:ty, $f:ty, quant=$qt:ident, lin=$ln:ident) => {
        impl DynModel for Model<$m, $f> {
            fn fit<'a>(&'a self, o: &FOpts) -> Result<Box<dyn DynFit + 'a>, ErrOut> {
                let r = if let Some(init) = &o.init {
                    let mut fo = FitOptions::<$f>::default();
                    if let Some(m) = o.max_iter {
                        fo.max_iter = m;
                    }
                    if let Some(t) = o.tol {
                        fo.tol = t as $f;
                    }
                    fo.l1 = o.l1 as $f;
                    fo.l2 = o.l2 as $f;
                    fo.init_guess = Some(o.layout.owned(&cv::<$f>(init)));
                    self.with_options(fo).fit()
                } else if o.max_iter.is_none() && o.tol.is_none() && o.l1 == 0. && o.l2 == 0. {
                    Model::fit(self)
                } else {
                    let mut c = self.fit_options();
                    if let Some(m) = o.max_iter {
                        c = c.max_iter(m);
                    }
                    if o.l2 != 0. {
                        c = c.l2_reg(o.l2 as $f);
                    }
                    if let Some(t) = o.tol {
                        c = c.tol(t as $f);
                    }
                    if o.l1 != 0. {
                        c = c.l1_reg(o.l1 as $f);
                    }
                    c.fit()
                };
                match r {
                    Ok(f) => Ok(Box::new(f)),
                    Err(e) => Err(err_out(e)),
                }
            }
        }
        impl<'b> DynFit for Fit<'b, $m, $f> {
            fn meta(&self) -> FitMeta {
                fit_meta!(self)
            }
            fn query(&self, q: Q, a: &QArg) -> QOut {
                let par = || a.layout.owned(&cv::<$f>(&a.par));
                match q {
                    Q::Meta => QOut::Meta(fit_meta!(self)),
                    Q::Aic => g1(self.aic()),
                    Q::Bic => g1(self.bic()),
                    Q::Cooks => r1(self.cooks()),
                    Q::Covariance => r2r(self.covariance()),
                    Q::Deviance => g1(self.deviance()),
                    Q::Dispersion => g1(self.dispersion()),
                    Q::Fisher => v2(&self.fisher(&par())),
                    Q::Hat => r2r(self.hat()),
                    Q::InflCoef => r2(self.infl_coef()),
                    Q::Leverage => r1(self.leverage()),
                    Q::LooExact => r2(self.loo_exact()),
                    Q::LrTest => g1(self.lr_test()),
                    Q::LrAgainst => g1(self.lr_test_against(&par())),
                    Q::Ndf => g1(self.ndf()),
                    Q::NullLike => g1(self.null_like()),
                    Q::Predict => {
                        let ncol = if a.pn == 0 { 0 } else { a.px.len() / a.pn };
                        let px = cv::<$f>(&a.px);
                        let o = a.layout.mat_own(&px, a.pn, ncol);
                        let x = a.layout.mat(&o);
                        let po = a.poff.as_ref().map(|o| cv::<$f>(o));
                        let off = po.as_ref().map(|o| a.layout.owned(o));
                        let r = v1(&self.predict(&x, off.as_ref()));
                        assert!(untouched(&o, &a.layout.mat_own(&px, a.pn, ncol)), "HARNESS-INVARIANT: caller's new data modified");
                        if let (Some(o), Some(v)) = (&off, &po) {
                            let same = o.len() == v.len() && o.iter().zip(v).all(|(a, b)| a.to_bits() == b.to_bits());
                            assert!(same, "HARNESS-INVARIANT: caller's new offset modified");
                        }
                        r
                    }
                    Q::ResidDev => v1(&self.resid_dev()),
                    Q::ResidDevStd => r1(self.resid_dev_std()),
                    Q::ResidPart => v2(&self.resid_part()),
                    Q::ResidPear => v1(self.resid_pear()),
                    Q::ResidPearStd => r1(self.resid_pear_std()),
                    Q::ResidResp => v1(&self.resid_resp()),
                    Q::ResidStudent => r1(self.resid_student()),
                    Q::ResidWork => v1(&self.resid_work()),
                    Q::Score => v1(&self.score(par())),
                    Q::ScoreTest => match self.score_test() {
                        Ok(v) => g1(v),
                        Err(e) => QOut::Err(err_out(e)),
                    },
                    Q::ScoreAgainst => match self.score_test_against(par()) {
                        Ok(v) => g1(v),
                        Err(e) => QOut::Err(err_out(e)),
                    },
                    Q::TestNdf => s1(self.test_ndf() as f64),
                    Q::WaldTest => g1(self.wald_test()),
                    Q::WaldAgainst => g1(self.wald_test_against(&par())),
                    Q::WaldZ => r1(self.wald_z()),
                    Q::PLr => g1(self.pvalue_lr_test()),
                    Q::PWald => r1(self.pvalue_wald()),
                    Q::PExact => r1(self.pvalue_exact()),
                    Q::RSq => linear_only!($ln, self.r_sq()),
                    Q::Rss => linear_only!($ln, self.rss()),
                    Q::ResidQuantile => quantile!($qt, self),
                }
            }
        }
    };
}

family!(Linear, quant = yes, lin = yes);
family!(Logistic, quant = no, lin = no);
family!(Logistic<logistic_link::Cloglog>, quant = no, lin = no);
family!(Poisson, quant = no, lin = no);
family!(Binomial<12>, quant = no, lin = no);
family!(Exponential, quant = yes, lin = no);
family!(Exponential<exp_link::Log>, quant = yes, lin = no);
family!(Gamma, quant = yes, lin = no);
family!(Gamma<gamma_link::Log>, quant = yes, lin = no);
family!(InvGaussian, quant = no, lin = no);
family!(InvGaussian<inv_gauss_link::Log>, quant = no, lin = no);
family!(Linear<SimId>, quant = yes, lin = no);
family!(Logistic<SimLogit>, quant = no, lin = no);
family!(Poisson<SimLog>, quant = no, lin = no);
family!(Exponential<SimLogNr>, quant = yes, lin = no);
family!(Gamma<SimLogNr>, quant = yes, lin = no);
family!(InvGaussian<SimLogIg>, quant = no, lin = no);

family!(Linear, f32, quant = yes, lin = yes);
family!(Logistic, f32, quant = no, lin = no);
family!(Logistic<logistic_link::Cloglog>, f32, quant = no, lin = no);
family!(Poisson, f32, quant = no, lin = no);
family!(Binomial<12>, f32, quant = no, lin = no);
family!(Exponential, f32, quant = yes, lin = no);
family!(Exponential<exp_link::Log>, f32, quant = yes, lin = no);
family!(Gamma, f32, quant = yes, lin = no);
family!(Gamma<gamma_link::Log>, f32, quant = yes, lin = no);
family!(InvGaussian, f32, quant = no, lin = no);
family!(InvGaussian<inv_gauss_link::Log>, f32, quant = no, lin = no);

/// every bit of a lent array, gaps included
fn untouched<F: Float>(a: &Array2<F>, b: &Array2<F>) -> bool {
    let bits = |v: &F| v.to_f64().unwrap().to_bits();
    a.dim() == b.dim() && a.iter().zip(b).all(|(a, b)| bits(a) == bits(b) || a.is_nan() && b.is_nan())
}

macro_rules! build_as {
    ($m:ty, $d:expr, $y:expr) => {
        build_as!($m, f64, $d, $y)
    };
    ($m:ty, $f:ty, $d:expr, $y:expr) => {{
        let d: &Data = $d;
        let ys = $y;
        let dx = cv::<$f>(&d.x);
        let (xo, yo) = (d.layout.mat_own(&dx, d.n, d.p), d.vl(0).vec_own(&ys));
        let (x, y) = (d.layout.mat(&xo), d.vl(0).vec(&yo));
        let mut b = ModelBuilder::<$m>::data(&y, &x);
        for c in &d.calls {
            b = match c {
                BCall::Offset(v) => b.linear_offset(d.vl(1).owned(&cv::<$f>(v))),
                BCall::VarW(v) => b.var_weights(d.vl(2).owned(&cv::<$f>(v))),
                BCall::FreqW(v) => b.freq_weights(d.vl(3).owned(v)),
                BCall::NoConst => b.no_constant(),
                BCall::NoStd => b.no_standardize(),
            };
        }
        let m: Result<Model<$m, $f>, _> = b.build();
        // the caller's arrays must be untouched
        assert!(untouched(&xo, &d.layout.mat_own(&dx, d.n, d.p)), "HARNESS-INVARIANT: caller's x modified");
        #[allow(clippy::eq_op)]
        let same = yo.iter().zip(&d.vl(0).vec_own(&ys)).all(|(a, b)| a == b || a != a && b != b);
        assert!(same, "HARNESS-INVARIANT: caller's y modified");
        drop(xo);
        drop(yo);
        match m {
            Ok(m) => Ok(Box::new(m) as Box<dyn DynModel>),
            Err(e) => Err(err_out(e)),
        }
    }};
}

/// stands for a NaN response (a replay file cannot hold one)
pub const NAN_MARK: f64 = -7.77e303;

/// the responses as `T`, if that loses nothing
fn ys<T: num_traits::NumCast + num_traits::ToPrimitive + Copy>(d: &Data) -> Option<Vec<T>> {
    let c = |v: f64| num_traits::cast::<f64, T>(v).filter(|t| t.to_f64().is_some_and(|u| u.to_bits() == v.to_bits()));
    d.y.iter().map(|v| c(*v)).collect()
}
macro_rules! float_y {
    ($m:ty, $d:expr) => {
        match ys::<f32>($d) {
            Some(y) if $d.ytype > 0 => build_as!($m, $d, y),
            _ => build_as!($m, $d, $d.y.clone()),
        }
    };
}
macro_rules! bool_y {
    ($m:ty, $d:expr) => {
        match $d.ytype % 3 {
            1 if $d.y.iter().all(|v| *v == 0. || *v == 1.) => {
                build_as!($m, $d, $d.y.iter().map(|v| *v == 1.).collect::<Vec<bool>>())
            }
            _ => float_y!($m, $d),
        }
    };
}
macro_rules! count_y {
    ($m:ty, $d:expr) => {
        match ($d.ytype % 4, ys::<u8>($d), ys::<usize>($d)) {
            (1, Some(y), _) => build_as!($m, $d, y),
            (2, _, Some(y)) => build_as!($m, $d, y),
            (3, _, Some(y)) => build_as!($m, $d, y.iter().map(|v| *v as u64).collect::<Vec<u64>>()),
            _ => build_as!($m, $d, $d.y.iter().map(|v| *v as u32).collect::<Vec<u32>>()),
        }
    };
}

pub fn build(d: &Data) -> Result<Box<dyn DynModel>, ErrOut> {
    if d.single {
        return build_single(d);
    }
    match d.fam {
        Fam::Linear => float_y!(Linear, d),
        Fam::Logistic => bool_y!(Logistic, d),
        Fam::LogisticCloglog => bool_y!(Logistic<logistic_link::Cloglog>, d),
        Fam::Poisson => count_y!(Poisson, d),
        Fam::Binomial12 => {
            build_as!(Binomial<12>, d, d.y.iter().map(|v| *v as u16).collect::<Vec<u16>>())
        }
        Fam::ExpNegRec => float_y!(Exponential, d),
        Fam::ExpLog => float_y!(Exponential<exp_link::Log>, d),
        Fam::GammaNegRec => float_y!(Gamma, d),
        Fam::GammaLog => float_y!(Gamma<gamma_link::Log>, d),
        Fam::IgNegRecSq => float_y!(InvGaussian, d),
        Fam::IgLog => float_y!(InvGaussian<inv_gauss_link::Log>, d),
        Fam::SimLinear => build_as!(Linear<SimId>, d, d.y.clone()),
        Fam::SimLogistic => bool_y!(Logistic<SimLogit>, d),
        Fam::SimPoisson => count_y!(Poisson<SimLog>, d),
        Fam::SimExpLog => build_as!(Exponential<SimLogNr>, d, d.y.clone()),
        Fam::SimGammaLog => build_as!(Gamma<SimLogNr>, d, d.y.clone()),
        Fam::SimIgLog => build_as!(InvGaussian<SimLogIg>, d, d.y.clone()),
    }
}

fn build_single(d: &Data) -> Result<Box<dyn DynModel>, ErrOut> {
    let ints = || d.y.iter().map(|v| *v as u32).collect::<Vec<u32>>();
    macro_rules! wide {
        ($m:ty) => {
            match ys::<f32>(d) {
                Some(y) if d.ytype > 0 => build_as!($m, f32, d, y),
                _ => build_as!($m, f32, d, d.y.clone()),
            }
        };
    }
    match d.fam {
        Fam::Linear => wide!(Linear),
        Fam::Logistic => wide!(Logistic),
        Fam::LogisticCloglog => wide!(Logistic<logistic_link::Cloglog>),
        Fam::Poisson => build_as!(Poisson, f32, d, ints()),
        Fam::Binomial12 => {
            build_as!(Binomial<12>, f32, d, d.y.iter().map(|v| *v as u16).collect::<Vec<u16>>())
        }
        Fam::ExpNegRec => wide!(Exponential),
        Fam::ExpLog => wide!(Exponential<exp_link::Log>),
        Fam::GammaNegRec => wide!(Gamma),
        Fam::GammaLog => wide!(Gamma<gamma_link::Log>),
        Fam::IgNegRecSq => wide!(InvGaussian),
        Fam::IgLog => wide!(InvGaussian<inv_gauss_link::Log>),
        _ => panic!("HARNESS: no single precision model of {:?}", d.fam),
    }
}

// ---- compile-time thread-safety probe (autoref specialisation) --------------
pub struct Probe<T>(pub std::marker::PhantomData<T>);
pub trait NotSync {
    fn ok_sync(&self) -> bool {
        false
    }
}
impl<T> NotSync for &Probe<T> {}
impl<T: Sync> Probe<T> {
    pub fn ok_sync(&self) -> bool {
        true
    }
}
pub trait NotSend {
    fn ok_send(&self) -> bool {
        false
    }
}
impl<T> NotSend for &Probe<T> {}
impl<T: Send> Probe<T> {
    pub fn ok_send(&self) -> bool {
        true
    }
}
macro_rules! probe {
    ($out:expr, $($m:ty),*) => {$(
        let p = Probe::<Model<$m, f64>>(std::marker::PhantomData);
        if !(&p).ok_sync() { $out.push(format!("Model<{}> is not Sync", stringify!($m))); }
        if !(&p).ok_send() { $out.push(format!("Model<{}> is not Send", stringify!($m))); }
    )*};
}
/// Names of the model types that can no longer be shared between threads.
pub fn unshareable() -> Vec<String> {
    #[allow(unused_imports)]
    use {NotSend as _, NotSync as _};
    let mut out = vec![];
    probe!(
        out,
        Linear,
        Logistic,
        Poisson,
        Binomial<12>,
        Exponential,
        Gamma,
        InvGaussian,
        Logistic<logistic_link::Cloglog>,
        Exponential<exp_link::Log>,
        Gamma<gamma_link::Log>,
        InvGaussian<inv_gauss_link::Log>
    );
    out
}
#[allow(dead_code)]
fn _uses<M: Link<Linear<M>> + Transform>() {}
