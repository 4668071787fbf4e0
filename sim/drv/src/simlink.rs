//! User-supplied link functions: the library's public callback seam, through
//! which the simulator preempts, perturbs and interrupts the code under test.
use ndarray::Array1;
use ndarray_glm::link::{Link, Transform};
use ndarray_glm::num::Float;
use ndarray_glm::{Exponential, Gamma, InvGaussian, Linear, Logistic, Poisson};

pub const SITE_FUNC: u32 = 0;
pub const SITE_FUNC_INV: u32 = 1;
pub const SITE_NAT: u32 = 2;
pub const SITE_DNAT: u32 = 3;

unsafe extern "C" {
    /// Returns 0: nothing, 1: NaN, 2: multiply by *scale, 3: panic, 4: +inf
    fn glmsim_link_hook(site: u32, scale: *mut f64) -> u32;
}
/// Panic payload text recognised by the harness.
pub const PANIC_MSG: &str = "SIMFAULT: link callback interrupted";

fn hook<F: Float>(site: u32, v: F) -> F {
    let mut s = 1.0f64;
    match unsafe { glmsim_link_hook(site, &mut s) } {
        1 => F::nan(),
        2 => v * F::from(s).unwrap(),
        3 => std::panic::panic_any(PANIC_MSG),
        4 => F::infinity(),
        _ => v,
    }
}
fn hook_arr<F: Float>(site: u32, mut a: Array1<F>) -> Array1<F> {
    let mut s = 1.0f64;
    match unsafe { glmsim_link_hook(site, &mut s) } {
        1 => a.fill(F::nan()),
        2 => {
            let f = F::from(s).unwrap();
            a.mapv_inplace(|v| v * f)
        }
        3 => std::panic::panic_any(PANIC_MSG),
        4 => a.fill(F::infinity()),
        _ => {}
    }
    a
}

fn ln<F: Float>(x: F) -> F {
    num_traits::Float::ln(x)
}
fn exp<F: Float>(x: F) -> F {
    num_traits::Float::exp(x)
}

macro_rules! canonical_sim {
    ($t:ident, $fam:ty, $f:expr, $fi:expr) => {
        pub struct $t;
        impl Link<$fam> for $t {
            fn func<F: Float>(y: F) -> F {
                let f: fn(F) -> F = $f;
                hook(SITE_FUNC, f(y))
            }
            fn func_inv<F: Float>(w: F) -> F {
                let f: fn(F) -> F = $fi;
                hook(SITE_FUNC_INV, f(w))
            }
        }
        impl Transform for $t {
            fn nat_param<F: Float>(lp: Array1<F>) -> Array1<F> {
                hook_arr(SITE_NAT, lp)
            }
            fn d_nat_param<F: Float>(lp: &Array1<F>) -> Array1<F> {
                hook_arr(SITE_DNAT, Array1::<F>::ones(lp.len()))
            }
        }
    };
}
canonical_sim!(SimId, Linear<SimId>, |y| y, |w| w);
canonical_sim!(SimLogit, Logistic<SimLogit>, |y| ln(y / (F::one() - y)), |w| F::one()
    / (F::one() + exp(-w)));
canonical_sim!(SimLog, Poisson<SimLog>, |y| ln(y), |w| exp(w));

/// log link for the families whose canonical link is the negative reciprocal
pub struct SimLogNr;
impl Link<Gamma<SimLogNr>> for SimLogNr {
    fn func<F: Float>(y: F) -> F {
        hook(SITE_FUNC, ln(y))
    }
    fn func_inv<F: Float>(w: F) -> F {
        hook(SITE_FUNC_INV, exp(w))
    }
}
impl Link<Exponential<SimLogNr>> for SimLogNr {
    fn func<F: Float>(y: F) -> F {
        hook(SITE_FUNC, ln(y))
    }
    fn func_inv<F: Float>(w: F) -> F {
        hook(SITE_FUNC_INV, exp(w))
    }
}
impl Transform for SimLogNr {
    fn nat_param<F: Float>(lp: Array1<F>) -> Array1<F> {
        hook_arr(SITE_NAT, lp.mapv(|x| -exp(-x)))
    }
    fn d_nat_param<F: Float>(lp: &Array1<F>) -> Array1<F> {
        hook_arr(SITE_DNAT, lp.mapv(|x| exp(-x)))
    }
}
pub struct SimLogIg;
impl Link<InvGaussian<SimLogIg>> for SimLogIg {
    fn func<F: Float>(y: F) -> F {
        hook(SITE_FUNC, ln(y))
    }
    fn func_inv<F: Float>(w: F) -> F {
        hook(SITE_FUNC_INV, exp(w))
    }
}
impl Transform for SimLogIg {
    fn nat_param<F: Float>(lp: Array1<F>) -> Array1<F> {
        hook_arr(SITE_NAT, lp.mapv(|x| -F::half() * exp(-F::two() * x)))
    }
    fn d_nat_param<F: Float>(lp: &Array1<F>) -> Array1<F> {
        hook_arr(SITE_DNAT, lp.mapv(|x| exp(-F::two() * x)))
    }
}
