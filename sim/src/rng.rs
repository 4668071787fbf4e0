//! One PRNG (xoshiro256**) for every choice of the simulator.
#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);
pub fn splitmix(z: &mut u64) -> u64 {
    *z = z.wrapping_add(0x9E3779B97F4A7C15);
    let mut x = *z;
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(17);
    splitmix(&mut z);
    splitmix(&mut z)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        Rng([splitmix(&mut z), splitmix(&mut z), splitmix(&mut z), splitmix(&mut z)])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in [0,1)
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { 0 } else { (self.u64() % n as u64) as usize }
    }
    /// inclusive
    pub fn int(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn p(&mut self, pr: f64) -> bool {
        self.f() < pr
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn normal(&mut self) -> f64 {
        let u = 1.0 - self.f();
        let v = self.f();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn expo(&mut self) -> f64 {
        -(1.0 - self.f()).ln()
    }
    pub fn gamma(&mut self, k: f64) -> f64 {
        // Marsaglia-Tsang
        if k < 1.0 {
            let u = 1.0 - self.f();
            return self.gamma(k + 1.0) * u.powf(1.0 / k);
        }
        let d = k - 1.0 / 3.0;
        let c = 1.0 / (9.0 * d).sqrt();
        loop {
            let x = self.normal();
            let v = (1.0 + c * x).powi(3);
            if v <= 0.0 {
                continue;
            }
            let u = 1.0 - self.f();
            if u.ln() < 0.5 * x * x + d - d * v + d * v.ln() {
                return d * v;
            }
        }
    }
    pub fn poisson(&mut self, mu: f64) -> f64 {
        if mu > 30.0 {
            return (mu + mu.sqrt() * self.normal()).round().max(0.0);
        }
        let l = (-mu).exp();
        let mut k = 0.0;
        let mut p = 1.0;
        loop {
            p *= self.f();
            if p <= l {
                return k;
            }
            k += 1.0;
        }
    }
}
