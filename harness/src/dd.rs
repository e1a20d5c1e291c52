//! Double-double arithmetic (about 31 significant digits), used by the reference oracle only.
//! Independent of the crate under test: no code is shared with it.

use std::ops::{Add, AddAssign, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct DD {
    pub hi: f64,
    pub lo: f64,
}

#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline]
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
#[inline]
fn split(a: f64) -> (f64, f64) {
    let t = 134_217_729.0 * a;
    let hi = t - (t - a);
    (hi, a - hi)
}
#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}

impl DD {
    pub const ZERO: DD = DD { hi: 0.0, lo: 0.0 };
    pub const ONE: DD = DD { hi: 1.0, lo: 0.0 };
    pub const PI: DD = DD { hi: std::f64::consts::PI, lo: 1.224_646_799_147_353_2e-16 };
    pub const LN2: DD = DD { hi: std::f64::consts::LN_2, lo: 2.319_046_813_846_299_6e-17 };

    #[inline]
    pub fn new(x: f64) -> DD {
        DD { hi: x, lo: 0.0 }
    }
    #[inline]
    pub fn f(self) -> f64 {
        self.hi + self.lo
    }
    /// Multiplication by a power of two (exact).
    #[inline]
    pub fn scale(self, s: f64) -> DD {
        DD { hi: self.hi * s, lo: self.lo * s }
    }
    pub fn sqrt(self) -> DD {
        if self.hi <= 0.0 {
            return DD::ZERO;
        }
        let x = DD::new(self.hi.sqrt());
        let x = (x + self / x).scale(0.5);
        (x + self / x).scale(0.5)
    }
    pub fn exp(self) -> DD {
        if self.hi > 709.7 {
            return DD::new(f64::INFINITY);
        }
        if self.hi < -745.0 {
            return DD::ZERO;
        }
        let k = (self.hi / std::f64::consts::LN_2).round();
        let r = (self - DD::LN2 * DD::new(k)).scale(1.0 / 512.0);
        let mut term = DD::ONE;
        let mut sum = DD::ONE;
        for i in 1..14 {
            term = term * r / DD::new(i as f64);
            sum = sum + term;
        }
        for _ in 0..9 {
            sum = sum * sum;
        }
        // 2^k in two steps, so that subnormal results do not overflow on the way.
        let k1 = (k / 2.0).trunc();
        sum.scale(2f64.powi(k1 as i32)).scale(2f64.powi((k - k1) as i32))
    }
    pub fn ln(self) -> DD {
        let mut y = DD::new(self.hi.ln());
        for _ in 0..2 {
            y = y + self * (-y).exp() - DD::ONE;
        }
        y
    }
    pub fn sin_cos(self) -> (DD, DD) {
        // Reduction modulo pi/2, then Taylor series.
        let half_pi = DD::PI.scale(0.5);
        let k = (self.hi / half_pi.hi).round();
        let r = self - half_pi * DD::new(k);
        let r2 = r * r;
        let mut s = r;
        let mut t = r;
        let mut c = DD::ONE;
        let mut u = DD::ONE;
        for i in 1..20 {
            let n = (2 * i) as f64;
            u = -(u * r2) / DD::new(n * (n - 1.0));
            c = c + u;
            t = -(t * r2) / DD::new(n * (n + 1.0));
            s = s + t;
        }
        match (k as i64).rem_euclid(4) {
            0 => (s, c),
            1 => (c, -s),
            2 => (-s, -c),
            _ => (-c, s),
        }
    }
    /// ln Gamma(x), x > 0.
    pub fn ln_gamma(self) -> DD {
        let mut x = self;
        let mut shift = DD::ZERO;
        let mut prod = DD::ONE;
        while x.hi < 45.0 {
            prod = prod * x;
            if prod.hi > 1e200 || prod.hi < 1e-200 {
                shift = shift + prod.ln();
                prod = DD::ONE;
            }
            x = x + DD::ONE;
        }
        shift = shift + prod.ln();
        // Stirling with Bernoulli numbers B_2k / (2k (2k-1) x^(2k-1)).
        const B: [(f64, f64); 14] = [
            (1.0, 6.0),
            (-1.0, 30.0),
            (1.0, 42.0),
            (-1.0, 30.0),
            (5.0, 66.0),
            (-691.0, 2730.0),
            (7.0, 6.0),
            (-3617.0, 510.0),
            (43867.0, 798.0),
            (-174611.0, 330.0),
            (854513.0, 138.0),
            (-236364091.0, 2730.0),
            (8553103.0, 6.0),
            (-23749461029.0, 870.0),
        ];
        let inv = DD::ONE / x;
        let inv2 = inv * inv;
        let mut p = inv;
        let mut s = DD::ZERO;
        for (i, (num, den)) in B.iter().enumerate() {
            let k = 2.0 * (i as f64 + 1.0);
            s = s + p * DD::new(*num) / DD::new(den * k * (k - 1.0));
            p = p * inv2;
        }
        let half = DD::new(0.5);
        (x - half) * x.ln() - x + DD::PI.scale(2.0).ln().scale(0.5) + s - shift
    }
}
impl Add for DD {
    type Output = DD;
    #[inline]
    fn add(self, o: DD) -> DD {
        let (s, e) = two_sum(self.hi, o.hi);
        let (t, f) = two_sum(self.lo, o.lo);
        let (s, e) = quick_two_sum(s, e + t);
        let (hi, lo) = quick_two_sum(s, e + f);
        DD { hi, lo }
    }
}
impl AddAssign for DD {
    #[inline]
    fn add_assign(&mut self, o: DD) {
        *self = *self + o;
    }
}
impl Neg for DD {
    type Output = DD;
    #[inline]
    fn neg(self) -> DD {
        DD { hi: -self.hi, lo: -self.lo }
    }
}
impl Sub for DD {
    type Output = DD;
    #[inline]
    fn sub(self, o: DD) -> DD {
        self + (-o)
    }
}
impl Mul for DD {
    type Output = DD;
    #[inline]
    fn mul(self, o: DD) -> DD {
        let (p, e) = two_prod(self.hi, o.hi);
        let (hi, lo) = quick_two_sum(p, e + (self.hi * o.lo + self.lo * o.hi));
        DD { hi, lo }
    }
}
impl Div for DD {
    type Output = DD;
    #[inline]
    fn div(self, o: DD) -> DD {
        let q1 = self.hi / o.hi;
        let r = self - o * DD::new(q1);
        let q2 = r.hi / o.hi;
        let r = r - o * DD::new(q2);
        let q3 = r.hi / o.hi;
        let (a, b) = quick_two_sum(q1, q2);
        DD { hi: a, lo: b } + DD::new(q3)
    }
}
