//! Reference quadrature rules in double-double arithmetic.
//!
//! Everything is derived from the three-term recurrence of the orthonormal polynomials of the
//! weight function: nodes are roots of p_n (found by Newton iteration or bisection, and
//! identified by Sturm sign counts), weights are Christoffel numbers mass / sum p_k(x)^2.
//! This is a different algorithm from every one the crate uses (tables, asymptotic expansion,
//! eigenvalues, closed form).

use crate::dd::DD;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Family {
    Legendre,
    Jacobi(f64, f64),
    Laguerre(f64),
    Hermite,
    Cheb1,
    Cheb2,
}

impl Family {
    /// Diagonal recurrence coefficient a_k.
    pub fn a(&self, k: usize) -> DD {
        let kf = DD::new(k as f64);
        match *self {
            Family::Jacobi(al, be) => {
                let (al, be) = (DD::new(al), DD::new(be));
                let s = al + be;
                if k == 0 {
                    (be - al) / (s + DD::new(2.0))
                } else {
                    let d = kf.scale(2.0) + s;
                    (be - al) * s / (d * (d + DD::new(2.0)))
                }
            }
            Family::Laguerre(al) => kf.scale(2.0) + DD::new(al) + DD::ONE,
            _ => DD::ZERO,
        }
    }
    /// Off-diagonal coefficient b_k (k >= 1) of the monic recurrence
    /// P_{k+1} = (x - a_k) P_k - b_k P_{k-1}.
    pub fn b(&self, k: usize) -> DD {
        let kf = DD::new(k as f64);
        match *self {
            Family::Legendre => kf * kf / (kf * kf.scale(4.0) - DD::ONE),
            Family::Jacobi(al, be) => {
                let (al, be) = (DD::new(al), DD::new(be));
                let s = al + be;
                if k == 1 {
                    let s2 = s + DD::new(2.0);
                    (al + DD::ONE) * (be + DD::ONE) * DD::new(4.0)
                        / (s2 * s2 * (s + DD::new(3.0)))
                } else {
                    let d = kf.scale(2.0) + s;
                    kf.scale(4.0) * (kf + al) / d * (kf + be) / d * (kf + s)
                        / ((d + DD::ONE) * (d - DD::ONE))
                }
            }
            Family::Laguerre(al) => kf * (kf + DD::new(al)),
            Family::Hermite => kf.scale(0.5),
            Family::Cheb1 => {
                if k == 1 {
                    DD::new(0.5)
                } else {
                    DD::new(0.25)
                }
            }
            Family::Cheb2 => DD::new(0.25),
        }
    }
    /// Logarithm of the integral of the weight function.
    pub fn ln_mass(&self) -> DD {
        match *self {
            Family::Legendre => DD::LN2,
            Family::Jacobi(al, be) => {
                let (al, be) = (DD::new(al), DD::new(be));
                let p = al + DD::ONE;
                let q = be + DD::ONE;
                (p + q - DD::ONE) * DD::LN2 + p.ln_gamma() + q.ln_gamma() - (p + q).ln_gamma()
            }
            Family::Laguerre(al) => (DD::new(al) + DD::ONE).ln_gamma(),
            Family::Hermite => DD::PI.ln().scale(0.5),
            Family::Cheb1 => DD::PI.ln(),
            Family::Cheb2 => DD::PI.scale(0.5).ln(),
        }
    }
    pub fn mass(&self) -> DD {
        match *self {
            Family::Legendre => DD::new(2.0),
            Family::Cheb1 => DD::PI,
            Family::Cheb2 => DD::PI.scale(0.5),
            Family::Hermite => DD::PI.sqrt(),
            _ => self.ln_mass().exp(),
        }
    }
}

pub struct Reference {
    pub n: usize,
    a: Vec<DD>,
    sb: Vec<DD>, // sqrt(b_k), index k (0 unused)
    isb: Vec<DD>,
    /// Integral of the weight function, times `wscale`.
    pub mass: DD,
    /// 1, or a small power of two if the mass is too large for double-double arithmetic.
    pub wscale: f64,
    pub norm: f64, // Gershgorin bound on the Jacobi matrix
}

/// Values at one point. `frac` = 1 / sum_{k<n} p_k^2 (normalised to p_0 = 1).
pub struct Eval {
    pub delta: DD, // p_n / p_n'
    pub frac: DD,
    pub above: usize, // number of roots of p_n greater than x
}

#[derive(Clone, Copy, Debug)]
pub struct RefPair {
    pub x: DD,
    pub frac: DD,
}

impl Reference {
    pub fn new(family: Family, n: usize) -> Self {
        let a: Vec<DD> = (0..n).map(|k| family.a(k)).collect();
        let mut sb = vec![DD::ZERO];
        let mut isb = vec![DD::ZERO];
        for k in 1..=n {
            let s = family.b(k).sqrt();
            sb.push(s);
            isb.push(DD::ONE / s);
        }
        let mut norm: f64 = 0.0;
        for k in 0..n {
            let left = if k > 0 { sb[k].hi } else { 0.0 };
            let right = if k + 1 < n { sb[k + 1].hi } else { 0.0 };
            norm = norm.max(a[k].hi.abs() + left + right);
        }
        let (mass, wscale) = if family.ln_mass().hi.abs() > 640.0 {
            let k = if family.ln_mass().hi > 0.0 { -200 } else { 200 };
            ((family.ln_mass() + DD::LN2.scale(k as f64)).exp(), 2f64.powi(k))
        } else {
            (family.mass(), 1.0)
        };
        Self { n, a, sb, isb, mass, wscale, norm }
    }

    pub fn eval(&self, x: DD) -> Eval {
        let n = self.n;
        let (mut pm, mut p) = (DD::ZERO, DD::ONE);
        let (mut dm, mut d) = (DD::ZERO, DD::ZERO);
        let mut sum = DD::ONE;
        let mut scale2 = 0i32; // p values are scaled by 2^-scale2
        let mut above = 0;
        let mut sign = 1.0f64;
        for k in 0..n {
            let t = x - self.a[k];
            let mut q = t * p;
            let mut dq = t * d + p;
            if k > 0 {
                q = q - self.sb[k] * pm;
                dq = dq - self.sb[k] * dm;
            }
            q = q * self.isb[k + 1];
            dq = dq * self.isb[k + 1];
            pm = p;
            dm = d;
            p = q;
            d = dq;
            if k + 1 < n {
                sum = sum + p * p;
            }
            if p.hi != 0.0 {
                let s = p.hi.signum();
                if s != sign {
                    above += 1;
                }
                sign = s;
            } else {
                // A zero takes the sign opposite to the previous one.
                above += 1;
                sign = -sign;
            }
            if p.hi.abs() > 1e100 || d.hi.abs() > 1e100 || sum.hi > 1e200 {
                let s = 2f64.powi(-128);
                p = p.scale(s);
                pm = pm.scale(s);
                d = d.scale(s);
                dm = dm.scale(s);
                sum = sum.scale(s).scale(s);
                scale2 += 128;
            }
        }
        let delta = p / d;
        let mut frac = DD::ONE / sum;
        let mut e = 2 * scale2;
        while e > 0 {
            let step = e.min(500);
            frac = frac.scale(2f64.powi(-step));
            e -= step;
        }
        Eval { delta, frac, above }
    }

    /// Number of roots greater than x.
    pub fn above(&self, x: DD) -> usize {
        self.eval(x).above
    }

    /// The i-th root in ascending order (0-based), starting Newton's method from `guess`.
    pub fn root(&self, i: usize, guess: f64) -> RefPair {
        let want_above = self.n - 1 - i;
        if guess.is_finite() {
            if let Some(r) = self.newton(DD::new(guess), want_above) {
                return r;
            }
        }
        // Bisection on the Sturm count, then Newton.
        let (mut lo, mut hi) = (-self.norm * 1.001 - 1.0, self.norm * 1.001 + 1.0);
        for round in 0..400 {
            let mid = 0.5 * (lo + hi);
            if self.above(DD::new(mid)) > want_above {
                lo = mid;
            } else {
                hi = mid;
            }
            let width = hi - lo;
            if round % 8 == 7 || width <= mid.abs() * 1e-15 {
                if let Some(r) = self.newton(DD::new(0.5 * (lo + hi)), want_above) {
                    return r;
                }
            }
            if width <= mid.abs() * 3e-16 || width < 1e-300 {
                break;
            }
        }
        let x = DD::new(0.5 * (lo + hi));
        let e = self.eval(x);
        RefPair { x, frac: e.frac }
    }

    fn newton(&self, x0: DD, want_above: usize) -> Option<RefPair> {
        let mut x = x0;
        for _ in 0..12 {
            let e = self.eval(x);
            if !e.delta.hi.is_finite() {
                return None;
            }
            let nx = x - e.delta;
            let small = e.delta.hi.abs() <= 1e-24 * (nx.hi.abs() + 1e-8);
            x = nx;
            if small {
                let h = DD::new(1e-22 * (x.hi.abs() + 1e-8));
                if self.above(x + h) == want_above && self.above(x - h) == want_above + 1 {
                    let e = self.eval(x);
                    return Some(RefPair { x, frac: e.frac });
                }
                return None;
            }
        }
        None
    }

    /// All nodes and weight fractions, with optional starting guesses.
    pub fn all(&self, guesses: &[(f64, f64)]) -> Vec<RefPair> {
        (0..self.n)
            .map(|i| self.root(i, guesses.get(i).map_or(f64::NAN, |p| p.0)))
            .collect()
    }
}
