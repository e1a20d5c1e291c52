//! Uniform access to the nine rules of the crate, and generators of inputs for them.

use crate::reference::Family;
use crate::util::*;
use gauss_quad::*;
use std::num::{NonZeroU32, NonZeroUsize};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Spec {
    Leg(usize),
    Jac(usize, f64, f64),
    Lag(usize, f64),
    Her(usize),
    C1(usize),
    C2(usize),
    Mid(u32),
    Simp(u32),
    Trap(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rule {
    Leg(GaussLegendre),
    Jac(GaussJacobi),
    Lag(GaussLaguerre),
    Her(GaussHermite),
    C1(GaussChebyshevFirstKind),
    C2(GaussChebyshevSecondKind),
    Mid(Midpoint),
    Simp(Simpson),
    Trap(Trapezoid),
}

pub fn nz(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n).expect("degree")
}
pub fn nz32(n: u32) -> NonZeroU32 {
    NonZeroU32::new(n).expect("degree")
}
pub fn fin(x: f64) -> FiniteAboveNegOneF64 {
    x.try_into().expect("exponent")
}

pub const KINDS: usize = 9;

impl Spec {
    pub fn kind(&self) -> usize {
        match self {
            Spec::Leg(_) => 0,
            Spec::Jac(..) => 1,
            Spec::Lag(..) => 2,
            Spec::Her(_) => 3,
            Spec::C1(_) => 4,
            Spec::C2(_) => 5,
            Spec::Mid(_) => 6,
            Spec::Simp(_) => 7,
            Spec::Trap(_) => 8,
        }
    }
    pub fn bits(&self) -> (usize, u64, u64, u64) {
        let (a, b) = self.exponents();
        (self.kind(), self.degree() as u64, a.to_bits(), b.to_bits())
    }
    pub fn exponents(&self) -> (f64, f64) {
        match *self {
            Spec::Jac(_, a, b) => (a, b),
            Spec::Lag(_, a) => (a, 0.0),
            _ => (0.0, 0.0),
        }
    }
    pub fn degree(&self) -> usize {
        match *self {
            Spec::Leg(n) | Spec::Jac(n, ..) | Spec::Lag(n, _) | Spec::Her(n) | Spec::C1(n) | Spec::C2(n) => n,
            Spec::Mid(n) | Spec::Simp(n) | Spec::Trap(n) => n as usize,
        }
    }
    pub fn is_gauss(&self) -> bool {
        self.kind() < 6
    }
    /// Integrates over a finite interval [a, b] that is given to `integrate`.
    pub fn is_interval(&self) -> bool {
        !matches!(self, Spec::Lag(..) | Spec::Her(_))
    }
    pub fn points(&self) -> usize {
        match *self {
            Spec::Simp(n) => 2 * n as usize + 1,
            Spec::Trap(n) => n as usize + 1,
            _ => self.degree(),
        }
    }
    pub fn build(&self) -> Rule {
        match *self {
            Spec::Leg(n) => Rule::Leg(GaussLegendre::new(nz(n))),
            Spec::Jac(n, a, b) => Rule::Jac(GaussJacobi::new(nz(n), fin(a), fin(b))),
            Spec::Lag(n, a) => Rule::Lag(GaussLaguerre::new(nz(n), fin(a))),
            Spec::Her(n) => Rule::Her(GaussHermite::new(nz(n))),
            Spec::C1(n) => Rule::C1(GaussChebyshevFirstKind::new(nz(n))),
            Spec::C2(n) => Rule::C2(GaussChebyshevSecondKind::new(nz(n))),
            Spec::Mid(n) => Rule::Mid(Midpoint::new(nz32(n))),
            Spec::Simp(n) => Rule::Simp(Simpson::new(nz32(n))),
            Spec::Trap(n) => Rule::Trap(Trapezoid::new(nz32(n))),
        }
    }
    /// The parallel constructor, where there is one.
    #[cfg(feature = "par")]
    pub fn par_build(&self) -> Option<Rule> {
        match *self {
            Spec::Leg(n) => Some(Rule::Leg(GaussLegendre::par_new(nz(n)))),
            Spec::C1(n) => Some(Rule::C1(GaussChebyshevFirstKind::par_new(nz(n)))),
            Spec::C2(n) => Some(Rule::C2(GaussChebyshevSecondKind::par_new(nz(n)))),
            _ => None,
        }
    }
    pub fn family(&self) -> Option<Family> {
        match *self {
            Spec::Leg(_) => Some(Family::Legendre),
            Spec::Jac(_, a, b) => Some(Family::Jacobi(a, b)),
            Spec::Lag(_, a) => Some(Family::Laguerre(a)),
            Spec::Her(_) => Some(Family::Hermite),
            Spec::C1(_) => Some(Family::Cheb1),
            Spec::C2(_) => Some(Family::Cheb2),
            _ => None,
        }
    }
    /// Listed in known_findings.json: the middle node of Jacobi rules of odd degree.
    pub fn middle_node_finding(&self) -> bool {
        matches!(*self, Spec::Jac(n, a, b) if n % 2 == 1 && n >= 3 && a != b)
    }
}

impl Rule {
    pub fn pairs(&self) -> Option<&[(f64, f64)]> {
        match self {
            Rule::Leg(r) => Some(r.as_node_weight_pairs()),
            Rule::Jac(r) => Some(r.as_node_weight_pairs()),
            Rule::Lag(r) => Some(r.as_node_weight_pairs()),
            Rule::Her(r) => Some(r.as_node_weight_pairs()),
            Rule::C1(r) => Some(r.as_node_weight_pairs()),
            Rule::C2(r) => Some(r.as_node_weight_pairs()),
            _ => None,
        }
    }
    pub fn degree(&self) -> usize {
        match self {
            Rule::Leg(r) => r.degree(),
            Rule::Jac(r) => r.degree(),
            Rule::Lag(r) => r.degree(),
            Rule::Her(r) => r.degree(),
            Rule::C1(r) => r.degree(),
            Rule::C2(r) => r.degree(),
            Rule::Mid(r) => r.degree().get() as usize,
            Rule::Simp(r) => r.degree().get() as usize,
            Rule::Trap(r) => r.degree().get() as usize,
        }
    }
    /// `a` and `b` are not used by the rules on infinite domains.
    pub fn integrate<F: FnMut(f64) -> f64>(&self, a: f64, b: f64, f: F) -> f64 {
        match self {
            Rule::Leg(r) => r.integrate(a, b, f),
            Rule::Jac(r) => r.integrate(a, b, f),
            Rule::Lag(r) => r.integrate(f),
            Rule::Her(r) => r.integrate(f),
            Rule::C1(r) => r.integrate(a, b, f),
            Rule::C2(r) => r.integrate(a, b, f),
            Rule::Mid(r) => r.integrate(a, b, f),
            Rule::Simp(r) => r.integrate(a, b, f),
            Rule::Trap(r) => r.integrate(a, b, f),
        }
    }
    #[cfg(feature = "par")]
    pub fn par_integrate<F: Fn(f64) -> f64 + Sync>(&self, a: f64, b: f64, f: F) -> f64 {
        match self {
            Rule::Leg(r) => r.par_integrate(a, b, f),
            Rule::Jac(r) => r.par_integrate(a, b, f),
            Rule::Lag(r) => r.par_integrate(f),
            Rule::Her(r) => r.par_integrate(f),
            Rule::C1(r) => r.par_integrate(a, b, f),
            Rule::C2(r) => r.par_integrate(a, b, f),
            Rule::Mid(r) => r.par_integrate(a, b, f),
            Rule::Simp(r) => r.par_integrate(a, b, f),
            Rule::Trap(r) => r.par_integrate(a, b, f),
        }
    }
    /// Nodes in [-1, 1] (or the rule's own domain) and coefficients, in ascending order, such that
    /// integrate(a, b, f) = (b - a) / 2 * sum c_i f(mid + x_i (b - a) / 2), or sum c_i f(x_i)
    /// for infinite domains. Taken from the pairs for Gauss rules and from the textbook
    /// definition for the composite rules.
    pub fn table(&self) -> Vec<(f64, f64)> {
        if let Some(p) = self.pairs() {
            return p.to_vec();
        }
        let n = self.degree();
        let nf = n as f64;
        match self {
            Rule::Mid(_) => (0..n).map(|i| ((2.0 * i as f64 + 1.0 - nf) / nf, 2.0 / nf)).collect(),
            Rule::Trap(_) => (0..=n)
                .map(|i| {
                    let c = if i == 0 || i == n { 1.0 } else { 2.0 };
                    ((2.0 * i as f64 - nf) / nf, c / nf)
                })
                .collect(),
            _ => (0..=2 * n)
                .map(|i| {
                    let c = if i == 0 || i == 2 * n {
                        1.0
                    } else if i % 2 == 1 {
                        4.0
                    } else {
                        2.0
                    };
                    ((i as f64 - nf) / nf, c / (3.0 * nf))
                })
                .collect(),
        }
    }
}

// ---------------------------------------------------------------- generators

pub const SPECIAL_DEGREES: [usize; 40] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 19, 20, 21, 22, 23, 31, 32, 33, 40, 41, 42, 43, 44, 49, 50, 63,
    64, 65, 80, 98, 99, 100, 101, 102, 128,
];

/// A degree in 1..=max, with weight on small ones and on the borders in the code.
pub fn gen_degree(r: &mut Rng, max: usize) -> usize {
    let d = match r.below(6) {
        0 => r.us(1, 12),
        1 | 2 => r.us(1, max),
        3 => r.log_range(1.0, max as f64 + 0.9) as usize,
        4 => r.pick(&SPECIAL_DEGREES),
        _ => {
            let k = r.us(0, (usize::BITS - 1 - max.leading_zeros()) as usize);
            (1usize << k).wrapping_add(r.us(0, 2)).wrapping_sub(1)
        }
    };
    d.clamp(1, max)
}

pub const SPECIAL_EXPONENTS: [f64; 44] = [
    0.0, -0.0, 0.5, -0.5, 0.25, -0.25, 0.75, -0.75, 1.0 / 3.0, -1.0 / 3.0, 2.0 / 3.0, -2.0 / 3.0, 1.0, 1.5, 2.0, 2.5, 3.0,
    3.5, 4.0, 5.0, 6.0, 7.0, 8.0, 10.0, 12.0, 16.0, 20.0, 23.0, 42.0, 50.0, 64.0, 0.1, -0.1, 0.9, -0.9, -0.95, -0.99,
    -0.999, 1e-3, -1e-3, 1e-8, -1e-8, 1e-15, -1e-15,
];

/// An exponent above -1 and below about `max`.
pub fn gen_exponent(r: &mut Rng, max: f64) -> f64 {
    let x = match r.below(10) {
        0..=2 => r.pick(&SPECIAL_EXPONENTS),
        3 | 4 => r.range(-0.999, 1.0),
        5 => r.range(-0.9, 10.0f64.min(max)),
        6 => r.log_range(1e-12, max),
        7 => -1.0 + r.log_range(1e-6, 1.0),
        8 => {
            // close to a special value
            r.pick(&[0.0, 0.5, -0.5, 1.0]) + r.sign() * r.log_range(1e-17, 1e-2)
        }
        _ => (r.us(0, (max as usize).clamp(1, 60)) as f64) / 2.0,
    };
    if x > -1.0 && x <= max { x } else { 0.3 }
}

pub fn gen_jacobi_exponents(r: &mut Rng, max: f64) -> (f64, f64) {
    let a = gen_exponent(r, max);
    let b = match r.below(8) {
        0 => a,
        1 if a < 0.0 && a > -1.0 => -1.0 - a, // sum -1
        2 if a < 1.0 => -a,
        3 => {
            let b = a + r.sign() * r.log_range(1e-17, 1e-1);
            if b > -1.0 { b } else { a }
        }
        4 => {
            // sum close to -1
            let a = -r.range(0.02, 0.98);
            return (a, -1.0 - a + r.sign() * r.log_range(1e-17, 1e-3));
        }
        _ => gen_exponent(r, max),
    };
    if b > -1.0 && b < max { (a, b) } else { (a, 0.25) }
}

/// A finite interval whose ends and width are far from overflow and underflow.
pub fn gen_interval(r: &mut Rng) -> (f64, f64) {
    let (a, b) = match r.below(14) {
        0 => (-1.0, 1.0),
        1 => (0.0, 1.0),
        2 => (0.0, r.sign() * r.log_range(1e-3, 1e3)),
        3 => (r.range(-10.0, 10.0), r.range(-10.0, 10.0)),
        4 => {
            let c = r.sign() * r.log_range(1e-3, 1e6);
            (c, c + r.sign() * c.abs() * r.log_range(1e-10, 1.0))
        }
        5 => {
            let s = r.log_range(1e-250, 1e250);
            (s * r.range(-1.0, 1.0), s * r.range(-1.0, 1.0))
        }
        6 => (r.sign() * r.log_range(1e-200, 1e200), r.sign() * r.log_range(1e-200, 1e200)),
        7 => {
            let h = r.log_range(1e-100, 1e100);
            (-h, h)
        }
        8 => {
            let a = r.range(-5.0, 5.0);
            (a, a + r.sign() * r.log_range(1e-12, 1e-3))
        }
        9 => (r.us(0, 20) as f64 - 10.0, r.us(0, 20) as f64 - 10.5),
        10 => (r.range(-100.0, 0.0), 0.0),
        11 => (r.range(1.0, 100.0), r.range(-100.0, -1.0)),
        12 => (r.range(2.0, 3.0), r.log_range(4.0, 1e8)),
        _ => {
            let a = r.range(-1.0, 1.0);
            (-1.0, a)
        }
    };
    let (a, b) = if r.chance(0.3) { (b, a) } else { (a, b) };
    if a == b { (a, a + 1.0 + a.abs()) } else { (a, b) }
}

/// A moderate interval for integrands that are functions of the position.
pub fn gen_mild_interval(r: &mut Rng) -> (f64, f64) {
    let a = r.range(-5.0, 5.0);
    let w = r.log_range(0.05, 10.0) * if r.chance(0.3) { -1.0 } else { 1.0 };
    match r.below(4) {
        0 => (-1.0, 1.0),
        1 => (0.0, w),
        _ => (a, a + w),
    }
}

pub fn gen_spec_kind(r: &mut Rng, kind: usize, max_fast: usize, max_gw: usize) -> Spec {
    match kind {
        0 => Spec::Leg(gen_degree(r, max_fast)),
        1 => {
            let n = gen_degree(r, max_gw);
            let (a, b) = gen_jacobi_exponents(r, 40.0);
            Spec::Jac(n, a, b)
        }
        2 => {
            let n = gen_degree(r, max_gw);
            Spec::Lag(n, gen_exponent(r, 40.0))
        }
        3 => Spec::Her(gen_degree(r, max_gw)),
        4 => Spec::C1(gen_degree(r, max_fast)),
        5 => Spec::C2(gen_degree(r, max_fast)),
        6 => Spec::Mid(gen_degree(r, max_fast) as u32),
        7 => Spec::Simp(gen_degree(r, max_fast) as u32),
        _ => Spec::Trap(gen_degree(r, max_fast) as u32),
    }
}

pub fn gen_spec(r: &mut Rng, max_fast: usize, max_gw: usize) -> Spec {
    let k = r.us(0, KINDS - 1);
    gen_spec_kind(r, k, max_fast, max_gw)
}

/// Rules of higher degree, built once per process as the companion matrix makes them expensive.
pub fn big_rules() -> &'static [(Spec, Rule)] {
    static BIG: std::sync::OnceLock<Vec<(Spec, Rule)>> = std::sync::OnceLock::new();
    BIG.get_or_init(|| {
        let mut specs = Vec::new();
        let mut r = Rng::new(0xb16, "big", 0);
        for (i, n) in [64usize, 65, 97, 100, 101, 127, 128, 129, 160, 200, 201, 255, 256, 257, 300, 350].into_iter().enumerate() {
            specs.push(Spec::Her(n + i % 3));
            specs.push(Spec::Lag(n + (i + 1) % 3, gen_exponent(&mut r, 8.0)));
            let (a, b) = gen_jacobi_exponents(&mut r, 8.0);
            specs.push(Spec::Jac(n + (i + 2) % 3, a, b));
        }
        specs.push(Spec::Her(520));
        for n in [513usize, 1025, 2000, 4097, 10_001] {
            specs.extend([Spec::Leg(n), Spec::C1(n + 1), Spec::C2(n), Spec::Mid(n as u32), Spec::Simp(n as u32), Spec::Trap(n as u32 + 1)]);
        }
        specs.sort_by_key(|s| std::cmp::Reverse(s.degree() * if matches!(s.kind(), 1..=3) { 100 } else { 1 }));
        let next = std::sync::atomic::AtomicUsize::new(0);
        let out = std::sync::Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| {
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        let Some(spec) = specs.get(i) else { break };
                        let rule = spec.build();
                        out.lock().unwrap().push((i, (*spec, rule)));
                    }
                });
            }
        });
        let mut out = out.into_inner().unwrap();
        out.sort_by_key(|x| x.0);
        out.into_iter().map(|x| x.1).collect()
    })
}

/// A rule of any kind, with chance `big` one of the larger ones.
pub fn gen_rule(r: &mut Rng, big: f64, max_fast: usize, max_gw: usize) -> (Spec, Rule) {
    if r.chance(big) {
        let all = big_rules();
        let k = r.us(0, KINDS - 1);
        let of: Vec<_> = all.iter().filter(|x| x.0.kind() == k).collect();
        return r.pick(&of).clone();
    }
    let spec = gen_spec(r, max_fast, max_gw);
    (spec, spec.build())
}

/// Like `gen_interval`, and sometimes empty.
pub fn gen_any_interval(r: &mut Rng) -> (f64, f64) {
    let (a, b) = gen_interval(r);
    if r.chance(0.04) {
        let c = r.pick(&[0.0, -0.0, 1.0, -1.0, a, a, b]);
        return (c, c);
    }
    if r.chance(0.01) {
        return r.pick(&[(0.0, -0.0), (-0.0, 0.0), (1.0, 1.0f64.next_up()), (-3.0, (-3.0f64).next_down())]);
    }
    (a, b)
}
