//! C01-C05: nodes and weights of the Gauss rules against independent references.

use crate::dd::DD;
use crate::reference::{Family, RefPair, Reference};
use crate::rules::*;
use crate::util::*;
use gauss_quad::*;

pub const KNOWN_MIDDLE: &str = "jacobi-odd-degree-middle-node-is-zero";

/// Distance from a double to a double-double.
pub fn ddist(x: f64, r: DD) -> f64 {
    (DD::new(x) - r).f().abs()
}

/// Tolerance of a node of a rule that is computed with the Golub-Welsch algorithm.
pub fn gw_node_tol(family: Family, n: usize, norm: f64) -> f64 {
    let cond = match family {
        Family::Jacobi(a, b) => 1.0 + 2.0 / (2.0 + a + b),
        _ => 1.0,
    };
    EPS * (60.0 + n as f64) * norm.max(1.0) * cond
}

/// Node and weight tolerances for every pair of a rule, given the reference.
pub fn tolerances(family: Family, r: &Reference, refs: &[RefPair]) -> Vec<(f64, f64)> {
    let n = refs.len();
    let mass = r.mass.f();
    (0..n)
        .map(|i| {
            let frac = refs[i].frac.f();
            let w = frac * mass;
            match family {
                Family::Legendre => (12.0 * EPS, 24.0 * EPS * w),
                Family::Cheb1 => (12.0 * EPS, 12.0 * EPS * w),
                Family::Cheb2 => {
                    let x = refs[i].x;
                    let s2 = (DD::ONE - x * x).f().max(1e-300);
                    (12.0 * EPS, EPS * w * (16.0 + 24.0 / s2.sqrt()))
                }
                _ => {
                    let (al, be) = match family {
                        Family::Jacobi(a, b) => (a, b),
                        Family::Laguerre(a) => (a, 0.0),
                        _ => (0.0, 0.0),
                    };
                    let nt = gw_node_tol(family, n, r.norm);
                    // How much eigenvectors move: the norm over the distance to the neighbours.
                    let gap = {
                        let l = if i > 0 { (refs[i].x - refs[i - 1].x).f() } else { f64::INFINITY };
                        let u = if i + 1 < n { (refs[i + 1].x - refs[i].x).f() } else { f64::INFINITY };
                        l.min(u)
                    };
                    let amp = if gap.is_finite() { nt / EPS / gap } else { 0.0 };
                    let v = frac.sqrt();
                    let c = match family {
                        Family::Jacobi(a, b) => 1.0 + 2.0 / (2.0 + a + b),
                        _ => 1.0,
                    };
                    let vec = v * amp * 2.0 + amp * amp * EPS + 60.0 * v * v * c;
                    // The gamma function is accurate to about 1e-12.
                    let m = 8000.0 + 40.0 * (al.abs() + be.abs());
                    (nt, EPS * mass * (vec + v * v * m) + f64::MIN_POSITIVE)
                }
            }
        })
        .collect()
}

/// Compares all pairs of a rule with the reference. Returns false if anything is wrong.
pub fn check_all_pairs(rep: &mut Report, spec: Spec, pairs: &[(f64, f64)], what: &str) -> bool {
    let family = spec.family().expect("gauss rule");
    let n = spec.degree();
    if !rep.check(pairs.len() == n, "pair-count", || format!("{what} {spec:?} has {} pairs", pairs.len())) {
        return false;
    }
    let r = Reference::new(family, n);
    let refs = r.all(pairs);
    let tols = tolerances(family, &r, &refs);
    let mut ok = true;
    let mass = r.mass.f();
    for i in 0..n {
        let (x, w) = pairs[i];
        let (nt, wt) = tols[i];
        let err = ddist(x, refs[i].x);
        if spec.middle_node_finding() && i == n / 2 && x == 0.0 && err > nt {
            rep.known(KNOWN_MIDDLE, || {
                format!("{spec:?}: node {i} is 0.0 instead of {:e}", refs[i].x.f())
            });
        } else {
            ok &= rep.close(err, nt, "node", || {
                format!("{what} {spec:?}: node {i} is {x:e} but should be {:e}", refs[i].x.f())
            });
        }
        let w = w * r.wscale;
        let rw = (refs[i].frac * r.mass).f();
        ok &= rep.close(ddist(w, refs[i].frac * r.mass), wt, "weight", || {
            format!("{what} {spec:?}: weight {i} is {w:e} but should be {rw:e}")
        });
    }
    // The weights are only accurate absolutely, but their sum has to be.
    let total = ksum(pairs.iter().map(|p| p.1 * r.wscale));
    let (al, be) = spec.exponents();
    let mt = match family {
        Family::Jacobi(a, b) => EPS * (8000.0 + 40.0 * (al.abs() + be.abs()) + n as f64 * 20.0 + 8.0 / (2.0 + a + b)),
        Family::Laguerre(_) => EPS * (8000.0 + 40.0 * al.abs() + n as f64 * 20.0),
        Family::Hermite => EPS * (50.0 + n as f64 * 20.0),
        _ => EPS * 40.0,
    };
    ok &= rep.close((total - mass).abs(), mt * mass, "weight-sum", || {
        format!("{what} {spec:?}: the weights sum to {total:e} but should sum to {mass:e}")
    });
    rep.add("pairs_compared", n as u64);
    ok
}

// ---------------------------------------------------------------- C01

/// Reference for zeros of Legendre polynomials in the interior that costs O(1) per zero:
/// Newton's method on the Stieltjes expansion of P_n(cos theta).
pub struct LegFast {
    n: f64,
    c: f64,
}

impl LegFast {
    pub fn new(n: usize) -> Self {
        let z = n as f64 + 1.0;
        let i = 1.0 / z;
        // gamma(z + 1/2) / gamma(z) / sqrt(z)
        let g = 1.0
            + i * (-1.0 / 8.0
                + i * (1.0 / 128.0
                    + i * (5.0 / 1024.0
                        + i * (-21.0 / 32768.0 + i * (-399.0 / 262144.0 + i * (869.0 / 4194304.0))))));
        LegFast { n: n as f64, c: 2.0 / std::f64::consts::PI.sqrt() / (z.sqrt() * g) }
    }
    /// P_n and its derivative with respect to theta.
    fn eval(&self, theta: f64) -> (f64, f64) {
        use std::f64::consts::PI;
        const TWO_PI_LO: f64 = 2.449293598294706414e-16;
        let (st, ct) = theta.sin_cos();
        // Phase (n + 1/2) theta - pi / 4 modulo 2 pi.
        let f = self.n + 0.5;
        let hi = f * theta;
        let lo = f.mul_add(theta, -hi);
        let k = (hi / (2.0 * PI)).round();
        let r = (-k).mul_add(2.0 * PI, hi) - k * TWO_PI_LO + lo;
        let (s0, c0) = r.sin_cos();
        let q = std::f64::consts::FRAC_1_SQRT_2;
        let (mut s, mut c) = ((s0 - c0) * q, (c0 + s0) * q);
        let sin2 = 2.0 * st;
        let mut h = 1.0 / sin2.sqrt();
        let (mut p, mut d) = (0.0, 0.0);
        let mut last = f64::INFINITY;
        for m in 0..60 {
            let mf = m as f64;
            if h > last {
                break;
            }
            last = h;
            p += h * c;
            d += h * (-(f + mf) * s - (2.0 * mf + 1.0) * ct * c / sin2);
            // next term: the angle grows by theta - pi/2
            let (ns, nc) = (s * st - c * ct, c * st + s * ct);
            s = ns;
            c = nc;
            h *= (mf + 0.5) * (mf + 0.5) / ((mf + 1.0) * (f + mf + 1.0)) / sin2;
            if h < 1e-19 * p.abs().max(d.abs() / f) {
                break;
            }
        }
        (self.c * p, self.c * d)
    }
    /// Node and weight closest to the given node, and the theta of the root.
    pub fn root(&self, x: f64) -> (f64, f64, f64) {
        let mut t = x.acos();
        let (mut p, mut d) = self.eval(t);
        for _ in 0..8 {
            let delta = p / d;
            if (delta * self.n).abs() < 1e-10 {
                break;
            }
            t -= delta;
            (p, d) = self.eval(t);
        }
        let delta = p / d;
        let (st, ct) = t.sin_cos();
        // cos(t - delta)
        let node = ct + st * delta;
        let d = d - delta * (-(ct / st) * d - self.n * (self.n + 1.0) * p);
        (node, 2.0 / (d * d), t - delta)
    }
}

/// Checks a whole Legendre rule of degree > 100 with the fast reference in the interior,
/// and (if `ends`) the outermost nodes with the recurrence.
pub fn check_legendre_fast(rep: &mut Report, n: usize, pairs: &[(f64, f64)], ends: bool) {
    let spec = Spec::Leg(n);
    if !rep.check(pairs.len() == n, "pair-count", || format!("{spec:?} has {} pairs", pairs.len())) {
        return;
    }
    const SKIP: usize = 14;
    let fast = LegFast::new(n);
    let spacing = std::f64::consts::PI / (n as f64 + 0.5);
    let (mut worst, mut wi) = (0.0f64, 0);
    let (mut wworst, mut wwi) = (0.0f64, 0);
    let mut bad: Option<String> = None;
    for i in 0..n {
        let (x, w) = pairs[i];
        let k = i.min(n - 1 - i);
        if k < SKIP {
            continue;
        }
        // Fold to the right half, where the k-th zero from the right is at theta ~ (k + 3/4) pi / (n + 1/2).
        let (y, kk) = if i < n / 2 { (-x, i) } else { (x, n - 1 - i) };
        let (rx, rw, rt) = fast.root(y);
        let guess = (kk as f64 + 0.75) * spacing;
        if !((rt - guess).abs() < 0.2 * spacing) && bad.is_none() {
            bad = Some(format!("{spec:?}: node {i} is {x:e}, which is close to another zero or to none"));
        }
        let e = (y - rx).abs();
        if !(e <= worst) {
            worst = e;
            wi = i;
        }
        let we = ((w - rw) / rw).abs();
        if !(we <= wworst) {
            wworst = we;
            wwi = i;
        }
    }
    rep.check(bad.is_none(), "node-index", || bad.clone().unwrap_or_default());
    rep.close(worst, 12.0 * EPS, "node-fast", || format!("{spec:?}: node {wi} is {:e}", pairs[wi].0));
    rep.close(wworst, 40.0 * EPS, "weight-fast", || {
        format!("{spec:?}: weight {wwi} is {:e} at node {:e}", pairs[wwi].1, pairs[wwi].0)
    });
    rep.add("pairs_compared", n as u64);
    // Symmetry of the ends, and order.
    for i in 0..n.min(SKIP) {
        let (a, b) = (pairs[i], pairs[n - 1 - i]);
        rep.close((a.0 + b.0).abs(), 8.0 * EPS, "symmetry", || format!("{spec:?}: nodes {i}: {a:?} {b:?}"));
        rep.close((a.1 - b.1).abs(), 40.0 * EPS * a.1.abs(), "symmetry-w", || {
            format!("{spec:?}: weights {i}: {a:?} {b:?}")
        });
    }
    let sorted = pairs.windows(2).all(|p| p[0].0 < p[1].0);
    rep.check(sorted, "order", || format!("{spec:?}: the nodes do not ascend"));
    let total = ksum(pairs.iter().map(|p| p.1));
    rep.close((total - 2.0).abs(), 60.0 * EPS, "weight-sum", || format!("{spec:?}: weights sum to {total:e}"));
    if ends {
        check_legendre_indices(rep, n, pairs, &(0..SKIP + 12).collect::<Vec<_>>());
    }
}

/// Checks the nodes with these indices from the right with the recurrence.
pub fn check_legendre_indices(rep: &mut Report, n: usize, pairs: &[(f64, f64)], ks: &[usize]) {
    let r = Reference::new(Family::Legendre, n);
    for &k in ks {
        if k >= n {
            break;
        }
        let i = n - 1 - k;
        let rp = r.root(i, pairs[i].0);
        rep.close(ddist(pairs[i].0, rp.x), 12.0 * EPS, "node", || {
            format!("Leg({n}): node {i} is {:e} but should be {:e}", pairs[i].0, rp.x.f())
        });
        let rw = (rp.frac * r.mass).f();
        rep.close((pairs[i].1 - rw).abs(), 40.0 * EPS * rw, "weight", || {
            format!("Leg({n}): weight {i} is {:e} but should be {rw:e}", pairs[i].1)
        });
    }
}

pub fn c01(ctx: &Ctx, rep: &mut Report) {
    rep.rule("every degree up to a bound, all pairs against the three-term recurrence in double-double arithmetic (Newton, index fixed by a Sturm count, Christoffel numbers); larger degrees, exhaustively over a range and sampled up to 10^6, against Newton on the Stieltjes expansion in the interior and the recurrence at the ends. Non-trivial: a degree not seen before, all of whose n pairs were compared.");
    let full = ctx.size(900, 2600);
    par_cases(ctx, rep, "all-pairs", full, |i, _, rep| {
        let n = full - i; // large ones first
        let rule = GaussLegendre::new(nz(n));
        check_all_pairs(rep, Spec::Leg(n), rule.as_node_weight_pairs(), "new");
        rep.case(true, n);
        rep.sample(|| format!("degree {n}: all {n} pairs, first {:?}", rule.as_node_weight_pairs()[0]));
    });
    let lo = 101;
    let hi = ctx.size(6000, 16000);
    let chunk = 50;
    par_cases(ctx, rep, "range", (hi - lo) / chunk + 1, |i, r, rep| {
        let end_at = r.us(0, chunk - 1);
        for j in 0..chunk {
            let n = hi - (i * chunk + j).min(hi - lo);
            let rule = GaussLegendre::new(nz(n));
            check_legendre_fast(rep, n, rule.as_node_weight_pairs(), j == end_at);
            rep.case(true, n);
        }
    });
    par_cases(ctx, rep, "large", ctx.n(48, 400), |i, r, rep| {
        let n = match i {
            0 => 1_000_000,
            1 => 999_999,
            2 => 1 << 17,
            3 => (1 << 16) + 1,
            4 => 65_535,
            5 => 100_000,
            _ => r.log_range(6000.0, if i % 8 == 0 { 3e6 } else { 2e5 }) as usize,
        };
        let rule = GaussLegendre::new(nz(n));
        let p = rule.as_node_weight_pairs();
        check_legendre_fast(rep, n, p, n < 30_000);
        if n < 1_200_000 {
            check_legendre_indices(rep, n, p, &[0, 1, r.us(2, 19), 19, 20, 21, r.us(22, 60)]);
        }
        rep.case(true, n);
        rep.sample(|| format!("degree {n}"));
    });
    // The outermost nodes for many degrees: table and series branches of the Bessel zeros.
    par_cases(ctx, rep, "ends", ctx.n(240, 2000), |_, r, rep| {
        let n = r.log_range(101.0, 20_000.0) as usize;
        let rule = GaussLegendre::new(nz(n));
        check_legendre_indices(rep, n, rule.as_node_weight_pairs(), &(0..30).collect::<Vec<_>>());
        rep.case(true, n);
    });
}

// ---------------------------------------------------------------- C02 - C04

/// Degrees that take seconds each: powers of two, round numbers and their neighbours, and random ones.
pub fn huge_degree(i: usize, r: &mut Rng) -> usize {
    *[1025, 1024, 1000, 1023, 999, 768, 640, 600, 513, 512, 511, 500].get(i).unwrap_or(&r.us(420, 1100))
}

pub fn c02(ctx: &Ctx, rep: &mut Report) {
    rep.rule("degree and exponents drawn from special, boundary and random values; all n pairs compared with the three-term recurrence in double-double arithmetic. Non-trivial: a (degree, alpha, beta) not seen before.");
    let one = |rep: &mut Report, n: usize, a: f64, b: f64| {
        let rule = GaussJacobi::new(nz(n), fin(a), fin(b));
        let spec = Spec::Jac(n, a, b);
        check_all_pairs(rep, spec, rule.as_node_weight_pairs(), "new");
        rep.check(rule.alpha().get() == a && rule.beta().get() == b, "exponents", || {
            format!("{spec:?} reports alpha {} beta {}", rule.alpha(), rule.beta())
        });
        rep.case(true, spec.bits());
        rep.sample(|| format!("{spec:?}"));
    };
    // Every pair of special exponents, at a few degrees each.
    let se = SPECIAL_EXPONENTS;
    par_cases(ctx, rep, "special", se.len() * se.len(), |i, r, rep| {
        let (a, b) = (se[i / se.len()], se[i % se.len()]);
        for n in [1, 2, 3, r.us(4, 12), r.us(13, 40)] {
            one(rep, n, a, b);
        }
    });
    par_cases(ctx, rep, "random", ctx.n(40_000, 400_000), |_, r, rep| {
        let (a, b) = gen_jacobi_exponents(r, 40.0);
        let n = gen_degree(r, 48);
        one(rep, n, a, b);
    });
    par_cases(ctx, rep, "every-degree", ctx.size(200, 300), |i, r, rep| {
        let n = i + 1;
        for _ in 0..8 {
            let (a, b) = gen_jacobi_exponents(r, 20.0);
            one(rep, n, a, b);
        }
    });
    par_cases(ctx, rep, "large-degree", ctx.n(60, 400), |_, r, rep| {
        let top = if r.chance(0.2) { 420 } else { 220 };
        let n = r.us(100, top);
        let (a, b) = gen_jacobi_exponents(r, 20.0);
        one(rep, n, a, b);
    });
    par_cases(ctx, rep, "huge-degree", ctx.n(16, 40), |i, r, rep| {
        let (a, b) = gen_jacobi_exponents(r, 5.0);
        one(rep, huge_degree(i, r), a, b);
    });
    par_cases(ctx, rep, "large-exponents", ctx.n(6000, 60_000), |_, r, rep| {
        let n = gen_degree(r, 40);
        let big = r.log_range(20.0, 1000.0);
        let other = match r.below(4) {
            0 => big,
            1 => gen_exponent(r, 10.0),
            2 => r.log_range(1.0, 1000.0),
            _ => big * r.range(0.5, 1.5),
        };
        let (a, b) = if r.chance(0.5) { (big, other) } else { (other, big) };
        if Family::Jacobi(a, b).ln_mass().f().abs() < 690.0 {
            one(rep, n, a, b);
        }
    });
    par_cases(ctx, rep, "near-minus-one", ctx.n(6000, 60_000), |_, r, rep| {
        let n = gen_degree(r, 40);
        let e = -1.0 + r.log_range(2e-16, 1e-1);
        let o = match r.below(3) {
            0 => -1.0 + r.log_range(2e-16, 1e-1),
            _ => gen_exponent(r, 20.0),
        };
        let (a, b) = if r.chance(0.5) { (e, o) } else { (o, e) };
        one(rep, n, a, b);
    });
}

pub fn c03(ctx: &Ctx, rep: &mut Report) {
    rep.rule("degree and alpha drawn from special, boundary and random values; all n pairs compared with the three-term recurrence in double-double arithmetic. Non-trivial: a (degree, alpha) not seen before.");
    let one = |rep: &mut Report, n: usize, a: f64| {
        let rule = GaussLaguerre::new(nz(n), fin(a));
        let spec = Spec::Lag(n, a);
        check_all_pairs(rep, spec, rule.as_node_weight_pairs(), "new");
        rep.check(rule.alpha().get() == a, "exponents", || format!("{spec:?} reports alpha {}", rule.alpha()));
        rep.case(true, spec.bits());
        rep.sample(|| format!("{spec:?}"));
    };
    let se = SPECIAL_EXPONENTS;
    par_cases(ctx, rep, "special", se.len(), |i, _, rep| {
        for n in 1..=45 {
            one(rep, n, se[i]);
        }
    });
    par_cases(ctx, rep, "random", ctx.n(40_000, 500_000), |_, r, rep| {
        let a = gen_exponent(r, 60.0);
        let n = gen_degree(r, 60);
        one(rep, n, a);
    });
    par_cases(ctx, rep, "every-degree", ctx.size(200, 300), |i, r, rep| {
        for _ in 0..8 {
            let a = gen_exponent(r, 20.0);
            one(rep, i + 1, a);
        }
    });
    par_cases(ctx, rep, "large-degree", ctx.n(60, 400), |_, r, rep| {
        let top = if r.chance(0.2) { 420 } else { 220 };
        let n = r.us(100, top);
        let a = gen_exponent(r, 20.0);
        one(rep, n, a);
    });
    par_cases(ctx, rep, "huge-degree", ctx.n(16, 40), |i, r, rep| {
        let a = gen_exponent(r, 5.0);
        one(rep, huge_degree(i, r), a);
    });
    par_cases(ctx, rep, "large-alpha", ctx.n(6000, 60_000), |_, r, rep| {
        let n = gen_degree(r, 60);
        let a = if r.chance(0.2) { r.range(167.0, 170.6) } else { r.range(20.0, 170.6) };
        one(rep, n, a);
    });
    par_cases(ctx, rep, "near-minus-one", ctx.n(6000, 60_000), |_, r, rep| {
        let n = gen_degree(r, 60);
        let a = -1.0 + r.log_range(2e-16, 1e-1);
        one(rep, n, a);
    });
}

pub fn c04(ctx: &Ctx, rep: &mut Report) {
    rep.rule("every degree up to a bound and sampled larger ones; all n pairs compared with the three-term recurrence in double-double arithmetic. Non-trivial: a degree not seen before.");
    let full = ctx.size(400, 600);
    let one = |rep: &mut Report, n: usize| {
        let rule = GaussHermite::new(nz(n));
        check_all_pairs(rep, Spec::Her(n), rule.as_node_weight_pairs(), "new");
        rep.case(true, n);
        rep.sample(|| format!("degree {n}"));
    };
    par_cases(ctx, rep, "all-degrees", full, |i, _, rep| one(rep, full - i));
    par_cases(ctx, rep, "large-degree", ctx.n(40, 60), |_, r, rep| {
        let n = r.us(full + 1, full + 200);
        one(rep, n);
    });
    par_cases(ctx, rep, "huge-degree", ctx.n(40, 80), |i, r, rep| one(rep, huge_degree(i, r)));
}

// ---------------------------------------------------------------- C05

/// Checks all pairs of a Chebyshev rule against the closed form in double-double arithmetic.
pub fn check_chebyshev(rep: &mut Report, spec: Spec, pairs: &[(f64, f64)], what: &str, stride: usize) {
    let n = spec.degree();
    if !rep.check(pairs.len() == n, "pair-count", || format!("{what} {spec:?} has {} pairs", pairs.len())) {
        return;
    }
    let first = matches!(spec, Spec::C1(_));
    let (mut worst, mut wi) = (0.0f64, 0);
    let (mut wworst, mut wwi) = (0.0f64, 0);
    let mut i = 0;
    let mut count = 0;
    while i < n {
        let (x, w) = pairs[i];
        let k = (n - i) as f64; // the i of the closed form
        let theta = if first {
            DD::PI * DD::new(2.0 * k - 1.0) / DD::new(2.0 * n as f64)
        } else {
            DD::PI * DD::new(k) / DD::new(n as f64 + 1.0)
        };
        let (s, c) = theta.sin_cos();
        let e = ddist(x, c);
        if !(e <= worst) {
            worst = e;
            wi = i;
        }
        let (rw, tol) = if first {
            (DD::PI / DD::new(n as f64), 12.0)
        } else {
            (DD::PI / DD::new(n as f64 + 1.0) * s * s, 16.0 + 24.0 / s.f().abs())
        };
        let we = ddist(w, rw) / (rw.f() * tol * EPS);
        if !(we <= wworst) {
            wworst = we;
            wwi = i;
        }
        count += 1;
        // all of the ends, then strided
        i += if stride == 1 || i < 64 || i + 64 >= n { 1 } else { stride };
    }
    rep.close(worst, 12.0 * EPS, "node", || format!("{what} {spec:?}: node {wi} is {:e}", pairs[wi].0));
    rep.close(wworst, 1.0, "weight", || {
        format!("{what} {spec:?}: weight {wwi} is {:e} at node {:e}", pairs[wwi].1, pairs[wwi].0)
    });
    rep.check(pairs.windows(2).all(|p| p[0].0 < p[1].0), "order", || {
        format!("{what} {spec:?}: the nodes do not ascend")
    });
    rep.add("pairs_compared", count);
}

pub fn c05(ctx: &Ctx, rep: &mut Report) {
    rep.rule("every degree up to a bound and sampled degrees up to 10^6 and more, both kinds, serial and (where built with rayon) parallel constructors; pairs compared with the closed form in double-double arithmetic. Non-trivial: a (kind, constructor, degree) not seen before.");
    let one = |rep: &mut Report, n: usize, stride: usize| {
        for spec in [Spec::C1(n), Spec::C2(n)] {
            let rule = spec.build();
            check_chebyshev(rep, spec, rule.pairs().unwrap(), "new", stride);
            rep.case(true, (spec.bits(), 0));
            #[cfg(feature = "par")]
            {
                let rule = spec.par_build().unwrap();
                check_chebyshev(rep, spec, rule.pairs().unwrap(), "par_new", stride);
                rep.case(true, (spec.bits(), 1));
            }
            rep.sample(|| format!("{spec:?}"));
        }
    };
    let full = ctx.n(3000, 10_000);
    par_cases(ctx, rep, "all-degrees", full, |i, _, rep| one(rep, full - i, 1));
    par_cases(ctx, rep, "large", ctx.n(200, 2000), |i, r, rep| {
        let n = match i {
            0 => 1_000_000,
            1 => 999_999,
            2 => 1 << 16,
            3 => (1 << 16) + 1,
            4 => 1 << 20,
            5 => 5_000_001,
            _ => r.log_range(full as f64, 3e5) as usize,
        };
        one(rep, n, if n > 20_000 { r.us(2, 6) * (n / 20_000) + 1 } else { 1 });
    });
}
