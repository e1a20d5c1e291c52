//! C06-C09, C19: what `integrate` computes.

use crate::dd::DD;
use crate::p_nodes::{KNOWN_MIDDLE, tolerances};
use crate::reference::{Family, Reference};
use crate::rules::*;
use crate::util::*;
use gauss_quad::*;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// The points an `integrate` call evaluated, with the values it was given, and its result.
pub struct Trace {
    pub tv: Vec<(f64, f64)>,
    pub result: f64,
}

pub fn trace(rule: &Rule, a: f64, b: f64, mut f: impl FnMut(usize, f64) -> f64) -> Trace {
    let mut tv = Vec::new();
    let result = rule.integrate(a, b, |t| {
        let v = f(tv.len(), t);
        tv.push((t, v));
        v
    });
    Trace { tv, result }
}

#[cfg(feature = "par")]
pub fn par_trace(rule: &Rule, a: f64, b: f64, f: impl Fn(f64) -> f64 + Sync) -> Trace {
    let tv = std::sync::Mutex::new(Vec::new());
    let result = rule.par_integrate(a, b, |t| {
        let v = f(t);
        tv.lock().unwrap().push((t, v));
        v
    });
    Trace { tv: tv.into_inner().unwrap(), result }
}

/// Checks that the trace is an evaluation of the functional given by `table`
/// (ascending nodes and coefficients) on [a, b] (or on the rule's infinite domain).
pub fn check_functional(
    rep: &mut Report,
    what: &str,
    spec: Spec,
    table: &[(f64, f64)],
    a: f64,
    b: f64,
    tr: &Trace,
) -> bool {
    let n = table.len();
    let ctxt = || format!("{what} {spec:?} on [{a:e}, {b:e}]");
    rep.add("evaluations_observed", tr.tv.len() as u64);
    if !rep.check(tr.tv.len() == n, "evaluation-count", || {
        format!("{}: {} evaluations instead of {n}", ctxt(), tr.tv.len())
    }) {
        return false;
    }
    let mut tv = tr.tv.clone();
    tv.sort_by(|x, y| x.0.total_cmp(&y.0));
    let (mid, half) = if spec.is_interval() { (0.5 * a + 0.5 * b, 0.5 * b - 0.5 * a) } else { (0.0, 1.0) };
    if half < 0.0 {
        tv.reverse();
    }
    let tol = if spec.is_interval() { 10.0 * EPS * (a.abs() + b.abs()) } else { 0.0 };
    let mut worst = (0.0f64, 0);
    let mut sum_abs = 0.0;
    for i in 0..n {
        let (x, c) = table[i];
        let want = if spec.is_interval() { half.mul_add(x, mid) } else { x };
        let e = (tv[i].0 - want).abs();
        if !(e <= worst.0) {
            worst = (e, i);
        }
        sum_abs += (c * tv[i].1).abs();
    }
    let mut ok = rep.close(worst.0, tol, "point", || {
        let i = worst.1;
        format!("{}: evaluated at {:e} instead of {:e}", ctxt(), tv[i].0, half.mul_add(table[i].0, mid))
    });
    let want = ksum((0..n).map(|i| table[i].1 * tv[i].1)) * half;
    // Which value belongs to which coefficient is ambiguous among points that rounding does not separate.
    let near = 6.0 * EPS * a.abs().max(b.abs());
    let mut amb = 0.0;
    let mut i = 0;
    while spec.is_interval() && i < n {
        let mut j = i + 1;
        while j < n && (tv[j].0 - tv[j - 1].0).abs() <= near {
            j += 1;
        }
        if j > i + 1 {
            let vs = tv[i..j].iter().map(|x| x.1);
            let range = vs.clone().fold(f64::MIN, f64::max) - vs.fold(f64::MAX, f64::min);
            let mean = table[i..j].iter().map(|x| x.1).sum::<f64>() / (j - i) as f64;
            amb += range * table[i..j].iter().map(|x| (x.1 - mean).abs()).sum::<f64>();
        }
        i = j;
    }
    let tol = (EPS * (n as f64 + 24.0) * sum_abs + 2.0 * amb) * half.abs() + 1e-305;
    ok &= rep.close((tr.result - want).abs(), tol, "functional", || {
        format!("{}: result {:e} but the weighted sum is {want:e}", ctxt(), tr.result)
    });
    ok
}

pub fn sorted_table(rule: &Rule) -> Vec<(f64, f64)> {
    let mut t = rule.table();
    t.sort_by(|x, y| x.0.total_cmp(&y.0));
    t
}

/// (b - a) / 2 (w f(t_right) - w f(t_zero)) for the Jacobi rules with the wrong middle node that
/// is listed in known_findings.json, 0 for all others.
pub fn middle_correction(spec: Spec, rule: &Rule, a: f64, b: f64, f: impl Fn(f64) -> f64) -> f64 {
    if !spec.middle_node_finding() {
        return 0.0;
    }
    let p = rule.pairs().unwrap();
    let m = p.len() / 2;
    if p[m].0 != 0.0 {
        return 0.0;
    }
    let r = Reference::new(spec.family().unwrap(), p.len());
    let x = r.root(m, f64::NAN).x.f();
    let (mid, half) = (0.5 * a + 0.5 * b, 0.5 * b - 0.5 * a);
    half * p[m].1 * (f(half.mul_add(x, mid)) - f(mid))
}

// ---------------------------------------------------------------- C06

/// Values of the orthonormal polynomials p_0 .. p_{m-1} (p_0 = 1) and their derivatives.
struct Ortho {
    a: Vec<f64>,
    s: Vec<f64>,
}
impl Ortho {
    fn new(f: Family, m: usize) -> Self {
        Ortho {
            a: (0..m).map(|k| f.a(k).f()).collect(),
            s: (0..=m).map(|k| if k == 0 { 0.0 } else { f.b(k).sqrt().f() }).collect(),
        }
    }
    fn eval(&self, x: f64, out: &mut Vec<(f64, f64)>) {
        let m = self.a.len();
        out.clear();
        let (mut p0, mut d0, mut p1, mut d1) = (0.0, 0.0, 1.0, 0.0);
        for k in 0..m {
            out.push((p1, d1));
            let t = x - self.a[k];
            let p2 = (t * p1 - self.s[k] * p0) / self.s[k + 1];
            let d2 = (t * d1 + p1 - self.s[k] * d0) / self.s[k + 1];
            (p0, d0, p1, d1) = (p1, d1, p2, d2);
        }
    }
}

pub fn c06(ctx: &Ctx, rep: &mut Report) {
    rep.rule("rule, degree n, exponents, interval and polynomial drawn at random: sums of up to 4 products p_j p_k of orthonormal polynomials with j + k <= 2n - 1 (weighted towards the top degree), whose exact weighted integral is a sum of Kronecker deltas; the result of integrate is compared with it within a rounding bound computed from the values and slopes at the nodes. Non-trivial: the bound is below 1e-6 of the norm of the polynomial, and (rule, products, interval) was not seen before.");
    par_cases(ctx, rep, "gauss", ctx.n(60_000, 800_000), |_, r, rep| {
        let kind = r.us(0, 5);
        let (mf, mg) = if r.chance(0.1) { (220, 90) } else { (40, 24) };
        let spec = gen_spec_kind(r, kind, mf, mg);
        let n = spec.degree();
        let fam = spec.family().unwrap();
        let rule = spec.build();
        let (a, b) = if spec.is_interval() { gen_interval(r) } else { (0.0, 0.0) };
        let (mid, half) = if spec.is_interval() { (0.5 * a + 0.5 * b, 0.5 * b - 0.5 * a) } else { (0.0, 1.0) };
        // Far away from the origin, positions inside the interval are not resolved.
        let res = if spec.is_interval() { 10.0 * EPS * (a.abs() + b.abs()) / half.abs() } else { 0.0 };
        // products (j, k, coefficient)
        let terms: Vec<(usize, usize, f64)> = (0..r.us(1, 4))
            .map(|_| {
                let top = 2 * n - 1;
                let d = match r.below(4) {
                    0 => top,
                    1 => top - r.us(0, top.min(3)),
                    _ => r.us(0, top),
                };
                let (j, k) = match r.below(3) {
                    0 => (d / 2, d - d / 2),
                    1 => (d / 2, d / 2), // a norm, not 0
                    _ => {
                        let lo = d.saturating_sub(n.max(1));
                        let j = r.us(lo.min(d), d.min(n));
                        (j, d - j)
                    }
                };
                (j, k, r.range(-2.0, 2.0))
            })
            .collect();
        let m = terms.iter().map(|t| t.0.max(t.1)).max().unwrap() + 1;
        let o = Ortho::new(fam, m);
        let mut buf = Vec::new();
        let mut at = |x: f64| {
            o.eval(x, &mut buf);
            let (mut v, mut d) = (0.0, 0.0);
            for &(j, k, c) in &terms {
                v += c * buf[j].0 * buf[k].0;
                d += (c * buf[j].1 * buf[k].0).abs() + (c * buf[j].0 * buf[k].1).abs();
            }
            (v, d)
        };
        let tr = trace(&rule, a, b, |_, t| at((t - mid) / half).0);
        // Exact integral and rounding bound.
        let rf = Reference::new(fam, n);
        let mass = rf.mass.f() / rf.wscale;
        let exact = half * mass * terms.iter().map(|&(j, k, c)| if j == k { c } else { 0.0 }).sum::<f64>();
        let pairs = rule.pairs().unwrap();
        let guesses: Vec<(f64, f64)> = pairs.to_vec();
        let refs = rf.all(&guesses);
        let tols = tolerances(fam, &rf, &refs);
        let (mut tol, mut norm) = (0.0, 0.0);
        let mut corr = 0.0;
        for i in 0..n {
            let x = refs[i].x.f();
            let w = refs[i].frac.f() * mass;
            let middle = spec.middle_node_finding() && i == n / 2 && pairs[i].0 == 0.0 && x.abs() > tols[i].0;
            let dx = tols[i].0 + res + 4.0 * EPS * (1.0 + x.abs());
            // Where the rule may evaluate: the values and weights vary over a neighbourhood.
            let here = |x: f64, at: &mut dyn FnMut(f64) -> (f64, f64)| {
                let (v, d) = at(x);
                let (l, u) = (at(x - dx), at(x + dx));
                let d = d.max(l.1).max(u.1);
                let big = v.abs().max(l.0.abs()).max(u.0.abs()).max(d * dx);
                w * d * dx + big * tols[i].1 / rf.wscale + w * big * EPS * (n as f64 + 30.0 * (m as f64 + 1.0))
            };
            let (v, _) = at(x);
            tol += here(x, &mut at);
            norm += w * v.abs();
            if middle {
                tol += here(0.0, &mut at);
                corr = half * pairs[i].1 * (v - at(0.0).0);
            }
        }
        tol *= 2.0 * half.abs();
        norm *= half.abs();
        let nontrivial = tol < 1e-6 * norm.max(half.abs() * mass * 1e-3);
        rep.case(nontrivial, (spec.bits(), hf(a), hf(b), terms.iter().map(|t| (t.0, t.1, hf(t.2))).collect::<Vec<_>>()));
        if !tol.is_finite() {
            return;
        }
        if corr.abs() > tol {
            rep.known(KNOWN_MIDDLE, || format!("{spec:?} on [{a:e}, {b:e}]: polynomial {terms:?} is off by {corr:e}"));
        }
        let err = (tr.result - exact).abs().min((tr.result + corr - exact).abs());
        rep.close(err, tol, "exactness", || {
            format!("{spec:?} on [{a:e}, {b:e}], terms (j, k, c) {terms:?}: {:e} but exactly {exact:e}", tr.result)
        });
        rep.check(tr.tv.len() == n, "evaluation-count", || format!("{spec:?}: {} evaluations", tr.tv.len()));
        rep.sample(|| format!("{spec:?} on [{a:e}, {b:e}], sum of c p_j p_k for (j, k, c) {terms:?}: {:e}, exact {exact:e}", tr.result));
    });
    // Plain powers on [-1, 1] or the natural domain, which a user would try: moments of every order.
    par_cases(ctx, rep, "moments", ctx.n(4000, 40_000), |_, r, rep| {
        let kind = r.us(0, 5);
        let spec = gen_spec_kind(r, kind, 20, 12);
        let n = spec.degree();
        let fam = spec.family().unwrap();
        let rule = spec.build();
        let rf = Reference::new(fam, n + 1);
        // Moments from a reference rule with one more node.
        let refs = rf.all(&[]);
        let refn = Reference::new(fam, n);
        let own = refn.all(rule.pairs().unwrap());
        let tols = tolerances(fam, &refn, &own);
        for k in 0..2 * n {
            let got = rule.integrate(-1.0, 1.0, |x| x.powi(k as i32));
            let pow = |x: DD| {
                let mut p = DD::ONE;
                for _ in 0..k {
                    p = p * x;
                }
                p
            };
            let mut want = DD::ZERO;
            for p in &refs {
                want = want + p.frac * pow(p.x);
            }
            let want = (want * rf.mass).f();
            let mut tol = 0.0;
            for i in 0..n {
                let x = own[i].x.f().abs();
                let w = (own[i].frac * refn.mass).f();
                let v = x.powi(k as i32);
                let d = if k == 0 { 0.0 } else { k as f64 * x.powi(k as i32 - 1) };
                tol += w * d * tols[i].0 + v * tols[i].1 + w * v * EPS * (n as f64 + 2.0 * k as f64 + 20.0);
            }
            tol *= 2.0;
            let corr = if k > 0 { middle_correction(spec, &rule, -1.0, 1.0, |x| x.powi(k as i32)) } else { 0.0 };
            if corr.abs() > tol {
                rep.known(KNOWN_MIDDLE, || format!("{spec:?}: the integral of x^{k} is off by {corr:e}"));
            }
            let err = (got - want).abs().min((got + corr - want).abs());
            rep.case(true, (spec.bits(), k));
            rep.close(err, tol, "moment", || format!("{spec:?}: integral of x^{k} is {got:e} but exactly {want:e}"));
        }
    });
}

// ---------------------------------------------------------------- C07

fn functional_case(rep: &mut Report, r: &mut Rng, spec: Spec, rule: &Rule, table: &[(f64, f64)], a: f64, b: f64) {
    let salt = r.u64();
    let tr = trace(rule, a, b, |_, t| hval(t, salt));
    check_functional(rep, "integrate", spec, table, a, b, &tr);
    #[cfg(feature = "par")]
    {
        let tr = par_trace(rule, a, b, |t| hval(t, salt));
        check_functional(rep, "par_integrate", spec, table, a, b, &tr);
    }
    rep.case(true, (spec.bits(), hf(a), hf(b)));
    rep.sample(|| format!("{spec:?} on [{a:e}, {b:e}] with arbitrary values: {:e}", tr.result));
}

pub fn c07(ctx: &Ctx, rep: &mut Report) {
    rep.rule("rule, degree, exponents and interval (either orientation, scales 1e-250 to 1e250, near and far from the origin) drawn at random; the integrand returns arbitrary values and records where it is called. Non-trivial: a (rule, interval) not seen before, whose recorded points and result were compared with the affine image of the rule.");
    let kinds = [0usize, 1, 4, 5, 6, 7, 8];
    par_cases(ctx, rep, "functional", ctx.n(60_000, 800_000), |_, r, rep| {
        let kind = r.pick(&kinds);
        let (mf, mg) = match r.below(20) {
            0 => (3000, 60),
            1..=4 => (300, 30),
            _ => (40, 14),
        };
        let mut spec = gen_spec_kind(r, kind, mf, mg);
        let mut rule = spec.build();
        if r.chance(0.01) {
            let (s, q) = gen_rule(r, 1.0, 1, 1);
            if s.is_interval() {
                (spec, rule) = (s, q);
            }
        }
        let table = sorted_table(&rule);
        for _ in 0..3 {
            let (a, b) = gen_any_interval(r);
            functional_case(rep, r, spec, &rule, &table, a, b);
            // and the reverse on the same rule
            functional_case(rep, r, spec, &rule, &table, b, a);
        }
    });
    par_cases(ctx, rep, "relations", ctx.n(30_000, 400_000), |_, r, rep| {
        let kind = r.pick(&kinds);
        let (mf, mg) = if r.chance(0.1) { (1500, 40) } else { (60, 16) };
        let spec = gen_spec_kind(r, kind, mf, mg);
        let rule = spec.build();
        let n = spec.points() as f64;
        let (p, q, s) = (r.range(-3.0, 3.0), r.range(-3.0, 3.0), r.range(0.3, 2.0));
        let f = |u: f64| (p * u + q).sin() + 0.5 * u * u - 0.3;
        let g = |u: f64| (s * u).exp() * 0.3 - u;
        let (a, b) = gen_mild_interval(r);
        let size = {
            let t = trace(&rule, a, b, |_, t| f(t).abs() + g(t).abs());
            t.result.abs().max((b - a).abs() * 1e-3)
        };
        let slope = (a.abs() + b.abs() + 1.0) * (p.abs() + a.abs() + b.abs() + s * (s * a.abs().max(b.abs())).exp() + 2.0);
        let mass = rule.integrate(a, b, |_| 1.0).abs();
        let tol = EPS * (4.0 * (n + 30.0) * size + 40.0 * slope * mass);
        let i = rule.integrate(a, b, f);
        let ig = rule.integrate(a, b, g);
        rep.case(true, (spec.bits(), hf(a), hf(b)));
        // Orientation. Only exact for symmetric rules, as (1-x)^alpha (1+x)^beta is reflected too,
        // unless the points are reflected with it.
        if let Spec::Jac(n, al, be) = spec {
            let mirror = GaussJacobi::new(nz(n), fin(be), fin(al));
            let j = mirror.integrate(b, a, f);
            let t = tol * 100.0 + 1e4 * EPS * size;
            // near-degenerate exponents have ill-conditioned nodes
            if al > -0.99 && be > -0.99 && al < 30.0 && be < 30.0 {
                rep.close((i + j).abs(), t, "swap-mirror", || format!("{spec:?} on [{a}, {b}]: {i:e} and mirrored {j:e}"));
            }
        } else {
            let j = rule.integrate(b, a, f);
            rep.close((i + j).abs(), tol, "swap", || format!("{spec:?}: [{a}, {b}] gives {i:e}, reversed {j:e}"));
        }
        // Degenerate.
        let c = r.pick(&[0.0, a, b, 1e30, -1e-30]);
        let z = rule.integrate(c, c, |u| 1.0 + u.sin());
        rep.check(z == 0.0, "degenerate", || format!("{spec:?} on [{c:e}, {c:e}]: {z:e}"));
        // Linearity.
        let (k, l) = (r.range(-2.0, 2.0), r.range(-2.0, 2.0));
        let lin = rule.integrate(a, b, |u| k * f(u) + l * g(u));
        rep.close((lin - (k * i + l * ig)).abs(), 3.0 * tol, "linear", || format!("{spec:?} on [{a}, {b}]"));
        // Translation and dilation of the interval.
        let d = r.range(-4.0, 4.0);
        let sh = rule.integrate(a + d, b + d, |u| f(u - d));
        rep.close((sh - i).abs(), 3.0 * tol + 3.0 * EPS * 20.0 * slope * mass * (1.0 + d.abs()), "translate", || {
            format!("{spec:?} on [{a}, {b}] moved by {d}: {sh:e} instead of {i:e}")
        });
        let z = r.pick(&[1e-200, 1e-8, 0.5, 3.0, -1.0, -2.5, 1e12, 1e150]);
        let sc = rule.integrate(a * z, b * z, |u| f(u / z));
        rep.close((sc / z - i).abs(), 3.0 * tol, "dilate", || format!("{spec:?} on [{a}, {b}] times {z:e}: {sc:e} for {i:e}"));
        #[cfg(feature = "par")]
        {
            let z2 = rule.par_integrate(c, c, |u| 1.0 + u.sin());
            rep.check(z2 == 0.0, "degenerate", || format!("par {spec:?} on [{c:e}, {c:e}]: {z2:e}"));
            let pi = rule.par_integrate(a, b, f);
            rep.close((pi - i).abs(), tol, "par", || format!("par {spec:?} on [{a}, {b}]: {pi:e} {i:e}"));
            if !matches!(spec, Spec::Jac(..)) {
                let pj = rule.par_integrate(b, a, f);
                rep.close((pi + pj).abs(), tol, "swap", || format!("par {spec:?} on [{a}, {b}]: {pi:e} {pj:e}"));
            }
        }
    });
}

// ---------------------------------------------------------------- C08

/// Reaches a Newton-Cotes rule of the given kind and degree through a random history.
pub fn nc_history(r: &mut Rng, kind: usize, n: u32) -> (Rule, String) {
    let mut h = String::new();
    let first = |r: &mut Rng, n: u32| match r.below(3) {
        0 => n,
        1 => r.us(1, 50) as u32,
        _ => (r.u64() as u32).max(1),
    };
    let d0 = first(r, n);
    let from = r.chance(0.5);
    h.push_str(&format!("{}({d0})", if from { "From" } else { "new" }));
    let mut rule = match (kind, from) {
        (6, false) => Rule::Mid(Midpoint::new(nz32(d0))),
        (6, true) => Rule::Mid(nz32(d0).into()),
        (7, false) => Rule::Simp(Simpson::new(nz32(d0))),
        (7, true) => Rule::Simp(nz32(d0).into()),
        (_, false) => Rule::Trap(Trapezoid::new(nz32(d0))),
        (_, true) => Rule::Trap(nz32(d0).into()),
    };
    let set = |rule: &mut Rule, d: u32| match rule {
        Rule::Mid(x) => x.change_degree(nz32(d)),
        Rule::Simp(x) => x.change_degree(nz32(d)),
        Rule::Trap(x) => x.change_degree(nz32(d)),
        _ => unreachable!(),
    };
    for _ in 0..r.us(0, 3) {
        match r.below(if cfg!(feature = "f_serde") { 6 } else { 4 }) {
            0 => {
                let d = first(r, n);
                set(&mut rule, d);
                h.push_str(&format!(".change_degree({d})"));
            }
            1 => {
                rule = rule.clone();
                h.push_str(".clone()");
            }
            3 => {
                let mut other = nc_spec(kind, first(r, n)).build();
                match (&mut other, &rule) {
                    (Rule::Mid(x), Rule::Mid(y)) => x.clone_from(y),
                    (Rule::Simp(x), Rule::Simp(y)) => x.clone_from(y),
                    (Rule::Trap(x), Rule::Trap(y)) => x.clone_from(y),
                    _ => unreachable!(),
                }
                rule = other;
                h.push_str(".clone_from()");
            }
            #[cfg(feature = "f_serde")]
            4 | 5 => {
                let text = r.chance(0.5);
                macro_rules! again {
                    ($x:expr, $t:ty) => {
                        if text {
                            serde_json::from_str::<$t>(&serde_json::to_string($x).unwrap()).map_err(|e| e.to_string())
                        } else {
                            bincode::deserialize::<$t>(&bincode::serialize($x).unwrap()).map_err(|e| e.to_string())
                        }
                    };
                }
                let again = match &rule {
                    Rule::Mid(x) => again!(x, Midpoint).map(Rule::Mid),
                    Rule::Simp(x) => again!(x, Simpson).map(Rule::Simp),
                    Rule::Trap(x) => again!(x, Trapezoid).map(Rule::Trap),
                    _ => unreachable!(),
                };
                // That it deserializes at all is C15.
                if let Ok(x) = again {
                    rule = x;
                    h.push_str(if text { ".json()" } else { ".bincode()" });
                }
            }
            _ => {
                if rule.degree() < 3000 {
                    rule.integrate(0.0, 1.0, |x| x);
                    h.push_str(".integrate()");
                }
            }
        }
    }
    if rule.degree() != n as usize || r.chance(0.3) {
        set(&mut rule, n);
        h.push_str(&format!(".change_degree({n})"));
    }
    if r.chance(0.2) {
        rule = rule.clone();
        h.push_str(".clone()");
    }
    #[cfg(feature = "f_serde")]
    if r.chance(0.2) {
        let t = match &rule {
            Rule::Mid(x) => serde_json::to_string(x),
            Rule::Simp(x) => serde_json::to_string(x),
            Rule::Trap(x) => serde_json::to_string(x),
            _ => unreachable!(),
        }
        .unwrap();
        let again = match kind {
            6 => serde_json::from_str(&t).map(Rule::Mid),
            7 => serde_json::from_str(&t).map(Rule::Simp),
            _ => serde_json::from_str(&t).map(Rule::Trap),
        };
        if let Ok(x) = again {
            rule = x;
            h.push_str(".json()");
        }
    }
    (rule, h)
}


fn nc_spec(kind: usize, n: u32) -> Spec {
    match kind {
        6 => Spec::Mid(n),
        7 => Spec::Simp(n),
        _ => Spec::Trap(n),
    }
}

pub fn c08(ctx: &Ctx, rep: &mut Report) {
    rep.rule("kind, degree, history of constructions and degree changes, and interval drawn at random (all degrees up to a bound exhaustively); the integrand returns arbitrary values and records its points, so the whole coefficient table is observed; for degrees of millions to 2^31 the points are checked on the fly. Non-trivial: a (rule, interval) not seen before.");
    let full = ctx.size(700, 3000);
    par_cases(ctx, rep, "every-degree", full, |i, r, rep| {
        let n = (full - i) as u32;
        for kind in 6..9 {
            let (rule, h) = nc_history(r, kind, n);
            let spec = nc_spec(kind, n);
            let table = rule.table();
            rep.check(rule.degree() == n as usize, "degree", || format!("{spec:?} via {h}: degree {}", rule.degree()));
            for _ in 0..2 {
                let (a, b) = gen_any_interval(r);
                functional_case(rep, r, spec, &rule, &table, a, b);
            }
        }
    });
    par_cases(ctx, rep, "histories", ctx.n(40_000, 400_000), |_, r, rep| {
        let kind = r.us(6, 8);
        let max = if r.chance(0.02) { 20_000 } else { 100 };
        let n = gen_degree(r, max) as u32;
        let (rule, h) = nc_history(r, kind, n);
        let spec = nc_spec(kind, n);
        let fresh = spec.build();
        rep.check(rule == fresh && rule.degree() == n as usize, "history", || {
            format!("{spec:?} via {h} is {rule:?}")
        });
        let table = rule.table();
        let (a, b) = gen_interval(r);
        functional_case(rep, r, spec, &rule, &table, a, b);
        rep.sample(|| format!("{h}"));
        // Exactness for low-degree polynomials.
        let deg = if kind == 7 { 3 } else { 1 };
        let (a, b) = gen_mild_interval(r);
        let c: Vec<f64> = (0..=deg).map(|_| r.range(-2.0, 2.0)).collect();
        let p = |x: f64| c.iter().rev().fold(0.0, |s, k| s * x + k);
        let prim = |x: f64| c.iter().enumerate().rev().fold(0.0, |s, (i, k)| s * x + k / (i as f64 + 1.0)) * x;
        let want = prim(b) - prim(a);
        let m = a.abs().max(b.abs()).max(1.0);
        let tol = EPS * (n as f64 + 40.0) * 30.0 * m.powi(deg + 1);
        let got = rule.integrate(a, b, p);
        rep.close((got - want).abs(), tol, "polynomial", || format!("{spec:?} via {h} on [{a}, {b}] {c:?}: {got:e} {want:e}"));
        #[cfg(feature = "par")]
        {
            let got = rule.par_integrate(a, b, p);
            rep.close((got - want).abs(), tol, "polynomial", || format!("par {spec:?} via {h} on [{a}, {b}] {c:?}: {got:e} {want:e}"));
        }
    });
    // Large degrees: on [0, n] the cells have width 1, so every point is exactly representable.
    let mut sizes: Vec<(u32, usize)> = Vec::new();
    for kind in 6..9 {
        for n in [65_536u32, 65_537, 1_000_000, (1 << 24) - 1, (1 << 24) + 1, 20_000_003] {
            sizes.push((n, kind));
        }
        sizes.push(((1u32 << 31) + 5, kind));
        if ctx.thorough {
            sizes.push((u32::MAX, kind));
            sizes.push(((1u32 << 31) - 1, kind));
        }
    }
    sizes.sort_by(|a, b| b.cmp(a));
    par_cases(ctx, rep, "large", sizes.len(), |i, _, rep| {
        let (n, kind) = sizes[i];
        let spec = nc_spec(kind, n);
        let rule = spec.build();
        large_nc(rep, spec, |f| rule.integrate(0.0, n as f64, f), "integrate");
    });
    #[cfg(feature = "par")]
    {
        large_parallel(ctx, rep, &sizes);
    }
}

/// One after the other, as each uses all cores.
#[cfg(feature = "par")]
pub fn large_parallel(ctx: &Ctx, rep: &mut Report, sizes: &[(u32, usize)]) {
    let one = Ctx { threads: 1, ..ctx.clone() };
    par_cases(&one, rep, "large-par", sizes.len(), |i, _, rep| {
        let (n, kind) = sizes[i];
        let spec = nc_spec(kind, n);
        let rule = spec.build();
        large_nc_par(rep, spec, &rule);
    });
}

/// Expected count, sum of 2t and sum of squares of 2t modulo 2^64 on [0, n], and extremes.
fn nc_expect(spec: Spec) -> (u64, u64, u64, f64, f64) {
    let n = spec.degree() as u128;
    let (first, step, count): (u128, u128, u128) = match spec {
        Spec::Mid(_) => (1, 2, n),
        Spec::Trap(_) => (0, 2, n + 1),
        _ => (0, 1, 2 * n + 1),
    };
    // sum over i < count of (first + step i) and its square
    let c = count;
    let s1 = c * (c - 1) / 2;
    let s2 = (c - 1) * c / 2 * (2 * c - 1) / 3;
    let sum = first * c + step * s1;
    let sq = first * first * c + 2 * first * step * s1 + step * step * s2;
    let lo = first as f64 / 2.0;
    let hi = (first + step * (c - 1)) as f64 / 2.0;
    (c as u64, sum as u64, sq as u64, lo, hi)
}

fn large_nc(rep: &mut Report, spec: Spec, run: impl FnOnce(&mut dyn FnMut(f64) -> f64) -> f64, what: &str) {
    let (count, sum, sq, lo, hi) = nc_expect(spec);
    let (mut c, mut s, mut q, mut off, mut mn, mut mx) = (0u64, 0u64, 0u64, 0u64, f64::INFINITY, f64::NEG_INFINITY);
    let result = run(&mut |t| {
        let k = 2.0 * t;
        let r = (k + 0.25) as u64;
        c += 1;
        s = s.wrapping_add(r);
        q = q.wrapping_add(r.wrapping_mul(r));
        if (k - r as f64).abs() > 1e-5 {
            off += 1;
        }
        mn = mn.min(t);
        mx = mx.max(t);
        1.0
    });
    large_verdict(rep, spec, what, (c, s, q, off, mn, mx), (count, sum, sq, lo, hi), result);
}

type Seen = (u64, u64, u64, u64, f64, f64);
fn large_verdict(rep: &mut Report, spec: Spec, what: &str, seen: Seen, want: (u64, u64, u64, f64, f64), result: f64) {
    let (c, s, q, off, mn, mx) = seen;
    let (count, sum, sq, lo, hi) = want;
    rep.add("evaluations_observed", c);
    rep.check(c == count, "evaluation-count", || format!("{what} {spec:?}: {c} evaluations instead of {count}"));
    rep.check(s == sum && q == sq && off == 0, "points-large", || {
        format!("{what} {spec:?} on [0, n]: the points are not the multiples of h or h/2 ({off} are off; sums {s} {q} instead of {sum} {sq})")
    });
    rep.check((mn - lo).abs() < 1e-5 && (mx - hi).abs() < 1e-5, "range-large", || {
        format!("{what} {spec:?} on [0, n]: points from {mn} to {mx}")
    });
    let n = spec.degree() as f64;
    rep.close((result - n).abs(), n * (EPS * 64.0 + 1e-13 + EPS * n * 0.5), "constant-large", || {
        format!("{what} {spec:?} of 1 on [0, n]: {result:e}")
    });
    rep.case(true, (spec.bits(), hash_str(what)));
}

#[cfg(feature = "par")]
fn large_nc_par(rep: &mut Report, spec: Spec, rule: &Rule) {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    // Per-thread cells, so that the monitor does not serialize the workload.
    #[repr(align(128))]
    #[derive(Default)]
    struct Cell([AtomicU64; 6]);
    let cells: Vec<Cell> = (0..64).map(|_| Cell::default()).collect();
    for c in &cells {
        c.0[4].store(u64::MAX, Relaxed);
    }
    let n = spec.degree() as f64;
    let result = rule.par_integrate(0.0, n, |t| {
        let k = 2.0 * t;
        let r = (k + 0.25) as u64;
        let c = &cells[rayon::current_thread_index().map_or(63, |i| i % 63)].0;
        c[0].fetch_add(1, Relaxed);
        c[1].fetch_add(r, Relaxed);
        c[2].fetch_add(r.wrapping_mul(r), Relaxed);
        if (k - r as f64).abs() > 1e-5 {
            c[3].fetch_add(1, Relaxed);
        }
        if r < c[4].load(Relaxed) {
            c[4].fetch_min(r, Relaxed);
        }
        if r > c[5].load(Relaxed) {
            c[5].fetch_max(r, Relaxed);
        }
        1.0
    });
    let tot = |i: usize| cells.iter().fold(0u64, |s, c| s.wrapping_add(c.0[i].load(Relaxed)));
    let mn = cells.iter().map(|c| c.0[4].load(Relaxed)).min().unwrap() as f64 / 2.0;
    let mx = cells.iter().map(|c| c.0[5].load(Relaxed)).max().unwrap() as f64 / 2.0;
    let seen = (tot(0), tot(1), tot(2), tot(3), mn, mx);
    large_verdict(rep, spec, "par_integrate", seen, nc_expect(spec), result);
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Copy, PartialEq, Debug)]
enum Class {
    Finite,
    PosInf,
    NegInf,
    Nan,
}
fn class(x: f64) -> Class {
    if x.is_nan() {
        Class::Nan
    } else if x == f64::INFINITY {
        Class::PosInf
    } else if x == f64::NEG_INFINITY {
        Class::NegInf
    } else {
        Class::Finite
    }
}

struct Payload(u64);

pub fn c09(ctx: &Ctx, rep: &mut Report) {
    rep.rule("histories of 3 to 8 calls on one rule (any kind, degree, interval): plain, stateful (values by call number), with NaN or infinite values at chosen positions, panicking at a chosen evaluation, serial and (where built with rayon) parallel. Every call is recorded and compared with the rule's functional. Non-trivial: a (rule, interval, history) not seen before.");
    par_cases(ctx, rep, "history", ctx.n(40_000, 500_000), |_, r, rep| {
        let (mf, mg) = match r.below(30) {
            0 => (2000, 50),
            1..=4 => (200, 24),
            _ => (30, 12),
        };
        let (spec, rule) = gen_rule(r, 0.015, mf, mg);
        let before = rule.clone();
        let table = sorted_table(&rule);
        let n = table.len();
        let (a, b) = if spec.is_interval() { gen_any_interval(r) } else { (0.0, 0.0) };
        let salt = r.u64();
        let half = if spec.is_interval() { 0.5 * b - 0.5 * a } else { 1.0 };
        // Every node a distinct point?
        let first = trace(&rule, a, b, |_, t| hval(t, salt));
        check_functional(rep, "integrate", spec, &table, a, b, &first);
        rep.check(first.tv.len() == spec.points(), "evaluation-count", || {
            format!("{spec:?} on [{a:e}, {b:e}]: {} evaluations instead of {}", first.tv.len(), spec.points())
        });
        let mut ops = Vec::new();
        for _ in 0..r.us(2, 7) {
            #[cfg(feature = "par")]
            let op = r.below(8);
            #[cfg(not(feature = "par"))]
            let op = r.below(5);
            ops.push(op);
            match op {
                0 => {
                    // Stateful: a value per call number, seen in the order of the calls.
                    let s2 = r.u64();
                    let mut state = 0u64;
                    let tr = trace(&rule, a, b, |k, _| {
                        state += 1;
                        assert_eq!(state as usize, k + 1);
                        hval(state as f64, s2)
                    });
                    check_functional(rep, "integrate (stateful)", spec, &table, a, b, &tr);
                    rep.check(state as usize == n, "evaluation-count", || format!("{spec:?}: state {state} after the call"));
                }
                1 | 5 => {
                    // NaN and infinities at positions chosen by rank.
                    let k = r.us(1, 3).min(n);
                    let mut sorted: Vec<f64> = first.tv.iter().map(|p| p.0).collect();
                    sorted.sort_by(f64::total_cmp);
                    let mut special: Vec<(u64, f64)> = Vec::new();
                    for _ in 0..k {
                        let v = r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::INFINITY]);
                        let i = match r.below(4) {
                            0 => 0,
                            1 => n - 1,
                            _ => r.us(0, n - 1),
                        };
                        special.push((sorted[i].to_bits(), v));
                    }
                    let f = |t: f64| {
                        special.iter().find(|s| s.0 == t.to_bits()).map_or_else(|| hval(t, salt), |s| s.1)
                    };
                    let tr = if op == 1 {
                        trace(&rule, a, b, |_, t| f(t))
                    } else {
                        par_or_serial(&rule, a, b, &f)
                    };
                    // Classify the weighted sum.
                    let mut tv = tr.tv.clone();
                    tv.sort_by(|x, y| x.0.total_cmp(&y.0));
                    if half < 0.0 {
                        tv.reverse();
                    }
                    if tv.len() == n {
                        // Classify the weighted sum; weights next to underflow can go either way.
                        let safe = (half == 0.0 || half.abs() > 1e-300) && (0..n).all(|i| tv[i].1.is_finite() || table[i].1.abs() > 1e-290);
                        let (mut pos, mut neg, mut nan) = (false, false, false);
                        for v in tv.iter().map(|p| p.1) {
                            match class(v * half.signum()) {
                                Class::Nan => nan = true,
                                Class::PosInf => pos = true,
                                Class::NegInf => neg = true,
                                Class::Finite => {}
                            }
                        }
                        let want = match (nan, pos, neg) {
                            (true, _, _) | (_, true, true) => Class::Nan,
                            (_, true, _) => Class::PosInf,
                            (_, _, true) => Class::NegInf,
                            _ => Class::Finite,
                        };
                        // An empty interval makes it infinity times zero.
                        let want = if half == 0.0 && want != Class::Finite { Class::Nan } else { want };
                        if safe {
                            rep.check(class(tr.result) == want, "propagation", || {
                                format!("{spec:?} on [{a:e}, {b:e}] op {op}: values {:?} give {:e}", special.iter().map(|s| s.1).collect::<Vec<_>>(), tr.result)
                            });
                        }
                    } else {
                        rep.violation("evaluation-count", format!("{spec:?}: {} evaluations instead of {n}", tv.len()));
                    }
                }
                2 | 6 => {
                    // Panic at one evaluation.
                    let at = r.us(0, n - 1);
                    let id = r.u64();
                    let mut calls = 0usize;
                    let res = if op == 2 {
                        catch_unwind(AssertUnwindSafe(|| {
                            rule.integrate(a, b, |t| {
                                if calls == at {
                                    calls += 1;
                                    std::panic::panic_any(Payload(id));
                                }
                                calls += 1;
                                hval(t, salt)
                            })
                        }))
                    } else {
                        let c = std::sync::atomic::AtomicUsize::new(0);
                        let res = catch_unwind(AssertUnwindSafe(|| {
                            par_call(&rule, a, b, &|t| {
                                if c.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == at {
                                    std::panic::panic_any(Payload(id));
                                }
                                hval(t, salt)
                            })
                        }));
                        calls = at + 1;
                        res
                    };
                    match res {
                        Ok(v) => rep.violation("panic-lost", format!("{spec:?} op {op}: panic of evaluation {at} lost, result {v:e}")),
                        Err(p) => {
                            rep.check(p.downcast_ref::<Payload>().is_some_and(|p| p.0 == id), "panic-payload", || {
                                format!("{spec:?} op {op}: the panic is another one")
                            });
                            rep.check(calls == at + 1, "panic-continues", || {
                                format!("{spec:?}: {calls} evaluations although number {at} panicked")
                            });
                        }
                    }
                    rep.add("panics_injected", 1);
                }
                3 => {
                    // The same call again.
                    let tr = trace(&rule, a, b, |_, t| hval(t, salt));
                    rep.check(tr.result.to_bits() == first.result.to_bits() && same_points(&tr, &first), "repeat", || {
                        format!("{spec:?} on [{a:e}, {b:e}] after {ops:?}: {:e}, first {:e}", tr.result, first.result)
                    });
                }
                4 => {
                    // Another interval in between.
                    let (a2, b2) = if spec.is_interval() { gen_any_interval(r) } else { (0.0, 0.0) };
                    let tr = trace(&rule, a2, b2, |_, t| hval(t, salt));
                    check_functional(rep, "integrate", spec, &table, a2, b2, &tr);
                }
                _ => {
                    let tr = par_or_serial(&rule, a, b, &|t| hval(t, salt));
                    check_functional(rep, "par_integrate", spec, &table, a, b, &tr);
                }
            }
        }
        let last = trace(&rule, a, b, |_, t| hval(t, salt));
        rep.check(last.result.to_bits() == first.result.to_bits() && same_points(&last, &first), "repeat", || {
            format!("{spec:?} on [{a:e}, {b:e}] after {ops:?}: {:e}, first {:e}", last.result, first.result)
        });
        rep.check(rule == before, "changed", || format!("{spec:?} changed after {ops:?}"));
        rep.case(true, (spec.bits(), hf(a), hf(b), ops.clone()));
        rep.sample(|| format!("{spec:?} on [{a:e}, {b:e}]: operations {ops:?}, {n} evaluations each"));
    });
}

fn same_points(x: &Trace, y: &Trace) -> bool {
    let s = |t: &Trace| {
        let mut v: Vec<u64> = t.tv.iter().map(|p| p.0.to_bits()).collect();
        v.sort();
        v
    };
    s(x) == s(y)
}

#[cfg(feature = "par")]
fn par_or_serial(rule: &Rule, a: f64, b: f64, f: &(dyn Fn(f64) -> f64 + Sync)) -> Trace {
    par_trace(rule, a, b, f)
}
#[cfg(not(feature = "par"))]
fn par_or_serial(rule: &Rule, a: f64, b: f64, f: &(dyn Fn(f64) -> f64 + Sync)) -> Trace {
    trace(rule, a, b, |_, t| f(t))
}
#[cfg(feature = "par")]
fn par_call(rule: &Rule, a: f64, b: f64, f: &(dyn Fn(f64) -> f64 + Sync)) -> f64 {
    rule.par_integrate(a, b, f)
}
#[cfg(not(feature = "par"))]
fn par_call(rule: &Rule, a: f64, b: f64, f: &(dyn Fn(f64) -> f64 + Sync)) -> f64 {
    rule.integrate(a, b, f)
}

// ---------------------------------------------------------------- C19

/// Logarithm of h_n / (2n)! where h_n is the squared norm of the monic p_n.
fn ln_gauss_error_factor(f: Family, n: usize) -> f64 {
    let mut l = f.ln_mass().f();
    for k in 1..=n {
        l += f.b(k).f().ln();
    }
    for k in 1..=2 * n {
        l -= (k as f64).ln();
    }
    l
}

/// The integral of w(x) exp(c x) over [-1, 1] for w = (1-x)^al (1+x)^be, by the series of 1F1.
fn jacobi_exp(al: f64, be: f64, c: f64) -> f64 {
    let (al, be, c) = if c < 0.0 { (be, al, -c) } else { (al, be, c) };
    let (p, q) = (DD::new(be) + DD::ONE, DD::new(al) + DD::new(be) + DD::new(2.0));
    let z = DD::new(2.0 * c);
    let (mut t, mut s) = (DD::ONE, DD::ONE);
    for k in 0..600 {
        let kd = DD::new(k as f64);
        t = t * (p + kd) / (q + kd) * z / DD::new(k as f64 + 1.0);
        s = s + t;
        if t.f() < s.f() * 1e-32 {
            break;
        }
    }
    let ln = Family::Jacobi(al, be).ln_mass() - DD::new(c);
    (s * ln.exp()).f()
}

pub fn c19(ctx: &Ctx, rep: &mut Report) {
    rep.rule("integrand family with random parameters, rule, degree, exponents and interval drawn at random; |result - exact| is compared with the error bound of the theory (Gauss: h_n max|f^(2n)| / (2n)!, or the best polynomial approximation on a Bernstein ellipse; composite rules: the classical bounds; periodic functions: aliasing) plus a rounding bound. Integrands with parts at different scales are compared with the exact rule of the same degree in double-double arithmetic. Non-trivial: the total bound is below 1e-3 of the size of the integral.");
    par_cases(ctx, rep, "gauss-exp", ctx.n(50_000, 500_000), |_, r, rep| {
        let kind = r.us(0, 5);
        let (mf, mg) = if r.chance(0.15) { (400, 60) } else { (40, 30) };
        let spec = gen_spec_kind(r, kind, mf, mg);
        let n = spec.degree();
        let fam = spec.family().unwrap();
        let (al, be) = spec.exponents();
        let rule = spec.build();
        let (a, b) = if spec.is_interval() { gen_mild_interval(r) } else { (0.0, 0.0) };
        let (mid, half) = if spec.is_interval() { (0.5 * (a + b), 0.5 * (b - a)) } else { (0.0, 1.0) };
        let (jal, jbe) = match spec {
            Spec::Jac(..) => (al, be),
            Spec::C1(_) => (-0.5, -0.5),
            Spec::C2(_) => (0.5, 0.5),
            _ => (0.0, 0.0),
        };
        // f(t) = exp(c (t - t0)) or cos(c (t - t0)) in the variable of the interval.
        let expo = !matches!(spec, Spec::Her(_)) && r.chance(0.5);
        let c = match spec {
            Spec::Lag(..) => {
                if expo { -r.log_range(0.01, 3.0) } else { r.log_range(0.01, 0.9) }
            }
            Spec::Her(_) => r.log_range(0.05, 4.0),
            _ => r.sign() * r.log_range(0.05, 12.0) / half.abs(),
        };
        let ph = r.range(-3.0, 3.0);
        let f = |t: f64| if expo { (c * (t - mid)).exp() } else { (c * (t - mid) + ph).cos() };
        let ch = c * half; // in the variable of [-1, 1]
        let mass = fam.mass().f();
        let exact = match spec {
            Spec::Her(_) => mass * (-c * c / 4.0).exp() * ph.cos(),
            Spec::Lag(..) if expo => mass * (1.0 - c).powf(-al - 1.0),
            Spec::Lag(..) => {
                // Re e^{i ph} / (1 - i c)^(al + 1)
                let m = (1.0 + c * c).powf(-0.5 * (al + 1.0));
                mass * m * (ph + (al + 1.0) * c.atan()).cos()
            }
            _ if expo => half * jacobi_exp(jal, jbe, ch),
            _ if jal == jbe => {
                // even weight: integral of w cos(ch x) is mass 0F1(al + 3/2; -ch^2/4)
                let nu = DD::new(jal) + DD::new(1.5);
                let z = DD::new(ch) * DD::new(ch).scale(-0.25);
                let (mut t, mut s) = (DD::ONE, DD::ONE);
                for k in 0..200 {
                    t = t * z / (DD::new(k as f64 + 1.0) * (nu + DD::new(k as f64)));
                    s = s + t;
                }
                half * mass * s.f() * ph.cos()
            }
            _ => return,
        };
        let top = if expo && !matches!(spec, Spec::Lag(..)) { ch.abs().exp() } else { 1.0 };
        let trunc = (ln_gauss_error_factor(fam, n) + 2.0 * n as f64 * ch.abs().ln()).exp() * top * half.abs();
        // For large degrees the rounding is bounded by what the accuracy of nodes and weights allows.
        let cond = match fam {
            Family::Jacobi(x, y) => 1.0 + 2.0 / (2.0 + x + y) + 2.0 / (1.0 + x.min(y)),
            _ => 1.0,
        };
        let rf_norm = match fam {
            Family::Hermite => (2.0 * n as f64).sqrt(),
            Family::Laguerre(a) => 4.0 * n as f64 + 2.0 * a.abs() + 4.0,
            _ => 1.0,
        };
        let gw = match spec {
            Spec::Jac(..) | Spec::Lag(..) => {
                (60.0 + n as f64) * rf_norm * c.abs().max(ch.abs()) + 8000.0 + 40.0 * (al.abs() + be.abs()) + 200.0 * (n as f64) * rf_norm.sqrt()
            }
            Spec::Her(_) => (60.0 + n as f64) * rf_norm * c.abs() + 200.0 * n as f64,
            _ => 12.0 * ch.abs() + 40.0,
        };
        let pos = if spec.is_interval() { 20.0 * (a.abs() + b.abs()) * c.abs() } else { 0.0 };
        let noise = EPS * mass * top * half.abs() * (gw * cond + pos + 2.0 * (n as f64 + 30.0) + 40.0 * ch.abs() + 2e2);
        let got = rule.integrate(a, b, f);
        let tol = 1.01 * trunc + noise;
        let scale = exact.abs().max(1e-3 * mass * half.abs());
        rep.case(tol < 1e-3 * scale, (spec.bits(), hf(a), hf(b), hf(c), expo));
        if !tol.is_finite() {
            return;
        }
        let corr = middle_correction(spec, &rule, a, b, f);
        if corr.abs() > tol {
            rep.known(KNOWN_MIDDLE, || format!("{spec:?} on [{a}, {b}]: {} of {c} is off by {corr:e}", if expo { "exp" } else { "cos" }));
        }
        let err = (got - exact).abs().min((got + corr - exact).abs());
        rep.close(err, tol, "gauss", || {
            format!("{spec:?} on [{a}, {b}], {} with c = {c}, phase {ph}: {got:e} but exactly {exact:e}", if expo { "exp" } else { "cos" })
        });
        rep.sample(|| format!("{spec:?} on [{a}, {b}], {} c = {c}: error {err:e}, bound {tol:e}", if expo { "exp" } else { "cos" }));
    });
    // Integrands whose parts live at different scales: what is negligible at first may dominate later.
    par_cases(ctx, rep, "multiscale", ctx.n(4000, 60_000), |_, r, rep| {
        let kind = r.us(0, 5);
        let top = if r.chance(0.1) { 160 } else { 60 };
        let spec = gen_spec_kind(r, kind, top, top);
        let n = spec.degree();
        let fam = spec.family().unwrap();
        let rule = spec.build();
        let pairs = rule.pairs().unwrap().to_vec();
        let reference = Reference::new(fam, n);
        let refs = reference.all(&pairs);
        let tols = tolerances(fam, &reference, &refs);
        let (a, b) = if spec.is_interval() { gen_mild_interval(r) } else { (0.0, 0.0) };
        let (mid, half) = if spec.is_interval() { (0.5 * (a + b), 0.5 * (b - a)) } else { (0.0, 1.0) };
        // Parts: (kind, position, width, amplitude), in the variable of the rule.
        let parts: Vec<(usize, f64, f64, f64)> = (0..r.us(1, 3))
            .map(|_| {
                let i = r.us(0, n - 1);
                let x = refs[i].x.f();
                let gap = if i + 1 < n { refs[i + 1].x.f() - x } else { 1.0 };
                let frac = refs[i].frac.f();
                let amplitude = r.sign() * if r.chance(0.5) { 1.0 / frac.max(1e-20) } else { r.log_range(1e-3, 1e9) };
                (r.us(0, 3), x + r.range(-0.5, 0.5) * gap, gap * r.log_range(0.1, 10.0), amplitude)
            })
            .collect();
        // The value, and a bound of its rounding error in units of EPS.
        let eval = |x: f64| -> (f64, f64) {
            parts.iter().fold((0.0, 0.0), |sum, &(kind, c, s, amplitude)| {
                let z = (x - c) / s;
                let y = amplitude
                    * match kind {
                        0 => (-0.5 * z * z).exp(),
                        1 => 1.0 / (1.0 + z * z),
                        // infinitely smooth, and zero on one side
                        2 => if z > 0.0 { (-1.0 / z).exp() } else { 0.0 },
                        _ => if z < 0.0 { (1.0 / z).exp() } else { 0.0 },
                    };
                let exponent = match kind {
                    0 => z * z,
                    1 => 0.0,
                    _ => 1.0 / z.abs(),
                };
                (sum.0 + y, sum.1 + if y == 0.0 { 0.0 } else { y.abs() * (20.0 + 4.0 * exponent) })
            })
        };
        let g = |x: f64| eval(x).0;
        let got = rule.integrate(a, b, |t| g((t - mid) / half)) / half;
        let (mut want, mut sum, mut tol) = (0.0, 0.0, 0.0);
        let mass = reference.mass.f() / reference.wscale;
        let shift = if spec.is_interval() { 12.0 * EPS * (a.abs() + b.abs() + half.abs()) / half.abs() } else { 0.0 };
        for (p, t) in refs.iter().zip(&tols) {
            let (x, w) = (p.x.f(), p.frac.f() * mass);
            let d = t.0 + shift + 4.0 * EPS * x.abs();
            let (y, noise) = eval(x);
            let vary = (g(x + d) - y).abs().max((g(x - d) - y).abs());
            want += w * y;
            sum += w * y.abs();
            let dw = t.1 / reference.wscale;
            tol += w * (2.0 * vary + EPS * noise) + dw * (y.abs() + vary);
        }
        let tol = tol + EPS * (n as f64 + 20.0) * sum + 1e-300;
        let corr = middle_correction(spec, &rule, a, b, |t| g((t - mid) / half)) / half;
        rep.case(tol < 1e-3 * sum, (spec.bits(), hf(a), hf(b), hf(parts[0].1), hf(parts[0].3)));
        if !tol.is_finite() {
            return;
        }
        if corr.abs() > tol {
            rep.known(KNOWN_MIDDLE, || format!("{spec:?} on [{a}, {b}]: an integrand with parts {parts:?} is off by {corr:e}"));
        }
        let err = (got - want).abs().min((got + corr - want).abs());
        let tol = tol + 1e4 * EPS * corr.abs();
        rep.close(err, tol, "multiscale", || {
            format!("{spec:?} on [{a}, {b}], parts (kind, position, width, amplitude) {parts:?}: {got:e}, but the rule of this degree gives {want:e}")
        });
        rep.add("multiscale_parts", parts.len() as u64);
    });
    // Functions with a pole at distance: geometric convergence, all degrees up to large ones.
    par_cases(ctx, rep, "gauss-pole", ctx.n(20_000, 200_000), |_, r, rep| {
        let kind = r.pick(&[0usize, 4, 5]);
        let spec = gen_spec_kind(r, kind, 2000, 1);
        let n = spec.degree();
        let rule = spec.build();
        let (a, b) = gen_mild_interval(r);
        let (mid, half) = (0.5 * (a + b), 0.5 * (b - a));
        let s = 1.0 + r.log_range(1e-2, 3.0); // pole at x = s
        let sg = r.sign();
        let f = |t: f64| 1.0 / (s - sg * (t - mid) / half);
        let q = (s * s - 1.0).sqrt();
        let (exact, mass) = match spec {
            Spec::Leg(_) => ((2.0 / (s - 1.0)).ln_1p(), 2.0),
            Spec::C1(_) => (std::f64::consts::PI / q, std::f64::consts::PI),
            _ => (std::f64::consts::PI / (s + q), std::f64::consts::FRAC_PI_2),
        };
        let exact = exact * half;
        // Best approximation of 1/(s - x): error rho^-(2n-1) / q-ish with rho = s + q (Bernstein, exact).
        let rho = s + q;
        let best = (-(2.0 * n as f64 - 1.0) * rho.ln()).exp() / (q * q);
        let fmax = 1.0 / (s - 1.0);
        let noise = EPS * half.abs() * (exact / half).abs() * (n as f64 + 40.0) * 2.0
            + EPS * half.abs() * mass * fmax * fmax * (40.0 + 20.0 * (a.abs() + b.abs()) / half.abs());
        let tol = 2.0 * mass * best * half.abs() * 1.01 + noise;
        let got = rule.integrate(a, b, f);
        rep.case(tol < 1e-3 * exact.abs(), (spec.bits(), hf(a), hf(b), hf(s)));
        rep.close((got - exact).abs(), tol, "pole", || format!("{spec:?} on [{a}, {b}], 1 / ({s} - x): {got:e} but exactly {exact:e}"));
    });
    par_cases(ctx, rep, "composite", ctx.n(50_000, 500_000), |_, r, rep| {
        let kind = r.us(6, 8);
        let max = if r.chance(0.1) { 20_000 } else { 500 };
        let spec = gen_spec_kind(r, kind, max, 1);
        let n = spec.degree();
        let rule = spec.build();
        let (a, b) = gen_mild_interval(r);
        let h = (b - a) / n as f64;
        let w = r.log_range(0.1, 20.0) / (b - a).abs();
        let ph = r.range(-3.0, 3.0);
        let expo = r.chance(0.4);
        let f = |t: f64| if expo { (w * (t - a)).exp() } else { (w * t + ph).cos() };
        let (exact, top) = if expo {
            let e = w * (b - a);
            (e.exp_m1() / w, e.exp().max(1.0))
        } else {
            // difference of sines without cancellation
            (2.0 / w * (0.5 * w * (b - a)).sin() * (w * 0.5 * (a + b) + ph).cos(), 1.0)
        };
        let (k, fac) = match spec {
            Spec::Mid(_) => (2, 24.0),
            Spec::Trap(_) => (2, 12.0),
            _ => (4, 2880.0),
        };
        let bound = (b - a).abs() * h.abs().powi(k) * w.powi(k) * top / fac;
        let noise = EPS * (b - a).abs() * top * (n as f64 + 50.0 + 40.0 * w * (a.abs() + b.abs()) + 10.0 * ph.abs());
        let tol = bound * (1.0 + 1e-9) + noise;
        let got = rule.integrate(a, b, f);
        rep.case(tol < 1e-3 * exact.abs(), (spec.bits(), hf(a), hf(b), hf(w), expo));
        rep.close((got - exact).abs(), tol, "composite", || {
            format!("{spec:?} on [{a}, {b}], {} w = {w} phase {ph}: {got:e} but exactly {exact:e}", if expo { "exp" } else { "cos" })
        });
        // Euler-Maclaurin: after the leading term the error is of the next order.
        let d = |t: f64, order: i32| {
            if expo {
                w.powi(order) * (w * (t - a)).exp()
            } else {
                // derivatives of odd order of cos(wt + ph)
                let s = if order % 4 == 1 { -1.0 } else { 1.0 };
                s * w.powi(order) * (w * t + ph).sin()
            }
        };
        let (lead, next) = match spec {
            Spec::Mid(_) => (-h * h / 24.0 * (d(b, 1) - d(a, 1)), 7.0 / 5760.0 * h.abs().powi(4) * w.powi(3)),
            Spec::Trap(_) => (h * h / 12.0 * (d(b, 1) - d(a, 1)), h.abs().powi(4) * w.powi(3) / 720.0),
            _ => {
                let hh = h / 2.0;
                (hh.powi(4) / 180.0 * (d(b, 3) - d(a, 3)), h.abs().powi(6) * w.powi(5) / 32.0 / 1512.0)
            }
        };
        // The remainder is at most twice the next term for |w h| < 1.
        if (w * h).abs() < 1.0 {
            let k = if expo { top } else { 1.0 };
            let tol = 6.0 * next * k * w.max(1.0 / (b - a).abs()) / w * (1.0 + w * (b - a).abs()) + noise;
            rep.close((got - exact - lead).abs(), tol, "euler-maclaurin", || {
                format!("{spec:?} on [{a}, {b}] w = {w}: error {:e}, leading term {lead:e}", got - exact)
            });
        }
    });
    par_cases(ctx, rep, "periodic", ctx.n(8000, 80_000), |_, r, rep| {
        // Over a full period the trapezoid and midpoint rules only see the harmonics that are
        // multiples of the degree.
        let kind = r.pick(&[6usize, 8]);
        let spec = gen_spec_kind(r, kind, 400, 1);
        let n = spec.degree();
        let rule = spec.build();
        let tau = 2.0 * std::f64::consts::PI;
        let k = if r.chance(0.3) { n * r.us(0, 3) } else { r.us(0, 3 * n + 3) };
        let (a, ph) = (r.range(-3.0, 3.0), r.range(-3.0, 3.0));
        let got = rule.integrate(a, a + tau, |t| (k as f64 * (t - a) + ph).cos());
        let want = if k % n != 0 {
            0.0
        } else if matches!(spec, Spec::Mid(_)) && (k / n) % 2 == 1 {
            -tau * ph.cos()
        } else {
            tau * ph.cos()
        };
        let tol = EPS * tau * (n as f64 + 60.0 * (k as f64 + 4.0));
        rep.case(true, (spec.bits(), k, hf(a)));
        rep.close((got - want).abs(), tol, "periodic", || format!("{spec:?}: harmonic {k}: {got:e} instead of {want:e}"));
    });
}
