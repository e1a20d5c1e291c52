//! C14 (structure of every constructed rule) and C16 (relations between rules).

use crate::p_nodes::{KNOWN_MIDDLE, gw_node_tol, huge_degree, tolerances};
use crate::reference::{Family, Reference};
use crate::rules::*;
use crate::util::*;
use gauss_quad::*;

// ---------------------------------------------------------------- C14

fn check_structure(rep: &mut Report, what: &str, spec: Spec, rule: &Rule) {
    let n = spec.degree();
    rep.check(rule.degree() == n, "degree", || format!("{what} {spec:?} reports degree {}", rule.degree()));
    match rule {
        Rule::Jac(q) => {
            let (a, b) = spec.exponents();
            rep.check(q.alpha().get() == a && q.beta().get() == b, "exponents", || format!("{spec:?} reports {} and {}", q.alpha(), q.beta()));
        }
        Rule::Lag(q) => {
            rep.check(q.alpha().get() == spec.exponents().0, "exponents", || format!("{spec:?} reports {}", q.alpha()));
        }
        _ => {}
    }
    let Some(p) = rule.pairs() else {
        rep.check(rule.table().len() == spec.points(), "points", || format!("{spec:?}"));
        return;
    };
    if !rep.check(p.len() == n, "pair-count", || format!("{what} {spec:?} holds {} pairs", p.len())) {
        return;
    }
    rep.add("pairs_seen", n as u64);
    let family = spec.family().unwrap();
    let finding = spec.middle_node_finding() && p[n / 2].0 == 0.0;
    let (lo, hi) = match family {
        Family::Hermite => {
            let l = (2.0 * n as f64).sqrt() + 1e-9;
            (-l, l)
        }
        Family::Laguerre(a) => {
            let norm = 4.0 * n as f64 + 2.0 * a.abs() + 4.0;
            (-gw_node_tol(family, n, norm), norm * 1.5)
        }
        Family::Jacobi(..) => {
            let t = gw_node_tol(family, n, 1.0);
            (-1.0 - t, 1.0 + t)
        }
        _ => (-1.0 - 2.0 * EPS, 1.0 + 2.0 * EPS),
    };
    let mut prev = f64::NEG_INFINITY;
    let mut unsorted = false;
    for (i, &(x, w)) in p.iter().enumerate() {
        if !rep.check(x.is_finite() && w.is_finite(), "finite", || format!("{what} {spec:?}: pair {i} is ({x:e}, {w:e})")) {
            return;
        }
        rep.check(w >= 0.0, "weight-sign", || format!("{what} {spec:?}: weight {i} is {w:e}"));
        rep.check(x >= lo && x <= hi, "domain", || format!("{what} {spec:?}: node {i} is {x:e}"));
        if finding && i == n / 2 {
            unsorted = !(x > prev) || (i + 1 < n && !(p[i + 1].0 > x));
            continue;
        }
        rep.check(x > prev, "order", || format!("{what} {spec:?}: node {i} is {x:e} after {prev:e}"));
        prev = x;
    }
    if unsorted {
        rep.known(KNOWN_MIDDLE, || format!("{spec:?}: the middle node 0.0 is not between its neighbours {:e} and {:e}", p[n / 2 - 1].0, p[n / 2 + 1].0));
    }
    // The total of the weights, in the scale where it is representable.
    let r = Reference::new(family, 1);
    let (mass, sc) = (r.mass.f(), r.wscale);
    let total = ksum(p.iter().map(|q| q.1 * sc));
    let (al, be) = spec.exponents();
    let tol = match family {
        Family::Jacobi(a, b) => EPS * (8000.0 + 40.0 * (al.abs() + be.abs()) + n as f64 * 20.0 + 8.0 / (2.0 + a + b)),
        Family::Laguerre(_) => EPS * (8000.0 + 40.0 * al.abs() + n as f64 * 20.0),
        Family::Hermite => EPS * (50.0 + n as f64 * 20.0),
        _ => EPS * 40.0,
    };
    rep.close((total - mass).abs(), tol * mass, "mass", || format!("{what} {spec:?}: the weights sum to {total:e} instead of {mass:e}"));
}

/// Exponents at which formulas of the constructors are singular or special.
fn hostile_exponent(r: &mut Rng, max: f64) -> f64 {
    match r.below(9) {
        0 => -1.0 + f64::EPSILON / 2.0,
        1 => -1.0 + r.log_range(1e-16, 1e-3),
        2 => r.pick(&[0.0, -0.0, 0.5, -0.5, 1.0, 2.0]) + r.pick(&[0.0, EPS, -EPS / 2.0, 1e-300, -1e-300, 5e-324, 1e-10, -1e-10]),
        3 => r.range(0.9 * max, max),
        4 => r.log_range(1.0, max),
        5 => r.log_range(1e-320, 1e-10) * r.sign(),
        6 => -0.5 + r.sign() * r.log_range(1e-17, 1e-5),
        _ => gen_exponent(r, max),
    }
}

pub fn c14(ctx: &Ctx, rep: &mut Report) {
    rep.rule("every degree from 1 up to a bound and random larger ones for every constructor, with random, special and hostile exponents (within 1e-16 of -1, subnormal, large); huge degrees in child processes with limited memory. Structure of each rule: degree, count, finiteness, order, domain, sign and sum of the weights. Every case has a CPU budget. Non-trivial: a (constructor, degree, exponents) not seen before.");
    let top = if ctx.thorough { 8000 } else { 1500 };
    par_cases(ctx, rep, "fast-degrees", 3 * top, |i, r, rep| {
        let n = i / 3 + 1;
        let spec = [Spec::Leg(n), Spec::C1(n), Spec::C2(n)][i % 3];
        check_structure(rep, "new", spec, &spec.build());
        #[cfg(feature = "par")]
        check_structure(rep, "par_new", spec, &spec.par_build().unwrap());
        if i % 3 == 0 && n <= 400 {
            // The composite rules, and From.
            for s in [Spec::Mid(n as u32), Spec::Simp(n as u32), Spec::Trap(n as u32)] {
                check_structure(rep, "new", s, &s.build());
            }
        }
        rep.case(true, spec.bits());
        let _ = r;
    });
    par_cases(ctx, rep, "fast-large", ctx.n(120, 1500), |i, r, rep| {
        let n = r.log_range(1500.0, if ctx.thorough { 6e6 } else { 1.5e6 }) as usize;
        let spec = [Spec::Leg(n), Spec::C1(n), Spec::C2(n)][i % 3];
        check_structure(rep, "new", spec, &spec.build());
        #[cfg(feature = "par")]
        check_structure(rep, "par_new", spec, &spec.par_build().unwrap());
        rep.case(true, spec.bits());
    });
    let gtop = if ctx.thorough { 200 } else { 70 };
    par_cases(ctx, rep, "golub-welsch", 12 * gtop, |i, r, rep| {
        let n = i / 12 + 1;
        let spec = match i % 12 {
            0 => Spec::Her(n),
            1..=4 => Spec::Lag(n, hostile_exponent(r, 170.6)),
            5 => {
                let a = hostile_exponent(r, 300.0);
                Spec::Jac(n, a, a)
            }
            6 => {
                let a = -r.unit().min(0.99).max(0.01);
                Spec::Jac(n, a, (-1.0 - a).max(-0.999))
            }
            _ => Spec::Jac(n, hostile_exponent(r, 300.0), hostile_exponent(r, 300.0)),
        };
        if !supported(spec) {
            return;
        }
        check_structure(rep, "new", spec, &spec.build());
        rep.case(true, spec.bits());
        rep.sample(|| format!("{spec:?} is sound"));
    });
    par_cases(ctx, rep, "golub-welsch-small", ctx.n(60_000, 800_000), |_, r, rep| {
        let n = r.us(1, 8);
        let spec = match r.below(3) {
            0 => Spec::Lag(n, hostile_exponent(r, 170.6)),
            _ => Spec::Jac(n, hostile_exponent(r, 900.0), hostile_exponent(r, 900.0)),
        };
        if !supported(spec) {
            return;
        }
        check_structure(rep, "new", spec, &spec.build());
        rep.case(true, spec.bits());
    });
    par_cases(ctx, rep, "golub-welsch-large", ctx.n(30, 300), |i, r, rep| {
        let n = r.us(150, if ctx.thorough { 700 } else { 350 });
        let spec = match i % 3 {
            0 => Spec::Her(n),
            1 => Spec::Lag(n, gen_exponent(r, 100.0)),
            _ => {
                let (a, b) = gen_jacobi_exponents(r, 50.0);
                Spec::Jac(n, a, b)
            }
        };
        check_structure(rep, "new", spec, &spec.build());
        rep.case(true, spec.bits());
    });
    par_cases(ctx, rep, "golub-welsch-huge", ctx.n(12, 36), |i, r, rep| {
        let n = huge_degree(i, r);
        let spec = match r.below(3) {
            0 => Spec::Her(n),
            1 => Spec::Lag(n, gen_exponent(r, 50.0)),
            _ => {
                let (a, b) = gen_jacobi_exponents(r, 20.0);
                Spec::Jac(n, a, b)
            }
        };
        check_structure(rep, "new", spec, &spec.build());
        rep.case(true, spec.bits());
    });
    huge_children(ctx, rep);
}

/// Degrees that no memory can hold, in child processes.
pub fn huge_children(ctx: &Ctx, rep: &mut Report) {
    let u = usize::MAX as u64;
    let mut wide: Vec<u64> = vec![u, u - 1, u / 2, u / 2 + 1, u / 16, u / 16 + 1, 1 << 60, 1 << 62, 1 << 63, 1 << 40, 1 << 33, (1 << 32) + 1];
    for k in [31u32, 32, 33] {
        wide.extend([(1u64 << k) - 1, 1 << k]);
    }
    wide.push((1u64 << 32) + 65_536);
    let huge: Vec<usize> = wide.into_iter().filter_map(|n| n.try_into().ok()).collect();
    let kinds = 6 + if cfg!(feature = "par") { 3 } else { 0 };
    let total = huge.len() * kinds;
    par_cases(ctx, rep, "huge", total, |i, _, rep| {
        let (k, n) = (i % kinds, huge[i / kinds]);
        rep.case(true, (k, n));
        match child(&["child-construct", &k.to_string(), &n.to_string()], 3_000_000, 60) {
            ChildEnd::Panicked => rep.add("huge_degree_panics", 1),
            ChildEnd::AllocFailed => rep.add("huge_degree_allocation_failures", 1),
            ChildEnd::Said(s) => {
                // Constructed, although the pairs alone do not fit into the memory of the child.
                rep.violation("huge-degree", format!("{} of degree {n} returned a rule: {s}", CHILD_KINDS[k]));
            }
            ChildEnd::Signal(s) => rep.violation("huge-degree", format!("{} of degree {n} ended the process with signal {s}", CHILD_KINDS[k])),
            ChildEnd::Sanitizer(s) => rep.violation("huge-degree", format!("{} of degree {n}: {s}", CHILD_KINDS[k])),
            ChildEnd::Unclear(s) => {
                // Ran out of time: allocation of that much memory has to fail at once, so it is just slow.
                rep.add("huge_degree_unclear", 1);
                rep.inconclusive(format!("{} of degree {n}: {s}", CHILD_KINDS[k]));
            }
        }
    });
}

/// Whether the total mass is representable with room for the tolerance.
fn supported(spec: Spec) -> bool {
    let (a, b) = spec.exponents();
    match spec {
        Spec::Lag(..) => a > -1.0 && a <= 170.6,
        Spec::Jac(..) => {
            let l = Family::Jacobi(a, b).ln_mass().f();
            a > -1.0 && b > -1.0 && l.abs() < 650.0
        }
        _ => true,
    }
}

pub const CHILD_KINDS: [&str; 9] = [
    "GaussLegendre::new", "GaussJacobi::new", "GaussLaguerre::new", "GaussHermite::new", "GaussChebyshevFirstKind::new", "GaussChebyshevSecondKind::new",
    "GaussLegendre::par_new", "GaussChebyshevFirstKind::par_new", "GaussChebyshevSecondKind::par_new",
];

/// Runs in the child: constructs a rule and says what came out.
pub fn child_construct(k: usize, n: usize) {
    let spec = match k {
        0 | 6 => Spec::Leg(n),
        1 => Spec::Jac(n, 0.25, 0.75),
        2 => Spec::Lag(n, 0.5),
        3 => Spec::Her(n),
        4 | 7 => Spec::C1(n),
        _ => Spec::C2(n),
    };
    #[cfg(feature = "par")]
    let rule = if k < 6 { spec.build() } else { spec.par_build().unwrap() };
    #[cfg(not(feature = "par"))]
    let rule = spec.build();
    let p = rule.pairs().unwrap();
    println!("SAID degree {} with {} pairs", rule.degree(), p.len());
}

#[derive(Debug)]
pub enum ChildEnd {
    Panicked,
    AllocFailed,
    Said(String),
    Signal(i32),
    Sanitizer(String),
    Unclear(String),
}

/// Runs this program again with limits on memory (kB) and CPU time.
pub fn child(args: &[&str], kbytes: u64, cpu: u64) -> ChildEnd {
    use std::os::unix::process::ExitStatusExt;
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => return ChildEnd::Unclear(format!("no path to this program: {e}")),
    };
    let out = std::process::Command::new("sh")
        .arg("-c")
        .arg(if std::env::var_os("GQMON_SANITIZER").is_some() {
            // A sanitizer needs address space and limits allocations by itself.
            format!("ulimit -c 0; ulimit -t {cpu}; exec \"$0\" \"$@\"")
        } else {
            format!("ulimit -c 0; ulimit -v {kbytes}; ulimit -t {cpu}; exec \"$0\" \"$@\"")
        })
        .arg(exe)
        .args(args)
        .env("RUST_BACKTRACE", "0")
        .env("RAYON_NUM_THREADS", "2")
        .output();
    let out = match out {
        Ok(o) => o,
        Err(e) => return ChildEnd::Unclear(format!("could not start: {e}")),
    };
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    let said = String::from_utf8_lossy(&out.stdout).to_string();
    let tail: String = err.chars().take(300).collect();
    if err.contains("ERROR: AddressSanitizer") {
        return ChildEnd::Sanitizer(err.chars().take(1500).collect());
    }
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) if said.contains("SAID") => ChildEnd::Said(said.trim().to_string()),
        (Some(101), _) => ChildEnd::Panicked,
        (_, Some(6)) if err.contains("memory allocation of") => ChildEnd::AllocFailed,
        (_, Some(s)) if [4, 6, 7, 8, 11].contains(&s) => ChildEnd::Signal(s),
        (c, s) => ChildEnd::Unclear(format!("exit {c:?}, signal {s:?}: {tail}")),
    }
}

// ---------------------------------------------------------------- C16

fn sorted(mut p: Vec<(f64, f64)>) -> Vec<(f64, f64)> {
    p.sort_by(|x, y| x.0.total_cmp(&y.0));
    p
}

/// Compares two tables of pairs within tolerances for each (node, weight).
fn compare(rep: &mut Report, key: &str, what: &str, x: &[(f64, f64)], y: &[(f64, f64)], tols: &[(f64, f64)], skip: Option<usize>) {
    if !rep.check(x.len() == y.len() && x.len() == tols.len(), key, || format!("{what}: {} and {} pairs", x.len(), y.len())) {
        return;
    }
    for i in 0..x.len() {
        if skip == Some(i) {
            continue;
        }
        rep.close((x[i].0 - y[i].0).abs(), tols[i].0, key, || format!("{what}: node {i} is {:e} and {:e}", x[i].0, y[i].0));
        rep.close((x[i].1 - y[i].1).abs(), tols[i].1, key, || format!("{what}: weight {i} is {:e} and {:e}", x[i].1, y[i].1));
    }
    rep.add("pairs_compared", x.len() as u64);
}

/// Golub-Welsch tolerances (in unscaled weights) for the family at degree n.
pub fn gw_tols(f: Family, n: usize, guesses: &[(f64, f64)]) -> Vec<(f64, f64)> {
    let r = Reference::new(f, n);
    let refs = r.all(guesses);
    tolerances(f, &r, &refs).iter().map(|t| (t.0, t.1 / r.wscale)).collect()
}

pub fn c16(ctx: &Ctx, rep: &mut Report) {
    rep.rule("degrees (all up to a bound, then random) and exponents (random, special, within a few ulp of the special ones) for each relation: delegation of (0,0), (-1/2,-1/2), (1/2,1/2), conversions with From, mirror images, symmetry, continuity in the exponents, Hermite against Laguerre. Non-trivial: a (relation, degree, exponents) not seen before.");
    let top = if ctx.thorough { 400 } else { 130 };
    // Special exponents, conversions.
    par_cases(ctx, rep, "special", 3 * top, |i, r, rep| {
        let n = i / 3 + 1;
        let (e, spec) = match i % 3 {
            0 => (0.0, Spec::Leg(n)),
            1 => (-0.5, Spec::C1(n)),
            _ => (0.5, Spec::C2(n)),
        };
        rep.case(true, spec.bits());
        let direct = spec.build();
        let p = direct.pairs().unwrap().to_vec();
        let jspec = Spec::Jac(n, e, e);
        let tols: Vec<(f64, f64)> = gw_tols(Family::Jacobi(e, e), n, &p).iter().map(|t| (2.0 * t.0, 2.0 * t.1)).collect();
        let j = jspec.build();
        compare(rep, "special-exponents", &format!("{jspec:?} and {spec:?}"), j.pairs().unwrap(), &p, &tols, None);
        // From keeps the pairs.
        let conv: GaussJacobi = match direct.clone() {
            Rule::Leg(q) => q.into(),
            Rule::C1(q) => q.into(),
            Rule::C2(q) => q.into(),
            _ => unreachable!(),
        };
        rep.check(conv.degree() == n && conv.as_node_weight_pairs() == &p[..], "conversion", || format!("GaussJacobi::from({spec:?}) changes the pairs"));
        rep.check(conv.alpha().get() == e && conv.beta().get() == e, "conversion-exponents", || {
            format!("GaussJacobi::from({spec:?}) has exponents {} and {}", conv.alpha(), conv.beta())
        });
        if let Rule::Jac(q) = &j {
            rep.check(q.alpha().get() == e && q.beta().get() == e, "special-exponents", || format!("{jspec:?} reports {} and {}", q.alpha(), q.beta()));
        }
        // Both integrate alike.
        let (a, b) = gen_mild_interval(r);
        let f = |t: f64| (1.3 * t).cos() + t;
        let (x, y) = (conv.integrate(a, b, f), direct.integrate(a, b, f));
        let scale = p.iter().map(|q| q.1).sum::<f64>() * (b - a).abs() * (2.0 + a.abs() + b.abs());
        rep.close((x - y).abs(), EPS * scale * (40.0 + n as f64), "conversion-integral", || format!("{spec:?} on [{a}, {b}]: {x:e} after conversion, {y:e} before"));
        // Continuity across the special pair: nearby exponents give nearby rules.
        for _ in 0..3 {
            let mut d = || r.sign() * r.log_range(1e-17, 1e-6);
            let (da, db) = (d(), d());
            let (ea, eb) = (e + da, e + db);
            let near = Spec::Jac(n, ea, eb);
            let q = near.build();
            let size = (ea - e).abs() + (eb - e).abs();
            let mass: f64 = p.iter().map(|x| x.1).sum();
            let t: Vec<(f64, f64)> = tols.iter().map(|t| (2.0 * t.0 + 8.0 * size, 2.0 * t.1 + size * mass * (20.0 + 4.0 * (n as f64).ln()))).collect();
            compare(rep, "continuity", &format!("{near:?} and {spec:?}"), q.pairs().unwrap(), &p, &t, None);
        }
    });
    // Larger degrees of the delegated rules.
    par_cases(ctx, rep, "special-large", ctx.n(40, 400), |i, r, rep| {
        let n = r.us(130, if ctx.thorough { 100_000 } else { 5000 });
        let (e, spec) = [(0.0, Spec::Leg(n)), (-0.5, Spec::C1(n)), (0.5, Spec::C2(n))][i % 3];
        let direct = spec.build();
        let p = direct.pairs().unwrap();
        rep.case(true, spec.bits());
        let conv: GaussJacobi = match direct.clone() {
            Rule::Leg(q) => q.into(),
            Rule::C1(q) => q.into(),
            Rule::C2(q) => q.into(),
            _ => unreachable!(),
        };
        rep.check(conv.as_node_weight_pairs() == p && conv.alpha().get() == e && conv.beta().get() == e, "conversion", || format!("GaussJacobi::from({spec:?})"));
    });
    // Mirror images.
    par_cases(ctx, rep, "mirror", ctx.n(6000, 80_000), |_, r, rep| {
        let n = gen_degree(r, if ctx.thorough { 60 } else { 32 });
        let (a, b) = gen_jacobi_exponents(r, 40.0);
        let (s, t) = (Spec::Jac(n, a, b), Spec::Jac(n, b, a));
        let (x, y) = (s.build(), t.build());
        rep.case(true, s.bits());
        let p = sorted(x.pairs().unwrap().to_vec());
        let q = sorted(y.pairs().unwrap().iter().map(|p| (-p.0, p.1)).collect());
        // With the wrong middle node, sorting moves it along in both alike.
        let tols = gw_tols(Family::Jacobi(a, b), n, &p);
        let tols: Vec<(f64, f64)> = if s.middle_node_finding() {
            let m = tols.iter().fold((0.0f64, 0.0f64), |m, t| (m.0.max(2.0 * t.0), m.1.max(2.0 * t.1)));
            vec![m; n]
        } else {
            tols.iter().map(|t| (2.0 * t.0, 2.0 * t.1)).collect()
        };
        compare(rep, "mirror", &format!("{s:?} and the mirror image of {t:?}"), &p, &q, &tols, None);
        rep.sample(|| format!("{s:?} is the mirror image of {t:?}"));
    });
    // Symmetric weight functions.
    par_cases(ctx, rep, "symmetric", ctx.n(4000, 40_000), |_, r, rep| {
        let spec = match r.below(6) {
            0 => Spec::Leg(gen_degree(r, 3000)),
            1 => Spec::C1(gen_degree(r, 3000)),
            2 => Spec::C2(gen_degree(r, 3000)),
            3 => Spec::Her(gen_degree(r, 40)),
            _ => {
                let n = gen_degree(r, 30);
                let a = gen_exponent(r, 60.0);
                Spec::Jac(n, a, a)
            }
        };
        rep.case(true, spec.bits());
        let n = spec.degree();
        let rule = spec.build();
        let p = rule.pairs().unwrap();
        let q: Vec<(f64, f64)> = p.iter().rev().map(|x| (-x.0, x.1)).collect();
        let tols: Vec<(f64, f64)> = match spec {
            Spec::Jac(..) | Spec::Her(_) => gw_tols(spec.family().unwrap(), n, p).iter().map(|t| (2.0 * t.0, 2.0 * t.1)).collect(),
            Spec::C2(_) => p.iter().map(|x| (24.0 * EPS, EPS * x.1 * (32.0 + 48.0 / (1.0 - x.0 * x.0).max(1e-30).sqrt()))).collect(),
            _ => p.iter().map(|x| (24.0 * EPS, 48.0 * EPS * x.1)).collect(),
        };
        compare(rep, "symmetric", &format!("{spec:?} and its mirror image"), p, &q, &tols, None);
        if n % 2 == 1 {
            rep.close(p[n / 2].0.abs(), tols[n / 2].0, "middle", || format!("{spec:?}: the middle node is {:e}", p[n / 2].0));
        }
    });
    // Continuity anywhere in the exponents.
    par_cases(ctx, rep, "continuity", ctx.n(6000, 80_000), |_, r, rep| {
        let n = gen_degree(r, if ctx.thorough { 60 } else { 28 });
        let d = r.log_range(1e-16, 1e-8);
        if r.chance(0.3) {
            let a = gen_exponent(r, 100.0);
            let b = if a + d > -1.0 { a + d } else { return };
            if a < -0.999 {
                return;
            }
            let (s, t) = (Spec::Lag(n, a), Spec::Lag(n, b));
            rep.case(true, (s.bits(), hf(d)));
            let (x, y) = (s.build(), t.build());
            let p = x.pairs().unwrap();
            let tols = gw_tols(Family::Laguerre(a), n, p);
            let mass: f64 = p.iter().map(|x| x.1).sum();
            let norm = 4.0 * n as f64 + 2.0 * a + 4.0;
            let size = b - a;
            // d x / d alpha is at most of the order of the node itself, d log w / d alpha of log(norm) + 1 / (1 + alpha).
            let tols: Vec<(f64, f64)> =
                tols.iter().map(|t| (2.0 * t.0 + 8.0 * size * norm, 2.0 * t.1 + size * mass * (40.0 + 10.0 * norm.ln() + 4.0 / (1.0 + a)))).collect();
            compare(rep, "continuity", &format!("{s:?} and {t:?}"), p, y.pairs().unwrap(), &tols, None);
            return;
        }
        let (a, b) = gen_jacobi_exponents(r, 40.0);
        if a.min(b) < -0.999 {
            return;
        }
        let (c, e) = if r.chance(0.5) { (a + d, b) } else { (a, b + d) };
        let (s, t) = (Spec::Jac(n, a, b), Spec::Jac(n, c, e));
        rep.case(true, (s.bits(), hf(d)));
        let (x, y) = (s.build(), t.build());
        let (p, q) = (x.pairs().unwrap(), y.pairs().unwrap());
        let tols = gw_tols(Family::Jacobi(a, b), n, p);
        let mass: f64 = p.iter().map(|x| x.1).sum();
        let size = (c - a).abs() + (e - b).abs();
        let near = 1.0 / (1.0 + a.min(b));
        let slope = 8.0 + 8.0 / (2.0 + a + b);
        let tols: Vec<(f64, f64)> = tols
            .iter()
            .map(|t| (2.0 * t.0 + slope * size, 2.0 * t.1 + size * mass * (40.0 + 10.0 * (n as f64 + 1.0).ln() + 10.0 * near)))
            .collect();
        // The middle node of an odd rule jumps between 0.0 and the root where alpha = beta (known);
        // both are then within `size` of 0, so nothing needs to be left out.
        compare(rep, "continuity", &format!("{s:?} and {t:?}"), p, q, &tols, None);
    });
    // Smoothness: three rules along a line in the exponents. The middle one is close to the
    // interpolation of the others, whatever special cases the constructor distinguishes.
    par_cases(ctx, rep, "smooth", ctx.n(6000, 80_000), |_, r, rep| {
        let top = if r.chance(0.1) { 24 } else { 9 };
        let n = gen_degree(r, top);
        let h = r.log_range(1e-9, 1e-4);
        let t = r.range(0.02, 0.98) * if r.chance(0.5) { 1.0 } else { 0.05 };
        let laguerre = r.chance(0.2);
        let (a, b) = match r.below(5) {
            0 => r.pick(&[(0.0, 0.0), (-0.5, -0.5), (0.5, 0.5), (-0.5, 0.5), (0.5, -0.5), (1.0, 1.0), (1.0, 0.0), (-0.25, -0.75)]),
            1 | 2 => {
                let a = r.range(-0.95, 5.0);
                (a, a)
            }
            3 => {
                let (a, b) = (r.us(0, 6), r.us(0, 6));
                (a as f64 * 0.5, b as f64 * 0.5)
            }
            _ => (r.range(-0.95, 8.0), r.range(-0.95, 8.0)),
        };
        let (u, v) = match r.below(6) {
            0 => (1.0, 0.0),
            1 => (0.0, 1.0),
            2 => (1.0, 1.0),
            3 => (1.0, -1.0),
            _ => (r.range(-1.0, 1.0), r.range(-1.0, 1.0)),
        };
        let at = |s: f64| if laguerre { Spec::Lag(n, a + u * s) } else { Spec::Jac(n, a + u * s, b + v * s) };
        // The base point may be the middle one or an end.
        let (s0, s1, s2) = if r.chance(0.5) { (0.0, t * h, h) } else { (-t * h, 0.0, (1.0 - t) * h) };
        let specs = [at(s0), at(s1), at(s2)];
        rep.case(true, (specs[0].bits(), specs[1].bits(), specs[2].bits()));
        let rules = specs.map(|s| s.build());
        let pairs: Vec<&[(f64, f64)]> = rules.iter().map(|q| q.pairs().unwrap()).collect();
        if !rep.check(pairs.iter().all(|p| p.len() == n), "smooth", || format!("{specs:?}: wrong number of pairs")) {
            return;
        }
        let family = specs[1].family().unwrap();
        let tols = gw_tols(family, n, pairs[1]);
        let mass: f64 = pairs[1].iter().map(|x| x.1).sum();
        let near = if laguerre { 1.0 / (1.0 + a) } else { 1.0 / (1.0 + a.min(b)) };
        let norm = if laguerre { 4.0 * n as f64 + 2.0 * a + 4.0 } else { 1.0 };
        // Interpolation error: at most half the second derivative times the product of the distances.
        let bend = 0.5 * (s1 - s0) * (s2 - s1);
        let l = (n as f64 + 1.0).ln() + 1.0 + if laguerre { norm.ln() } else { 0.0 };
        let (cx, cw) = (24.0 * norm * (1.0 + near), mass * (20.0 * l * l + 8.0 * near * near));
        let known = n % 2 == 1 && specs.iter().any(|s| s.middle_node_finding());
        let p = (s1 - s0) / (s2 - s0);
        for i in 0..n {
            for k in 0..2 {
                if k == 0 && known && i == n / 2 {
                    continue;
                }
                let y = |j: usize| if k == 0 { pairs[j][i].0 } else { pairs[j][i].1 };
                let (tol, c) = if k == 0 { (tols[i].0, cx) } else { (tols[i].1, cw) };
                let line = (1.0 - p) * y(0) + p * y(2);
                rep.close((y(1) - line).abs(), 4.0 * tol + c * bend, ["smooth-nodes", "smooth-weights"][k], || {
                    format!("{} {i} of {:?} is {:e}, but {line:e} by interpolation between {:?} and {:?}", ["node", "weight"][k], specs[1], y(1), specs[0], specs[2])
                });
            }
        }
        rep.add("pairs_compared", n as u64);
    });
    // Hermite and Laguerre.
    let htop = if ctx.thorough { 150 } else { 60 };
    par_cases(ctx, rep, "hermite-laguerre", 2 * htop, |i, _, rep| {
        let n = i / 2 + 1;
        let odd = i % 2;
        let alpha = if odd == 1 { 0.5 } else { -0.5 };
        let (h, l) = (Spec::Her(2 * n + odd), Spec::Lag(n, alpha));
        rep.case(true, (h.bits(), l.bits()));
        let (hr, lr) = (h.build(), l.build());
        let hp = hr.pairs().unwrap();
        let lp = lr.pairs().unwrap();
        let ht = gw_tols(Family::Hermite, 2 * n + odd, hp);
        let lt = gw_tols(Family::Laguerre(alpha), n, lp);
        for k in 0..n {
            let j = n + odd + k;
            let (x, w) = hp[j];
            let (dx, dw) = ht[j];
            let (fac, dfac) = if odd == 1 { (2.0 * x * x, 4.0 * x.abs() * dx) } else { (2.0, 0.0) };
            rep.close((x * x - lp[k].0).abs(), lt[k].0 + 2.0 * x.abs() * dx + dx * dx, "hermite-nodes", || format!("{h:?} node {j} squared is {:e}, {l:?} node {k} is {:e}", x * x, lp[k].0));
            rep.close((fac * w - lp[k].1).abs(), lt[k].1 + fac * dw + dfac * w + 20.0 * EPS * lp[k].1, "hermite-weights", || {
                format!("{h:?} weight {j} corresponds to {:e}, {l:?} weight {k} is {:e}", fac * w, lp[k].1)
            });
            rep.close((hp[j].0 + hp[2 * n + odd - 1 - j].0).abs(), 2.0 * dx, "hermite-symmetry", || format!("{h:?} nodes {j}"));
        }
        rep.add("pairs_compared", n as u64);
    });
}
