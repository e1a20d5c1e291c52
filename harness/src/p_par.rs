//! C10 (parallel = serial) and C21 (nested integrals).

use crate::p_int::*;
use crate::rules::*;
use crate::util::*;
#[cfg(feature = "par")]
use std::collections::HashSet;
use std::sync::Mutex;

#[cfg(feature = "par")]
pub struct Pools(pub Vec<(usize, rayon::ThreadPool)>);
#[cfg(feature = "par")]
impl Pools {
    pub fn new() -> Pools {
        Pools(
            [1usize, 2, 3, 4, 8, 16]
                .iter()
                .map(|&k| (k, rayon::ThreadPoolBuilder::new().num_threads(k).build().expect("pool")))
                .collect(),
        )
    }
    /// Runs `f` in a pool, or in the global one, or directly on this thread (which is not a worker).
    pub fn run<T: Send>(&self, which: usize, f: impl FnOnce() -> T + Send) -> T {
        match self.0.get(which) {
            Some((_, p)) => p.install(f),
            None => f(),
        }
    }
    pub fn name(&self, which: usize) -> String {
        self.0.get(which).map_or("global pool".into(), |p| format!("pool of {}", p.0))
    }
}

/// Gives other threads a chance in the middle of an evaluation.
#[cfg(feature = "par")]
fn delay(h: u64, level: u64) {
    match (level, h % 64) {
        (0, _) => {}
        (_, 0..=3) => std::thread::yield_now(),
        (_, 4..=7) => {
            for _ in 0..(h >> 8) % 2000 {
                std::hint::spin_loop();
            }
        }
        (2, 8) => std::thread::sleep(std::time::Duration::from_micros((h >> 8) % 60)),
        _ => {}
    }
}

#[cfg(not(feature = "par"))]
pub fn c10(_: &Ctx, rep: &mut Report) {
    rep.inconclusive("built without rayon");
}

#[cfg(feature = "par")]
struct Event {
    thread: usize,
    t: f64,
    v: f64,
}

/// What a schedule looked like: the order in which the points (by rank) were reached, and the threads.
#[cfg(feature = "par")]
fn schedule(ev: &[Event]) -> (u64, usize) {
    let mut rank: Vec<usize> = (0..ev.len()).collect();
    rank.sort_by(|&i, &j| ev[i].t.total_cmp(&ev[j].t));
    let mut pos = vec![0usize; ev.len()];
    for (k, &i) in rank.iter().enumerate() {
        pos[i] = k;
    }
    let mut h = 0u64;
    let mut names = Vec::new();
    for (i, e) in ev.iter().enumerate() {
        let th = names.iter().position(|x| *x == e.thread).unwrap_or_else(|| {
            names.push(e.thread);
            names.len() - 1
        });
        h = mix(h ^ ((pos[i] as u64) << 8 | th as u64));
    }
    (h, names.len())
}

#[cfg(feature = "par")]
fn thread_number() -> usize {
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    thread_local! {
        static ID: usize = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    ID.with(|x| *x)
}

#[cfg(feature = "par")]
pub fn c10(ctx: &Ctx, rep: &mut Report) {
    use std::panic::{AssertUnwindSafe, catch_unwind};
    use std::sync::atomic::{AtomicUsize, Ordering};
    rep.rule("rule, degree, interval, pool (1 to 16 threads or the global one) and delays drawn at random; par_integrate's integrand records every call (thread, point, value), and count, points and result are compared with the functional of the rule and with integrate on the same rule; par_new is compared with new pair by pair. Non-trivial: an observed schedule (order of points and threads) or constructed rule not seen before.");
    let pools = Pools::new();
    let schedules = Mutex::new(HashSet::<u64>::new());
    let by_threads = Mutex::new(vec![0u64; 17]);
    par_cases(ctx, rep, "integrate", ctx.n(12_000, 200_000), |_, r, rep| {
        let (mf, mg) = match r.below(12) {
            0 => (20_000, 60),
            1..=3 => (600, 40),
            _ => (64, 20),
        };
        let (spec, rule) = gen_rule(r, 0.02, mf, mg);
        let table = sorted_table(&rule);
        let (a, b) = if spec.is_interval() { gen_any_interval(r) } else { (0.0, 0.0) };
        let pool = r.us(0, 6);
        let level = r.below(3);
        let salt = r.u64();
        let ev = Mutex::new(Vec::<Event>::new());
        let serial = trace(&rule, a, b, |_, t| hval(t, salt));
        check_functional(rep, "integrate", spec, &table, a, b, &serial);
        let result = pools.run(pool, || {
            rule.par_integrate(a, b, |t| {
                delay(mix(t.to_bits() ^ salt), level);
                let v = hval(t, salt);
                ev.lock().unwrap().push(Event { thread: thread_number(), t, v });
                v
            })
        });
        let ev = ev.into_inner().unwrap();
        let (h, threads) = schedule(&ev);
        let tr = Trace { tv: ev.iter().map(|e| (e.t, e.v)).collect(), result };
        check_functional(rep, &format!("par_integrate in {}", pools.name(pool)), spec, &table, a, b, &tr);
        let abs: f64 = ksum(table.iter().zip(0..).map(|(p, _)| p.1.abs()));
        let half = if spec.is_interval() { (0.5 * b - 0.5 * a).abs() } else { 1.0 };
        // The same integrand, up to what a rounding of the points changes in it: here nothing, if the points are equal.
        let mut p: Vec<u64> = serial.tv.iter().map(|x| x.0.to_bits()).collect();
        let mut q: Vec<u64> = tr.tv.iter().map(|x| x.0.to_bits()).collect();
        p.sort();
        q.sort();
        if p == q {
            rep.add("same_points_bit_for_bit", 1);
            rep.close((result - serial.result).abs(), EPS * (table.len() as f64 + 24.0) * abs * half * 2.0 + 1e-305, "parallel-sum", || {
                format!("{spec:?} on [{a:e}, {b:e}] in {}: {result:e} but serially {:e}", pools.name(pool), serial.result)
            });
        }
        rep.case(table.len() > 1 && threads > 0, (spec.bits(), h));
        schedules.lock().unwrap().insert(mix(h ^ hash_str(&format!("{:?}", spec.bits()))));
        by_threads.lock().unwrap()[threads.min(16)] += 1;
        rep.sample(|| format!("{spec:?} on [{a:e}, {b:e}] in {}: {} calls on {threads} threads, schedule {h:016x}", pools.name(pool), ev.len()));
    });
    // par_new = new.
    let sweep = if ctx.thorough { 6000 } else { 1200 };
    par_cases(ctx, rep, "construct", 3 * sweep + ctx.n(600, 6000), |i, r, rep| {
        let kind = [0usize, 4, 5][i % 3];
        let n = if i < 3 * sweep { i / 3 + 1 } else { gen_degree(r, 60_000) };
        let spec = match kind {
            0 => Spec::Leg(n),
            4 => Spec::C1(n),
            _ => Spec::C2(n),
        };
        let pool = r.us(0, 6);
        let par = pools.run(pool, || spec.par_build()).expect("parallel constructor");
        let ser = spec.build();
        compare_constructed(rep, spec, &ser, &par, &pools.name(pool));
        rep.case(true, (spec.bits(), pool));
    });
    // Very large rules, in parallel construction and integration.
    par_cases(ctx, rep, "large", ctx.n(6, 60), |i, r, rep| {
        let n = 100_000 + r.us(0, 400_000);
        let spec = [Spec::Leg(n), Spec::C1(n), Spec::C2(n)][i % 3];
        let par = spec.par_build().expect("parallel constructor");
        let ser = spec.build();
        compare_constructed(rep, spec, &ser, &par, "global pool");
        let count = AtomicUsize::new(0);
        let f = |t: f64| {
            count.fetch_add(1, Ordering::Relaxed);
            1.0 + t
        };
        let p = par.par_integrate(-1.0, 1.0, f);
        let s = ser.integrate(-1.0, 1.0, f);
        rep.check(count.load(Ordering::Relaxed) == 2 * n, "evaluation-count", || format!("{spec:?}: {count:?} evaluations in two integrals"));
        rep.close((p - s).abs(), 4.0 * EPS * (n as f64).max(30.0) * s.abs(), "parallel-sum", || format!("{spec:?}: {p:e} but serially {s:e}"));
        rep.case(true, spec.bits());
    });
    // Degrees whose counters and indices need many bits.
    let mut sizes: Vec<(u32, usize)> = Vec::new();
    let mut r = Rng::new(ctx.seed, "sizes", 0);
    for kind in 6..9 {
        sizes.extend([65_537, (1 << 24) + 1, (1 << 24) + r.us(2, 1 << 24) as u32, r.us(1 << 17, 1 << 24) as u32].map(|n| (n, kind)));
        if ctx.thorough {
            sizes.extend([(1 << 31) + 5, (1 << 31) - 1, u32::MAX].map(|n| (n, kind)));
        }
    }
    crate::p_int::large_parallel(ctx, rep, &sizes);
    // Several callers share a rule and a pool at once.
    par_cases(&Ctx { threads: 2, ..ctx.clone() }, rep, "shared", ctx.n(400, 6000), |_, r, rep| {
        let (spec, rule) = gen_rule(r, 0.1, 500, 30);
        let table = sorted_table(&rule);
        let (a, b) = if spec.is_interval() { gen_mild_interval(r) } else { (0.0, 0.0) };
        let callers = r.us(2, 8);
        let pool = r.us(0, 6);
        let salt = r.u64();
        let traces: Vec<(bool, Trace)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..callers)
                .map(|c| {
                    let (rule, pools) = (&rule, &pools);
                    s.spawn(move || {
                        let salt = salt ^ mix(c as u64);
                        let f = |t: f64| {
                            delay(mix(t.to_bits() ^ salt), 1);
                            hval(t, salt)
                        };
                        if c % 4 == 3 {
                            (false, trace(rule, a, b, |_, t| f(t)))
                        } else {
                            (true, pools.run(pool, || par_trace(rule, a, b, f)))
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("caller")).collect()
        });
        for (par, tr) in &traces {
            check_functional(rep, if *par { "par_integrate (shared)" } else { "integrate (shared)" }, spec, &table, a, b, tr);
        }
        rep.add("concurrent_calls", callers as u64);
        rep.case(true, (spec.bits(), callers, pool, salt));
    });
    // Many quick sums one after the other: with cheap integrands the tasks finish close together.
    par_cases(&Ctx { threads: 2, ..ctx.clone() }, rep, "burst", ctx.n(120, 2000), |i, r, rep| {
        let all = big_rules();
        let of: Vec<_> = all.iter().filter(|x| x.0.kind() == i % KINDS).collect();
        let (spec, rule) = r.pick(&of);
        let (a, b) = if spec.is_interval() { gen_mild_interval(r) } else { (0.0, 0.0) };
        let pool = r.us(0, 6);
        let (p, q) = (r.range(0.5, 2.0), r.range(0.0, 1.0));
        let f = |t: f64| p + q * t * t / (1.0 + t * t);
        let s = rule.integrate(a, b, f);
        let calls = 300.min(1_500_000 / spec.points().max(1)).max(20);
        let mut worst = 0.0f64;
        for _ in 0..calls {
            let x = pools.run(pool, || rule.par_integrate(a, b, f));
            let e = (x - s).abs();
            if !(e <= worst) {
                worst = e;
            }
        }
        rep.add("burst_calls", calls as u64);
        let tol = EPS * (spec.points() as f64 + 24.0) * s.abs() * 4.0;
        rep.close(worst, tol, "parallel-sum", || format!("{spec:?} on [{a:e}, {b:e}] in {}: one of {calls} parallel sums is off by {worst:e} from {s:e}", pools.name(pool)));
        rep.case(true, (spec.bits(), hf(a), hf(b), pool));
    });
    // Values that are not finite, and panics, somewhere in the parallel sum.
    par_cases(ctx, rep, "special", ctx.n(4000, 60_000), |_, r, rep| {
        let (spec, rule) = gen_rule(r, 0.03, 300, 24);
        let table = sorted_table(&rule);
        let n = table.len();
        let (a, b) = if spec.is_interval() { gen_mild_interval(r) } else { (0.0, 0.0) };
        let pool = r.us(0, 6);
        let pts: Vec<f64> = {
            let mut p: Vec<f64> = trace(&rule, a, b, |_, _| 0.0).tv.iter().map(|x| x.0).collect();
            p.sort_by(f64::total_cmp);
            p
        };
        let k = r.us(0, n - 1);
        let target = pts[k];
        let close = 64.0 * EPS * (a.abs() + b.abs());
        if (k > 0 && target - pts[k - 1] <= 4.0 * close) || (k + 1 < n && pts[k + 1] - target <= 4.0 * close) {
            return;
        }
        let hit = |t: f64| (t - target).abs() <= close;
        let w = if b < a && spec.is_interval() { table[n - 1 - k].1 } else { table[k].1 };
        if w == 0.0 {
            return; // the weight underflows
        }
        let sign = if b < a && spec.is_interval() { -1.0 } else { 1.0 };
        match r.below(3) {
            0 => {
                let x = pools.run(pool, || rule.par_integrate(a, b, |t| if hit(t) { f64::NAN } else { 1.0 }));
                rep.check(x.is_nan(), "nan", || format!("{spec:?} in {}: NaN at {target:e} gives {x}", pools.name(pool)));
            }
            1 => {
                let x = pools.run(pool, || rule.par_integrate(a, b, |t| if hit(t) { f64::INFINITY } else { 1.0 }));
                rep.check(x == sign * f64::INFINITY, "infinity", || format!("{spec:?} in {}: inf at {target:e} gives {x}", pools.name(pool)));
            }
            _ => {
                let calls = Mutex::new(Vec::new());
                let res = catch_unwind(AssertUnwindSafe(|| {
                    pools.run(pool, || {
                        rule.par_integrate(a, b, |t| {
                            calls.lock().unwrap_or_else(|e| e.into_inner()).push(t);
                            if hit(t) {
                                std::panic::panic_any(Injected(target));
                            }
                            1.0
                        })
                    })
                }));
                let ok = matches!(&res, Err(p) if p.downcast_ref::<Injected>().is_some_and(|i| i.0 == target));
                rep.check(ok, "panic-propagates", || format!("{spec:?} in {}: a panic at {target:e} gives {:?}", pools.name(pool), res.as_ref().ok()));
                let mut c: Vec<u64> = calls.into_inner().unwrap_or_else(|e| e.into_inner()).iter().map(|x: &f64| x.to_bits()).collect();
                let total = c.len();
                c.sort();
                c.dedup();
                rep.check(total <= n && c.len() == total, "panic-evaluations", || format!("{spec:?}: {total} calls at {} points", c.len()));
                // Rule and pool still work.
                let salt = r.u64();
                let tr = pools.run(pool, || par_trace(&rule, a, b, |t| hval(t, salt)));
                check_functional(rep, "par_integrate after a panic", spec, &table, a, b, &tr);
                rep.add("panics_injected", 1);
            }
        }
        rep.case(true, (spec.bits(), k, pool));
    });
    rep.add("distinct_schedules", schedules.lock().unwrap().len() as u64);
    for (k, n) in by_threads.lock().unwrap().iter().enumerate() {
        if *n > 0 {
            rep.add(&format!("integrals_on_{k:02}_threads"), *n);
        }
    }
    if ctx.only.is_none() && ctx.part.is_none() {
        let multi: u64 = by_threads.lock().unwrap()[2..].iter().sum();
        if multi == 0 {
            rep.inconclusive("no integral ran on more than one thread");
        }
    }
}

#[cfg(feature = "par")]
struct Injected(f64);

#[cfg(feature = "par")]
fn compare_constructed(rep: &mut Report, spec: Spec, ser: &Rule, par: &Rule, pool: &str) {
    let (s, p) = (ser.pairs().unwrap(), par.pairs().unwrap());
    if !rep.check(s.len() == p.len(), "parallel-degree", || format!("{spec:?} in {pool}: par_new has {} pairs, new {}", p.len(), s.len())) {
        return;
    }
    let mut worst = (0.0, 0, 0.0, 0.0, 0);
    for i in 0..s.len() {
        let e = (s[i].0 - p[i].0).abs() / (12.0 * EPS);
        if !(e <= worst.0) {
            (worst.0, worst.1) = (e, i);
        }
        let c = match spec {
            Spec::C2(_) => 16.0 + 24.0 / (1.0 - s[i].0 * s[i].0).max(1e-30).sqrt(),
            _ => 24.0,
        };
        let e = (s[i].1 - p[i].1).abs() / (c * EPS * s[i].1.abs());
        if !(e <= worst.3) {
            (worst.3, worst.4) = (e, i);
        }
    }
    rep.close(worst.0, 1.0, "parallel-nodes", || {
        let i = worst.1;
        format!("{spec:?} in {pool}: node {i} is {:e} with par_new, {:e} with new", p[i].0, s[i].0)
    });
    rep.close(worst.3, 1.0, "parallel-weights", || {
        let i = worst.4;
        format!("{spec:?} in {pool}: weight {i} is {:e} with par_new, {:e} with new", p[i].1, s[i].1)
    });
    rep.add("pairs_compared", s.len() as u64);
}

// ---------------------------------------------------------------- C21

/// Runs one level of a nest serially or in parallel.
fn level(rule: &Rule, par: bool, a: f64, b: f64, f: &(dyn Fn(f64) -> f64 + Sync)) -> f64 {
    #[cfg(feature = "par")]
    if par {
        return rule.par_integrate(a, b, f);
    }
    let _ = par;
    rule.integrate(a, b, f)
}

struct Level {
    spec: Spec,
    rule: Rule,
    table: Vec<(f64, f64)>,
    par: bool,
    a: f64,
    b: f64,
}

impl Level {
    fn new(r: &mut Rng, spec: Spec) -> Level {
        let rule = spec.build();
        let table = sorted_table(&rule);
        let (a, b) = if spec.is_interval() { gen_mild_interval(r) } else { (0.0, 0.0) };
        Level { spec, rule, table, par: r.chance(0.5), a, b }
    }
    /// Expected points with coefficients for the limits, ascending.
    fn expect(&self, a: f64, b: f64) -> Vec<(f64, f64)> {
        if !self.spec.is_interval() {
            return self.table.clone();
        }
        let (mid, half) = (0.5 * (a + b), 0.5 * (b - a));
        let mut v: Vec<(f64, f64)> = self.table.iter().map(|p| (half.mul_add(p.0, mid), half * p.1)).collect();
        v.sort_by(|x, y| x.0.total_cmp(&y.0));
        v
    }
    fn tol(&self) -> f64 {
        if self.spec.is_interval() { 20.0 * EPS * (self.a.abs() + self.b.abs()) } else { 0.0 }
    }
    fn describe(&self) -> String {
        format!("{:?} {} on [{}, {}]", self.spec, if self.par { "parallel" } else { "serial" }, self.a, self.b)
    }
}

/// Index of the expected point closest to x, if it is within the tolerance.
fn find(points: &[(f64, f64)], x: f64, tol: f64) -> Option<usize> {
    let k = points.partition_point(|p| p.0 < x);
    let mut best = None;
    for i in k.saturating_sub(1)..(k + 1).min(points.len()) {
        let d = (points[i].0 - x).abs();
        if d <= tol && best.is_none_or(|(e, _)| d < e) {
            best = Some((d, i));
        }
    }
    best.map(|b| b.1)
}

fn separated(points: &[(f64, f64)], tol: f64) -> bool {
    points.windows(2).all(|w| w[1].0 - w[0].0 > 4.0 * tol)
}

pub fn c21(ctx: &Ctx, rep: &mut Report) {
    rep.rule("two or three rules of any kind, degrees, intervals, serial or parallel at every level, in pools of 1 to 16 threads; the innermost integrand records every product point and returns an arbitrary value; the record must be the tensor product of the rules' points, each once, and the result the tensor-product sum. Non-trivial: a combination not seen before with at least two levels of more than one point.");
    #[cfg(feature = "par")]
    let pools = Pools::new();
    #[cfg(feature = "par")]
    let in_pool = |k: usize, f: &(dyn Fn() -> f64 + Sync)| pools.run(k, f);
    #[cfg(not(feature = "par"))]
    let in_pool = |_: usize, f: &(dyn Fn() -> f64 + Sync)| f();

    // Two levels, rectangular.
    par_cases(ctx, rep, "two", ctx.n(8000, 120_000), |_, r, rep| {
        let big = r.chance(0.05);
        let (mf, mg) = if big { (300, 30) } else { (24, 12) };
        let o = gen_spec(r, mf, mg);
        let outer = Level::new(r, o);
        let same = r.chance(0.2);
        let i = if same { o } else { gen_spec(r, mf, mg) };
        let inner = Level::new(r, i);
        let (eo, ei) = (outer.expect(outer.a, outer.b), inner.expect(inner.a, inner.b));
        if !separated(&eo, outer.tol()) || !separated(&ei, inner.tol()) {
            return;
        }
        let inner_rule = if same { &outer.rule } else { &inner.rule };
        let salt = r.u64();
        let seen = Mutex::new(Vec::<(f64, f64, f64)>::new());
        let result = in_pool(r.us(0, 6), &|| {
            level(&outer.rule, outer.par, outer.a, outer.b, &|x| {
                level(inner_rule, inner.par, inner.a, inner.b, &|y| {
                    let v = hval(x, salt) * 0.5 + hval(y, salt ^ x.to_bits());
                    seen.lock().unwrap().push((x, y, v));
                    v
                })
            })
        });
        let seen = seen.into_inner().unwrap();
        let (no, ni) = (eo.len(), ei.len());
        let what = || format!("{} over {}", outer.describe(), inner.describe());
        let mut hits = vec![0u8; no * ni];
        let (mut sum, mut comp, mut abs) = (0.0, 0.0f64, 0.0);
        for &(x, y, v) in &seen {
            let (Some(p), Some(q)) = (find(&eo, x, outer.tol()), find(&ei, y, inner.tol())) else {
                rep.violation("nested-point", format!("{}: evaluated at ({x:e}, {y:e})", what()));
                return;
            };
            hits[p * ni + q] = hits[p * ni + q].saturating_add(1);
            let t = eo[p].1 * ei[q].1 * v;
            abs += t.abs();
            let y2 = t - comp;
            let s2 = sum + y2;
            comp = (s2 - sum) - y2;
            sum = s2;
        }
        rep.check(seen.len() == no * ni && hits.iter().all(|h| *h == 1), "nested-points", || {
            format!("{}: {} evaluations of {} product points, {} of them not exactly once", what(), seen.len(), no * ni, hits.iter().filter(|h| **h != 1).count())
        });
        rep.close((result - sum).abs(), EPS * ((no + ni) as f64 + 60.0) * abs + 1e-305, "tensor-sum", || format!("{}: {result:e} but the tensor sum is {sum:e}", what()));
        rep.add("product_points_observed", seen.len() as u64);
        rep.case(no > 1 && ni > 1, (o.bits(), i.bits(), outer.par, inner.par, same));
        rep.sample(|| format!("{}: {} product points, {result:e}", what(), seen.len()));
    });

    // Three levels, with a rule constructed in the integrand of the outer ones.
    par_cases(ctx, rep, "three", ctx.n(2500, 40_000), |_, r, rep| {
        let specs: Vec<Spec> = (0..3).map(|_| gen_spec(r, 9, 7)).collect();
        let ls: Vec<Level> = specs.iter().map(|s| Level::new(r, *s)).collect();
        let es: Vec<Vec<(f64, f64)>> = ls.iter().map(|l| l.expect(l.a, l.b)).collect();
        if (0..3).any(|k| !separated(&es[k], ls[k].tol())) {
            return;
        }
        let salt = r.u64();
        let rebuild = r.chance(0.5);
        let seen = Mutex::new(Vec::<(f64, f64, f64, f64)>::new());
        let result = in_pool(r.us(0, 6), &|| {
            level(&ls[0].rule, ls[0].par, ls[0].a, ls[0].b, &|x| {
                let fresh = rebuild.then(|| specs[1].build());
                level(fresh.as_ref().unwrap_or(&ls[1].rule), ls[1].par, ls[1].a, ls[1].b, &|y| {
                    let fresh = rebuild.then(|| specs[2].build());
                    level(fresh.as_ref().unwrap_or(&ls[2].rule), ls[2].par, ls[2].a, ls[2].b, &|z| {
                        let v = hval(x + 3.0 * y, salt) + hval(z, salt);
                        seen.lock().unwrap().push((x, y, z, v));
                        v
                    })
                })
            })
        });
        let seen = seen.into_inner().unwrap();
        let what = || format!("{} over {} over {}", ls[0].describe(), ls[1].describe(), ls[2].describe());
        let (n0, n1, n2) = (es[0].len(), es[1].len(), es[2].len());
        let mut hits = vec![0u8; n0 * n1 * n2];
        let mut terms = Vec::with_capacity(seen.len());
        for &(x, y, z, v) in &seen {
            match (find(&es[0], x, ls[0].tol()), find(&es[1], y, ls[1].tol()), find(&es[2], z, ls[2].tol())) {
                (Some(p), Some(q), Some(s)) => {
                    let h = &mut hits[(p * n1 + q) * n2 + s];
                    *h = h.saturating_add(1);
                    terms.push(es[0][p].1 * es[1][q].1 * es[2][s].1 * v);
                }
                _ => {
                    rep.violation("nested-point", format!("{}: evaluated at ({x:e}, {y:e}, {z:e})", what()));
                    return;
                }
            }
        }
        rep.check(hits.iter().all(|h| *h == 1), "nested-points", || format!("{}: {} evaluations of {} product points", what(), seen.len(), hits.len()));
        let (sum, abs) = (ksum(terms.iter().copied()), terms.iter().map(|x| x.abs()).sum::<f64>());
        rep.close((result - sum).abs(), EPS * ((n0 + n1 + n2) as f64 + 90.0) * abs + 1e-305, "tensor-sum", || format!("{}: {result:e} but the tensor sum is {sum:e}", what()));
        rep.add("product_points_observed", seen.len() as u64);
        rep.case(n0 > 1 && n1 > 1 && n2 > 1, (specs.iter().map(|s| s.bits()).collect::<Vec<_>>(), rebuild));
    });

    // Order of integration, and inner limits that depend on the outer variable.
    par_cases(ctx, rep, "fubini", ctx.n(8000, 120_000), |_, r, rep| {
        let (o, i) = (gen_spec(r, 30, 14), gen_spec(r, 30, 14));
        let (l0, l1) = (Level::new(r, o), Level::new(r, i));
        let (p, q, s) = (r.range(-2.0, 2.0), r.range(-2.0, 2.0), r.range(-3.0, 3.0));
        let f = |x: f64, y: f64| (p * x + q * y + s).cos() + 0.25 * p * (q * x * y).sin();
        let pool = r.us(0, 6);
        let xy = in_pool(pool, &|| level(&l0.rule, l0.par, l0.a, l0.b, &|x| level(&l1.rule, l1.par, l1.a, l1.b, &|y| f(x, y))));
        let yx = in_pool(pool, &|| level(&l1.rule, l0.par, l1.a, l1.b, &|y| level(&l0.rule, l1.par, l0.a, l0.b, &|x| f(x, y))));
        let m = |l: &Level| l.expect(l.a, l.b).iter().map(|x| x.1.abs()).sum::<f64>();
        let (n0, n1) = (l0.table.len() as f64, l1.table.len() as f64);
        // Rounding of the points changes the integrand by its slope.
        let big = |l: &Level| if l.spec.is_interval() { l.a.abs() + l.b.abs() } else { 0.0 };
        let slope = 8.0 + 8.0 * (big(&l0) + big(&l1)) * 20.0;
        let tol = EPS * m(&l0) * m(&l1) * 2.0 * (2.0 * (n0 + n1) + 60.0 + slope);
        rep.close((xy - yx).abs(), tol, "order", || format!("{} over {}: {xy:e}, in the other order {yx:e}", l0.describe(), l1.describe()));
        // Inner limits c0 + c1 x .. d0 + d1 x
        if l0.spec.is_interval() && l1.spec.is_interval() {
            let (c0, c1, d0, d1) = (r.range(-2.0, 2.0), r.range(-1.0, 1.0), r.range(-2.0, 2.0), r.range(-1.0, 1.0));
            let got = in_pool(pool, &|| {
                level(&l0.rule, l0.par, l0.a, l0.b, &|x| level(&l1.rule, l1.par, c0 + c1 * x, d0 + d1 * x, &|y| f(x, y)))
            });
            let mut terms = Vec::new();
            for (x, w) in l0.expect(l0.a, l0.b) {
                for (y, v) in l1.expect(c0 + c1 * x, d0 + d1 * x) {
                    terms.push(w * v * f(x, y));
                }
            }
            let want = ksum(terms.iter().copied());
            let scale = m(&l0) * l1.table.iter().map(|x| x.1.abs()).sum::<f64>() * (4.0 + 2.0 * big(&l0));
            let tol = EPS * scale * 2.0 * (2.0 * (n0 + n1) + 60.0 + 40.0 * (4.0 + 2.0 * big(&l0)));
            rep.close((got - want).abs(), tol, "variable-limits", || {
                format!("{} over {:?} on [{c0} + {c1} x, {d0} + {d1} x]: {got:e} but the sum is {want:e}", l0.describe(), l1.spec)
            });
        }
        rep.case(n0 > 1.0 && n1 > 1.0, (o.bits(), i.bits(), hf(p), hf(q)));
    });
    // Polynomials over triangles: exact by Gauss-Legendre in both levels.
    par_cases(ctx, rep, "triangle", ctx.n(4000, 40_000), |_, r, rep| {
        let n = r.us(2, 40);
        let m = r.us(1, 40);
        let q = r.us(0, 2 * m - 1);
        let top = 2 * n - 1;
        if q + 1 > top {
            return;
        }
        let p = r.us(0, top - q - 1);
        let (lo, li) = (Spec::Leg(n).build(), Spec::Leg(m).build());
        let (po, pi) = (r.chance(0.5), r.chance(0.5));
        let h = r.log_range(0.1, 3.0);
        let got = in_pool(r.us(0, 6), &|| level(&lo, po, 0.0, h, &|x| level(&li, pi, 0.0, x, &|y| (x / h).powi(p as i32) * (y / h).powi(q as i32))));
        let want = h * h / ((q + 1) as f64 * (p + q + 2) as f64);
        rep.case(true, (n, m, p, q));
        rep.close((got - want).abs(), want * EPS * (60.0 + 6.0 * (n + m + p + q) as f64) * 4.0, "triangle", || {
            format!("Legendre({n}) over Legendre({m}), x^{p} y^{q} over the triangle of side {h}: {got:e} but exactly {want:e}")
        });
    });
    // Stateful serial integrands that use their own rule again.
    par_cases(ctx, rep, "recursive", ctx.n(3000, 30_000), |_, r, rep| {
        let spec = gen_spec(r, 7, 6);
        let rule = spec.build();
        let (a, b) = if spec.is_interval() { gen_mild_interval(r) } else { (0.0, 0.0) };
        let depth = r.us(1, 4);
        fn go(rule: &Rule, a: f64, b: f64, depth: usize, count: &mut u64) -> f64 {
            if depth == 0 {
                *count += 1;
                return 1.0;
            }
            rule.integrate(a, b, |_| go(rule, a, b, depth - 1, count))
        }
        let mut count = 0;
        let got = go(&rule, a, b, depth, &mut count);
        let one = rule.integrate(a, b, |_| 1.0);
        let want = one.powi(depth as i32);
        let pts = spec.points() as u64;
        rep.check(count == pts.pow(depth as u32), "recursive-count", || format!("{spec:?} nested {depth} times: {count} evaluations"));
        rep.close((got - want).abs(), want.abs() * EPS * (depth as f64) * (pts as f64 + 20.0) + 1e-305, "recursive", || {
            format!("{spec:?} on [{a}, {b}] nested {depth} times: {got:e} but the power is {want:e}")
        });
        rep.case(depth > 1, (spec.bits(), depth, hf(a)));
    });
}
