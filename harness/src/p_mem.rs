//! C18: memory and cost. C11: shared rules under sanitizers. C17: logs that are compared offline.

use crate::p_struct::*;
use crate::rules::*;
use crate::util::*;
use gauss_quad::*;
use std::fmt::Write as _;
use std::hint::black_box;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};

// ---------------------------------------------------------------- counting allocator

#[cfg(feature = "count_alloc")]
pub mod counting {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;

    pub struct Counting;

    #[derive(Clone, Copy, Debug, Default)]
    pub struct Stats {
        pub allocs: u64,
        pub frees: u64,
        pub blocks: i64,
        pub live: i64,
        pub peak: i64,
    }
    thread_local! {
        static STATS: Cell<Stats> = const { Cell::new(Stats { allocs: 0, frees: 0, blocks: 0, live: 0, peak: 0 }) };
    }
    fn update(f: impl FnOnce(&mut Stats)) {
        let _ = STATS.try_with(|c| {
            let mut s = c.get();
            f(&mut s);
            s.peak = s.peak.max(s.live);
            c.set(s);
        });
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = unsafe { System.alloc(l) };
            if !p.is_null() {
                update(|s| {
                    s.allocs += 1;
                    s.blocks += 1;
                    s.live += l.size() as i64;
                });
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            unsafe { System.dealloc(p, l) };
            update(|s| {
                s.frees += 1;
                s.blocks -= 1;
                s.live -= l.size() as i64;
            });
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let q = unsafe { System.realloc(p, l, n) };
            if !q.is_null() {
                update(|s| {
                    s.allocs += 1;
                    s.frees += 1;
                    s.live += n as i64 - l.size() as i64;
                });
            }
            q
        }
    }
    /// What this thread allocated while `f` ran.
    pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Stats) {
        let before = STATS.with(|c| {
            let mut s = c.get();
            s.peak = s.live;
            c.set(s);
            s
        });
        let r = f();
        let s = STATS.with(|c| c.get());
        let d = Stats {
            allocs: s.allocs - before.allocs,
            frees: s.frees - before.frees,
            blocks: s.blocks - before.blocks,
            live: s.live - before.live,
            peak: s.peak - before.live,
        };
        (r, d)
    }
}

#[cfg(not(feature = "count_alloc"))]
pub fn c18(_: &Ctx, rep: &mut Report) {
    rep.inconclusive("built without count_alloc");
}

/// Runs a block with `$q` bound to the concrete Gauss rule.
macro_rules! with_gauss {
    ($rule:expr, $q:ident => $body:expr) => {
        match $rule {
            Rule::Leg($q) => Some($body),
            Rule::Jac($q) => Some($body),
            Rule::Lag($q) => Some($body),
            Rule::Her($q) => Some($body),
            Rule::C1($q) => Some($body),
            Rule::C2($q) => Some($body),
            _ => None,
        }
    };
}
macro_rules! with_composite {
    ($rule:expr, $q:ident => $body:expr) => {
        match $rule {
            Rule::Mid($q) => Some($body),
            Rule::Simp($q) => Some($body),
            Rule::Trap($q) => Some($body),
            _ => None,
        }
    };
}

#[cfg(feature = "count_alloc")]
pub fn c18(ctx: &Ctx, rep: &mut Report) {
    use counting::measure;
    rep.rule("every call is bracketed by a counting allocator: construction, integration, all views and iterators (walked from both ends, partly, cloned), conversions, clones, drops and unwinding of rules of random kind, degree and exponents; instruction counts of construction and integration at growing degrees are recorded by callgrind. Non-trivial: a rule not seen before.");
    par_cases(ctx, rep, "memory", ctx.n(12_000, 150_000), |i, r, rep| {
        let big = i % 8 == 0;
        let most = if i % 64 == 0 { 450 } else { 90 };
        let spec = gen_spec(r, if big { 20_000 } else { 300 }, if big { most } else { 20 });
        rep.case(true, spec.bits());
        let n = spec.degree() as i64;
        let gauss = spec.is_gauss();
        let (rule, s) = measure(|| spec.build());
        let what = |op: &str| format!("{spec:?} {op}");
        if gauss {
            rep.check(s.blocks == 1 && s.live == 16 * n, "kept", || format!("{}: {s:?} instead of one block of {} bytes", what("new"), 16 * n));
            if matches!(spec, Spec::Leg(_) | Spec::C1(_) | Spec::C2(_)) {
                rep.check(s.peak <= 80 * n + 8192, "peak", || format!("{}: {s:?}", what("new")));
            }
            rep.sample(|| format!("{spec:?} keeps {} bytes, peak {}", s.live, s.peak));
        } else {
            rep.check(s.allocs == 0, "composite", || format!("{}: {s:?}", what("new")));
        }
        // Integration never allocates.
        let (a, b) = gen_interval(r);
        let k = r.range(0.1, 3.0);
        for _ in 0..2 {
            let (v, s) = measure(|| rule.integrate(a, b, |x| x * k + 1.0));
            black_box(v);
            rep.check(s.allocs == 0 && s.frees == 0, "integrate", || format!("{} on [{a}, {b}]: {s:?}", what("integrate")));
        }
        if spec.degree() <= 300 {
            let (_, s) = measure(|| rule.integrate(a, b, |x| rule.integrate(0.0, 1.0, |_| 1.0) + x * 0.0).is_nan());
            rep.check(s.allocs == 0, "integrate", || format!("{}: {s:?}", what("nested integrate")));
        }
        // Nothing is lost when the integrand panics.
        let at = r.us(0, spec.points() - 1);
        let (res, s) = measure(|| {
            let mut c = 0;
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                rule.integrate(a, b, |_| {
                    c += 1;
                    if c > at {
                        std::panic::resume_unwind(Box::new(7u32));
                    }
                    1.0
                })
            }));
            res.is_err()
        });
        rep.check(res && s.live == 0 && s.blocks == 0, "unwind", || format!("{} with panic at call {at}: {s:?}, panicked {res}", what("integrate")));
        let m = r.us(0, spec.degree() + 2);
        let jump = [0, 1, m, usize::MAX][r.us(0, 3)];
        // Views.
        with_gauss!(&rule, q => {
            let (v, s) = measure(|| {
                let mut t = 0.0;
                t += q.nodes().sum::<f64>() + q.weights().rev().sum::<f64>();
                t += q.iter().map(|p| p.0 * p.1).sum::<f64>();
                let mut it = q.iter();
                t += it.nth(jump).map_or(0.0, |p| p.0);
                let mut other = it.clone();
                t += other.nth_back(1).map_or(0.0, |p| p.0) + it.as_slice().len() as f64;
                t += q.nodes().clone().nth_back(jump).copied().unwrap_or(0.0) + q.weights().len() as f64;
                t += q.as_node_weight_pairs().iter().map(|p| p.1).sum::<f64>();
                for p in q {
                    t += p.1;
                }
                t + q.degree() as f64 + q.nodes().count() as f64 + q.weights().last().copied().unwrap_or(0.0)
            });
            black_box(v);
            rep.check(s.allocs == 0 && s.frees == 0, "views", || format!("{}: {s:?}", what("views")));
            let (c, s) = measure(|| q.clone());
            rep.check(s.blocks == 1 && s.live == 16 * n, "clone", || format!("{}: {s:?}", what("clone")));
            let (_, s) = measure(|| drop(c));
            rep.check(s.blocks == -1 && s.live == -16 * n && s.allocs == 0, "drop", || format!("{}: {s:?}", what("drop")));
        });
        with_composite!(&rule, q => {
            let (v, s) = measure(|| {
                let mut t = 0u64;
                let mut it = q.iter();
                t += it.nth(jump).map_or(0, |x| x as u64) + it.clone().count() as u64 + it.len() as u64;
                t += it.nth_back(1).map_or(0, |x| x as u64);
                let c = q.clone();
                t + c.degree().get() as u64 + q.iter().map(|x| x as u64).sum::<u64>() + (c == *q) as u64
            });
            black_box(v);
            rep.check(s.allocs == 0 && s.frees == 0, "composite", || format!("{}: {s:?}", what("iterators and clone")));
        });
        // Consuming conversions reuse the block, everything is freed at last.
        let at = rule.pairs().map(|p| p.as_ptr() as usize);
        match r.below(4) {
            0 => {
                let mut rule = rule;
                let n2 = nz32(r.us(1, 5000) as u32);
                let (_, s) = measure(|| match &mut rule {
                    Rule::Mid(q) => q.change_degree(n2),
                    Rule::Simp(q) => q.change_degree(n2),
                    Rule::Trap(q) => q.change_degree(n2),
                    _ => {}
                });
                rep.check(s.allocs == 0 && s.frees == 0, "composite", || format!("{}: {s:?}", what("change_degree")));
                let (_, s) = measure(|| drop(rule));
                rep.check(if gauss { s.blocks == -1 && s.live == -16 * n } else { s.frees == 0 }, "drop", || format!("{}: {s:?}", what("drop")));
            }
            1 => {
                with_gauss!(rule, q => {
                    let (p, s) = measure(|| q.into_node_weight_pairs());
                    rep.check(s.allocs == 0 && s.frees == 0 && Some(p.as_ptr() as usize) == at, "reuse", || format!("{}: {s:?}", what("into_node_weight_pairs")));
                    let (_, s) = measure(|| drop(p));
                    rep.check(s.blocks == -1 && s.live == -16 * n, "drop", || format!("{}: {s:?}", what("drop of pairs")));
                });
            }
            2 => {
                with_gauss!(rule, q => {
                    let ((), s) = measure(|| {
                        let mut it = q.into_iter();
                        for _ in 0..m {
                            black_box(it.next_back());
                        }
                        black_box(it.nth(jump));
                    });
                    rep.check(s.allocs == 0 && s.blocks == -1 && s.live == -16 * n, "into-iter", || format!("{}: {s:?}", what("partly consumed into_iter")));
                });
            }
            _ => {
                let (j, s) = measure(|| match rule {
                    Rule::Leg(q) => Some(GaussJacobi::from(q)),
                    Rule::C1(q) => Some(GaussJacobi::from(q)),
                    Rule::C2(q) => Some(GaussJacobi::from(q)),
                    _ => None,
                });
                if let Some(j) = j {
                    let p = j.as_node_weight_pairs().as_ptr() as usize;
                    let (v, t) = measure(|| j.integrate(a, b, |x| x * k + 1.0));
                    black_box(v);
                    rep.check(t.allocs == 0 && t.frees == 0, "integrate", || format!("{}: {t:?}", what("integrate after GaussJacobi::from")));
                    rep.check(s.allocs == 0 && s.frees == 0 && Some(p) == at, "reuse", || format!("{}: {s:?}", what("GaussJacobi::from")));
                    let (_, s) = measure(|| drop(j));
                    rep.check(s.blocks == -1 && s.live == -16 * n, "drop", || format!("{}: {s:?}", what("drop of GaussJacobi")));
                } else {
                    rep.check(if gauss { s.blocks == -1 && s.live == -16 * n } else { s.frees == 0 }, "drop", || format!("{}: {s:?}", what("drop")));
                }
            }
        }
    });
    // Degrees at which only iterators can be looked at.
    par_cases(ctx, rep, "composite-huge", ctx.n(2000, 20_000), |_, r, rep| {
        let n = match r.below(3) {
            0 => u32::MAX - r.below(3) as u32,
            1 => (1u64 << r.us(0, 31)) as u32,
            _ => r.us(1, u32::MAX as usize) as u32,
        };
        rep.case(true, n);
        let rule = r.pick(&[Spec::Mid(n), Spec::Simp(n), Spec::Trap(n)]).build();
        let k = r.us(0, n as usize - 1);
        let (ok, s) = with_composite!(&rule, q => measure(|| {
            let mut it = q.iter();
            let l = it.len();
            let a = it.nth(k).is_some();
            l == n as usize && a && it.len() == n as usize - k - 1 && it.count() == n as usize - k - 1
        })).unwrap();
        rep.check(ok && s.allocs == 0, "composite-huge", || format!("{rule:?} iter().nth({k}): {ok}, {s:?}"));
    });
}

/// Does something for callgrind to count: `new` or `integrate`, `reps` times.
pub fn cost(kind: usize, op: &str, n: usize, reps: usize) {
    let spec = match kind {
        0 => Spec::Leg(n),
        1 => Spec::Jac(n, 0.3, 0.7),
        2 => Spec::Lag(n, 0.5),
        3 => Spec::Her(n),
        4 => Spec::C1(n),
        5 => Spec::C2(n),
        6 => Spec::Mid(n as u32),
        7 => Spec::Simp(n as u32),
        _ => Spec::Trap(n as u32),
    };
    match op {
        "new" => {
            for _ in 0..reps {
                black_box(black_box(spec).build());
            }
        }
        "integrate" => {
            let rule = spec.build();
            for i in 0..reps {
                black_box(black_box(&rule).integrate(0.0, 1.0 + i as f64, |x| x * 0.5));
            }
        }
        _ => {
            let rule = spec.build();
            for _ in 0..reps {
                let v = with_gauss!(black_box(&rule), q => q.nodes().sum::<f64>() + q.iter().rev().map(|p| p.1).sum::<f64>() + q.weights().len() as f64);
                let w = with_composite!(black_box(&rule), q => {
                    let mut it = q.iter();
                    let mut t = 0;
                    while let Some(x) = it.next() {
                        t += x as usize + it.len();
                    }
                    t
                });
                black_box((v, w));
            }
        }
    }
}

// ---------------------------------------------------------------- C11

// Continuous: points may differ in rounding between serial and parallel integration.
const FS: [fn(f64) -> f64; 4] = [|x| x, |x| 1.0 / (1.0 + x * x), |x| (x * 0.7).sin() + 0.1, |x| if x > 0.0 { x * x } else { -x }];

fn same(x: f64, y: f64) -> bool {
    x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()
}

pub fn c11(ctx: &Ctx, rep: &mut Report) {
    rep.rule("a rule built by several threads at once (each must get the same one), then shared by 2 to 6 threads that start together and integrate, walk, clone, move, consume and drop its views and iterators, panic inside integrands and integrate in parallel; constructors of huge degrees in child processes. The sanitizers watch memory; results are compared with those computed alone. Non-trivial: a rule and set of thread programs not seen before.");
    let slow = cfg!(debug_assertions);
    par_cases(ctx, rep, "shared", ctx.n(if slow { 4000 } else { 12_000 }, if slow { 40_000 } else { 300_000 }), |_, r, rep| {
        let m = if r.chance(0.1) { 700 } else { 60 };
        let spec = gen_spec(r, m, m.min(40));
        let nthreads = r.us(2, 6);
        let salt = r.u64();
        rep.case(true, (spec.bits(), nthreads, salt));
        let (a, b) = gen_mild_interval(r);
        // The first construction of this rule happens on all threads at once.
        let barrier = Barrier::new(nthreads);
        let built: Mutex<Vec<Rule>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..nthreads {
                s.spawn(|| {
                    barrier.wait();
                    let rule = spec.build();
                    built.lock().unwrap().push(rule);
                });
            }
        });
        let built = built.into_inner().unwrap();
        let alone = spec.build();
        for x in &built {
            rep.check(bits_equal(x, &alone), "concurrent-construction", || format!("{spec:?} built by {nthreads} threads at once differs from {spec:?} built alone"));
        }
        let wanted: Vec<f64> = FS.iter().map(|f| alone.integrate(a, b, f)).collect();
        let pairs: Vec<(f64, f64)> = alone.pairs().map(|p| p.to_vec()).unwrap_or_default();
        let shared = Arc::new(alone);
        let wrong: Mutex<Vec<String>> = Mutex::new(vec![]);
        let ops = AtomicU64::new(0);
        let barrier = Barrier::new(nthreads);
        std::thread::scope(|s| {
            for t in 0..nthreads {
                let mut r = Rng::new(salt, "thread", t);
                let rule = Arc::clone(&shared);
                let (wanted, pairs, wrong, ops, barrier, shared) = (&wanted, &pairs, &wrong, &ops, &barrier, &shared);
                s.spawn(move || {
                    barrier.wait();
                    for _ in 0..r.us(1, 6) {
                        ops.fetch_add(1, Ordering::Relaxed);
                        let op = r.below(8);
                        if let Some(e) = thread_op(op, &mut r, &rule, shared, a, b, wanted, pairs) {
                            wrong.lock().unwrap().push(format!("{spec:?}, thread {t} of {nthreads}: {e}"));
                        }
                    }
                });
            }
        });
        rep.add("thread_operations", ops.load(Ordering::Relaxed));
        for w in wrong.into_inner().unwrap() {
            rep.violation("shared", w);
        }
        let after = Arc::into_inner(shared);
        rep.check(after.is_some_and(|x| bits_equal(&x, &built[0])), "shared-changed", || format!("{spec:?} changed while it was shared"));
    });
    // Rules that are long enough to be split between threads, built and used in parallel.
    #[cfg(feature = "par")]
    par_cases(&Ctx { threads: 4, ..ctx.clone() }, rep, "shared-parallel", ctx.n(if slow { 800 } else { 2000 }, if slow { 10_000 } else { 50_000 }), |_, r, rep| {
        let n = match r.below(5) {
            0 => r.us(1, 64),
            1 => r.us(64, 500),
            2 => r.us(500, 9000),
            _ => (1 << r.us(3, 12)) + r.us(0, 2),
        };
        let spec = match r.below(3) {
            0 => Spec::Leg(n),
            1 => Spec::C1(n),
            _ => Spec::C2(n),
        };
        let Some(rule) = spec.par_build() else { return };
        rep.case(true, spec.bits());
        let alone = spec.build();
        let (x, y) = (rule.pairs().unwrap_or(&[]), alone.pairs().unwrap_or(&[]));
        let close = x.len() == y.len() && x.iter().zip(y).all(|(p, q)| (p.0 - q.0).abs() < 1e-13 && (p.1 - q.1).abs() < 1e-11);
        rep.check(close, "parallel-construction", || format!("{spec:?} built in parallel has other pairs"));
        let v = rule.par_integrate(-1.0, 2.0, |x| 1.0 / (1.0 + x * x));
        let w = alone.integrate(-1.0, 2.0, |x| 1.0 / (1.0 + x * x));
        rep.check((v - w).abs() < 1e-10, "parallel-integral", || format!("{spec:?}: {v:e} in parallel and {w:e}"));
    });
    // Every way of reading at and beyond the ends.
    par_cases(ctx, rep, "ends", ctx.n(if slow { 6000 } else { 30_000 }, 400_000), |_, r, rep| {
        let spec = gen_spec(r, 70, 16);
        rep.case(true, spec.bits());
        let rule = spec.build();
        let n = spec.degree();
        let ks = [0, 1, n / 2, n.saturating_sub(1), n, n + 1, usize::MAX / 16, usize::MAX - 1, usize::MAX];
        let k = r.pick(&ks);
        let l = r.pick(&ks);
        with_gauss!(rule, q => {
            let copy = q.clone();
            let mut it = q.iter();
            let x = it.nth(k).copied();
            rep.check(x == copy.as_node_weight_pairs().get(k).copied(), "ends", || format!("{spec:?} nth({k}): {x:?}"));
            it.nth_back(l);
            let s = it.as_slice().len();
            rep.check(s == it.len() && s <= n, "ends", || format!("{spec:?} slice of {s} pairs after nth({k}) and nth_back({l})"));
            black_box((it.next(), it.next_back(), it.as_slice().first().copied(), it.as_ref().last().copied()));
            let mut nodes = q.nodes();
            black_box((nodes.nth_back(k), nodes.nth(l), nodes.next(), nodes.len()));
            let mut weights = q.weights();
            black_box((weights.nth(l), weights.nth_back(k), weights.next_back(), weights.size_hint()));
            let mut own = q.into_iter();
            let y = own.nth(k);
            rep.check(y == x, "ends", || format!("{spec:?} into_iter nth({k}): {y:?} instead of {x:?}"));
            let mut own2 = own.clone();
            drop(own);
            black_box((own2.nth_back(l), own2.as_slice().len(), own2.as_ref().len()));
            let rest: Vec<_> = own2.collect();
            rep.check(rest.len() <= n, "ends", || format!("{spec:?} has {} pairs left", rest.len()));
        });
    });
    leaks(ctx, rep);
    huge_children(ctx, rep);
    deep_stacks(ctx, rep);
}

#[cfg(not(feature = "count_alloc"))]
fn leaks(_: &Ctx, _: &mut Report) {}

/// Doing the same a second time leaves nothing behind.
#[cfg(feature = "count_alloc")]
fn leaks(ctx: &Ctx, rep: &mut Report) {
    par_cases(ctx, rep, "leaks", ctx.n(20_000, 300_000), |i, r, rep| {
        let m = if i % 16 == 0 { 20_000 } else { 300 };
        let spec = gen_spec(r, m, if i % 16 == 0 { 120 } else { 25 });
        let salt = r.u64();
        rep.case(true, (spec.bits(), salt));
        let life = || {
            let mut r = Rng::new(salt, "life", 0);
            let (a, b) = gen_mild_interval(&mut r);
            let rule = spec.build();
            let shared = Arc::new(rule.clone());
            for _ in 0..r.us(1, 4) {
                let k = r.us(0, spec.degree() + 1);
                match r.below(6) {
                    0 => drop(black_box(rule.integrate(a, b, |x| x))),
                    1 => {
                        let stop = r.us(0, spec.points() - 1);
                        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let mut c = 0;
                            rule.integrate(a, b, |x| {
                                c += 1;
                                if c > stop {
                                    std::panic::resume_unwind(Box::new(c));
                                }
                                x
                            })
                        }));
                        black_box(res.is_err());
                    }
                    2 => drop(with_gauss!(rule.clone(), q => {
                        let mut it = q.into_iter();
                        let mut other = it.clone();
                        black_box((it.nth(k), other.nth_back(k), it.next(), other.next()));
                        black_box(it.collect::<Vec<_>>().len())
                    })),
                    3 => drop(with_gauss!(rule.clone(), q => black_box(q.into_node_weight_pairs()).len())),
                    4 => drop(black_box(match rule.clone() {
                        Rule::Leg(q) => Some(GaussJacobi::from(q)),
                        Rule::C1(q) => Some(GaussJacobi::from(q)),
                        Rule::C2(q) => Some(GaussJacobi::from(q)),
                        _ => None,
                    })),
                    _ => {
                        let mut c = spec.build();
                        crate::p_value::clone_from(&mut c, &rule);
                        black_box((c == *shared, format!("{c:?}").len()));
                    }
                }
            }
        };
        life();
        let ((), s) = counting::measure(life);
        rep.check(s.live == 0 && s.blocks == 0, "leak", || format!("{spec:?} leaves memory behind: {s:?}"));
    });
}

/// Everything runs on small stacks too, at the largest degrees that are practical.
fn deep_stacks(ctx: &Ctx, rep: &mut Report) {
    par_cases(ctx, rep, "small-stack", 27, |i, r, rep| {
        let k = i % 9;
        let n = match k {
            0 | 4 | 5 => [1, 99, 300_000][i / 9],
            1..=3 => [1, 17, 90][i / 9],
            _ => [1, 1000, 1_000_000][i / 9],
        };
        let spec = match k {
            0 => Spec::Leg(n),
            1 => Spec::Jac(n, gen_exponent(r, 20.0), gen_exponent(r, 20.0)),
            2 => Spec::Lag(n, gen_exponent(r, 20.0)),
            3 => Spec::Her(n),
            4 => Spec::C1(n),
            5 => Spec::C2(n),
            6 => Spec::Mid(n as u32),
            7 => Spec::Simp(n as u32),
            _ => Spec::Trap(n as u32),
        };
        rep.case(true, spec.bits());
        let kb = if cfg!(debug_assertions) { 1024 } else { 256 };
        let h = std::thread::Builder::new().stack_size(kb << 10).spawn(move || {
            let rule = spec.build();
            rule.integrate(0.0, 1.0, |x| x).is_finite()
        });
        match h {
            Ok(h) => {
                let ok = h.join();
                rep.check(matches!(ok, Ok(true)), "small-stack", || format!("{spec:?} on a stack of {kb} kB: {ok:?}"));
            }
            Err(e) => rep.inconclusive(format!("no thread: {e}")),
        }
    });
}

fn bits_equal(x: &Rule, y: &Rule) -> bool {
    x == y
        && match (x.pairs(), y.pairs()) {
            (Some(p), Some(q)) => p.len() == q.len() && p.iter().zip(q).all(|(a, b)| same(a.0, b.0) && same(a.1, b.1)),
            (None, None) => true,
            _ => false,
        }
}

#[allow(clippy::too_many_arguments)]
fn thread_op(op: u64, r: &mut Rng, rule: &Rule, shared: &Arc<Rule>, a: f64, b: f64, wanted: &[f64], pairs: &[(f64, f64)]) -> Option<String> {
    let fi = r.us(0, FS.len() - 1);
    let f = FS[fi];
    let yields = r.us(0, 3) as u64;
    match op {
        0 | 1 => {
            let v = rule.integrate(a, b, |x| {
                if yields == 3 && x.to_bits() & 15 == 0 {
                    std::thread::yield_now();
                }
                f(x)
            });
            (!same(v, wanted[fi])).then(|| format!("integral {v:e} instead of {:e}", wanted[fi]))
        }
        2 => {
            // iterators handed to another thread, which shares them by reference
            with_gauss!(rule, q => {
                let (n, w, i) = (q.nodes(), q.weights(), q.iter());
                let out = std::thread::scope(|s| {
                    let (ri, rn) = (&i, &n);
                    let h = s.spawn(move || ri.clone().rev().copied().collect::<Vec<_>>().len() + rn.len());
                    let h2 = s.spawn(move || w.copied().collect::<Vec<f64>>());
                    let c = ri.as_slice().len();
                    (h.join().unwrap_or(0), h2.join().unwrap_or_default(), c)
                });
                let ws: Vec<f64> = pairs.iter().map(|p| p.1).collect();
                (out.0 != 2 * pairs.len() || out.1 != ws || out.2 != pairs.len()).then(|| "iterators on other threads give something else".to_string())
            })
            .flatten()
        }
        3 => {
            let mut c = rule.clone();
            let other = Arc::clone(shared);
            let eq = c == *other;
            if let Rule::Simp(q) = &mut c {
                q.change_degree(nz32(5));
            }
            drop(c);
            (!eq).then(|| "a clone differs".to_string())
        }
        4 => {
            let c = rule.clone();
            with_gauss!(c, q => {
                let mut it = q.into_iter();
                let k = r.us(0, pairs.len());
                let first: Vec<_> = it.by_ref().take(k).collect();
                let h = std::thread::spawn(move || it.collect::<Vec<_>>());
                let rest = h.join().unwrap_or_default();
                let all: Vec<_> = first.into_iter().chain(rest).collect();
                (all != pairs).then(|| "an owning iterator moved to another thread gives something else".to_string())
            })
            .flatten()
        }
        5 => {
            let at = r.us(0, 20);
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut c = 0;
                rule.integrate(a, b, |x| {
                    c += 1;
                    if c > at {
                        std::panic::resume_unwind(Box::new("stop"));
                    }
                    x
                })
            }));
            black_box(res.is_err());
            let v = rule.integrate(a, b, f);
            (!same(v, wanted[fi])).then(|| format!("after a panic: {v:e} instead of {:e}", wanted[fi]))
        }
        #[cfg(feature = "par")]
        6 | 7 => {
            let count = AtomicU64::new(0);
            let v = rule.par_integrate(a, b, |x| {
                count.fetch_add(1, Ordering::Relaxed);
                if yields == 3 && x.to_bits() & 7 == 0 {
                    std::thread::yield_now();
                }
                f(x)
            });
            let w = wanted[fi];
            let scale = rule.integrate(a, b, |x| f(x).abs()).abs();
            let mass = rule.integrate(a, b, |_| 1.0).abs();
            let steep = 2.0 * a.abs().max(b.abs()) + 1.0;
            let tol = EPS * (scale * (20.0 + wanted.len() as f64 + rule.degree() as f64) + 20.0 * (a.abs() + b.abs()) * mass * steep);
            ((v - w).abs() > tol).then(|| format!("parallel integral {v:e} instead of {w:e}"))
        }
        _ => {
            // a rule of its own, made while others use the shared one
            let g = Spec::Leg(r.us(1, 130)).build();
            let v = g.integrate(0.0, 1.0, |x| x);
            ((v - 0.5).abs() > 1e-13).then(|| format!("integral of x is {v:e}"))
        }
    }
}

/// A small version of the same for Miri, which interprets about a thousand times slower. Prints
/// `MONITOR:` and what went wrong, and exits with status 3, or prints what it observed.
pub fn miri(seed: u64, part: &str) {
    let mut r = Rng::new(seed, part, 0);
    let fail = |s: String| -> ! {
        eprintln!("MONITOR: {s}");
        std::process::exit(3)
    };
    let (mut cases, mut ops) = (0, 0);
    if let Some(kind) = part.strip_prefix("cold-") {
        // The first constructions of the process, by several threads that the interpreter switches
        // between at random.
        let kind: usize = kind.parse().expect("kind");
        let n = if kind == 0 { r.us(101, 112) } else { 0 };
        let both = r.chance(0.4);
        let spec = if kind == 0 { Spec::Leg(n) } else { gen_spec_kind(&mut r, kind, 7, 3) };
        let other = if both { if kind == 0 { Spec::Leg(n + 1) } else { gen_spec_kind(&mut r, kind, 7, 3) } } else { spec };
        let specs = [spec, other, spec];
        let got: Vec<(Rule, f64)> = std::thread::scope(|s| {
            let hs: Vec<_> = specs.iter().map(|x| s.spawn(|| { let q = x.build(); let v = q.integrate(0.0, 1.0, |x| x + 1.0); (q, v) })).collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        for (spec, (x, v)) in specs.iter().zip(&got) {
            let alone = spec.build();
            let w = alone.integrate(0.0, 1.0, |x| x + 1.0);
            if !bits_equal(x, &alone) || !same(*v, w) {
                fail(format!("{spec:?} constructed by one of three threads at the start of the process gives {v:e}, later {w:e}; pairs {:?}, later {:?}", x.pairs(), alone.pairs()));
            }
            ops += 1;
        }
        cases = 1;
    } else if part == "serial" {
        let mut specs = vec![Spec::Leg(100 + r.us(0, 3)), Spec::C1(r.us(20, 40)), Spec::C2(r.us(20, 40))];
        for _ in 0..14 {
            specs.push(gen_spec(&mut r, 9, 5));
        }
        for spec in specs {
            let rule = spec.build();
            let pairs: Vec<(f64, f64)> = rule.pairs().map(|p| p.to_vec()).unwrap_or_default();
            if rule.degree() != spec.degree() || spec.is_gauss() && pairs.len() != spec.degree() {
                fail(format!("{spec:?} has {} pairs and degree {}", pairs.len(), rule.degree()));
            }
            if pairs.iter().any(|p| !p.0.is_finite() || !p.1.is_finite() || p.1 < 0.0) {
                fail(format!("{spec:?} has pairs {pairs:?}"));
            }
            let wanted: Vec<f64> = FS.iter().map(|f| rule.integrate(0.0, 1.0, f)).collect();
            let rule = Arc::new(rule);
            for op in [0, 3, 5] {
                ops += 1;
                if let Some(e) = thread_op(op, &mut r, &rule, &rule, 0.0, 1.0, &wanted, &pairs) {
                    fail(format!("{spec:?}: {e}"));
                }
            }
            // both ends and beyond
            let n = pairs.len();
            with_gauss!(&*rule, q => {
                for k in [0, n / 2, n, usize::MAX] {
                    let mut it = q.iter();
                    let x = it.nth(k).copied();
                    let y = q.clone().into_iter().nth(k);
                    let z = (q.nodes().nth(k).copied(), q.weights().nth_back(k).copied());
                    if x != pairs.get(k).copied() || y != x || z.0 != x.map(|p| p.0) || z.1.is_some() != x.is_some() || it.as_slice().len() != n.saturating_sub(k.saturating_add(1)) {
                        fail(format!("{spec:?} nth({k}): {x:?}, {y:?}, {z:?}"));
                    }
                    let mut own = q.clone().into_iter();
                    own.nth_back(k);
                    let copy = own.clone();
                    if own.as_slice() != copy.as_ref() || own.collect::<Vec<_>>() != copy.collect::<Vec<_>>() {
                        fail(format!("{spec:?}: a clone of into_iter differs"));
                    }
                }
            });
            match Arc::into_inner(rule) {
                Some(Rule::Leg(q)) => drop(GaussJacobi::from(q).into_node_weight_pairs()),
                Some(Rule::C1(q)) => drop(GaussJacobi::from(q).into_iter().next_back()),
                Some(Rule::C2(q)) => drop(GaussJacobi::from(q).into_node_weight_pairs()),
                _ => {}
            }
            cases += 1;
        }
        // Degrees whose square, or number of bytes, does not fit in usize. Nothing that large is
        // ever allocated.
        let h = usize::BITS / 2;
        for n in [1usize << h, (1 << h) + 1, 3 << (h - 1), usize::MAX, usize::MAX / 2 + 1, usize::MAX / 16 + 2] {
            // Not as large as to be tried: the matrix fits into the address space.
            let fits = n.checked_mul(n).and_then(|m| m.checked_mul(8)).is_some_and(|m| m <= isize::MAX as usize);
            for kind in 0..6 {
                if fits && (1..=3).contains(&kind) || kind != 1 && kind != 2 && kind != 3 && n <= isize::MAX as usize / 16 {
                    continue;
                }
                let spec = match kind {
                    0 => Spec::Leg(n),
                    1 => Spec::Jac(n, 0.3, 0.1),
                    2 => Spec::Lag(n, 0.3),
                    3 => Spec::Her(n),
                    4 => Spec::C1(n),
                    _ => Spec::C2(n),
                };
                if let Ok(rule) = std::panic::catch_unwind(|| spec.build()) {
                    fail(format!("{spec:?} returned a rule with {:?} pairs", rule.pairs().map(|p| p.len())));
                }
                cases += 1;
            }
        }
    } else {
        #[cfg(feature = "par")]
        let pool = rayon::ThreadPoolBuilder::new().num_threads(2).build().expect("pool");
        for round in 0..3 {
            let spec = gen_spec(&mut r, 5, 3);
            let nthreads = 3;
            let built: Mutex<Vec<Rule>> = Mutex::new(vec![]);
            std::thread::scope(|s| {
                for _ in 0..nthreads {
                    s.spawn(|| {
                        let rule = spec.build();
                        built.lock().unwrap().push(rule);
                    });
                }
            });
            let built = built.into_inner().unwrap();
            let alone = spec.build();
            if built.iter().any(|x| !bits_equal(x, &alone)) {
                fail(format!("{spec:?} built by several threads at once differs"));
            }
            let wanted: Vec<f64> = FS.iter().map(|f| alone.integrate(0.0, 1.0, f)).collect();
            let pairs: Vec<(f64, f64)> = alone.pairs().map(|p| p.to_vec()).unwrap_or_default();
            let shared = Arc::new(alone);
            let wrong: Mutex<Vec<String>> = Mutex::new(vec![]);
            std::thread::scope(|s| {
                for t in 0..nthreads {
                    let mut r = Rng::new(seed, "thread", t + 10 * round);
                    let (rule, shared, wanted, pairs, wrong) = (Arc::clone(&shared), &shared, &wanted, &pairs, &wrong);
                    s.spawn(move || {
                        for _ in 0..3 {
                            let op = r.below(6);
                            if let Some(e) = thread_op(op, &mut r, &rule, shared, 0.0, 1.0, wanted, pairs) {
                                wrong.lock().unwrap().push(e);
                            }
                        }
                    });
                }
            });
            ops += nthreads * 3;
            cases += 1;
            if let Some(e) = wrong.into_inner().unwrap().first() {
                fail(format!("{spec:?} shared by {nthreads} threads: {e}"));
            }
            #[cfg(feature = "par")]
            if round == 0 {
                let v = pool.install(|| {
                    (Spec::Leg(4).par_build(), Spec::C1(3).par_build(), Spec::C2(3).par_build(), shared.par_integrate(0.0, 1.0, |x| x))
                });
                for (x, s) in [(v.0, Spec::Leg(4)), (v.1, Spec::C1(3)), (v.2, Spec::C2(3))] {
                    let (x, y) = (x.unwrap(), s.build());
                    let close = x.pairs().unwrap().iter().zip(y.pairs().unwrap()).all(|(a, b)| (a.0 - b.0).abs() < 1e-14 && (a.1 - b.1).abs() < 1e-13);
                    if x.degree() != s.degree() || !close {
                        fail(format!("par_new of {s:?} gave {x:?}"));
                    }
                }
                if !((v.3 - wanted[0]).abs() <= 1e-12 * (1.0 + wanted[0].abs())) {
                    fail(format!("{spec:?}: parallel integral {} instead of {}", v.3, wanted[0]));
                }
                ops += 4;
            }
        }
    }
    println!("OBSERVED seed {seed} cases {cases} operations {ops}");
}

// ---------------------------------------------------------------- C17

fn dump_specs(r: &mut Rng) -> Spec {
    if r.chance(0.06) {
        // Counters and indices that only overflow at large degrees.
        return if r.chance(0.85) {
            let kind = r.pick(&[0, 4, 5, 6, 7, 8]);
            let most = if r.chance(0.3) { 300_000 } else { 80_000 };
            gen_spec_kind(r, kind, most, 1)
        } else {
            let kind = r.us(1, 3);
            gen_spec_kind(r, kind, 1, 160)
        };
    }
    match r.below(8) {
        0 => Spec::Leg(gen_degree(r, 3000)),
        1 => Spec::Lag(gen_degree(r, 40), gen_exponent(r, 60.0)),
        _ => {
            let m = if r.chance(0.2) { 400 } else { 64 };
            gen_spec(r, m, m.min(36))
        }
    }
}

/// Writes one line per observation: `kind|description|value|tolerance`, with the bits of floats.
/// Lines have the same order in every build.
pub fn dump(ctx: &Ctx) -> String {
    let out: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let total = ctx.n(6000, 60_000);
    let mut rep = Report::default();
    par_cases(ctx, &mut rep, "dump", total, |i, r, _| {
        let s = dump_case(r);
        out.lock().unwrap().push((i, s));
    });
    let mut v = out.into_inner().unwrap();
    v.sort();
    let mut s: String = v.into_iter().map(|(i, s)| format!("#{i}\n{s}")).collect();
    for v in &rep.violations {
        let _ = writeln!(s, "!|{}|{}", v.key, v.msg.replace('\n', " "));
    }
    for v in &rep.inconclusive {
        let _ = writeln!(s, "?|{}", v.replace('\n', " "));
    }
    s
}

fn dump_case(r: &mut Rng) -> String {
    let mut s = String::new();
    let spec = dump_specs(r);
    let rule = spec.build();
    let _ = writeln!(s, "deg|{spec:?}|{}", rule.degree());
    let n = spec.degree();
    let table = rule.table();
    // How far the two maths back ends may move nodes and weights.
    let tols: Vec<(f64, f64)> = match (spec.family(), spec) {
        (Some(_), Spec::Leg(_) | Spec::C1(_) | Spec::C2(_)) => table.iter().map(|p| (6.0 * EPS, 40.0 * EPS * p.1.abs() + 4.0 * EPS * 3.2 / n as f64)).collect(),
        (Some(f), _) => {
            let t = gw_tols(f, n, &table);
            t.iter().map(|t| (2.0 * t.0, 2.0 * t.1)).collect()
        }
        _ => table.iter().map(|_| (0.0, 0.0)).collect(),
    };
    if let Some(p) = rule.pairs() {
        // All of a large rule in one line, which differs between maths back ends, and some of it.
        let step = p.len() / 3000 + 1;
        if step > 1 {
            let h = p.iter().fold(0u64, |h, q| mix(h ^ q.0.to_bits()).wrapping_add(mix(q.1.to_bits())));
            let _ = writeln!(s, "h|{spec:?}|{h:016x}");
        }
        for (i, (p, t)) in p.iter().zip(&tols).enumerate().step_by(step) {
            let _ = writeln!(s, "x{i}|{spec:?}|{:016x}|{:e}", p.0.to_bits(), t.0);
            let _ = writeln!(s, "w{i}|{spec:?}|{:016x}|{:e}", p.1.to_bits(), t.1);
        }
    }
    // Integrals over ordinary and hostile intervals. Only arithmetic in the integrand, so that
    // it is the same function in every build.
    for j in 0..6 {
        let (a, b) = match j {
            0 => (-1.0, 1.0),
            1 | 2 => gen_mild_interval(r),
            3 => gen_interval(r),
            _ => {
                let e = [0.0, -0.0, 1.0, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, 1e308];
                (r.pick(&e), r.pick(&e))
            }
        };
        let c = r.range(-1.0, 1.0);
        let mut f_abs = vec![];
        let (mut calls, mut fx) = (0u64, 0u64);
        let v = rule.integrate(a, b, |x| {
            calls += 1;
            let y = c + x / (1.0 + x * x);
            f_abs.push(y.abs());
            if x.is_nan() {
                fx += 1;
            }
            y
        });
        // |f| <= 1.5, |f'| <= 1 everywhere.
        let h = if spec.is_interval() { (b - a).abs() / 2.0 } else { 1.0 };
        let big = if spec.is_interval() { a.abs().max(b.abs()) } else { table.last().map_or(0.0, |p| p.0.abs()) };
        let mut tol = 0.0;
        for (p, t) in table.iter().zip(&tols) {
            tol += t.1 * 1.5 + p.1.abs() * (t.0 * h).min(1.0) + 1.5 * p.1.abs() * EPS * (8.0 + n as f64) + p.1.abs() * (8.0 * EPS * big).min(1.0);
        }
        tol *= h;
        if j >= 3 && !(tol.is_finite() && h.is_finite() && big < 1e300 && h > 1e-290) {
            // Overflow and underflow: only what kind of number comes out, unless the builds have
            // the same back end.
            tol = f64::INFINITY;
        }
        let _ = writeln!(s, "i{j}|{spec:?} on [{a:e}, {b:e}] with {c:e}|{:016x}|{tol:e}", v.to_bits());
        let _ = writeln!(s, "n{j}|{spec:?} on [{a:e}, {b:e}]|{calls} calls, {fx} of NaN");
    }
    // Values that do not depend on the back end at all, and pow, which does.
    let v = crate::p_value::gen_any_f64(r);
    let w = crate::p_value::gen_any_f64(r);
    let x = FiniteAboveNegOneF64::new(v);
    let _ = writeln!(s, "new|{v:e}|{x:?}");
    if let Some(x) = x {
        let _ = writeln!(s, "ops|{v:e} {w:e}|{:?} {:?} {:?} {:?} {x} {x:e} {x:E} {:?}", x.checked_add(w), x.checked_sub(w), x.checked_mul(w), x.checked_div(w), x.to_string().parse::<FiniteAboveNegOneF64>());
        // Whether 1 to the power of a signalling NaN is 1 is up to the maths library.
        let w = if w.is_nan() { f64::NAN } else { w };
        let p = x.checked_pow(w);
        match p {
            Some(p) => {
                let _ = writeln!(s, "pow|{v:e} {w:e}|{:016x}|{:e}", p.get().to_bits(), 8.0 * EPS * p.get().abs());
            }
            None => {
                let _ = writeln!(s, "pow|{v:e} {w:e}|None");
            }
        }
    }
    // Iterators and formatting of the composite rules at any degree.
    let d = match r.below(3) {
        0 => u32::MAX - r.below(4) as u32,
        1 => (1u64 << r.us(0, 31)) as u32,
        _ => r.us(1, 100) as u32,
    };
    let k = r.us(0, d as usize);
    let mut m = Midpoint::new(nz32(d));
    let mut p = Simpson::new(nz32(d));
    let mut t = Trapezoid::new(nz32(d));
    let _ = writeln!(s, "it|{d} {k}|{:?} {:?} {:?} {:?} {:?} {:?} {}", m.iter().nth(k), p.iter().nth_back(k), t.iter().nth(k), t.iter().len(), m, p, t == Trapezoid::from(nz32(d)));
    let any = |r: &mut Rng| match r.below(4) {
        0 => nz32(u32::MAX - r.below(3) as u32),
        1 => nz32(1 << r.us(0, 31)),
        _ => nz32(r.us(1, 50) as u32),
    };
    let e = any(r);
    m.change_degree(e);
    p.change_degree(e);
    t.change_degree(e);
    let _ = writeln!(s, "chg|{d} {e}|{m:?} {p:?} {t:?} {:?} {:?} {:?}", m.iter().next_back(), p.degree(), t.iter().rev().next());
    let (f, g) = (any(r), any(r));
    p.change_degree(f);
    t.change_degree(g);
    m.change_degree(f);
    let copies = (m.clone() == m, p.clone() == p, Midpoint::from(g) == m, Simpson::from(g) == p, Trapezoid::from(g) == t);
    let _ = writeln!(s, "chg2|{f} {g}|{m:?} {p:?} {t:?} {copies:?} {:?} {:?}", p.iter().size_hint(), m.iter().len());
    s
}
