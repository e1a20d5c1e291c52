//! Shared machinery: configuration, deterministic random numbers, reports, case runner.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub const EPS: f64 = f64::EPSILON;

#[derive(Clone, Debug)]
pub struct Ctx {

    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    /// Multiplies the number of cases.
    pub scale: f64,
    /// Soft time limit of the whole run, after which remaining cases are skipped.
    pub deadline: Instant,
    /// Only this (label, index).
    pub only: Option<(String, usize)>,
    /// Only workloads whose label starts with this.
    pub part: Option<String>,
    /// CPU seconds after which a single case counts as not terminating. Cases take well below a
    /// hundredth of it; being CPU time of one thread, it does not depend on the load of the machine.
    pub cpu_budget: f64,
    /// Where the report goes.
    pub out: Option<String>,
}

impl Ctx {
    /// Number of cases, scaled by tier.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let n = if self.thorough { thorough } else { quick };
        ((n as f64 * self.scale).ceil() as usize).max(1)
    }
    /// A size (of degrees, not a number of cases) by tier.
    pub fn size(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn wants(&self, label: &str) -> bool {
        if let Some((l, _)) = &self.only {
            return l == label;
        }
        match &self.part {
            Some(p) => label.starts_with(p.as_str()),
            None => true,
        }
    }
}

// ---------------------------------------------------------------- random numbers

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64, label: &str, idx: usize) -> Self {
        Rng(mix(seed ^ 0x9e3779b97f4a7c15) ^ hash_str(label) ^ mix(idx as u64 + 0x1234567))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// Uniform in [0, n).
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// Uniform in [0, 1).
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn log_range(&mut self, lo: f64, hi: f64) -> f64 {
        (lo.ln() + (hi.ln() - lo.ln()) * self.unit()).exp()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn sign(&mut self) -> f64 {
        if self.u64() & 1 == 0 { 1.0 } else { -1.0 }
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
}

// ---------------------------------------------------------------- reports

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub msg: String,
    pub label: String,
    pub idx: usize,
}

#[derive(Default, Debug)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, (u64, String)>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, (f64, String)>,
    pub inconclusive: Vec<String>,
    pub rules: Vec<String>,
    cur: (String, usize),
    sampled: u32,
}

impl Report {
    pub fn case(&mut self, nontrivial: bool, desc: impl Hash) {
        self.evaluations += 1;
        if nontrivial && self.distinct.len() < 4_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            self.cur.0.hash(&mut h);
            desc.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
    /// A few cases are written out.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sampled < 2 {
            self.sampled += 1;
            let s = format!("{}#{}: {}", self.cur.0, self.cur.1, f());
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, key: &str, msg: impl Into<String>) {
        self.add("violations", 1);
        // Keep a few per key.
        if self.violations.iter().filter(|v| v.key == key).count() < 3 {
            self.violations.push(Violation {
                key: key.to_string(),
                msg: msg.into(),
                label: self.cur.0.clone(),
                idx: self.cur.1,
            });
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) -> bool {
        self.add("oracle_checks", 1);
        if !ok {
            self.violation(key, msg());
        }
        ok
    }
    /// Violated unless err <= tol (so also if either is NaN); the largest err / tol is recorded.
    pub fn close(&mut self, err: f64, tol: f64, key: &str, msg: impl FnOnce() -> String) -> bool {
        self.add("oracle_checks", 1);
        let ratio = if err == 0.0 { 0.0 } else { err / tol };
        if ratio.is_finite() {
            let e = self.maxima.get(key).map_or(-1.0, |m| m.0);
            if ratio > e {
                let d = format!("{}#{}", self.cur.0, self.cur.1);
                self.maxima.insert(key.to_string(), (ratio, d));
            }
        }
        let ok = err <= tol;
        if !ok {
            self.violation(key, format!("{} [err {err:e} > tol {tol:e}]", msg()));
        }
        ok
    }
    pub fn known(&mut self, key: &str, ex: impl FnOnce() -> String) {
        let e = self.known.entry(key.to_string()).or_insert_with(|| (0, ex()));
        e.0 += 1;
    }
    pub fn add(&mut self, key: &str, n: u64) {
        *self.counters.entry(key.to_string()).or_insert(0) += n;
    }
    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.to_string());
    }
    pub fn inconclusive(&mut self, s: impl Into<String>) {
        self.inconclusive.push(s.into());
    }
    pub fn set_cur(&mut self, label: &str, idx: usize) {
        self.cur = (label.to_string(), idx);
    }
    pub fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
        for v in o.violations {
            if self.violations.iter().filter(|w| w.key == v.key).count() < 5 {
                self.violations.push(v);
            }
        }
        for (k, (n, s)) in o.known {
            self.known.entry(k).or_insert((0, s)).0 += n;
        }
        for (k, n) in o.counters {
            *self.counters.entry(k).or_insert(0) += n;
        }
        for (k, m) in o.maxima {
            if self.maxima.get(&k).is_none_or(|e| e.0 < m.0) {
                self.maxima.insert(k, m);
            }
        }
        self.inconclusive.extend(o.inconclusive);
        self.rules.extend(o.rules);
    }
    pub fn to_json(&self) -> String {
        let mut s = String::from("{");
        let _ = write!(
            s,
            "\"evaluations\":{},\"distinct_nontrivial\":{},",
            self.evaluations,
            self.distinct.len()
        );
        let strs = |v: &[String]| v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",");
        let _ = write!(s, "\"samples\":[{}],", strs(&self.samples));
        let _ = write!(s, "\"rules\":[{}],", strs(&self.rules));
        let _ = write!(s, "\"inconclusive\":[{}],", strs(&self.inconclusive));
        let v: Vec<String> = self
            .violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"key\":{},\"msg\":{},\"label\":{},\"idx\":{}}}",
                    jstr(&v.key),
                    jstr(&v.msg),
                    jstr(&v.label),
                    v.idx
                )
            })
            .collect();
        let _ = write!(s, "\"violations\":[{}],", v.join(","));
        let k: Vec<String> = self
            .known
            .iter()
            .map(|(k, (n, e))| format!("{}:{{\"count\":{n},\"example\":{}}}", jstr(k), jstr(e)))
            .collect();
        let _ = write!(s, "\"known\":{{{}}},", k.join(","));
        let c: Vec<String> =
            self.counters.iter().map(|(k, n)| format!("{}:{n}", jstr(k))).collect();
        let _ = write!(s, "\"counters\":{{{}}},", c.join(","));
        let m: Vec<String> = self
            .maxima
            .iter()
            .map(|(k, (r, d))| format!("{}:[{r:e},{}]", jstr(k), jstr(d)))
            .collect();
        let _ = write!(s, "\"max_error_over_tolerance\":{{{}}}}}", m.join(","));
        s
    }
}

pub fn jstr(x: &str) -> String {
    let mut s = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(s, "\\u{:04x}", c as u32);
            }
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

// ---------------------------------------------------------------- case runner

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

/// Records where the last panic of this thread happened instead of printing it.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "(other payload)".to_string());
        let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        LAST_PANIC.with(|p| *p.borrow_mut() = (msg, loc));
    }));
}
pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs `f` for every index below `n` on `ctx.threads` threads, each index with its own
/// deterministic random numbers. A panic that comes from the harness's own source is an
/// error of the harness (inconclusive); any other one is a violation, as no case here
/// is meant to panic.
pub fn par_cases<F>(ctx: &Ctx, rep: &mut Report, label: &str, n: usize, f: F)
where
    F: Fn(usize, &mut Rng, &mut Report) + Sync,
{
    if !ctx.wants(label) {
        return;
    }
    let one = |i: usize, local: &mut Report| {
        local.set_cur(label, i);
        let mut rng = Rng::new(ctx.seed, label, i);
        let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut rng, local)));
        if r.is_err() {
            let (msg, loc) = last_panic();
            if loc.starts_with("src/") {
                local.inconclusive(format!("harness panic in {label}#{i} at {loc}: {msg}"));
            } else {
                local.violation("panic", format!("unexpected panic at {loc}: {msg}"));
            }
        }
    };
    if let Some((_, i)) = ctx.only {
        let mut local = Report::default();
        one(i, &mut local);
        rep.merge(local);
        return;
    }
    let next = AtomicUsize::new(0);
    let skipped = AtomicUsize::new(0);
    let running = AtomicUsize::new(0);
    let threads = ctx.threads.min(n).max(1);
    // What every worker does: (thread id, index + 1, CPU time at its start in ticks).
    let slots: Vec<Mutex<(u64, usize, f64)>> = (0..threads).map(|_| Mutex::new((0, 0, 0.0))).collect();
    running.store(threads, Ordering::SeqCst);
    let locals: Vec<Report> = std::thread::scope(|s| {
        let hs: Vec<_> = slots
            .iter()
            .map(|slot| {
                let (next, skipped, running, one) = (&next, &skipped, &running, &one);
                s.spawn(move || {
                    let tid = thread_id();
                    let mut local = Report::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        if Instant::now() > ctx.deadline {
                            skipped.fetch_add(1, Ordering::Relaxed);
                            continue;
                        }
                        *slot.lock().unwrap() = (tid, i + 1, -1.0);
                        one(i, &mut local);
                        slot.lock().unwrap().1 = 0;
                    }
                    running.fetch_sub(1, Ordering::SeqCst);
                    local
                })
            })
            .collect();
        // The watchdog.
        let (running, slots, next) = (&running, &slots, &next);
        s.spawn(move || {
            let mut last = vec![0usize; threads];
            let mut tick = 0u32;
            let mut asleep = (0u32, 0usize);
            let me = thread_id();
            while running.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(5));
                tick += 1;
                if tick % 100 != 0 {
                    continue;
                }
                // Every thread of the process asleep for a long time, with cases under way: a deadlock.
                let done = next.load(Ordering::Relaxed);
                if done != asleep.1 || !all_asleep(me) {
                    asleep = (0, done);
                } else {
                    asleep.0 += 1;
                }
                if asleep.0 >= 40 {
                    let stuck = slots.iter().map(|s| s.lock().unwrap().1).find(|i| *i > 0).unwrap_or(1) - 1;
                    let mut rep = Report::default();
                    rep.set_cur(label, stuck);
                    rep.case(true, stuck);
                    rep.violation("deadlock", format!("{label}#{stuck} waits forever: all threads have been asleep for 20 s"));
                    if let Some(f) = &ctx.out {
                        let _ = std::fs::write(f, rep.to_json());
                    }
                    std::process::exit(0);
                }
                for (k, slot) in slots.iter().enumerate() {
                    let mut g = slot.lock().unwrap();
                    if g.1 == 0 {
                        continue;
                    }
                    let now = thread_cpu(g.0);
                    if g.2 < 0.0 || last[k] != g.1 {
                        g.2 = now;
                        last[k] = g.1;
                    } else if now - g.2 > ctx.cpu_budget {
                        let mut rep = Report::default();
                        rep.set_cur(label, g.1 - 1);
                        rep.case(true, g.1);
                        rep.violation("no-termination", format!("{label}#{} still runs after {:.0} s of CPU time", g.1 - 1, ctx.cpu_budget));
                        if let Some(f) = &ctx.out {
                            let _ = std::fs::write(f, rep.to_json());
                        }
                        std::process::exit(0);
                    }
                }
            }
        });
        hs.into_iter().map(|h| h.join().expect("worker")).collect()
    });
    for l in locals {
        rep.merge(l);
    }
    rep.add(&format!("cases_{label}"), (n - skipped.load(Ordering::Relaxed)) as u64);
    let sk = skipped.load(Ordering::Relaxed);
    if sk > 0 {
        rep.add("cases_skipped_for_time", sk as u64);
    }
}

/// Is every thread of this process except `me` sleeping (not runnable, not waiting for a disk)?
fn all_asleep(me: u64) -> bool {
    let Ok(tasks) = std::fs::read_dir("/proc/self/task") else { return false };
    tasks.flatten().all(|t| {
        if t.file_name().to_str() == Some(&me.to_string()) {
            return true;
        }
        let stat = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        // The state follows the name in brackets.
        stat.rsplit(')').next().and_then(|s| s.trim_start().chars().next()) == Some('S')
    })
}

pub fn far_deadline(secs: u64) -> Instant {
    Instant::now() + Duration::from_secs(secs)
}

/// The kernel's number of this thread.
fn thread_id() -> u64 {
    let l = std::fs::read_link("/proc/thread-self").unwrap_or_default();
    l.file_name().and_then(|x| x.to_str()).and_then(|x| x.parse().ok()).unwrap_or(0)
}
/// CPU time of a thread of this process, in seconds.
fn thread_cpu(tid: u64) -> f64 {
    stat_cpu(&format!("/proc/self/task/{tid}/stat"))
}
fn stat_cpu(path: &str) -> f64 {
    let s = std::fs::read_to_string(path).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ut: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    let st: f64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    (ut + st) / 100.0
}

/// CPU time used by this process, in seconds.
pub fn cpu_time() -> f64 {
    stat_cpu("/proc/self/stat")
}

// ---------------------------------------------------------------- small numeric helpers

/// Sum with compensation (Neumaier).
pub fn ksum(it: impl IntoIterator<Item = f64>) -> f64 {
    let (mut s, mut c) = (0.0f64, 0.0f64);
    for x in it {
        let t = s + x;
        if s.abs() >= x.abs() {
            c += (s - t) + x;
        } else {
            c += (x - t) + s;
        }
        s = t;
    }
    s + c
}

/// A pseudo-random value in [-1, 1) that depends only on the bits of x.
pub fn hval(x: f64, salt: u64) -> f64 {
    (mix(x.to_bits() ^ mix(salt)) >> 11) as f64 / (1u64 << 52) as f64 - 1.0
}

pub fn ulps(a: f64, b: f64) -> u64 {
    if a == b {
        return 0;
    }
    if a.is_nan() || b.is_nan() {
        return if a.is_nan() && b.is_nan() { 0 } else { u64::MAX };
    }
    let key = |x: f64| {
        let b = x.to_bits() as i64;
        if b < 0 { i64::MIN - b } else { b }
    };
    key(a).abs_diff(key(b))
}

pub fn hf(x: f64) -> u64 {
    x.to_bits()
}
