//! A workload that needs only `core`. It is run by the freestanding program in this crate and by
//! the hosted harness, which logs the same observations.
use core::fmt::{self, Write};
use core::num::{NonZeroU32, NonZeroUsize};
use gauss_quad::{
    FiniteAboveNegOneF64, GaussChebyshevFirstKind, GaussChebyshevSecondKind, GaussHermite, GaussJacobi, GaussLaguerre, GaussLegendre, Midpoint,
    Simpson, Trapezoid,
};

pub struct Gen(u64);

impl Gen {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    fn degree(&mut self, most: u64) -> usize {
        match self.below(4) {
            0 => 1 + self.below(8.min(most)) as usize,
            1 => 1 + self.below(most) as usize,
            _ => 1 + self.below(most.min(40)) as usize,
        }
    }
    fn exponent(&mut self) -> f64 {
        match self.below(6) {
            0 => 0.0,
            1 => -0.5,
            2 => 0.5,
            3 => -1.0 + self.unit() * 0.25 + 1e-9,
            4 => self.below(6) as f64,
            _ => self.unit() * 12.0 - 0.9,
        }
    }
}

/// Everything observed in a case, folded into one word, and formatted on request.
pub struct Log<'a> {
    hash: u64,
    pub words: u64,
    verbose: bool,
    out: &'a mut dyn Write,
}

impl Log<'_> {
    fn word(&mut self, w: u64) {
        self.hash = (self.hash ^ w).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(29);
        self.words += 1;
        if self.verbose {
            let _ = write!(self.out, " {w:x}");
        }
    }
    fn num(&mut self, x: f64) {
        // Which NaN comes out is not specified.
        self.word(if x.is_nan() { 0x7ff8_0000_0000_0000 } else { x.to_bits() });
    }
}

impl Write for Log<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            self.hash = (self.hash ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(29);
        }
        self.words += 1;
        Ok(())
    }
}

fn integrand(which: u64, x: f64) -> f64 {
    match which {
        0 => x * x * x - 2.0 * x + 0.5,
        1 => 1.0 / (1.0 + x * x),
        2 => x.abs(),
        3 => 1.0,
        4 => 1.0 / x,
        _ => x * 1e300,
    }
}

fn interval(g: &mut Gen) -> (f64, f64) {
    match g.below(6) {
        0 => (-1.0, 1.0),
        1 => (0.0, 1.0),
        2 => (2.5, -4.0),
        3 => (f64::NAN, 1.0),
        4 => (1e-300, 3e-300),
        _ => (g.unit() * 20.0 - 10.0, g.unit() * 20.0 - 10.0),
    }
}

macro_rules! weighted {
    ($log:expr, $g:expr, $rule:expr, |$r:ident, $a:ident, $b:ident, $f:ident| $call:expr) => {{
        let rule = $rule;
        $log.word(rule.degree() as u64);
        for (x, w) in &rule {
            $log.num(*x);
            $log.num(*w);
        }
        for x in rule.nodes().rev() {
            $log.num(*x);
        }
        $log.word(rule.weights().len() as u64);
        for _ in 0..3 {
            let which = $g.below(6);
            #[allow(unused_variables)]
            let ($a, $b) = interval($g);
            let mut calls = 0u64;
            let $r = &rule;
            let $f = |x: f64| {
                calls += 1;
                integrand(which, x)
            };
            $log.num($call);
            $log.word(calls);
        }
        if rule.degree() < 12 {
            let _ = write!($log, "{rule:?}");
        }
        $log.word(u64::from(rule == rule.clone()));
        let middle = rule.clone().into_iter().nth(rule.degree() / 2);
        $log.num(middle.map_or(0.0, |p| p.0));
        let pairs = rule.into_node_weight_pairs();
        $log.num(pairs[pairs.len() - 1].1);
    }};
}

macro_rules! interval_rule {
    ($log:expr, $g:expr, $rule:expr) => {
        weighted!($log, $g, $rule, |r, a, b, f| r.integrate(a, b, f))
    };
}

macro_rules! line_rule {
    ($log:expr, $g:expr, $rule:expr) => {
        weighted!($log, $g, $rule, |r, a, b, f| r.integrate(f))
    };
}

macro_rules! composite {
    ($log:expr, $g:expr, $T:ident) => {{
        let mut rule = $T::new(NonZeroU32::new($g.degree(600) as u32).unwrap());
        for _ in 0..3 {
            $log.word(u64::from(rule.degree().get()));
            let f = $g.below(6);
            let (a, b) = interval($g);
            let mut calls = 0u64;
            let r = rule.integrate(a, b, |x| {
                calls += 1;
                integrand(f, x)
            });
            $log.num(r);
            $log.word(calls);
            for x in rule.iter().take(50) {
                $log.num(x as f64);
            }
            rule.change_degree(NonZeroU32::new($g.degree(600) as u32).unwrap());
        }
        let _ = write!($log, "{rule:?}");
        $log.word(u64::from(rule == $T::from(rule.degree())));
    }};
}

fn value(g: &mut Gen, log: &mut Log) {
    let x = match g.below(5) {
        0 => f64::from_bits(g.next()),
        1 => -1.0 + f64::from_bits(g.below(1 << 53)),
        2 => g.unit() * 4.0 - 2.0,
        3 => -1.0 + g.unit() * 1e-15,
        _ => g.unit() * 1e5,
    };
    let v = FiniteAboveNegOneF64::new(x);
    log.word(u64::from(v.is_some()));
    let Some(v) = v else {
        let e = FiniteAboveNegOneF64::try_from(x).unwrap_err();
        let _ = write!(log, "{e} {e:?}");
        return;
    };
    let y = g.unit() * 6.0 - 3.0;
    for r in [v.checked_add(y), v.checked_sub(y), v.checked_mul(y), v.checked_div(y), v.checked_pow(y)] {
        log.num(r.map_or(-7.0, |r| r.get()));
    }
    let _ = write!(log, "{v} {v:?} {v:.3} {v:e}");
    for s in ["-0.99", "1e309", "-1", "nan", "0.5", "", "x", "+7e2"] {
        match s.parse::<FiniteAboveNegOneF64>() {
            Ok(v) => log.num(v.get()),
            Err(e) => {
                let _ = write!(log, "{e} {e:?} {}", core::error::Error::source(&e).is_some());
            }
        }
    }
    log.word(f64::from(v).to_bits());
}

/// Degrees at which products of degrees, and counts of items, do not fit into 32 bits.
fn large(g: &mut Gen, log: &mut Log) {
    let n = match g.below(3) {
        0 => 65_530 + g.below(12),
        1 => 40_000 + g.below(60_000),
        _ => 1_000 + g.below(40_000),
    } as usize;
    macro_rules! pairs {
        ($rule:expr) => {{
            let rule = $rule;
            log.word(rule.degree() as u64);
            for (x, w) in &rule {
                log.num(*x);
                log.num(*w);
            }
            log.num(rule.integrate(0.0, 3.0, |x| integrand(1, x)));
            let back = rule.into_iter().nth_back(n / 3);
            log.num(back.map_or(0.0, |p| p.0));
        }};
    }
    macro_rules! ends {
        ($T:ident) => {{
            let most = match g.below(3) {
                0 => u32::MAX,
                1 => (1u32 << 31) + g.below(9) as u32,
                _ => g.next() as u32 | 1 << 30,
            };
            let mut rule = $T::new(NonZeroU32::new(most).unwrap());
            let mut it = rule.iter();
            log.word(it.len() as u64);
            for k in [0, n, 1 << 30, (1 << 31) - 7, 5] {
                log.num(it.nth(k).map_or(-1.0, |x| x as f64));
                log.num(it.nth_back(k / 2).map_or(-1.0, |x| x as f64));
                log.word(it.len() as u64);
            }
            rule.change_degree(NonZeroU32::new(n as u32).unwrap());
            let mut calls = 0u64;
            log.num(rule.integrate(0.0, 3.0, |x| {
                calls += 1;
                integrand(1, x)
            }));
            log.word(calls);
        }};
    }
    match g.below(6) {
        0 => pairs!(GaussLegendre::new(deg(n))),
        1 => pairs!(GaussChebyshevFirstKind::new(deg(n))),
        2 => pairs!(GaussChebyshevSecondKind::new(deg(n))),
        3 => ends!(Midpoint),
        4 => ends!(Simpson),
        _ => ends!(Trapezoid),
    }
}

fn deg(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n).unwrap()
}

/// Runs one case and writes its line.
pub fn case(seed: u64, i: u64, verbose: bool, out: &mut dyn Write) -> u64 {
    let mut g = Gen(seed.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ i.wrapping_mul(0x9e6c_63d0_876a_9f4b));
    let g = &mut g;
    let mut log = Log { hash: 0xcbf2_9ce4_8422_2325, words: 0, verbose, out };
    let ex = |g: &mut Gen| FiniteAboveNegOneF64::new(g.exponent()).unwrap();
    let l = &mut log;
    let kind = if i % 600 == 7 { 11 } else { i % 11 };
    match kind {
        0 => interval_rule!(l, g, GaussLegendre::new(deg(g.degree(400)))),
        1 => {
            let (n, a, b) = (g.degree(40), ex(g), ex(g));
            interval_rule!(l, g, GaussJacobi::new(deg(n), a, b));
        }
        2 => {
            let (n, a) = (g.degree(40), ex(g));
            line_rule!(l, g, GaussLaguerre::new(deg(n), a));
        }
        3 => line_rule!(l, g, GaussHermite::new(deg(g.degree(60)))),
        4 => interval_rule!(l, g, GaussChebyshevFirstKind::new(deg(g.degree(400)))),
        5 => interval_rule!(l, g, GaussChebyshevSecondKind::new(deg(g.degree(400)))),
        6 => composite!(l, g, Midpoint),
        7 => composite!(l, g, Simpson),
        8 => composite!(l, g, Trapezoid),
        9 => value(g, l),
        11 => large(g, l),
        _ => {
            let n = deg(g.degree(60));
            let j = match g.below(3) {
                0 => GaussJacobi::from(GaussLegendre::new(n)),
                1 => GaussJacobi::from(GaussChebyshevFirstKind::new(n)),
                _ => GaussJacobi::from(GaussChebyshevSecondKind::new(n)),
            };
            l.num(j.alpha().get());
            l.num(j.beta().get());
            interval_rule!(l, g, j);
            // Nested integration.
            let (o, h) = (GaussLegendre::new(deg(g.degree(12))), GaussHermite::new(deg(g.degree(12))));
            l.num(o.integrate(-1.0, 2.0, |x| h.integrate(|y| integrand(1, x * y))));
        }
    }
    let (hash, words) = (log.hash, log.words);
    let _ = writeln!(log.out, "{}case {i} kind {kind} words {words} hash {hash:016x}", if verbose { "\n" } else { "" });
    words
}
