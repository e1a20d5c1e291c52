//! C12 (the exponent type), C13 (iterators), C20 (value semantics).

use crate::rules::*;
use crate::util::*;
use gauss_quad::*;
use std::collections::VecDeque;
use std::error::Error;
use std::fmt::Debug;
use std::iter::FusedIterator;

// ---------------------------------------------------------------- C12

const BITS: [u64; 26] = [
    0,
    0x8000_0000_0000_0000,
    1,
    0x8000_0000_0000_0001,
    0x000f_ffff_ffff_ffff,
    0x0010_0000_0000_0000,
    0x8010_0000_0000_0000,
    0x3ff0_0000_0000_0000, // 1
    0xbff0_0000_0000_0000, // -1
    0xbfef_ffff_ffff_ffff, // above -1
    0xbff0_0000_0000_0001, // below -1
    0xbfef_ffff_ffff_fffe,
    0x7fef_ffff_ffff_ffff, // max
    0x7fef_ffff_ffff_fffe,
    0xffef_ffff_ffff_ffff, // min
    0x7ff0_0000_0000_0000, // inf
    0xfff0_0000_0000_0000,
    0x7ff8_0000_0000_0000, // NaN
    0xfff8_0000_0000_0000,
    0x7ff0_0000_0000_0001, // signalling NaN
    0xffff_ffff_ffff_ffff,
    0x7fff_ffff_ffff_ffff,
    0x3fe0_0000_0000_0000, // 0.5
    0xbfe0_0000_0000_0000,
    0x3cb0_0000_0000_0000, // epsilon
    0xbca0_0000_0000_0000,
];

/// Any f64, with weight on the special ones and the neighbours of -1, 0 and the extremes.
pub fn gen_any_f64(r: &mut Rng) -> f64 {
    match r.below(10) {
        0..=2 => f64::from_bits(BITS[r.us(0, BITS.len() - 1)]),
        3 => f64::from_bits(r.u64()),
        4 => f64::from_bits(BITS[r.us(0, BITS.len() - 1)].wrapping_add(r.below(7)).wrapping_sub(3)),
        5 => -1.0 + r.sign() * r.log_range(1e-17, 1.0),
        6 => r.range(-3.0, 3.0),
        7 => r.sign() * r.log_range(1e-308, 1e308),
        8 => (r.us(0, 40) as f64 - 20.0) / 2.0,
        _ => r.sign() * r.log_range(1e-3, 1e3),
    }
}

fn gen_valid(r: &mut Rng) -> f64 {
    loop {
        let x = gen_any_f64(r);
        if valid(x) {
            return x;
        }
    }
}

pub fn valid(x: f64) -> bool {
    x.is_finite() && x > -1.0
}

/// The two ways an operation can end, with the value it should hold.
fn expect(rep: &mut Report, key: &str, got: Option<FiniteAboveNegOneF64>, want: f64, what: impl Fn() -> String) -> bool {
    let w = if valid(want) { Some(want.to_bits()) } else { None };
    let g = got.map(|x| x.get().to_bits());
    rep.check(g == w, key, || format!("{}: {:?} instead of {:?}", what(), got.map(|x| x.get()), w.map(f64::from_bits)))
}

fn gen_number_text(r: &mut Rng) -> String {
    let x = gen_any_f64(r);
    let mut s = match r.below(8) {
        0 => format!("{x}"),
        1 => format!("{x:e}"),
        2 => format!("{x:E}"),
        3 => format!("{x:?}"),
        4 => format!("{x:.*}", r.us(0, 40)),
        5 => format!("{}.{}e{}", r.below(10), r.below(1_000_000), r.below(700) as i64 - 350),
        6 => r
            .pick(&[
                "", " ", "nan", "NaN", "-nan", "inf", "-inf", "+inf", "infinity", "-Infinity", "-1", "-1.0", "-1e0", "-0", "-0.0", "+0.5", ".5", "5.", ".", "-",
                "+", "e5", "1e", "1e+", "0x10", "1_000", "1,5", "½", "1e309", "-1e309", "1e-400", "-1e-400", "-0.99999999999999999", "-0.9999999999999999",
                "-1.0000000000000001", "-1.0000000000000002", "1 ", " 1", "\u{0}", "1\n", "infinit", "1f64", "1.0.0", "--1", "1e1e1",
                "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880",
                "0.000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001",
            ])
            .to_string(),
        _ => {
            let n = r.us(0, 12);
            (0..n).map(|_| r.pick(&['0', '1', '9', '.', '-', '+', 'e', 'E', ' ', 'n', 'a', 'i', 'f'])).collect()
        }
    };
    if r.chance(0.2) && !s.is_empty() {
        // damage it
        let k = (0..=s.len()).filter(|k| s.is_char_boundary(*k)).nth(r.us(0, s.chars().count())).unwrap_or(0);
        s.insert(k, r.pick(&['-', '+', '0', '.', 'e', ' ', '_', 'x']));
    }
    s
}

pub fn c12(ctx: &Ctx, rep: &mut Report) {
    rep.rule("f64 bit patterns (special values, their neighbours, -1 from both sides, uniform bits, ordinary numbers), number texts (formatted, damaged, random), and histories of up to 30 checked operations on one value; every result is compared bit for bit with the same operation on f64 followed by the check of the range. Non-trivial: an input or history step not seen before.");
    par_cases(ctx, rep, "construct", ctx.n(200_000, 4_000_000), |_, r, rep| {
        let x = gen_any_f64(r);
        rep.case(true, x.to_bits());
        let what = || format!("{x:e} ({:#018x})", x.to_bits());
        let new = FiniteAboveNegOneF64::new(x);
        if !expect(rep, "new", new, x, || format!("new({})", what())) {
            return;
        }
        let t = FiniteAboveNegOneF64::try_from(x);
        expect(rep, "try_from", t.ok(), x, || format!("try_from({})", what()));
        if let Err(e) = t {
            rep.check(e == InfNanNegOneOrLessError && !e.to_string().is_empty() && e.source().is_none(), "error", || format!("try_from({}): {e:?}", what()));
        }
        let ti: Result<FiniteAboveNegOneF64, _> = x.try_into();
        expect(rep, "try_into", ti.ok(), x, || format!("try_into({})", what()));
        let Some(v) = new else { return };
        // Back, copies, comparison.
        let back: f64 = v.into();
        rep.check(back.to_bits() == x.to_bits(), "into-f64", || format!("f64::from of {}: {back:e}", what()));
        let (c, k) = (v, Clone::clone(&v));
        rep.check(c.get().to_bits() == x.to_bits() && k.get().to_bits() == x.to_bits() && c == v && k == v, "copy", || what());
        let y = gen_valid(r);
        let w = FiniteAboveNegOneF64::new(y).expect("valid");
        rep.check(
            (v == w) == (x == y) && v.partial_cmp(&w) == x.partial_cmp(&y) && (v < w) == (x < y) && (v >= w) == (x >= y),
            "compare",
            || format!("{} against {y:e}", what()),
        );
        // Text.
        for (form, s) in [("Display", format!("{v}")), ("LowerExp", format!("{v:e}")), ("UpperExp", format!("{v:E}")), ("to_string", v.to_string())] {
            let p = s.parse::<FiniteAboveNegOneF64>();
            expect(rep, "text-round-trip", p.ok(), x, || format!("{form} of {} is {s:?}, parsed again", what()));
        }
        rep.check(format!("{v}").parse::<f64>().map(f64::to_bits) == Ok(x.to_bits()), "display", || format!("{} is displayed as {v}", what()));
        let le = format!("{v:e}");
        let ue = format!("{v:E}");
        rep.check(le.contains('e') && !le.contains('E') && ue.contains('E') && !ue.contains('e'), "exp-format", || format!("{} as {le} and {ue}", what()));
        rep.check(format!("{v:?}").contains(&format!("{x:?}")), "debug", || format!("{} as {v:?}", what()));
        rep.sample(|| format!("{} is {:?}", what(), new.map(|v| v.get())));
    });
    par_cases(ctx, rep, "parse", ctx.n(150_000, 3_000_000), |_, r, rep| {
        let s = gen_number_text(r);
        rep.case(true, &s);
        let std = s.parse::<f64>();
        let got = s.parse::<FiniteAboveNegOneF64>();
        match (&std, &got) {
            (Ok(x), Ok(v)) => {
                rep.add("parsed", 1);
                rep.check(valid(*x) && v.get().to_bits() == x.to_bits(), "parse", || format!("{s:?} gives {:e}, as f64 {x:e}", v.get()));
            }
            (Ok(x), Err(e)) => {
                rep.add("invalid_value", 1);
                rep.check(!valid(*x) && *e == ParseFiniteAboveNegOneF64Error::InvalidValue(InfNanNegOneOrLessError), "parse", || format!("{s:?} (as f64 {x:e}) gives {e:?}"));
                rep.check(
                    e.source().is_some_and(|x| x.downcast_ref::<InfNanNegOneOrLessError>().is_some()) && e.to_string() == InfNanNegOneOrLessError.to_string(),
                    "parse-error",
                    || format!("{s:?}: {e} with source {:?}", e.source()),
                );
            }
            (Err(p), Err(e)) => {
                rep.add("parse_error", 1);
                rep.check(*e == ParseFiniteAboveNegOneF64Error::ParseError(p.clone()), "parse", || format!("{s:?} gives {e:?} instead of {p:?}"));
                rep.check(
                    e.source().is_some_and(|x| x.downcast_ref::<std::num::ParseFloatError>() == Some(p)) && e.to_string() == p.to_string(),
                    "parse-error",
                    || format!("{s:?}: {e} with source {:?}", e.source()),
                );
            }
            (Err(p), Ok(v)) => {
                rep.violation("parse", format!("{s:?} gives {:e}, but is no f64: {p}", v.get()));
            }
        }
        rep.sample(|| format!("{s:?}: {got:?}"));
    });
    par_cases(ctx, rep, "operations", ctx.n(60_000, 1_000_000), |_, r, rep| {
        let mut x = if r.chance(0.2) { 0.0 } else { gen_valid(r) };
        let mut v = if x == 0.0 && x.is_sign_positive() { FiniteAboveNegOneF64::default() } else { FiniteAboveNegOneF64::new(x).expect("valid") };
        let steps = r.us(1, 30);
        for step in 0..steps {
            let y = match r.below(8) {
                0 => -1.0 - x,                // ends at -1
                1 => x + 1.0,                 // so does subtracting this
                2 => 1.0 / (x + f64::EPSILON),
                3 => (-1.0 - x).next_up(),
                4 => -x,
                _ => gen_any_f64(r),
            };
            let op = r.below(5);
            rep.case(true, (x.to_bits(), y.to_bits(), op));
            let (name, got, want) = match op {
                0 => ("add", v.checked_add(y), x + y),
                1 => ("sub", v.checked_sub(y), x - y),
                2 => ("mul", v.checked_mul(y), x * y),
                3 => ("div", v.checked_div(y), x / y),
                _ => ("pow", v.checked_pow(y), x.powf(y)),
            };
            let what = || format!("step {step}: ({x:e}).checked_{name}({y:e})");
            rep.add(&format!("{name}_{}", if got.is_some() { "some" } else { "none" }), 1);
            if op < 4 {
                if !expect(rep, name, got, want, what) {
                    return;
                }
            } else {
                // Within a few units in the last place; on the border of the range either answer is right.
                if y.is_nan() {
                    // 1 to the power of NaN is 1, or NaN where the NaN is signalling.
                    rep.check(got.is_none_or(|g| x == 1.0 && g.get() == 1.0), "pow", || format!("{}: {:?}", what(), got.map(|g| g.get())));
                    continue;
                }
                let border = (want.abs() >= f64::MAX * (1.0 - 4.0 * EPS)) || (want + 1.0).abs() <= 4.0 * EPS;
                let ok = match got {
                    Some(g) => (valid(want) || border) && valid(g.get()) && ulps(g.get(), want) <= 4 + (want.abs() < 1e-300) as u64 * 4
                        || border && want.is_infinite() && g.get().abs() >= f64::MAX * (1.0 - 4.0 * EPS),
                    None => !valid(want) || (border && want != 1.0),
                };
                if !rep.check(ok, "pow", || format!("{}: {:?} but powf gives {want:e}", what(), got.map(|g| g.get()))) {
                    return;
                }
                // Exact cases.
                if y == 0.0 || x == 1.0 {
                    expect(rep, "pow-exact", got, 1.0, what);
                } else if y == 1.0 {
                    expect(rep, "pow-exact", got, x, what);
                }
            }
            // The operand is not changed.
            rep.check(v.get().to_bits() == x.to_bits(), "operand", || format!("{} changed its operand to {:e}", what(), v.get()));
            if let Some(g) = got {
                if r.chance(0.8) {
                    x = g.get();
                    v = g;
                }
            }
        }
        rep.check(valid(v.get()), "invariant", || format!("{:e}", v.get()));
    });
    par_cases(ctx, rep, "default", 1, |_, _, rep| {
        let d = FiniteAboveNegOneF64::default();
        rep.check(d.get().to_bits() == 0, "default", || format!("{d:?}"));
        const C: Option<FiniteAboveNegOneF64> = FiniteAboveNegOneF64::new(-0.5);
        const D: Option<FiniteAboveNegOneF64> = match C {
            Some(c) => c.checked_sub(0.5),
            None => None,
        };
        rep.check(C.is_some_and(|c| c.get() == -0.5) && D.is_none(), "const", || format!("{C:?} {D:?}"));
    });
}

// ---------------------------------------------------------------- C13

type Item = (u64, u64);

/// Runs a random history of operations on an iterator against a deque.
fn drive<I>(rep: &mut Report, r: &mut Rng, what: &str, it: I, items: &[Item], key: &dyn Fn(I::Item) -> Item, slice: Option<&dyn Fn(&I) -> (Vec<Item>, Vec<Item>)>)
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator + FusedIterator + Clone + Debug,
{
    let mut work = vec![(it, items.iter().copied().collect::<VecDeque<Item>>(), String::new())];
    let mut budget = 60;
    while let Some((mut it, mut model, mut log)) = work.pop() {
        loop {
            budget -= 1;
            if budget < 0 {
                return;
            }
            let op = r.below(24);
            let n = model.len();
            let arg = match r.below(8) {
                0 | 1 => 0,
                2 => 1,
                3 => n.saturating_sub(1),
                4 => n,
                5 => n + 1,
                6 => r.us(0, n),
                _ => {
                    if r.chance(0.3) { huge_index(r, n.min(4) as u64) as usize } else { r.us(0, n.min(4)) }
                }
            };
            rep.add("iterator_operations", 1);
            let mut bad: Option<String> = None;
            let mut fin = false;
            fn cmp(bad: &mut Option<String>, op: &str, got: Option<Item>, want: Option<Item>) {
                if got != want {
                    *bad = Some(format!("{op} gives {:?} instead of {:?}", got.map(|x| f64::from_bits(x.0)), want.map(|x| f64::from_bits(x.0))));
                }
            }
            match op {
                0..=3 => {
                    log.push_str(" next");
                    cmp(&mut bad, "next", it.next().map(key), model.pop_front());
                }
                4..=7 => {
                    log.push_str(" next_back");
                    cmp(&mut bad, "next_back", it.next_back().map(key), model.pop_back());
                }
                8 | 9 => {
                    log.push_str(&format!(" nth({arg})"));
                    let want = if arg < n {
                        model.drain(..arg);
                        model.pop_front()
                    } else {
                        model.clear();
                        None
                    };
                    cmp(&mut bad, "nth", it.nth(arg).map(key), want);
                }
                10 | 11 => {
                    log.push_str(&format!(" nth_back({arg})"));
                    let want = if arg < n {
                        model.truncate(n - arg);
                        model.pop_back()
                    } else {
                        model.clear();
                        None
                    };
                    cmp(&mut bad, "nth_back", it.nth_back(arg).map(key), want);
                }
                12 | 13 => {
                    if it.len() != n || it.size_hint() != (n, Some(n)) {
                        bad = Some(format!("len {} and size_hint {:?} instead of {n}", it.len(), it.size_hint()));
                    }
                }
                14 => {
                    if work.len() < 3 {
                        work.push((it.clone(), model.clone(), format!("{log} (clone)")));
                    }
                }
                15 => {
                    if let Some(s) = slice {
                        let (x, y) = s(&it);
                        let m: Vec<u64> = model.iter().map(|p| p.0).collect();
                        for (name, v) in [("as_slice", x), ("as_ref", y)] {
                            if v.iter().map(|p| p.0).collect::<Vec<_>>() != m {
                                bad = Some(format!("{name} shows {} items instead of the {n} remaining", v.len()));
                            }
                        }
                    }
                }
                16 => {
                    if format!("{it:?}").is_empty() {
                        bad = Some("empty Debug output".into());
                    }
                }
                17 => {
                    // Part of it through an adapter that borrows it.
                    let k = r.us(0, n.min(5));
                    log.push_str(&format!(" by_ref.take({k})"));
                    let got: Vec<Item> = it.by_ref().take(k).map(key).collect();
                    let want: Vec<Item> = model.drain(..k.min(n)).collect();
                    if got != want {
                        bad = Some("by_ref().take() gives other items".into());
                    }
                }
                18 => {
                    let k = r.us(0, n.min(5));
                    log.push_str(&format!(" by_ref.rev.take({k})"));
                    let got: Vec<Item> = it.by_ref().rev().take(k).map(key).collect();
                    let want: Vec<Item> = (0..k.min(n)).filter_map(|_| model.pop_back()).collect();
                    if got != want {
                        bad = Some("by_ref().rev().take() gives other items".into());
                    }
                }
                19 => {
                    let k = r.us(0, n.min(6)) as u64;
                    log.push_str(&format!(" find after {k}"));
                    let mut c = 0;
                    let got = it
                        .find(|_| {
                            c += 1;
                            c > k
                        })
                        .map(key);
                    let want = if (k as usize) < n {
                        model.drain(..k as usize);
                        model.pop_front()
                    } else {
                        model.clear();
                        None
                    };
                    cmp(&mut bad, "find", got, want);
                }
                // The rest consume it.
                _ => {
                    if !r.chance(0.25) && n > 0 {
                        continue;
                    }
                    fin = true;
                    let m: Vec<Item> = model.iter().copied().collect();
                    let which = r.below(11);
                    let it = it.clone();
                    match which {
                        0 => {
                            let c = it.count();
                            if c != n {
                                bad = Some(format!("count is {c} instead of {n}"));
                            }
                        }
                        1 => cmp(&mut bad, "last", it.last().map(key), m.last().copied()),
                        2 => {
                            let got = it.fold(Vec::new(), |mut v, x| {
                                v.push(key(x));
                                v
                            });
                            if got != m {
                                bad = Some("fold sees other items".into());
                            }
                        }
                        3 => {
                            let got = it.rfold(Vec::new(), |mut v, x| {
                                v.push(key(x));
                                v
                            });
                            if !got.iter().eq(m.iter().rev()) {
                                bad = Some("rfold sees other items".into());
                            }
                        }
                        4 => {
                            let got: Vec<Item> = it.rev().map(key).collect();
                            if !got.iter().eq(m.iter().rev()) {
                                bad = Some("rev gives other items".into());
                            }
                        }
                        5 => {
                            let s = r.us(1, 5);
                            let got: Vec<Item> = it.step_by(s).map(key).collect();
                            if !got.iter().eq(m.iter().step_by(s)) {
                                bad = Some(format!("step_by({s}) gives other items"));
                            }
                        }
                        6 => {
                            let s = r.us(0, n + 2);
                            let t = r.us(0, n + 2);
                            let got: Vec<Item> = it.skip(s).take(t).rev().map(key).collect();
                            let mut want: Vec<Item> = m.iter().skip(s).take(t).copied().collect();
                            want.reverse();
                            if got != want {
                                bad = Some(format!("skip({s}).take({t}).rev() gives other items"));
                            }
                        }
                        7 => {
                            let got: Vec<Item> = it.zip(0..).map(|(x, _)| key(x)).collect();
                            if got != m {
                                bad = Some("zip gives other items".into());
                            }
                        }
                        8 => {
                            let mut got = Vec::new();
                            for x in it {
                                got.push(key(x));
                            }
                            if got != m {
                                bad = Some("a for loop sees other items".into());
                            }
                        }
                        9 => {
                            let got = it.enumerate().rev().map(|(i, x)| (i, key(x))).collect::<Vec<_>>();
                            let want = m.iter().copied().enumerate().rev().collect::<Vec<_>>();
                            if got != want {
                                bad = Some("enumerate().rev() gives other items".into());
                            }
                        }
                        _ => {
                            let c = it.clone().chain(it).count();
                            if c != 2 * n {
                                bad = Some(format!("chained with itself it has {c} items instead of {}", 2 * n));
                            }
                        }
                    }
                }
            }
            if let Some(b) = bad {
                rep.violation("iterator", format!("{what} of {} items after{}: {b}", items.len(), if log.is_empty() { " nothing" } else { &log }));
                return;
            }
            rep.add("oracle_checks", 1);
            if fin {
                break;
            }
        }
    }
}

/// Address of a value, as an identity of the item.
fn addr<T>(x: &T) -> u64 {
    x as *const T as u64
}

macro_rules! pair_rule {
    ($rep:expr, $r:expr, $what:expr, $rule:expr) => {{
        let (rep, r, rule) = (&mut *$rep, &mut *$r, $rule);
        let what = $what;
        let pairs: Vec<(f64, f64)> = rule.as_node_weight_pairs().to_vec();
        let here: Vec<Item> = rule.as_node_weight_pairs().iter().map(|p| (mix(p.0.to_bits()) ^ p.1.to_bits(), addr(p))).collect();
        let nodes: Vec<Item> = rule.as_node_weight_pairs().iter().map(|p| (p.0.to_bits(), addr(&p.0))).collect();
        let weights: Vec<Item> = rule.as_node_weight_pairs().iter().map(|p| (p.1.to_bits(), addr(&p.1))).collect();
        let values: Vec<Item> = pairs.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect();
        let pk = |p: &(f64, f64)| (mix(p.0.to_bits()) ^ p.1.to_bits(), addr(p));
        let pv = |p: &(f64, f64)| (mix(p.0.to_bits()) ^ p.1.to_bits(), 0u64);
        rep.check(rule.degree() == pairs.len(), "degree", || format!("{what}: degree {} with {} pairs", rule.degree(), pairs.len()));
        match r.below(6) {
            0 => drive(rep, r, &format!("{what} nodes()"), rule.nodes(), &nodes, &|x: &f64| (x.to_bits(), addr(x)), None),
            1 => drive(rep, r, &format!("{what} weights()"), rule.weights(), &weights, &|x: &f64| (x.to_bits(), addr(x)), None),
            2 => {
                drive(rep, r, &format!("{what} iter()"), rule.iter(), &here, &|x: &(f64, f64)| pk(x), Some(&|i| {
                    let b: &[(f64, f64)] = i.as_ref();
                    (i.as_slice().iter().map(pv).collect(), b.iter().map(pv).collect())
                }))
            }
            3 => {
                drive(rep, r, &format!("{what} (&rule).into_iter()"), (&rule).into_iter(), &here, &|x: &(f64, f64)| pk(x), Some(&|i| {
                    let b: &[(f64, f64)] = i.as_ref();
                    (i.as_slice().iter().map(pv).collect(), b.iter().map(pv).collect())
                }))
            }
            4 => drive(rep, r, &format!("{what} into_iter()"), rule.clone().into_iter(), &values, &|x: (f64, f64)| (x.0.to_bits(), x.1.to_bits()), Some(&|i| {
                let b: &[(f64, f64)] = i.as_ref();
                let f = |p: &(f64, f64)| (p.0.to_bits(), p.1.to_bits());
                (i.as_slice().iter().map(f).collect(), b.iter().map(f).collect())
            })),
            _ => {
                // All views at once.
                let n = pairs.len();
                let eq = |v: Vec<(f64, f64)>| v.len() == n && v.iter().zip(&pairs).all(|(x, y)| x.0.to_bits() == y.0.to_bits() && x.1.to_bits() == y.1.to_bits());
                rep.check(eq(rule.nodes().copied().zip(rule.weights().copied()).collect()), "views", || format!("{what}: nodes() and weights() differ from the pairs"));
                rep.check(eq(rule.iter().copied().collect()), "views", || format!("{what}: iter() differs"));
                rep.check(eq((&rule).into_iter().copied().collect()), "views", || format!("{what}: by-reference into_iter() differs"));
                rep.check(eq(rule.clone().into_iter().collect()), "views", || format!("{what}: into_iter() differs"));
                rep.check(eq(rule.clone().into_node_weight_pairs().into_vec()), "views", || format!("{what}: into_node_weight_pairs() differs"));
                rep.check(eq(rule.iter().rev().rev().copied().collect()), "views", || format!("{what}: iter().rev().rev() differs"));
            }
        }
    }};
}

macro_rules! node_rule {
    ($rep:expr, $r:expr, $what:expr, $rule:expr) => {{
        let (rep, r, rule) = (&mut *$rep, &mut *$r, $rule);
        let what = $what;
        let n = rule.degree().get();
        if n <= 5000 {
            let items: Vec<Item> = (0..n).map(|i| ((i as f64).to_bits(), 0)).collect();
            let key = |x: f64| (x.to_bits(), 0u64);
            match r.below(3) {
                0 => drive(rep, r, &format!("{what} iter()"), rule.iter(), &items, &key, None),
                1 => drive(rep, r, &format!("{what} (&rule).into_iter()"), (&rule).into_iter(), &items, &key, None),
                _ => drive(rep, r, &format!("{what} into_iter()"), rule.clone().into_iter(), &items, &key, None),
            }
        } else {
            // Too many to list: the remaining items are lo..hi.
            let (mut lo, mut hi) = (0u64, n as u64);
            let mut it = rule.iter();
            let mut log = String::new();
            for _ in 0..40 {
                let left = hi - lo;
                let a = match r.below(4) {
                    0 => 0,
                    1 => r.below(20),
                    2 if r.chance(0.2) => huge_index(r, left),
                    _ => r.below(20_000),
                };
                let (got, want) = match r.below(5) {
                    0 => {
                        log.push_str(" next");
                        let w = (left > 0).then(|| lo as f64);
                        lo += (left > 0) as u64;
                        (it.next(), w)
                    }
                    1 => {
                        log.push_str(" next_back");
                        let w = (left > 0).then(|| hi as f64 - 1.0);
                        hi -= (left > 0) as u64;
                        (it.next_back(), w)
                    }
                    2 => {
                        log.push_str(&format!(" nth({a})"));
                        let w = (a < left).then(|| (lo + a) as f64);
                        lo = lo.saturating_add(a).saturating_add(1).min(hi);
                        (it.nth(a as usize), w)
                    }
                    3 => {
                        log.push_str(&format!(" nth_back({a})"));
                        let w = (a < left).then(|| (hi - 1 - a) as f64);
                        hi = hi.saturating_sub(a.saturating_add(1)).max(lo);
                        (it.nth_back(a as usize), w)
                    }
                    _ => {
                        let l = it.len() as u64;
                        let s = it.size_hint();
                        (Some((l == left && s == (left as usize, Some(left as usize))) as u8 as f64), Some(1.0))
                    }
                };
                rep.add("iterator_operations", 1);
                if !rep.check(got == want, "iterator", || format!("{what} iter() after{log}: {got:?} instead of {want:?}")) {
                    break;
                }
            }
            rep.check(rule.iter().last() == Some(n as f64 - 1.0), "iterator", || format!("{what}: last() is {:?}", rule.iter().last()));
        }
    }};
}

/// An index near a power of two (where narrower integers wrap around) or the largest one.
fn huge_index(r: &mut Rng, small: u64) -> u64 {
    match r.below(4) {
        0 => u64::MAX - r.below(3),
        _ => (1u64 << r.pick(&[7u32, 8, 15, 16, 24, 31, 32, 33, 48, 63])).wrapping_add(r.below(small.saturating_add(2))).wrapping_sub(r.below(2)),
    }
}


pub fn c13(ctx: &Ctx, rep: &mut Report) {
    rep.rule("rule, degree and iterator kind drawn at random (all nine rules, all views, degrees up to 2^32-1 for the composite rules), with a random history of up to 60 operations from both ends, clones included, checked against a double-ended queue; items of borrowed views are identified by address as well. Non-trivial: a (rule, history seed) with at least one item.");
    par_cases(ctx, rep, "histories", ctx.n(150_000, 2_500_000), |i, r, rep| {
        let big = r.chance(0.05);
        let (mf, mg) = if big { (400, 40) } else { (14, 10) };
        let (spec, rule) = gen_rule(r, 0.003, mf, mg);
        rep.case(true, (spec.bits(), i));
        let what = format!("{spec:?}");
        match rule {
            Rule::Leg(q) => pair_rule!(rep, r, &what, q),
            Rule::Jac(q) => pair_rule!(rep, r, &what, q),
            Rule::Lag(q) => pair_rule!(rep, r, &what, q),
            Rule::Her(q) => pair_rule!(rep, r, &what, q),
            Rule::C1(q) => pair_rule!(rep, r, &what, q),
            Rule::C2(q) => pair_rule!(rep, r, &what, q),
            Rule::Mid(q) => node_rule!(rep, r, &what, q),
            Rule::Simp(q) => node_rule!(rep, r, &what, q),
            Rule::Trap(q) => node_rule!(rep, r, &what, q),
        }
        rep.sample(|| format!("{what}: history of up to 60 iterator operations agrees with the deque"));
    });
    par_cases(ctx, rep, "large", ctx.n(60, 900), |i, r, rep| {
        let n = match r.below(5) {
            0 => u32::MAX,
            1 => u32::MAX - r.below(3) as u32,
            2 => (1u32 << 31) + r.below(3) as u32,
            3 => (1u32 << 31) - 1 - r.below(3) as u32,
            _ => r.us(6000, 50_000_000) as u32,
        };
        let what = format!("degree {n}");
        rep.case(true, (i % 3, n));
        match i % 3 {
            0 => node_rule!(rep, r, &format!("Midpoint {what}"), Midpoint::new(nz32(n))),
            1 => node_rule!(rep, r, &format!("Simpson {what}"), Simpson::new(nz32(n))),
            _ => node_rule!(rep, r, &format!("Trapezoid {what}"), Trapezoid::new(nz32(n))),
        }
    });
    // Several iterators of one rule, interleaved and on several threads.
    par_cases(ctx, rep, "interleaved", ctx.n(10_000, 150_000), |_, r, rep| {
        let spec = loop {
            let s = gen_spec(r, 60, 16);
            if s.is_gauss() {
                break s;
            }
        };
        let rule = spec.build();
        rep.case(true, (spec.bits(), 1u8));
        if let Rule::Leg(q) = &rule {
            let n = q.degree();
            let mut its: Vec<_> = (0..4).map(|_| (q.iter(), 0usize, n)).collect();
            for _ in 0..80 {
                let k = r.us(0, 3);
                let (it, lo, hi) = &mut its[k];
                let want = if lo < hi { Some(if r.chance(0.5) { 0 } else { 1 }) } else { None };
                let (g, w) = match want {
                    Some(0) => {
                        *lo += 1;
                        (it.next(), Some(*lo - 1))
                    }
                    Some(_) => {
                        *hi -= 1;
                        (it.next_back(), Some(*hi))
                    }
                    None => (it.next(), None),
                };
                rep.check(g.map(|p| addr(p)) == w.map(|i| addr(&q.as_node_weight_pairs()[i])), "interleaved", || format!("{spec:?} iterator {k}"));
            }
        } else {
            let p = rule.pairs().unwrap();
            let sum: f64 = std::thread::scope(|s| {
                let hs: Vec<_> = (0..3).map(|_| s.spawn(|| p.iter().map(|x| x.1).sum::<f64>())).collect();
                hs.into_iter().map(|h| h.join().expect("reader")).sum()
            });
            let one: f64 = p.iter().map(|x| x.1).sum();
            rep.check(sum == one + one + one, "interleaved", || format!("{spec:?} read on three threads"));
        }
    });
}

// ---------------------------------------------------------------- C20

/// All f64 written in a Debug output, in order.
fn floats(s: &str) -> Vec<f64> {
    s.split(|c: char| !(c.is_ascii_digit() || matches!(c, '.' | '-' | '+' | 'e' | 'E')))
        .filter(|t| t.bytes().any(|b| b.is_ascii_digit()))
        .filter_map(|t| t.parse().ok())
        .collect()
}

fn type_name(spec: Spec) -> &'static str {
    ["GaussLegendre", "GaussJacobi", "GaussLaguerre", "GaussHermite", "GaussChebyshevFirstKind", "GaussChebyshevSecondKind", "Midpoint", "Simpson", "Trapezoid"][spec.kind()]
}

fn same_bits(x: &Rule, y: &Rule) -> bool {
    match (x.pairs(), y.pairs()) {
        (Some(p), Some(q)) => p.len() == q.len() && p.iter().zip(q).all(|(a, b)| a.0.to_bits() == b.0.to_bits() && a.1.to_bits() == b.1.to_bits()),
        (None, None) => x.degree() == y.degree(),
        _ => false,
    }
}

/// Rules of the same degree with other pairs, which only deserialization can make, are not equal.
#[cfg(feature = "f_serde")]
fn other_pairs(ctx: &Ctx, rep: &mut Report) {
    macro_rules! one {
        ($rep:expr, $r:expr, $spec:expr, $q:expr, $t:ty) => {{
            let q = $q;
            let mut v = serde_json::to_value(q).unwrap();
            let n = q.degree();
            let (i, which) = ($r.us(0, n - 1), $r.us(0, 1));
            let x: &mut serde_json::Value = &mut v["node_weight_pairs"][i][which];
            let old = x.as_f64().unwrap_or(0.0);
            let new = if $r.chance(0.5) { old.next_up() } else { old + 0.25 };
            *x = serde_json::json!(new);
            if let Ok(other) = serde_json::from_value::<$t>(v) {
                // Whether such data is accepted at all is not judged here.
                if other.as_node_weight_pairs()[i] != q.as_node_weight_pairs()[i] {
                    $rep.check(other != *q && !(*q == other), "equality-ignores-pairs", || format!("{:?} equals a rule with {old:e} changed to {new:e} in pair {i}", $spec));
                    $rep.check(other == other.clone(), "equality", || format!("{:?} with a changed pair differs from its clone", $spec));
                }
            }
        }};
    }
    par_cases(ctx, rep, "other-pairs", ctx.n(3000, 30_000), |_, r, rep| {
        let spec = gen_spec(r, 150, 12);
        let rule = spec.build();
        rep.case(true, (spec.bits(), "pairs"));
        match &rule {
            Rule::Leg(q) => one!(rep, r, spec, q, GaussLegendre),
            Rule::Jac(q) => one!(rep, r, spec, q, GaussJacobi),
            Rule::Lag(q) => one!(rep, r, spec, q, GaussLaguerre),
            Rule::Her(q) => one!(rep, r, spec, q, GaussHermite),
            Rule::C1(q) => one!(rep, r, spec, q, GaussChebyshevFirstKind),
            Rule::C2(q) => one!(rep, r, spec, q, GaussChebyshevSecondKind),
            _ => {}
        }
    });
}

/// Whether rules of the two specs have to be equal; None if rounding decides.
fn must_equal(x: Spec, y: Spec) -> Option<bool> {
    if x.kind() != y.kind() || x.degree() != y.degree() {
        return Some(false);
    }
    let ((a, b), (c, d)) = (x.exponents(), y.exponents());
    if (a, b) == (c, d) {
        if [a, b, c, d].iter().any(|x| x.to_bits() == (-0.0f64).to_bits()) {
            return None;
        }
        return Some(true);
    }
    Some(false) // the exponents are part of the value
}

pub fn c20(ctx: &Ctx, rep: &mut Report) {
    #[cfg(feature = "f_serde")]
    other_pairs(ctx, rep);
    rep.rule("histories of up to 25 operations (construct, clone, clone_from, compare, move, change_degree, drop, construct on another thread) over a pool of rules of one kind, checked against a model that only keeps the parameters; Debug output is parsed back. Non-trivial: a history with at least two different parameters.");
    par_cases(ctx, rep, "histories", ctx.n(12_000, 200_000), |i, r, rep| {
        let kind = r.us(0, KINDS - 1);
        let mut specs: Vec<Spec> = (0..3).map(|_| gen_spec_kind(r, kind, 40, 10)).collect();
        if kind >= 6 && r.chance(0.3) {
            // Any degree, up to the last one.
            let n = match r.below(3) {
                0 => u32::MAX - 1 - r.below(2) as u32,
                1 => (1u32 << r.us(7, 31)).wrapping_sub(r.below(2) as u32),
                _ => (r.u64() as u32).clamp(1, u32::MAX - 1),
            };
            specs[0] = match kind {
                6 => Spec::Mid(n),
                7 => Spec::Simp(n),
                _ => Spec::Trap(n),
            };
        }
        // Parameters that differ in one thing only, or in the last bit.
        match specs[0] {
            Spec::Jac(n, a, b) => {
                specs.push(Spec::Jac(n, b, a));
                specs.push(Spec::Jac(n + 1, a, b));
                specs.push(Spec::Jac(n, a, b.next_up()));
                specs.push(Spec::Jac(n, a.next_up(), b));
            }
            Spec::Lag(n, a) => {
                specs.push(Spec::Lag(n + 1, a));
                specs.push(Spec::Lag(n, a.next_up()));
            }
            Spec::Leg(n) => specs.push(Spec::Leg(n + 1)),
            Spec::Her(n) => specs.push(Spec::Her(n + 1)),
            Spec::C1(n) => specs.push(Spec::C1(n + 1)),
            Spec::C2(n) => specs.push(Spec::C2(n + 1)),
            Spec::Mid(n) => specs.push(Spec::Mid(n + 1)),
            Spec::Simp(n) => specs.push(Spec::Simp(n + 1)),
            Spec::Trap(n) => specs.push(Spec::Trap(n + 1)),
        }
        let mut pool: Vec<(Spec, Rule)> = Vec::new();
        rep.case(true, (specs.iter().map(|s| s.bits()).collect::<Vec<_>>(), i));
        let mut log = String::new();
        for _ in 0..r.us(5, 25) {
            let op = r.below(9);
            let k = if pool.is_empty() { 0 } else { r.us(0, pool.len() - 1) };
            let spec = specs[r.us(0, specs.len() - 1)];
            match op {
                _ if pool.is_empty() || op <= 1 => {
                    log.push_str(&format!("; new {spec:?}"));
                    pool.push((spec, spec.build()));
                }
                2 => {
                    log.push_str(&format!("; clone #{k}"));
                    let c = (pool[k].0, pool[k].1.clone());
                    rep.check(c.1 == pool[k].1 && same_bits(&c.1, &pool[k].1), "clone", || format!("{:?} after{log}", pool[k].0));
                    if let (Some(x), Some(y)) = (c.1.pairs(), pool[k].1.pairs()) {
                        rep.check(x.as_ptr() != y.as_ptr(), "clone-independent", || format!("{:?} shares its pairs with its clone", pool[k].0));
                    }
                    pool.push(c);
                }
                3 if pool.len() > 1 => {
                    let j = r.us(0, pool.len() - 1);
                    if j != k {
                        log.push_str(&format!("; #{j}.clone_from(#{k})"));
                        let src = pool[k].clone();
                        clone_from(&mut pool[j].1, &src.1);
                        pool[j].0 = src.0;
                    }
                }
                4 => {
                    log.push_str(&format!("; drop #{k}"));
                    pool.swap_remove(k);
                }
                5 => {
                    // a mutable operation, if there is one
                    let n = spec.degree() as u32;
                    let done = match &mut pool[k].1 {
                        Rule::Mid(q) => {
                            q.change_degree(nz32(n));
                            true
                        }
                        Rule::Simp(q) => {
                            q.change_degree(nz32(n));
                            true
                        }
                        Rule::Trap(q) => {
                            q.change_degree(nz32(n));
                            true
                        }
                        _ => false,
                    };
                    if done {
                        log.push_str(&format!("; #{k}.change_degree({n})"));
                        pool[k].0 = spec;
                    }
                }
                6 => {
                    log.push_str(&format!("; {spec:?} on another thread"));
                    let rule = std::thread::scope(|s| s.spawn(|| spec.build()).join()).expect("thread");
                    pool.push((spec, rule));
                }
                7 if pool[k].0.points() < 3000 => {
                    // Use in between must not matter.
                    let (a, b) = (0.0, 1.0);
                    let x = pool[k].1.integrate(a, b, |t| t.sin());
                    let y = pool[k].1.integrate(a, b, |t| t.sin());
                    rep.check(x.to_bits() == y.to_bits() || (x - y).abs() <= 1e-12 * x.abs().max(1.0), "repeat", || format!("{:?}: {x:e} then {y:e}", pool[k].0));
                }
                _ => {
                    let n = spec.degree() as u32;
                    let rule = match kind {
                        6 => Rule::Mid(Midpoint::from(nz32(n))),
                        7 => Rule::Simp(Simpson::from(nz32(n))),
                        8 => Rule::Trap(Trapezoid::from(nz32(n))),
                        _ => spec.build(),
                    };
                    log.push_str(&format!("; from {spec:?}"));
                    pool.push((spec, rule));
                }
            }
            if pool.len() > 8 {
                pool.remove(0);
            }
            // Every pair of values compares as the model says.
            for (s, q) in &pool {
                rep.check(q.degree() == s.degree(), "degree", || format!("{s:?} has degree {} after{log}", q.degree()));
                for (t, p) in &pool {
                    match must_equal(*s, *t) {
                        Some(true) => {
                            rep.check(q == p && same_bits(q, p), "equal", || format!("{s:?} differs from itself after{log}"));
                        }
                        Some(false) => {
                            rep.check(q != p, "different", || format!("{s:?} equals {t:?} after{log}"));
                        }
                        None => {}
                    }
                    rep.check((q == p) == (p == q) && (q == p) != (q != p), "eq-laws", || format!("{s:?} and {t:?}"));
                }
            }
        }
        rep.sample(|| format!("values are as the model says after{log}"));
    });
    par_cases(ctx, rep, "debug", ctx.n(15_000, 200_000), |_, r, rep| {
        let (spec, rule) = gen_rule(r, 0.02, 60, 14);
        rep.case(true, spec.bits());
        for (form, s) in [("{:?}", rule_debug(&rule, false)), ("{:#?}", rule_debug(&rule, true))] {
            rep.check(s.starts_with(type_name(spec)), "debug-name", || format!("{form} of {spec:?} is {}", &s[..s.len().min(60)]));
            let got = floats(&s[type_name(spec).len().min(s.len())..]);
            let has = |x: f64| got.iter().any(|y| y.to_bits() == x.to_bits());
            match rule.pairs() {
                Some(p) => {
                    // All stored values, pairs in order.
                    let mut k = 0;
                    for q in p {
                        while k + 1 < got.len() && !(got[k].to_bits() == q.0.to_bits() && got[k + 1].to_bits() == q.1.to_bits()) {
                            k += 1;
                        }
                        if !rep.check(k + 1 < got.len(), "debug-values", || format!("{form} of {spec:?} lacks {q:?}: {}", &s[..s.len().min(300)])) {
                            break;
                        }
                        k += 2;
                    }
                    let exps: Vec<f64> = match &rule {
                        Rule::Jac(q) => vec![q.alpha().get(), q.beta().get()],
                        Rule::Lag(q) => vec![q.alpha().get()],
                        _ => vec![],
                    };
                    for e in &exps {
                        rep.check(has(*e), "debug-exponents", || format!("{form} of {spec:?} lacks {e}"));
                    }
                    }
                None => {
                    rep.check(has(spec.degree() as f64), "debug-degree", || format!("{form} of {spec:?} is {s}"));
                }
            }
        }
    });
    // Construction is deterministic: the same bits on many threads at once, and after any other work.
    par_cases(&Ctx { threads: 2, ..ctx.clone() }, rep, "deterministic", ctx.n(1500, 20_000), |_, r, rep| {
        let spec = gen_spec(r, 300, 40);
        let other = gen_spec(r, 40, 20);
        let first = spec.build();
        drop(other.build());
        let rules: Vec<Rule> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..6)
                .map(|k| {
                    s.spawn(move || {
                        if k % 2 == 1 {
                            drop(other.build());
                        }
                        spec.build()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        rep.case(true, spec.bits());
        for q in &rules {
            rep.check(*q == first && same_bits(q, &first), "deterministic", || format!("{spec:?} differs between threads"));
        }
        match &first {
            Rule::Jac(q) => {
                let (a, b) = spec.exponents();
                rep.check(q.alpha().get() == a && q.beta().get() == b, "exponents", || format!("{spec:?} reports {} and {}", q.alpha(), q.beta()));
            }
            Rule::Lag(q) => {
                rep.check(q.alpha().get() == spec.exponents().0, "exponents", || format!("{spec:?} reports {}", q.alpha()));
            }
            _ => {}
        }
    });
    cold_starts(ctx, rep);
    // Const and static use of the composite rules.
    par_cases(ctx, rep, "const", 1, |_, _, rep| {
        const D: std::num::NonZeroU32 = std::num::NonZeroU32::new(17).unwrap();
        static M: Midpoint = Midpoint::new(D);
        static S: Simpson = Simpson::new(D);
        static T: Trapezoid = Trapezoid::new(D);
        rep.check(M.degree() == D && S.degree() == D && T.degree() == D, "const", || "degrees of constants".into());
        let c = T;
        rep.check(c == T && c.clone() == T, "copy", || "Trapezoid is Copy".into());
    });
}

/// Runs in a child: nothing has been constructed in this process yet, and several threads begin at
/// the same moment. What each of them gets is compared with what comes out later, alone.
pub fn cold(seed: u64) {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let mut r = Rng::new(seed, "cold", 0);
    let threads = r.us(2, 12);
    let kind = (seed % 9) as usize;
    let same = r.chance(0.5);
    let degrees = |r: &mut Rng| if r.chance(0.6) { (gen_degree(r, 800), 40) } else { (gen_degree(r, 140), 20) };
    let (f, g) = degrees(&mut r);
    let first = gen_spec_kind(&mut r, kind, f, g);
    let work: Vec<Vec<Spec>> = (0..threads)
        .map(|_| {
            let (f, g) = degrees(&mut r);
            let start = if same { first } else { gen_spec_kind(&mut r, kind, f, g) };
            std::iter::once(start).chain((0..r.us(0, 4)).map(|_| gen_spec(&mut r, 300, 20))).collect()
        })
        .collect();
    let waiting = AtomicUsize::new(threads);
    let delays: Vec<u64> = (0..threads).map(|_| if r.chance(0.5) { 0 } else { r.below(4000) }).collect();
    let use_it = |rule: &Rule, spec: Spec| if spec.points() < 5000 { rule.integrate(0.25, 1.5, |x| (x * 0.5).cos() + 1.0 / (1.0 + x * x)) } else { 0.0 };
    let got: Vec<Vec<(Rule, f64)>> = std::thread::scope(|s| {
        let hs: Vec<_> = work
            .iter()
            .zip(&delays)
            .map(|(specs, delay)| {
                let waiting = &waiting;
                s.spawn(move || {
                    waiting.fetch_sub(1, Ordering::SeqCst);
                    while waiting.load(Ordering::Relaxed) > 0 {
                        std::hint::spin_loop();
                    }
                    for k in 0..*delay {
                        std::hint::black_box(k);
                    }
                    specs
                        .iter()
                        .map(|x| {
                            let q = x.build();
                            let v = use_it(&q, *x);
                            (q, v)
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    let mut n = 0;
    for (specs, rules) in work.iter().zip(&got) {
        for (spec, (rule, v)) in specs.iter().zip(rules) {
            let alone = spec.build();
            let w = use_it(&alone, *spec);
            n += 1;
            let ok = *rule == alone && same_bits(rule, &alone) && rule.degree() == spec.degree();
            if !ok || v.to_bits() != w.to_bits() && !(v.is_nan() && w.is_nan()) {
                println!("DIFFERS {spec:?} constructed by one of {threads} threads at the start of the process: integral {v:e}, later {w:e}, rules equal: {ok}");
                return;
            }
        }
    }
    println!("SAID {n} rules by {threads} threads, first {first:?}");
}

fn cold_starts(ctx: &Ctx, rep: &mut Report) {
    let Ok(exe) = std::env::current_exe() else {
        return rep.inconclusive("no path to this program");
    };
    // More children at once than there are cores, so that threads are preempted in the middle.
    par_cases(ctx, rep, "cold", ctx.n(300, 20_000), |i, _, rep| {
        let seed = mix(ctx.seed.wrapping_mul(0x51ed).wrapping_add(i as u64)) >> 8;
        let out = match std::process::Command::new(&exe).args(["cold", &seed.to_string()]).env("RUST_BACKTRACE", "0").output() {
            Ok(o) => o,
            Err(e) => return rep.inconclusive(format!("could not start a child: {e}")),
        };
        let said = String::from_utf8_lossy(&out.stdout).trim().to_string();
        rep.case(true, seed);
        if said.starts_with("SAID") && out.status.success() {
            let n = said.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
            rep.add("cold_constructions", n);
            rep.sample(|| format!("process {seed}: {said}"));
        } else if said.starts_with("DIFFERS") {
            rep.violation("cold-start", said);
        } else {
            let err: String = String::from_utf8_lossy(&out.stderr).chars().take(500).collect();
            let key = if err.contains("panicked") { "cold-panic" } else { "" };
            if key.is_empty() {
                rep.inconclusive(format!("child {seed} ended with {}: {err}", out.status));
            } else {
                rep.violation(key, format!("child {seed}: {err}"));
            }
        }
    });
}

pub fn clone_from(x: &mut Rule, y: &Rule) {
    match (x, y) {
        (Rule::Leg(a), Rule::Leg(b)) => a.clone_from(b),
        (Rule::Jac(a), Rule::Jac(b)) => a.clone_from(b),
        (Rule::Lag(a), Rule::Lag(b)) => a.clone_from(b),
        (Rule::Her(a), Rule::Her(b)) => a.clone_from(b),
        (Rule::C1(a), Rule::C1(b)) => a.clone_from(b),
        (Rule::C2(a), Rule::C2(b)) => a.clone_from(b),
        (Rule::Mid(a), Rule::Mid(b)) => a.clone_from(b),
        (Rule::Simp(a), Rule::Simp(b)) => a.clone_from(b),
        (Rule::Trap(a), Rule::Trap(b)) => a.clone_from(b),
        (x, y) => *x = y.clone(),
    }
}

fn rule_debug(x: &Rule, alt: bool) -> String {
    macro_rules! f {
        ($q:expr) => {
            if alt { format!("{:#?}", $q) } else { format!("{:?}", $q) }
        };
    }
    match x {
        Rule::Leg(q) => f!(q),
        Rule::Jac(q) => f!(q),
        Rule::Lag(q) => f!(q),
        Rule::Her(q) => f!(q),
        Rule::C1(q) => f!(q),
        Rule::C2(q) => f!(q),
        Rule::Mid(q) => f!(q),
        Rule::Simp(q) => f!(q),
        Rule::Trap(q) => f!(q),
    }
}
