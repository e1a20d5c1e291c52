//! C15 (serde, rkyv, zerocopy) and the part of C12 that needs these features.

// One of each pair of probe traits is not used as long as all traits are there.
#![allow(dead_code)]

use crate::p_value::{gen_any_f64, valid};
use crate::rules::*;
use crate::util::*;
use gauss_quad::*;
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::fmt::Debug;
use std::marker::PhantomData;

// A missing trait has to be seen when the program runs, not when it is compiled. Method lookup
// prefers the implementation for `Probe<T>`, which exists only where `T` has the traits, over the
// one for `&Probe<T>`, which always exists.
struct Probe<T>(PhantomData<T>);

type Trip<T> = Option<Result<T, String>>;

trait SerdeYes<T> {
    fn json(&self, v: &T) -> Option<Result<String, String>>;
    fn unjson(&self, s: &str) -> Trip<T>;
    fn unjson_value(&self, v: Value) -> Trip<T>;
    fn unbincode(&self, b: &[u8]) -> Trip<T>;
    fn unron(&self, s: &str) -> Trip<T>;
    fn trips(&self, v: &T) -> Vec<(&'static str, Result<T, String>)>;
    fn bincode(&self, v: &T) -> Option<Vec<u8>>;
    fn ron(&self, v: &T) -> Option<String>;
}
trait SerdeNo<T> {
    fn json(&self, _: &T) -> Option<Result<String, String>> {
        None
    }
    fn unjson(&self, _: &str) -> Trip<T> {
        None
    }
    fn unjson_value(&self, _: Value) -> Trip<T> {
        None
    }
    fn unbincode(&self, _: &[u8]) -> Trip<T> {
        None
    }
    fn unron(&self, _: &str) -> Trip<T> {
        None
    }
    fn trips(&self, _: &T) -> Vec<(&'static str, Result<T, String>)> {
        vec![("serde", Err("Serialize or Deserialize is not implemented".into()))]
    }
    fn bincode(&self, _: &T) -> Option<Vec<u8>> {
        None
    }
    fn ron(&self, _: &T) -> Option<String> {
        None
    }
}

// Uses of a rule inside other values. The first two make serde buffer the content, the third one
// borrows, the last one puts several values next to each other.
#[derive(Serialize, Deserialize, Debug)]
#[serde(tag = "kind")]
enum Tagged<T> {
    Other { x: u8 },
    One(T),
}
#[derive(Serialize, Deserialize, Debug)]
#[serde(untagged)]
enum Untagged<T> {
    Text(String),
    One(T),
}
#[derive(Serialize, Deserialize, Debug)]
struct Holder<T> {
    id: u32,
    many: Vec<T>,
    maybe: Option<T>,
    none: Option<T>,
    pair: (T, f64),
}
#[derive(Serialize, Deserialize, Debug)]
enum External<T> {
    Empty,
    One(T),
    Two { a: T, b: T },
}

impl<T: Serialize + DeserializeOwned> SerdeYes<T> for Probe<T> {
    fn json(&self, v: &T) -> Option<Result<String, String>> {
        Some(serde_json::to_string(v).map_err(|e| e.to_string()))
    }
    fn unjson(&self, s: &str) -> Trip<T> {
        Some(serde_json::from_str(s).map_err(|e| e.to_string()))
    }
    fn unjson_value(&self, v: Value) -> Trip<T> {
        Some(serde_json::from_value(v).map_err(|e| e.to_string()))
    }
    fn unbincode(&self, b: &[u8]) -> Trip<T> {
        Some(bincode::deserialize(b).map_err(|e| e.to_string()))
    }
    fn unron(&self, s: &str) -> Trip<T> {
        Some(ron::from_str(s).map_err(|e| e.to_string()))
    }
    fn bincode(&self, v: &T) -> Option<Vec<u8>> {
        bincode::serialize(v).ok()
    }
    fn ron(&self, v: &T) -> Option<String> {
        ron::to_string(v).ok()
    }
    fn trips(&self, v: &T) -> Vec<(&'static str, Result<T, String>)> {
        fn js<A: Serialize, B: DeserializeOwned>(v: &A) -> Result<B, String> {
            let s = serde_json::to_string(v).map_err(|e| e.to_string())?;
            serde_json::from_str(&s).map_err(|e| format!("{e} for {}", &s[..s.len().min(200)]))
        }
        fn bi<A: Serialize, B: DeserializeOwned>(v: &A) -> Result<B, String> {
            let s = bincode::serialize(v).map_err(|e| e.to_string())?;
            bincode::deserialize(&s).map_err(|e| e.to_string())
        }
        fn ro<A: Serialize, B: DeserializeOwned>(v: &A) -> Result<B, String> {
            let s = ron::to_string(v).map_err(|e| e.to_string())?;
            ron::from_str(&s).map_err(|e| format!("{e} for {}", &s[..s.len().min(200)]))
        }
        let holder = || Holder { id: 7, many: vec![v, v], maybe: Some(v), none: None, pair: (v, 1.5) };
        let mut out = vec![
            ("json", js(v)),
            (
                "json pretty",
                serde_json::to_vec_pretty(v).map_err(|e| e.to_string()).and_then(|s| serde_json::from_slice(&s).map_err(|e| e.to_string())),
            ),
            (
                "json reader",
                serde_json::to_vec(v).map_err(|e| e.to_string()).and_then(|s| serde_json::from_reader(&s[..]).map_err(|e| e.to_string())),
            ),
            ("json value", serde_json::to_value(v).map_err(|e| e.to_string()).and_then(|s| serde_json::from_value(s).map_err(|e| e.to_string()))),
            ("bincode", bi(v)),
            ("ron", ro(v)),
            (
                "ron pretty",
                ron::ser::to_string_pretty(v, Default::default())
                    .map_err(|e| e.to_string())
                    .and_then(|s| ron::from_str(&s).map_err(|e| e.to_string())),
            ),
        ];
        out.push((
            "json untagged",
            js::<_, Untagged<T>>(&Untagged::One(v)).and_then(|x| match x {
                Untagged::One(t) => Ok(t),
                _ => Err("another variant".into()),
            }),
        ));
        for (name, r) in [
            ("json external", js::<_, External<T>>(&External::One(v))),
            ("bincode external", bi::<_, External<T>>(&External::One(v))),
            ("ron external", ro::<_, External<T>>(&External::One(v))),
        ] {
            out.push((
                name,
                r.and_then(|x| match x {
                    External::One(t) => Ok(t),
                    _ => Err("another variant".into()),
                }),
            ));
        }
        if let Ok(External::Two { a, b }) = js::<_, External<T>>(&External::Two { a: v, b: v }) {
            out.push(("json struct variant", Ok(a)));
            out.push(("json struct variant", Ok(b)));
        } else {
            out.push(("json struct variant", Err("failed".into())));
        }
        for (name, h) in [
            ("json holder", js::<_, Holder<T>>(&holder())),
            ("bincode holder", bi::<_, Holder<T>>(&holder())),
            ("ron holder", ro::<_, Holder<T>>(&holder())),
        ] {
            match h {
                Ok(h) => {
                    if h.id != 7 || h.many.len() != 2 || h.maybe.is_none() || h.none.is_some() || h.pair.1 != 1.5 {
                        out.push((name, Err("the surroundings changed".into())));
                    }
                    out.extend(h.many.into_iter().map(|t| (name, Ok(t))));
                    out.extend(h.maybe.into_iter().map(|t| (name, Ok(t))));
                    out.push((name, Ok(h.pair.0)));
                }
                Err(e) => out.push((name, Err(e))),
            }
        }
        out
    }
}
impl<T> SerdeNo<T> for &Probe<T> {}

/// For types that are maps, which can be put in an internally tagged enum.
trait TagYes<T> {
    fn tagged(&self, v: &T) -> Trip<T>;
}
trait TagNo<T> {
    fn tagged(&self, _: &T) -> Trip<T> {
        None
    }
}
impl<T: Serialize + DeserializeOwned> TagYes<T> for Probe<T> {
    fn tagged(&self, v: &T) -> Trip<T> {
        let s = match serde_json::to_string(&Tagged::One(v)) {
            Ok(s) => s,
            Err(e) => return Some(Err(e.to_string())),
        };
        Some(match serde_json::from_str::<Tagged<T>>(&s) {
            Ok(Tagged::One(t)) => Ok(t),
            Ok(Tagged::Other { x }) => Err(format!("another variant {x}")),
            Err(e) => Err(e.to_string()),
        })
    }
}
impl<T> TagNo<T> for &Probe<T> {}

trait RkyvYes<T> {
    fn rkyv(&self, v: &T) -> Trip<T>;
}
trait RkyvNo<T> {
    fn rkyv(&self, _: &T) -> Trip<T> {
        None
    }
}
#[cfg(feature = "f_rkyv")]
mod rk {
    use super::*;
    use rkyv::api::high::{HighDeserializer, HighSerializer};
    use rkyv::rancor;
    use rkyv::ser::allocator::ArenaHandle;
    use rkyv::util::AlignedVec;
    impl<T> RkyvYes<T> for Probe<T>
    where
        T: rkyv::Archive + for<'a> rkyv::Serialize<HighSerializer<AlignedVec, ArenaHandle<'a>, rancor::Error>>,
        T::Archived: rkyv::Portable + rkyv::Deserialize<T, HighDeserializer<rancor::Error>>,
    {
        fn rkyv(&self, v: &T) -> Trip<T> {
            let bytes = match rkyv::to_bytes::<rancor::Error>(v) {
                Ok(b) => b,
                Err(e) => return Some(Err(e.to_string())),
            };
            // Moved to another aligned place, so that positions must be relative.
            let mut other = AlignedVec::<16>::with_capacity(bytes.len() + 64);
            other.extend_from_slice(&bytes);
            drop(bytes);
            let a = unsafe { rkyv::access_unchecked::<T::Archived>(&other) };
            Some(rkyv::deserialize::<T, rancor::Error>(a).map_err(|e: rancor::Error| e.to_string()))
        }
    }
}
impl<T> RkyvNo<T> for &Probe<T> {}

macro_rules! zc_probe {
    ($yes:ident, $no:ident, $f:ident, $tr:path) => {
        trait $yes {
            fn $f(&self) -> bool;
        }
        trait $no {
            fn $f(&self) -> bool {
                false
            }
        }
        impl<T: $tr> $yes for Probe<T> {
            fn $f(&self) -> bool {
                true
            }
        }
        impl<T> $no for &Probe<T> {}
    };
}
zc_probe!(KlYes, KlNo, known_layout, zerocopy::KnownLayout);
zc_probe!(ImYes, ImNo, immutable, zerocopy::Immutable);
zc_probe!(IbYes, IbNo, into_bytes, zerocopy::IntoBytes);
zc_probe!(FbYes, FbNo, from_bytes, zerocopy::FromBytes);

trait TryYes {
    fn try_read(&self, bytes: &[u8]) -> Option<FiniteAboveNegOneF64>;
}
trait TryNo {
    fn try_read(&self, _: &[u8]) -> Option<FiniteAboveNegOneF64> {
        None
    }
}
impl<T: zerocopy::TryFromBytes + Copy> TryYes for Probe<T>
where
    FiniteAboveNegOneF64: From<T>,
{
    fn try_read(&self, bytes: &[u8]) -> Option<FiniteAboveNegOneF64> {
        T::try_read_from_bytes(bytes).ok().map(|x| x.into())
    }
}
impl<T> TryNo for &Probe<T> {}

trait ZeroYes {
    fn zeroed(&self) -> Option<FiniteAboveNegOneF64>;
}
trait ZeroNo {
    fn zeroed(&self) -> Option<FiniteAboveNegOneF64> {
        None
    }
}
impl<T: zerocopy::FromZeros> ZeroYes for Probe<T>
where
    FiniteAboveNegOneF64: From<T>,
{
    fn zeroed(&self) -> Option<FiniteAboveNegOneF64> {
        Some(T::new_zeroed().into())
    }
}
impl<T> ZeroNo for &Probe<T> {}

trait BytesYes<T> {
    fn bytes(&self, v: &T) -> Option<Vec<u8>>;
}
trait BytesNo<T> {
    fn bytes(&self, _: &T) -> Option<Vec<u8>> {
        None
    }
}
impl<T: zerocopy::IntoBytes + zerocopy::Immutable> BytesYes<T> for Probe<T> {
    fn bytes(&self, v: &T) -> Option<Vec<u8>> {
        Some(v.as_bytes().to_vec())
    }
}
impl<T> BytesNo<T> for &Probe<T> {}

// ---------------------------------------------------------------- helpers

fn same_bits(x: &[(f64, f64)], y: &[(f64, f64)]) -> bool {
    x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0.to_bits() == q.0.to_bits() && p.1.to_bits() == q.1.to_bits())
}

/// All that can be observed of a rule: kind, degree, exponents, pairs.
trait Obs: PartialEq + Debug + Clone {
    fn exps(&self) -> Vec<f64> {
        vec![]
    }
    fn ps(&self) -> &[(f64, f64)] {
        &[]
    }
    fn deg(&self) -> usize;
    fn integ(&self) -> f64;
}
macro_rules! obs {
    ($t:ty, $integ:expr $(, $e:ident)*) => {
        impl Obs for $t {
            fn exps(&self) -> Vec<f64> {
                vec![$(self.$e().get()),*]
            }
            fn ps(&self) -> &[(f64, f64)] {
                self.as_node_weight_pairs()
            }
            fn deg(&self) -> usize {
                self.degree()
            }
            fn integ(&self) -> f64 {
                let g: fn(&$t) -> f64 = $integ;
                g(self)
            }
        }
    };
}
obs!(GaussLegendre, |r| r.integrate(-0.3, 1.7, |x| x * x + 0.3));
obs!(GaussJacobi, |r| r.integrate(-0.3, 1.7, |x| x * x + 0.3), alpha, beta);
obs!(GaussLaguerre, |r| r.integrate(|x| x * x + 0.3), alpha);
obs!(GaussHermite, |r| r.integrate(|x| x * x + 0.3));
obs!(GaussChebyshevFirstKind, |r| r.integrate(-0.3, 1.7, |x| x * x + 0.3));
obs!(GaussChebyshevSecondKind, |r| r.integrate(-0.3, 1.7, |x| x * x + 0.3));
macro_rules! obs_nc {
    ($t:ty) => {
        impl Obs for $t {
            fn deg(&self) -> usize {
                self.degree().get() as usize
            }
            fn integ(&self) -> f64 {
                if self.deg() < 10_000 { self.integrate(-0.3, 1.7, |x| x * x + 0.3) } else { 0.0 }
            }
        }
    };
}
obs_nc!(Midpoint);
obs_nc!(Simpson);
obs_nc!(Trapezoid);

fn same<T: Obs>(x: &T, y: &T) -> bool {
    let ex: Vec<u64> = x.exps().iter().map(|v| v.to_bits()).collect();
    let ey: Vec<u64> = y.exps().iter().map(|v| v.to_bits()).collect();
    x.deg() == y.deg() && ex == ey && same_bits(x.ps(), y.ps()) && x == y && x.integ().to_bits() == y.integ().to_bits()
}

/// What every value of the types guarantees: exponents are valid, a degree is not 0.
fn sound<T: Obs>(kind: usize, x: &T) -> bool {
    x.exps().iter().all(|v| valid(*v)) && if kind < 6 { x.deg() == x.ps().len() } else { x.deg() > 0 }
}

/// The shape a value has in JSON, written down from the released version.
fn shape<T: Obs>(kind: usize, x: &T) -> Value {
    let pairs: Vec<[f64; 2]> = x.ps().iter().map(|p| [p.0, p.1]).collect();
    let e = x.exps();
    match kind {
        1 => json!({"node_weight_pairs": pairs, "alpha": e[0], "beta": e[1]}),
        2 => json!({"node_weight_pairs": pairs, "alpha": e[0]}),
        0 | 3 | 4 | 5 => json!({"node_weight_pairs": pairs}),
        _ => json!({"degree": x.deg()}),
    }
}

/// Makes JSON data invalid in a way that must be rejected; says how.
fn spoil(r: &mut Rng, kind: usize, v: &mut Value) -> String {
    let o = v.as_object_mut().expect("object");
    let keys: Vec<String> = o.keys().cloned().collect();
    let key = keys[r.us(0, keys.len() - 1)].clone();
    if r.chance(0.2) {
        o.remove(&key);
        return format!("{key} removed");
    }
    let wrong_any = [json!(null), json!("1"), json!({}), json!(true), json!({"a": 1.0})];
    if key == "node_weight_pairs" {
        let bad_pair = [
            json!([1.0]),
            json!([]),
            json!([1.0, 2.0, 3.0]),
            json!([null, 1.0]),
            json!([1.0, "x"]),
            json!(1.0),
            json!(null),
            json!({"x": 1.0, "w": 1.0}),
            json!([[1.0, 1.0], [1.0, 1.0]]),
        ];
        let a = o.get_mut(&key).expect("pairs");
        if r.chance(0.3) || a.as_array().is_none_or(|a| a.is_empty()) {
            let w = if r.chance(0.2) { json!(1.0) } else { wrong_any[r.us(0, wrong_any.len() - 1)].clone() };
            *a = w.clone();
            return format!("pairs are {w}");
        }
        let a = a.as_array_mut().expect("array");
        let i = r.us(0, a.len() - 1);
        let b = bad_pair[r.us(0, bad_pair.len() - 1)].clone();
        a[i] = b.clone();
        return format!("pair {i} is {b}");
    }
    let bad = if kind >= 6 {
        match r.below(4) {
            0 => json!(0),
            1 => json!(-(r.us(1, 1 << 33) as i64)),
            2 => json!(u32::MAX as u64 + 1 + (r.u64() >> r.us(1, 62))),
            _ => json!(r.range(0.1, 5.5).floor() + 0.5),
        }
    } else {
        match r.below(5) {
            0 => json!(-1.0),
            1 => json!(-1),
            2 => json!(-1.0 - r.log_range(2.3e-16, 1e300)),
            3 => json!(-(r.us(1, usize::MAX >> 2) as i64)),
            _ => json!(f64::MIN),
        }
    };
    let bad = if r.chance(0.3) { wrong_any[r.us(0, wrong_any.len() - 1)].clone() } else { bad };
    if kind < 6 && bad == json!(true) {
        o.insert(key.clone(), json!([]));
        return format!("{key} is []");
    }
    o.insert(key.clone(), bad.clone());
    format!("{key} is {bad}")
}

fn cut(s: &str, n: usize) -> &str {
    match s.char_indices().nth(n) {
        Some((i, _)) => &s[..i],
        None => s,
    }
}

/// Everything C15 says about one value, as a macro since the probes need a concrete type.
macro_rules! value_checks {
    ($rep:expr, $r:expr, $what:expr, $t:ty, $x:expr, $kind:expr, $same:expr, $shape:expr) => {{
        let (rep, r, what): (&mut Report, &mut Rng, &dyn Fn() -> String) = ($rep, $r, $what);
        let x: &$t = $x;
        let p = Probe::<$t>(PhantomData);
        let p = &p;
        let same: &dyn Fn(&$t, &$t) -> bool = $same;
        for (name, y) in p.trips(x) {
            rep.add("round_trips", 1);
            match y {
                Ok(y) => rep.check(same(x, &y), "round-trip", || format!("{} through {name} became {}", what(), cut(&format!("{y:?}"), 300))),
                Err(e) => rep.check(false, "round-trip", || format!("{} through {name}: {e}", what())),
            };
        }
        // The shape in JSON, and that shape (with the fields in any order, other spacing and other
        // fields next to them) is understood.
        if let Some(Ok(text)) = p.json(x) {
            let want: Value = $shape;
            let got: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
            rep.check(got == want, "json-shape", || format!("{} is {} instead of {}", what(), cut(&text, 300), cut(&want.to_string(), 300)));
            if let Some(back) = p.unjson_value(want.clone()) {
                rep.check(back.as_ref().is_ok_and(|y| same(x, y)), "json-shape", || {
                    format!("{}: {} is read as {}", what(), cut(&want.to_string(), 300), cut(&format!("{back:?}"), 300))
                });
            }
            if let Value::Object(o) = &want {
                let mut fields: Vec<(&String, &Value)> = o.iter().collect();
                for i in (1..fields.len()).rev() {
                    fields.swap(i, r.us(0, i));
                }
                let s: Vec<String> = fields.iter().map(|(k, v)| format!(" {k:?} :\n{v} ")).collect();
                let s = format!("{{{}}}", s.join(","));
                if let Some(back) = p.unjson(&s) {
                    rep.check(back.as_ref().is_ok_and(|y| same(x, y)), "json-order", || {
                        format!("{}: {} is read as {}", what(), cut(&s, 300), cut(&format!("{back:?}"), 300))
                    });
                }
            }
        }
        #[cfg(feature = "f_rkyv")]
        match p.rkyv(x) {
            None => {
                rep.check(false, "rkyv-missing", || format!("{} has no rkyv traits", stringify!($t)));
            }
            Some(y) => {
                rep.add("rkyv_round_trips", 1);
                rep.check(y.as_ref().is_ok_and(|y| same(x, y)), "rkyv", || format!("{} through rkyv became {}", what(), cut(&format!("{y:?}"), 300)));
            }
        }
    }};
}

macro_rules! rule_checks {
    ($rep:expr, $r:expr, $spec:expr, $t:ty, $x:expr) => {{
        let (rep, r, spec): (&mut Report, &mut Rng, Spec) = ($rep, $r, $spec);
        let x: &$t = $x;
        let kind = spec.kind();
        let what = || format!("{spec:?}");
        value_checks!(rep, r, &what, $t, x, kind, &|a, b| same::<$t>(a, b), shape(kind, x));
        let p = Probe::<$t>(PhantomData);
        let p = &p;
        if let Some(y) = p.tagged(x) {
            rep.check(y.as_ref().is_ok_and(|y| same(x, y)), "round-trip", || format!("{spec:?} in a tagged enum became {}", cut(&format!("{y:?}"), 300)));
        }
        // Invalid data is rejected.
        for _ in 0..6 {
            let mut v = shape(kind, x);
            let how = spoil(r, kind, &mut v);
            rep.add("invalid_inputs", 1);
            let text = v.to_string();
            if let Some(y) = p.unjson(&text) {
                rep.check(y.is_err(), "accepts-invalid", || format!("{spec:?} with {how}: accepted as {}", cut(&format!("{y:?}"), 300)));
            }
            if let Some(y) = p.unjson_value(v) {
                rep.check(y.is_err(), "accepts-invalid", || format!("{spec:?} value with {how}: accepted as {}", cut(&format!("{y:?}"), 300)));
            }
        }
        if let Some(Ok(text)) = p.json(x) {
            // A prefix of the text is never valid.
            let k = r.us(0, text.len() - 1);
            if let Some(y) = p.unjson(&text[..k]) {
                rep.check(y.is_err(), "accepts-truncated", || format!("{spec:?}: {k} bytes of the JSON were accepted"));
            }
            // Random damage: anything but a panic, and what is accepted is sound.
            let mut b = text.into_bytes();
            for _ in 0..r.us(1, 3) {
                let i = r.us(0, b.len() - 1);
                b[i] = r.pick(b"0123456789-+.eE[]{},:\"naul tf");
            }
            if let Ok(s) = String::from_utf8(b)
                && let Some(Ok(y)) = p.unjson(&s)
            {
                rep.add("damaged_but_accepted", 1);
                rep.check(sound(kind, &y), "unsound", || format!("{} was accepted as {}", cut(&s, 300), cut(&format!("{y:?}"), 300)));
            }
        }
        if let Some(mut b) = p.bincode(x) {
            let k = r.us(0, b.len() - 1);
            if let Some(y) = p.unbincode(&b[..k]) {
                rep.check(y.is_err(), "accepts-truncated", || format!("{spec:?}: {k} of {} bytes of bincode were accepted", b.len()));
            }
            for _ in 0..r.us(1, 3) {
                let i = if r.chance(0.5) { r.us(0, b.len() - 1) } else { r.us(b.len().saturating_sub(16), b.len() - 1) };
                b[i] = if r.chance(0.5) { r.u64() as u8 } else { r.pick(&[0, 0xff, 0x7f, 0x80, 0xf0, 0xbf]) };
            }
            if let Some(Ok(y)) = p.unbincode(&b) {
                rep.add("damaged_but_accepted", 1);
                rep.check(sound(kind, &y), "unsound", || format!("damaged bincode of {spec:?} was accepted as {}", cut(&format!("{y:?}"), 300)));
            }
        }
        if let Some(s) = p.ron(x) {
            let k = r.us(0, s.len() - 1);
            if let Some(y) = p.unron(&s[..k]) {
                rep.check(y.is_err(), "accepts-truncated", || format!("{spec:?}: {k} bytes of RON were accepted"));
            }
        }
        // Invalid exponents in the formats that can hold them.
        let nexp = x.exps().len();
        if nexp > 0 {
            let which = r.us(0, nexp - 1);
            let bad = loop {
                let v = gen_any_f64(r);
                if !valid(v) {
                    break v;
                }
            };
            if let Some(mut b) = p.bincode(x) {
                // Fixed-size little-endian floats; the exponents are found by their bits. Where
                // the layout is another one nothing is asked.
                let want = x.exps()[which].to_bits().to_le_bytes();
                let tail = b.len() - 8 * nexp + 8 * which;
                if b[tail..tail + 8] == want {
                    b[tail..tail + 8].copy_from_slice(&bad.to_bits().to_le_bytes());
                    rep.add("invalid_inputs", 1);
                    if let Some(y) = p.unbincode(&b) {
                        rep.check(y.is_err(), "accepts-invalid", || format!("{spec:?} with exponent {bad:e} in bincode was accepted as {}", cut(&format!("{y:?}"), 300)));
                    }
                }
            }
            let name = ["alpha", "beta"][which];
            if let Some(s) = p.ron(x)
                && let Some(k) = s.find(&format!("{name}:("))
            {
                let start = k + name.len() + 2;
                if let Some(len) = s[start..].find(')') {
                    let t = format!("{}{}{}", &s[..start], ron::to_string(&bad).unwrap_or_default(), &s[start + len..]);
                    rep.add("invalid_inputs", 1);
                    if let Some(y) = p.unron(&t) {
                        rep.check(y.is_err(), "accepts-invalid", || format!("{t}: accepted as {}", cut(&format!("{y:?}"), 300)));
                    }
                }
            }
        } else if kind >= 6 {
            for bad in [0u32.to_le_bytes().to_vec(), vec![], vec![1, 2, 3]] {
                rep.add("invalid_inputs", 1);
                if let Some(y) = p.unbincode(&bad) {
                    rep.check(y.is_err(), "accepts-invalid", || format!("{spec:?} from bincode {bad:?} was accepted as {y:?}"));
                }
            }
            for bad in ["(degree:0)", "(degree:-1)", "(degree:4294967296)", "(degree:1.5)", "()", "(degree:\"1\")", "(degree:Some(1))"] {
                if let Some(y) = p.unron(bad) {
                    rep.check(y.is_err(), "accepts-invalid", || format!("{spec:?} from {bad} was accepted as {y:?}"));
                }
            }
        }
    }};
}

macro_rules! zerocopy_check {
    ($rep:expr, $($t:ty),*) => {$(
        let p = Probe::<$t>(PhantomData);
        let p = &p;
        $rep.case(true, stringify!($t));
        $rep.check(p.known_layout(), "zerocopy-missing", || format!("{} does not implement zerocopy::KnownLayout", stringify!($t)));
    )*};
}

pub fn c15(ctx: &Ctx, rep: &mut Report) {
    rep.rule("rules of all kinds, with random degree, exponents and any other f64 as exponent where construction allows it, through JSON (4 ways), bincode and RON, alone and inside enums and structs, and through rkyv; spoiled, truncated and damaged inputs. Non-trivial: a rule not seen before.");
    par_cases(ctx, rep, "round-trips", ctx.n(12_000, 200_000), |_, r, rep| {
        let spec = match r.below(10) {
            // degrees of the rules without storage up to the largest
            0 => {
                let d = match r.below(3) {
                    0 => u32::MAX - r.below(3) as u32,
                    1 => 1 + r.below(5) as u32,
                    _ => (1u64 << r.us(0, 31)) as u32,
                };
                r.pick(&[Spec::Mid(d), Spec::Simp(d), Spec::Trap(d)])
            }
            1 => {
                let (a, b) = (gen_exponent(r, 100.0), gen_exponent(r, 100.0));
                if r.chance(0.5) { Spec::Jac(r.us(1, 6), a, b) } else { Spec::Lag(r.us(1, 6), a) }
            }
            _ => {
                let m = if r.chance(0.1) { 300 } else { 24 };
                gen_spec(r, m, m.min(40))
            }
        };
        rep.case(true, spec.bits());
        rep.sample(|| format!("{spec:?}"));
        match spec.build() {
            Rule::Leg(x) => rule_checks!(rep, r, spec, GaussLegendre, &x),
            Rule::Jac(x) => rule_checks!(rep, r, spec, GaussJacobi, &x),
            Rule::Lag(x) => rule_checks!(rep, r, spec, GaussLaguerre, &x),
            Rule::Her(x) => rule_checks!(rep, r, spec, GaussHermite, &x),
            Rule::C1(x) => rule_checks!(rep, r, spec, GaussChebyshevFirstKind, &x),
            Rule::C2(x) => rule_checks!(rep, r, spec, GaussChebyshevSecondKind, &x),
            Rule::Mid(x) => rule_checks!(rep, r, spec, Midpoint, &x),
            Rule::Simp(x) => rule_checks!(rep, r, spec, Simpson, &x),
            Rule::Trap(x) => rule_checks!(rep, r, spec, Trapezoid, &x),
        }
    });
    // A rule keeps its serialized form whatever has been done with it in between.
    par_cases(ctx, rep, "changed-degree", ctx.n(2_000, 20_000), |_, r, rep| {
        let (a, b) = (r.us(1, 1000) as u32, r.us(1, 1000) as u32);
        rep.case(true, (a, b));
        let mut m = Midpoint::new(nz32(a));
        m.change_degree(nz32(b));
        rule_checks!(rep, r, Spec::Mid(b), Midpoint, &m);
        let mut m = Simpson::new(nz32(a));
        m.change_degree(nz32(b));
        rule_checks!(rep, r, Spec::Simp(b), Simpson, &m);
        let mut m = Trapezoid::new(nz32(a));
        m.change_degree(nz32(b));
        rule_checks!(rep, r, Spec::Trap(b), Trapezoid, &m);
        // and after deserialization it can be changed again
        if let Some(Ok(mut m)) = (&Probe::<Simpson>(PhantomData)).unjson(&format!("{{\"degree\":{a}}}")) {
            m.change_degree(nz32(b));
            rep.check(m == Simpson::new(nz32(b)), "changed-degree", || format!("Simpson {a} to {b}: {m:?}"));
        }
        let n = r.us(1, 12);
        let j = GaussJacobi::from(GaussLegendre::new(nz(n)));
        rule_checks!(rep, r, Spec::Jac(n, 0.0, 0.0), GaussJacobi, &j);
        let j = GaussJacobi::from(GaussChebyshevFirstKind::new(nz(n)));
        rule_checks!(rep, r, Spec::Jac(n, -0.5, -0.5), GaussJacobi, &j);
        let j = GaussJacobi::from(GaussChebyshevSecondKind::new(nz(n)));
        rule_checks!(rep, r, Spec::Jac(n, 0.5, 0.5), GaussJacobi, &j);
    });
    par_cases(ctx, rep, "exponent", ctx.n(20_000, 400_000), |_, r, rep| {
        let v = loop {
            let v = gen_any_f64(r);
            if valid(v) {
                break v;
            }
        };
        rep.case(true, v.to_bits());
        let x = fin(v);
        let what = || format!("exponent {v:e}");
        let bits = |a: &FiniteAboveNegOneF64, b: &FiniteAboveNegOneF64| a.get().to_bits() == b.get().to_bits();
        value_checks!(rep, r, &what, FiniteAboveNegOneF64, &x, 9, &bits, json!(v));
    });
    if ctx.wants("zerocopy") {
        rep.set_cur("zerocopy", 0);
        zerocopy_check!(
            rep,
            GaussLegendre,
            GaussJacobi,
            GaussLaguerre,
            GaussHermite,
            GaussChebyshevFirstKind,
            GaussChebyshevSecondKind,
            Midpoint,
            Simpson,
            Trapezoid,
            FiniteAboveNegOneF64
        );
        let p = Probe::<FiniteAboveNegOneF64>(PhantomData);
        let p = &p;
        rep.check(p.immutable() && p.into_bytes(), "zerocopy-missing", || "FiniteAboveNegOneF64 does not implement zerocopy::Immutable and IntoBytes".into());
        for v in [0.0, -0.0, 1.5, -0.9999999999999999, f64::MAX, 5e-324] {
            let b = p.bytes(&fin(v));
            rep.check(b.is_none_or(|b| b == v.to_ne_bytes()), "zerocopy-bytes", || format!("bytes of {v:e}"));
        }
    }
}

/// C12: deserialization gives valid values only, and exactly the value that was given.
pub fn c12(ctx: &Ctx, rep: &mut Report) {
    let p = Probe::<FiniteAboveNegOneF64>(PhantomData);
    let p = &p;
    let check = |rep: &mut Report, got: Trip<FiniteAboveNegOneF64>, v: f64, from: &str| {
        if let Some(got) = got {
            let ok = match &got {
                Ok(x) => valid(v) && x.get().to_bits() == v.to_bits(),
                Err(_) => !valid(v),
            };
            rep.check(ok, "deserialize", || format!("{v:e} ({:#x}) from {from}: {got:?}", v.to_bits()));
        }
    };
    par_cases(ctx, rep, "serde", ctx.n(100_000, 2_000_000), |_, r, rep| {
        let v = gen_any_f64(r);
        rep.case(true, v.to_bits());
        check(rep, p.unbincode(&v.to_bits().to_le_bytes()), v, "bincode");
        let raw = ron::to_string(&v).expect("ron");
        // The name may be given, and RON can unwrap newtypes.
        check(rep, p.unron(&format!("({raw})")), v, "ron");
        if v.is_finite() {
            let text = serde_json::to_string(&v).expect("json");
            check(rep, p.unjson(&text), v, "json");
            check(rep, p.unjson_value(json!(v)), v, "a JSON value");
        }
        // whole numbers
        let i = (r.u64() >> r.us(0, 63)) as i64 * if r.chance(0.5) { -1 } else { 1 };
        check(rep, p.unjson(&i.to_string()).map(|x| x.map(|y| if i == 0 { fin(0.0) } else { y })), i as f64, "a whole JSON number");
        if !v.is_nan() {
            // other data
            let bad = r.pick(&["null", "\"0.5\"", "[]", "[0.5,0.5]", "{}", "true", "", "1e999", "-1e999", "NaN", "inf", "Infinity"]);
            if let Some(y) = p.unjson(bad) {
                rep.check(y.is_err(), "deserialize", || format!("{bad}: {y:?}"));
            }
        }
    });
    par_cases(ctx, rep, "zerocopy-bytes", ctx.n(20_000, 200_000), |_, r, rep| {
        let v = gen_any_f64(r);
        rep.case(true, v.to_bits());
        if let Some(x) = p.try_read(&v.to_ne_bytes())
            && !valid(v)
        {
            rep.known("zerocopy-try-from-bytes", || format!("try_read_from_bytes of {v:e} gives {x:?}"));
        } else if let Some(x) = p.try_read(&v.to_ne_bytes()) {
            rep.check(x.get().to_bits() == v.to_bits(), "zerocopy", || format!("try_read_from_bytes of {v:e} gives {x:?}"));
        }
    });
    if ctx.wants("zerocopy") {
        rep.set_cur("zerocopy", 0);
        rep.check(!p.from_bytes(), "zerocopy-from-bytes", || "FiniteAboveNegOneF64 implements zerocopy::FromBytes, so it can hold anything".into());
        if let Some(z) = p.zeroed() {
            rep.check(z.get() == 0.0, "zerocopy", || format!("new_zeroed gives {z:?}"));
        }
    }
}
