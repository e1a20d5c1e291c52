//! Which traits do the types of gauss-quad implement? Included by the monitors and by the program beside it.

/// Is `$t` a `$bound`? An inherent constant, if its bounds hold, takes precedence over that of a trait.
macro_rules! has {
    ($t:ty, [$($bound:tt)+]) => {{
        #[allow(dead_code)]
        struct Probe<T>(core::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            const HAS: bool = false;
        }
        impl<T> No for Probe<T> {}
        #[allow(dead_code)]
        impl<T: $($bound)+> Probe<T> {
            const HAS: bool = true;
        }
        <Probe<$t>>::HAS
    }};
}

macro_rules! table {
    ($out:ident, $prop:literal, $bound:tt, $($t:ty),+ $(,)?) => {
        $($out.push(($prop, stringify!($t), stringify!($bound), has!($t, $bound)));)+
    };
}

macro_rules! rules {
    ($out:ident, $prop:literal, $($bound:tt)+) => {
        table!($out, $prop, [$($bound)+], GaussLegendre, GaussJacobi, GaussLaguerre, GaussHermite, GaussChebyshevFirstKind,
            GaussChebyshevSecondKind, Midpoint, Trapezoid, Simpson);
    };
}

macro_rules! iterators {
    ($out:ident, $prop:literal, $($bound:tt)+) => {
        table!($out, $prop, [$($bound)+], legendre::GaussLegendreNodes<'static>, legendre::GaussLegendreWeights<'static>,
            legendre::GaussLegendreIter<'static>, legendre::GaussLegendreIntoIter, jacobi::GaussJacobiNodes<'static>,
            jacobi::GaussJacobiWeights<'static>, jacobi::GaussJacobiIter<'static>, jacobi::GaussJacobiIntoIter,
            laguerre::GaussLaguerreNodes<'static>, laguerre::GaussLaguerreWeights<'static>, laguerre::GaussLaguerreIter<'static>,
            laguerre::GaussLaguerreIntoIter, hermite::GaussHermiteNodes<'static>, hermite::GaussHermiteWeights<'static>,
            hermite::GaussHermiteIter<'static>, hermite::GaussHermiteIntoIter, chebyshev::GaussChebyshevFirstKindNodes<'static>,
            chebyshev::GaussChebyshevFirstKindWeights<'static>, chebyshev::GaussChebyshevFirstKindIter<'static>,
            chebyshev::GaussChebyshevFirstKindIntoIter, chebyshev::GaussChebyshevSecondKindNodes<'static>,
            chebyshev::GaussChebyshevSecondKindWeights<'static>, chebyshev::GaussChebyshevSecondKindIter<'static>,
            chebyshev::GaussChebyshevSecondKindIntoIter, midpoint::MidpointIter, trapezoid::TrapezoidIter, simpson::SimpsonIter);
    };
}

/// (property, type, trait, whether the type implements the trait)
pub fn table() -> Vec<(&'static str, &'static str, &'static str, bool)> {
    use gauss_quad::*;
    let mut t = vec![];
    rules!(t, "C11", Send);
    rules!(t, "C11", Sync);
    iterators!(t, "C11", Send);
    iterators!(t, "C11", Sync);
    for_exponent_and_errors(&mut t);
    iterators!(t, "C13", ExactSizeIterator);
    iterators!(t, "C13", DoubleEndedIterator);
    iterators!(t, "C13", core::iter::FusedIterator);
    iterators!(t, "C13", Clone);
    iterators!(t, "C13", core::fmt::Debug);
    rules!(t, "C13", IntoIterator<Item: PartialEq>);
    table!(t, "C13", [IntoIterator<Item: PartialEq>], &'static GaussLegendre, &'static GaussJacobi, &'static GaussLaguerre,
        &'static GaussHermite, &'static GaussChebyshevFirstKind, &'static GaussChebyshevSecondKind, &'static Midpoint,
        &'static Trapezoid, &'static Simpson);
    table!(t, "C14", [Into<GaussJacobi>], GaussLegendre, GaussChebyshevFirstKind, GaussChebyshevSecondKind);
    rules!(t, "C20", Clone);
    rules!(t, "C20", PartialEq);
    rules!(t, "C20", core::fmt::Debug);
    table!(t, "C20", [From<core::num::NonZeroU32>], Midpoint, Trapezoid, Simpson);
    #[cfg(feature = "f_serde")]
    {
        rules!(t, "C15", serde::Serialize);
        rules!(t, "C15", for<'a> serde::Deserialize<'a>);
        rules!(t, "C15", rkyv::Archive);
        rules!(t, "C15", for<'a> rkyv::Serialize<Archiver<'a>>);
        rules!(t, "C15", rkyv::Archive<Archived: rkyv::Deserialize<T, rkyv::api::high::HighDeserializer<rkyv::rancor::Error>>>);
        rules!(t, "C15", zerocopy::KnownLayout);
        table!(t, "C15", [serde::Serialize], FiniteAboveNegOneF64);
        table!(t, "C15", [for<'a> serde::Deserialize<'a>], FiniteAboveNegOneF64);
        table!(t, "C15", [for<'a> rkyv::Serialize<Archiver<'a>>], FiniteAboveNegOneF64);
        table!(t, "C15", [rkyv::Archive<Archived: rkyv::Deserialize<T, rkyv::api::high::HighDeserializer<rkyv::rancor::Error>>>],
            FiniteAboveNegOneF64);
        table!(t, "C15", [zerocopy::KnownLayout], FiniteAboveNegOneF64);
        table!(t, "C15", [zerocopy::Immutable], FiniteAboveNegOneF64);
        table!(t, "C15", [zerocopy::FromZeros], FiniteAboveNegOneF64);
        table!(t, "C15", [zerocopy::IntoBytes], FiniteAboveNegOneF64);
    }
    t
}

#[cfg(feature = "f_serde")]
type Archiver<'a> =
    rkyv::api::high::HighSerializer<rkyv::util::AlignedVec, rkyv::ser::allocator::ArenaHandle<'a>, rkyv::rancor::Error>;

fn for_exponent_and_errors(t: &mut Vec<(&'static str, &'static str, &'static str, bool)>) {
    use gauss_quad::*;
    table!(t, "C11", [Send], FiniteAboveNegOneF64, InfNanNegOneOrLessError, ParseFiniteAboveNegOneF64Error);
    table!(t, "C11", [Sync], FiniteAboveNegOneF64, InfNanNegOneOrLessError, ParseFiniteAboveNegOneF64Error);
    table!(t, "C12", [Copy], FiniteAboveNegOneF64);
    table!(t, "C12", [PartialOrd], FiniteAboveNegOneF64);
    table!(t, "C12", [Default], FiniteAboveNegOneF64);
    table!(t, "C12", [core::fmt::Debug], FiniteAboveNegOneF64);
    table!(t, "C12", [core::fmt::Display], FiniteAboveNegOneF64);
    table!(t, "C12", [core::fmt::LowerExp], FiniteAboveNegOneF64);
    table!(t, "C12", [core::fmt::UpperExp], FiniteAboveNegOneF64);
    table!(t, "C12", [core::str::FromStr<Err = ParseFiniteAboveNegOneF64Error>], FiniteAboveNegOneF64);
    table!(t, "C12", [TryFrom<f64, Error = InfNanNegOneOrLessError>], FiniteAboveNegOneF64);
    table!(t, "C12", [Into<f64>], FiniteAboveNegOneF64);
    table!(t, "C12", [core::error::Error], InfNanNegOneOrLessError, ParseFiniteAboveNegOneF64Error);
    table!(t, "C12", [Eq], InfNanNegOneOrLessError, ParseFiniteAboveNegOneF64Error);
    table!(t, "C12", [Clone], InfNanNegOneOrLessError, ParseFiniteAboveNegOneF64Error);
}
