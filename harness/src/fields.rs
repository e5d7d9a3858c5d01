//! Fields obtained through the library's derive macros, over every supported width, plus helpers.
use algebra::derive::{DecomposableField, FheField, Field, Prime, NTT};
use algebra::{Field, NTTField, NTTPolynomial, Polynomial};
use std::marker::PhantomData;

macro_rules! fields {
    ($($name:ident($T:ident) = $m:tt;)*) => {$(
        #[derive(Field, DecomposableField, FheField, Prime, NTT)]
        #[modulus = $m]
        pub struct $name($T);
    )*};
}
// the attribute must be a literal, so the macro cannot compute it
fields! {
    A5(u8) = 5;
    A17(u8) = 17;
    A61(u8) = 61;
    B97(u16) = 97;
    B257(u16) = 257;
    B7681(u16) = 7681;
    B12289(u16) = 12289;
    B15361(u16) = 15361;
    B16381(u16) = 16381;
    C17(u32) = 17;
    C65537(u32) = 65537;
    C786433(u32) = 786433;
    C998M(u32) = 998244353;
    CNear30(u32) = 1073479681;
    CMax(u32) = 1073741789;
    D17(u64) = 17;
    D40961(u64) = 40961;
    D998M(u64) = 998244353;
    D50(u64) = 1125899904679937;
    D62(u64) = 4611686018405367809;
    DMax(u64) = 4611686018427387847;
}
pub use fhe_core::{DefaultFieldU32, DefaultQks};

/// No NTT: the characteristic-2 and -3 fields, and composites for the primality report.
macro_rules! plain_fields {
    ($($name:ident($T:ident) = $m:tt;)*) => {$(
        #[derive(Field, DecomposableField, FheField, Prime)]
        #[modulus = $m]
        pub struct $name($T);
    )*};
}
plain_fields! {
    A2(u8) = 2;
    A3(u8) = 3;
    CTwo(u32) = 2;
    Comp15(u8) = 15;
    Comp65281(u32) = 65281;
    Comp42799(u32) = 42799;
    Comp3215031751(u64) = 3215031751;
}

/// Calls `$mac!(Field, "name", $($arg)*)` for every NTT-capable test field.
#[cfg(not(any(few_fields, feature = "few")))]
#[macro_export]
macro_rules! for_ntt_fields {
    ($mac:ident $(, $arg:expr)*) => {
        $mac!($crate::fields::A5, "u8 p=5" $(, $arg)*);
        $mac!($crate::fields::A17, "u8 p=17" $(, $arg)*);
        $mac!($crate::fields::A61, "u8 p=61" $(, $arg)*);
        $mac!($crate::fields::B97, "u16 p=97" $(, $arg)*);
        $mac!($crate::fields::B257, "u16 p=257" $(, $arg)*);
        $mac!($crate::fields::B7681, "u16 p=7681" $(, $arg)*);
        $mac!($crate::fields::B12289, "u16 p=12289" $(, $arg)*);
        $mac!($crate::fields::B15361, "u16 p=15361" $(, $arg)*);
        $mac!($crate::fields::B16381, "u16 p=16381" $(, $arg)*);
        $mac!($crate::fields::C17, "u32 p=17" $(, $arg)*);
        $mac!($crate::fields::C65537, "u32 p=65537" $(, $arg)*);
        $mac!($crate::fields::C786433, "u32 p=786433" $(, $arg)*);
        $mac!($crate::fields::C998M, "u32 p=998244353" $(, $arg)*);
        $mac!($crate::fields::CNear30, "u32 p=1073479681" $(, $arg)*);
        $mac!($crate::fields::CMax, "u32 p=1073741789" $(, $arg)*);
        $mac!($crate::fields::DefaultFieldU32, "u32 default field" $(, $arg)*);
        $mac!($crate::fields::DefaultQks, "u32 default key-switching field" $(, $arg)*);
        $mac!($crate::fields::D17, "u64 p=17" $(, $arg)*);
        $mac!($crate::fields::D40961, "u64 p=40961" $(, $arg)*);
        $mac!($crate::fields::D998M, "u64 p=998244353" $(, $arg)*);
        $mac!($crate::fields::D50, "u64 p=1125899904679937" $(, $arg)*);
        $mac!($crate::fields::D62, "u64 p=4611686018405367809" $(, $arg)*);
        $mac!($crate::fields::DMax, "u64 p=4611686018427387847" $(, $arg)*);
    };
}

/// Calls `$mac!(Field, "name", $($arg)*)` for a selection, where builds are slow.
#[cfg(any(few_fields, feature = "few"))]
#[macro_export]
macro_rules! for_ntt_fields {
    ($mac:ident $(, $arg:expr)*) => {
        $mac!($crate::fields::A5, "u8 p=5" $(, $arg)*);
        $mac!($crate::fields::A61, "u8 p=61" $(, $arg)*);
        $mac!($crate::fields::B16381, "u16 p=16381" $(, $arg)*);
        $mac!($crate::fields::DefaultFieldU32, "u32 default field" $(, $arg)*);
        $mac!($crate::fields::D62, "u64 p=4611686018405367809" $(, $arg)*);
    };
}

/// u128 view of a field.
pub struct V<F>(PhantomData<F>);
impl<F: Field> V<F> {
    pub fn p() -> u128 {
        Self::raw(F::MODULUS_VALUE)
    }
    pub fn raw(v: F::Value) -> u128 {
        let x: u64 = v.into();
        x as u128
    }
    /// The stored value, unreduced.
    pub fn get(x: F) -> u128 {
        Self::raw(x.value())
    }
    pub fn val(x: u128) -> F::Value {
        num_traits::NumCast::from(x as u64).expect("fits the value type")
    }
    pub fn new(x: u128) -> F {
        F::new(Self::val(x))
    }
    pub fn max_raw() -> u128 {
        Self::raw(<F::Value as algebra::ConstBounded>::MAX)
    }
    /// Largest k with 2^k | p-1.
    pub fn two_adicity() -> u32 {
        (Self::p() - 1).trailing_zeros()
    }
    /// Largest log2 of a negacyclic transform size.
    pub fn max_log_n() -> u32 {
        Self::two_adicity().saturating_sub(1)
    }
    pub fn vec(v: &[u128]) -> Vec<F> {
        v.iter().map(|&x| Self::new(x)).collect()
    }
    pub fn back(v: &[F]) -> Vec<u128> {
        v.iter().map(|&x| Self::get(x)).collect()
    }
    pub fn edge(rng: &mut crate::R) -> u128 {
        crate::edge(rng, Self::p() - 1)
    }
    pub fn edges(rng: &mut crate::R, n: usize) -> Vec<u128> {
        use rand::RngCore;
        match rng.next_u32() % 8 {
            0 => vec![Self::p() - 1; n],
            1 => (0..n).map(|i| if i % 2 == 0 { Self::p() - 1 } else { 0 }).collect(),
            2 => {
                let mut v = vec![0; n];
                if n > 0 {
                    let i = rng.next_u32() as usize % n;
                    v[i] = Self::edge(rng);
                }
                v
            }
            _ => (0..n).map(|_| Self::edge(rng)).collect(),
        }
    }
}
impl<F: NTTField> V<F> {
    /// A ring size up to 2^small; every 32nd case one above, up to 2^large.
    pub fn ring(c: &mut crate::Case, small: u32, large: u32) -> usize {
        let top = Self::max_log_n();
        let (small, large) = (small.min(top), large.min(top));
        if c.idx % 32 == 13 && large > small {
            1 << (small + 1 + c.below((large - small) as u64) as u32)
        } else {
            1 << c.below(small as u64 + 1)
        }
    }
    pub fn poly(v: &[u128]) -> Polynomial<F> {
        Polynomial::new(Self::vec(v))
    }
    pub fn ntt(v: &[u128]) -> NTTPolynomial<F> {
        NTTPolynomial::new(Self::vec(v))
    }
    pub fn unpoly(p: &Polynomial<F>) -> Vec<u128> {
        Self::back(p.as_slice())
    }
    pub fn unntt(p: &NTTPolynomial<F>) -> Vec<u128> {
        p.iter().map(|&x| Self::get(x)).collect()
    }
}
