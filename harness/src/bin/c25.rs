//! C25: multi-word integer helpers against exact integer arithmetic.
use algebra::*;
use mon::{edge, Case, Mon};

macro_rules! widening {
    ($m:expr, $T:ty, $n:expr) => {{
        let one = |c: &mut Case, a: $T, b: $T, k: $T| {
            let bits = <$T>::BITS;
            let w = |lo: u128| (lo as $T, (lo >> bits) as $T);
            let (a1, b1, k1) = (a as u128, b as u128, k as u128);
            let ctx = || format!("{} a={a} b={b} k={k}", stringify!($T));
            c.eq(WideningMul::widening_mul(a, b), w(a1 * b1), "widening_mul", ctx);
            c.eq(WideningMul::widening_mul_hw(a, b), w(a1 * b1).1, "widening_mul_hw", ctx);
            c.eq(CarryingMul::carrying_mul(a, b, k), w(a1 * b1 + k1), "carrying_mul", ctx);
            c.eq(CarryingMul::carrying_mul_hw(a, b, k), w(a1 * b1 + k1).1, "carrying_mul_hw", ctx);
            for cy in [false, true] {
                let s = a1 + b1 + cy as u128;
                c.eq(CarryingAdd::carrying_add(a, b, cy), (s as $T, s >> bits != 0), "carrying_add", ctx);
                let d = a1 as i128 - b1 as i128 - cy as i128;
                c.eq(BorrowingSub::borrowing_sub(a, b, cy), (d as $T, d < 0), "borrowing_sub", ctx);
            }
            c.seen((stringify!($T), a, b, k));
        };
        if <$T>::BITS == 8 {
            $m.par(concat!("widening-exhaustive ", stringify!($T)), 256, |c| {
                let a = c.idx as $T;
                for b in 0..=<$T>::MAX {
                    for k in [0, 1, 2, 127 as $T, 128 as $T, 254 as $T, 255 as $T, a, b] {
                        one(c, a, b, k);
                    }
                }
                c.sample(|| format!("all b for a={a} u8"));
            });
        } else {
            $m.par(concat!("widening ", stringify!($T)), 64, |c| {
                for i in 0..$n {
                    let a = edge(&mut c.rng, <$T>::MAX as u128) as $T;
                    let mut b = edge(&mut c.rng, <$T>::MAX as u128) as $T;
                    if i % 7 == 0 { b = a; }
                    if i % 7 == 1 { b = !a; }
                    if i % 7 == 2 { b = a.wrapping_neg(); }
                    let k = edge(&mut c.rng, <$T>::MAX as u128) as $T;
                    one(c, a, b, k);
                    c.sample(|| format!("{} a={a} b={b} k={k}", stringify!($T)));
                }
            });
        }
    }};
}

macro_rules! wrapping {
    ($m:expr, $n:expr, $($T:ty),*) => {$(
        $m.par(concat!("wrapping ", stringify!($T)), 16, |c| {
            for _ in 0..$n {
                let a = edge(&mut c.rng, u128::MAX >> (128 - <$T as Bits>::BITS)) as $T;
                let b = edge(&mut c.rng, u128::MAX >> (128 - <$T as Bits>::BITS)) as $T;
                let s = (edge(&mut c.rng, u32::MAX as u128)) as u32;
                let ctx = || format!("{} a={a} b={b} s={s}", stringify!($T));
                // exact arithmetic modulo 2^128, truncated
                let (wa, wb) = (a as u128, b as u128);
                c.eq(WrappingAdd::wrapping_add(a, b), wa.wrapping_add(wb) as $T, "wrapping_add", ctx);
                c.eq(WrappingSub::wrapping_sub(a, b), wa.wrapping_sub(wb) as $T, "wrapping_sub", ctx);
                c.eq(WrappingMul::wrapping_mul(a, b), wa.wrapping_mul(wb) as $T, "wrapping_mul", ctx);
                c.eq(WrappingNeg::wrapping_neg(a), 0u128.wrapping_sub(wa) as $T, "wrapping_neg", ctx);
                let bits = <$T>::BITS;
                c.eq(WrappingShl::wrapping_shl(a, s), a << (s & (bits - 1)), "wrapping_shl", ctx);
                c.eq(WrappingShr::wrapping_shr(a, s), a >> (s & (bits - 1)), "wrapping_shr", ctx);
                use std::num::Wrapping as W;
                c.eq(WrappingAdd::wrapping_add(W(a), W(b)), W(a) + W(b), "Wrapping add", ctx);
                c.eq(WrappingSub::wrapping_sub(W(a), W(b)), W(a) - W(b), "Wrapping sub", ctx);
                c.eq(WrappingMul::wrapping_mul(W(a), W(b)), W(a) * W(b), "Wrapping mul", ctx);
                c.eq(WrappingNeg::wrapping_neg(W(a)), -W(a), "Wrapping neg", ctx);
                c.eq(WrappingShl::wrapping_shl(W(a), s), W(a << (s & (bits - 1))), "Wrapping shl", ctx);
                c.eq(WrappingShr::wrapping_shr(W(a), s), W(a >> (s & (bits - 1))), "Wrapping shr", ctx);
                c.seen((a, b, s));
            }
            c.eq(<$T as Bits>::BITS, <$T>::BITS, "BITS", || stringify!($T).into());
            c.eq(<$T as Bits>::BITS, 8 * std::mem::size_of::<$T>() as u32, "BITS", || stringify!($T).into());
            c.eq(<$T as ConstBounded>::MIN, <$T>::MIN, "MIN", || stringify!($T).into());
            c.eq(<$T as ConstBounded>::MAX, <$T>::MAX, "MAX", || stringify!($T).into());
        });
    )*};
}

macro_rules! casts_from {
    ($m:expr, $n:expr, $($T:ty),*) => {$(
        $m.par(concat!("cast ", stringify!($T)), 4, |c| {
            for i in 0..$n {
                let a = if i < 4 { [<$T>::MIN, <$T>::MAX, 0 as $T, 1 as $T][i] } else {
                    edge(&mut c.rng, u128::MAX >> (128 - <$T>::BITS)) as $T };
                macro_rules! to { ($U:ty) => {
                    let got: $U = as_cast(a);
                    // exact: low bits of the sign-extended value
                    let want: $U = (a as i128) as $U;
                    c.eq(got, want, concat!("cast ", stringify!($T), "->", stringify!($U)), || format!("{a}"));
                    let back: $T = <$T as AsFrom<$U>>::as_from(got);
                    c.eq(back, (want as i128) as $T, concat!("cast ", stringify!($U), "->", stringify!($T)), || format!("{a}"));
                } }
                to!(u8); to!(u16); to!(u32); to!(u64); to!(u128); to!(usize);
                to!(i8); to!(i16); to!(i32); to!(i64); to!(i128); to!(isize);
                let f: f64 = as_cast(a);
                // correctly rounded: no neighbouring double is closer
                c.eq(f, a as f64, concat!("cast ", stringify!($T), "->f64"), || format!("{a}"));
                let g: f32 = as_cast(a);
                c.eq(g, a as f32, concat!("cast ", stringify!($T), "->f32"), || format!("{a}"));
                c.eq(<$T as AsFrom<f64>>::as_from(f), f as $T, "cast f64->int", || format!("{a}"));
                c.eq(<$T as AsFrom<f32>>::as_from(g), g as $T, "cast f32->int", || format!("{a}"));
                c.seen(a);
            }
        });
    )*};
}

fn main() {
    let m = Mon::new("C25");
    let n = m.n(20_000, 400_000);
    widening!(m, u8, n);
    widening!(m, u16, n);
    widening!(m, u32, n);
    // u64 products need more than the u128 used above only for a*b+k, which still fits.
    widening!(m, u64, n);
    let n = m.n(4_000, 60_000);
    wrapping!(m, n, u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128);
    let n = m.n(3_000, 40_000);
    casts_from!(m, n, u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128);
    m.finish(
        "operands are all 8-bit pairs, and for wider types values biased to 0, max, powers of two, complements and negations; a case is distinct by its operands",
        &["128-bit native arithmetic of the compiler is the reference"],
    );
}
