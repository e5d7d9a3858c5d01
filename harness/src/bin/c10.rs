//! C10: modulus switching rounds every coefficient to the nearest representative.
use algebra::NTTField;
use fhe_core::*;
use lattice::LWE;
use mon::fhe::{get, lwe, parts, put};
use mon::fields::*;
use mon::{edge, for_ntt_fields, Case, Mon};

/// |y - x*q2/q1| <= 1/2 for the representative of y nearest to it
fn nearest(x: u128, y: u128, q1: u128, q2: u128) -> bool {
    let hi = x * q2; // < 2^127
    let ok = |y: u128| {
        // |y*q1 - hi| * 2 <= q1
        let t = y * q1;
        t.abs_diff(hi) * 2 <= q1
    };
    y < q2 && (ok(y) || (y == 0 && ok(q2)))
}
fn values(c: &mut Case, q1: u128, q2: u128, n: usize) -> Vec<u128> {
    (0..n)
        .map(|_| match c.below(5) {
            // next to a rounding boundary (k + 1/2) q1/q2
            0 | 1 => {
                let k = edge(&mut c.rng, q2 - 1);
                let at = ((2 * k + 1) * q1 / (2 * q2)) as i128 + c.below(5) as i128 - 2;
                at.rem_euclid(q1 as i128) as u128
            }
            // next to a multiple of q1/q2
            2 => {
                let k = edge(&mut c.rng, q2);
                let at = (k * q1 / q2) as i128 + c.below(5) as i128 - 2;
                at.rem_euclid(q1 as i128) as u128
            }
            3 => q1 - 1 - (c.below(4) as u128).min(q1 - 1),
            _ => edge(&mut c.rng, q1 - 1),
        })
        .collect()
}
fn modulus<C: LWEModulusType>(c: &mut Case) -> u128 {
    let top = (1u128 << C::BITS) - 1;
    match c.below(3) {
        0 => 1 << c.below(C::BITS as u64),
        1 => 1 + edge(&mut c.rng, top.min(1 << 20) - 1),
        _ => 1 + edge(&mut c.rng, (top - 1).min((1 << 63) - 1)),
    }
}
fn verdicts(c: &mut Case, x: &[u128], xb: u128, y: &(Vec<u128>, u128), q1: u128, q2: u128, sig: &'static str, name: &str) {
    c.eq(y.0.len(), x.len(), "switched dimension", || name.into());
    for (&u, &v) in x.iter().chain([&xb]).zip(y.0.iter().chain([&y.1])) {
        c.ok(v < q2, "switched value not reduced", || format!("{name}: {u} from {q1} to {q2} gave {v}"));
        c.ok(nearest(u, v, q1, q2), sig, || format!("{name}: {u} from {q1} to {q2} gave {v}, exact {}.{:03}", u * q2 / q1, u * q2 % q1 * 1000 / q1));
        c.seen((u, q1, q2));
        c.count("coefficients switched", 1);
    }
}

fn from_field<F: NTTField, C: LWEModulusType>(c: &mut Case, name: &str) {
    let q1 = V::<F>::p();
    let q2 = modulus::<C>(c);
    let n = c.below(12) as usize;
    let a = values(c, q1, q2, n);
    let b = values(c, q1, q2, 1)[0];
    let x: LWE<F> = LWE::new(V::<F>::vec(&a), V::<F>::new(b));
    let y = parts(&lwe_modulus_switch::<C, F>(x.clone(), put(q2)));
    verdicts(c, &a, b, &y, q1, q2, "lwe_modulus_switch", name);
    // the destination held something else before
    let old: Vec<u128> = (0..=n).map(|_| edge(&mut c.rng, q2 - 1)).collect();
    let mut d: LWE<C> = lwe(&old[1..], old[0]);
    lwe_modulus_switch_inplace::<C, F>(x, put(q2), &mut d);
    c.eq(parts(&d), y.clone(), "in-place form", || format!("{name} from {q1} to {q2}"));
    c.sample(|| format!("{name} {q1} -> {q2}: {:?} -> {:?}", a, y.0));
}
fn between<C: LWEModulusType>(c: &mut Case, name: &str) {
    let (q1, q2) = (modulus::<C>(c), modulus::<C>(c));
    let n = c.below(12) as usize;
    let a = values(c, q1, q2, n);
    let b = values(c, q1, q2, 1)[0];
    let mut x: LWE<C> = lwe(&a, b);
    lwe_modulus_switch_assign_between_modulus(&mut x, put(q1), put(q2));
    let y = parts(&x);
    verdicts(c, &a, b, &y, q1, q2, "lwe_modulus_switch_assign_between_modulus", name);
}
/// every residue of small moduli
fn exhaustive<C: LWEModulusType>(c: &mut Case, name: &str) {
    let q1 = 1 + c.below(255) as u128;
    let q2 = 1 + c.below(255) as u128;
    let a: Vec<u128> = (0..q1).collect();
    let mut x: LWE<C> = lwe(&a, q1 - 1);
    lwe_modulus_switch_assign_between_modulus(&mut x, put(q1), put(q2));
    verdicts(c, &a, q1 - 1, &parts(&x), q1, q2, "lwe_modulus_switch_assign_between_modulus", name);
}
/// every residue of the small fields to every power of two
fn exhaustive_field<F: NTTField, C: LWEModulusType>(c: &mut Case, name: &str) {
    let q1 = V::<F>::p();
    let q2 = 1u128 << (c.idx % C::BITS as usize);
    let a: Vec<u128> = (0..q1).collect();
    let x: LWE<F> = LWE::new(V::<F>::vec(&a), V::<F>::new(q1 - 1));
    let y = parts(&lwe_modulus_switch::<C, F>(x, put(q2)));
    verdicts(c, &a, q1 - 1, &y, q1, q2, "lwe_modulus_switch", name);
}
/// the phase moves by at most (1 + |s|_1)/2
fn phases<C: LWEModulusType>(c: &mut Case) {
    type F = DefaultFieldU32;
    let p = V::<F>::p();
    let q2 = 1u128 << (4 + c.below(C::BITS as u64 - 4));
    let n = 1 + c.below(1024) as usize;
    let s: Vec<i8> = (0..n).map(|_| [0, 0, 1, -1][c.below(4) as usize]).collect();
    let a = values(c, p, q2, n);
    let b = values(c, p, q2, 1)[0];
    let y = parts(&lwe_modulus_switch::<C, F>(LWE::new(V::<F>::vec(&a), V::<F>::new(b)), put(q2)));
    let ph = |a: &[u128], b: u128| a.iter().zip(&s).fold(b as i128, |t, (&x, &k)| t - k as i128 * x as i128);
    // q1*phase2 - q2*phase1 modulo q1*q2
    let d = ph(&y.0, y.1) * p as i128 - ph(&a, b) * q2 as i128;
    let m = (p * q2) as i128;
    let d = d.rem_euclid(m);
    let d = d.min(m - d);
    let l1 = 1 + s.iter().filter(|&&k| k != 0).count() as i128;
    c.ok(2 * d <= l1 * p as i128, "phase error beyond (1 + |s|)/2", || format!("n={n} q2={q2}: {}", d as f64 / p as f64));
    c.count("phases", 1);
}

fn main() {
    let m = Mon::new("C10");
    macro_rules! all {
        ($F:ty, $name:expr, $m:expr) => {
            $m.par(concat!("to u8 from ", $name), $m.n(3000, 100000), |c| from_field::<$F, u8>(c, $name));
            $m.par(concat!("to u16 from ", $name), $m.n(3000, 100000), |c| from_field::<$F, u16>(c, $name));
            $m.par(concat!("to u32 from ", $name), $m.n(3000, 100000), |c| from_field::<$F, u32>(c, $name));
            $m.par(concat!("to u64 from ", $name), $m.n(3000, 100000), |c| from_field::<$F, u64>(c, $name));
        };
    }
    for_ntt_fields!(all, m);
    macro_rules! betw {
        ($($C:ty),*) => {$(
            m.par(concat!("between ", stringify!($C)), m.n(20000, 500000), |c| between::<$C>(c, stringify!($C)));
            m.par(concat!("every residue ", stringify!($C)), m.n(1000, 40000), |c| exhaustive::<$C>(c, stringify!($C)));
            m.par(concat!("every field residue to ", stringify!($C)), <$C>::BITS as usize, |c| {
                exhaustive_field::<A61, $C>(c, "u8 p=61");
                exhaustive_field::<B257, $C>(c, "u16 p=257");
                exhaustive_field::<B16381, $C>(c, "u16 p=16381");
                exhaustive_field::<C65537, $C>(c, "u32 p=65537");
            });
            m.par(concat!("phases ", stringify!($C)), m.n(500, 10000), |c| phases::<$C>(c));
        )*};
    }
    betw!(u8, u16, u32, u64);
    let _ = |x: u64| get(x);
    m.finish(
        "one case per coefficient and pair of moduli; coefficients cluster at rounding boundaries; judged by exact 128-bit rationals",
        &["on an exact tie either neighbour is accepted"],
    );
}
