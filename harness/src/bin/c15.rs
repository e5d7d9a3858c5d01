//! C15: digit decomposition recomposes to the value, whatever the destination held.
use algebra::{Basis, DecomposableField, Field, Polynomial};
use lattice::{decompose_lsb_bits_inplace, Basis as LBasis};
use mon::fields::*;
use mon::{catch, edge, for_ntt_fields, Case, Mon};
use rand::RngCore;

fn digits(mut x: u128, bits: u32, len: usize) -> Vec<u128> {
    (0..len).map(|_| { let d = x & ((1 << bits) - 1); x >>= bits; d }).collect()
}

fn value<F: DecomposableField>(c: &mut Case, name: &str, bits: u32, x: u128) {
    let p = V::<F>::p();
    let basis = Basis::<F>::new(bits);
    let len = basis.decompose_len();
    let want = digits(x, bits, len);
    let a = V::<F>::new(x);
    let ctx = || format!("{name} bits={bits} x={x}");
    let d = a.decompose(basis);
    let got = V::<F>::back(&d);
    c.eq(got.len(), len, "digit count", ctx);
    c.ok(got.iter().all(|&d| d < 1 << bits), "digit range", ctx);
    let mut sum = 0u128;
    for (i, &d) in got.iter().enumerate() { sum += d << (bits as usize * i); }
    c.eq(sum, x, "recomposition", ctx);
    c.eq(&got, &want, "decompose", ctx);
    // a dirty destination, exact and longer
    for extra in [0, 2] {
        let mut dst: Vec<F> = (0..len + extra).map(|_| V::<F>::new(V::<F>::edge(&mut c.rng))).collect();
        a.decompose_at(basis, &mut dst);
        c.eq(&V::<F>::back(&dst[..len]), &want, "decompose_at into a used destination", ctx);
    }
    // step by step
    let (mut t, mut u) = (a, a);
    for (i, &w) in want.iter().enumerate() {
        c.eq(V::<F>::get(t.decompose_lsb_bits(basis.mask(), bits)), w, "decompose_lsb_bits", || format!("{} digit {i}", ctx()));
        let mut dst = V::<F>::new(p - 1);
        u.decompose_lsb_bits_at(&mut dst, basis.mask(), bits);
        c.eq(V::<F>::get(dst), w, "decompose_lsb_bits_at", || format!("{} digit {i}", ctx()));
        c.eq(V::<F>::get(t), x >> (bits * (i as u32 + 1)).min(127), "rest after a digit", ctx);
        c.eq(V::<F>::get(u), V::<F>::get(t), "rest after a digit", ctx);
    }
    c.eq(V::<F>::get(t), 0, "rest after the last digit", ctx);
    c.seen((bits, x));
}

fn polys<F: DecomposableField>(c: &mut Case, name: &str, bits: u32, n: usize) {
    let basis = Basis::<F>::new(bits);
    let len = basis.decompose_len();
    let xs = V::<F>::edges(&mut c.rng, n);
    let p = Polynomial::<F>::new(V::<F>::vec(&xs));
    let ctx = || format!("{name} bits={bits} n={n} {xs:?}");
    let want: Vec<Vec<u128>> = (0..len).map(|i| xs.iter().map(|&x| digits(x, bits, len)[i]).collect()).collect();
    let got: Vec<Vec<u128>> = p.clone().decompose(basis).iter().map(|q| V::<F>::back(q.as_slice())).collect();
    c.eq(&got, &want, "polynomial decompose", ctx);
    let dirty = |c: &mut Case| Polynomial::<F>::new(V::<F>::vec(&V::<F>::edges(&mut c.rng, n)));
    let mut dst: Vec<Polynomial<F>> = (0..len).map(|_| dirty(c)).collect();
    let mut q = p.clone();
    q.decompose_inplace(basis, &mut dst);
    let got: Vec<Vec<u128>> = dst.iter().map(|q| V::<F>::back(q.as_slice())).collect();
    c.eq(&got, &want, "polynomial decompose_inplace", ctx);
    let mut q = p.clone();
    for w in &want {
        let mut dst = dirty(c);
        q.decompose_lsb_bits_inplace(basis, dst.as_mut_slice());
        c.eq(&V::<F>::back(dst.as_slice()), w, "polynomial decompose_lsb_bits_inplace", ctx);
    }
    c.ok(q.is_zero(), "rest after the last digit", ctx);
    for wrong in [0, len + 1] {
        let mut q = p.clone();
        let mut dst = vec![Polynomial::<F>::zero(n); wrong];
        c.ok(catch(|| q.decompose_inplace(basis, &mut dst)).is_err(), "wrong destination count refused", ctx);
    }
    c.seen((bits, xs));
}

fn field<F: DecomposableField>(mon: &Mon, name: &str) {
    let p = V::<F>::p();
    let vb = (V::<F>::max_raw() + 1).trailing_zeros();
    let mbits = 128 - (p - 1).leading_zeros();
    let nbits = 128 - p.leading_zeros();
    let n = mon.n(400, 20_000);
    mon.par(&format!("decompose {name}"), nbits as usize, |c| {
        let bits = c.idx as u32 + 1;
        if bits > nbits { return; }
        let b = Basis::<F>::new(bits);
        let ctx = || format!("{name} bits={bits}");
        c.eq(b.bits(), bits, "basis bits", ctx);
        c.eq(V::<F>::raw(b.basis()), 1 << bits, "basis value", ctx);
        c.eq(V::<F>::raw(b.mask()), (1 << bits) - 1, "basis mask", ctx);
        c.eq(b.decompose_len(), mbits.div_ceil(bits) as usize, "basis length", ctx);
        // fewest digits that reach the largest value
        c.ok((p - 1) >> (bits as usize * b.decompose_len()).min(127) == 0, "basis covers the modulus", ctx);
        c.ok(p == 2 || (p - 1) >> (bits as usize * (b.decompose_len() - 1)) != 0, "basis is not longer than needed", ctx);
        if p <= 257 {
            for x in 0..p { value::<F>(c, name, bits, x); }
        }
        for _ in 0..n {
            let x = V::<F>::edge(&mut c.rng);
            value::<F>(c, name, bits, x);
            let k = bits * c.below(b.decompose_len() as u64) as u32;
            let x = (edge(&mut c.rng, (1 << bits) - 1) << k) % p;
            value::<F>(c, name, bits, x);
        }
        let large = 65 + c.below(2000) as usize;
        for n in [0usize, 1, 2, 7, 8, 33, 64, large] { polys::<F>(c, name, bits, n); }
        c.sample(|| format!("{name}: bits {bits}, length {}", b.decompose_len()));
    });
    mon.run(&format!("bad bases {name}"), |c| {
        for bits in nbits + 1..=vb {
            c.ok(catch(|| Basis::<F>::new(bits)).is_err(), "basis wider than the modulus refused", || format!("{name} bits={bits}"));
        }
        let d = Basis::<F>::default();
        c.eq((d.bits(), d.decompose_len()), (1, mbits as usize), "default basis", || name.into());
        c.seen(vb);
    });
}

macro_rules! prim {
    ($mon:expr, $($T:ty),*) => {$(
        let n = $mon.n(300, 20_000);
        $mon.par(concat!("plain moduli ", stringify!($T)), 64, |c| {
            for _ in 0..n {
                let m = match c.below(3) {
                    0 => 1u128 << (1 + c.below(<$T>::BITS as u64 - 1)),
                    1 => 2 + c.below(60) as u128,
                    _ => edge(&mut c.rng, <$T>::MAX as u128).max(2),
                };
                let mbits = 128 - (m - 1).leading_zeros();
                let bits = 1 + c.below(mbits as u64) as u32;
                if bits == <$T>::BITS { continue; }
                let ctx = || format!("{} m={m} bits={bits}", stringify!($T));
                let b = LBasis::<$T>::new(bits, m as $T);
                c.eq(b.bits(), bits as usize, "plain basis bits", ctx);
                c.eq(b.basis() as u128, 1 << bits, "plain basis value", ctx);
                c.eq(b.mask() as u128, (1 << bits) - 1, "plain basis mask", ctx);
                c.eq(b.decompose_len(), mbits.div_ceil(bits) as usize, "plain basis length", ctx);
                let len = c.below(9) as usize;
                let xs: Vec<$T> = (0..len).map(|_| edge(&mut c.rng, m - 1) as $T).collect();
                let mut rest = xs.clone();
                let mut sum = vec![0u128; len];
                for i in 0..b.decompose_len() {
                    let mut dst: Vec<$T> = (0..len).map(|_| c.rng.next_u64() as $T).collect();
                    decompose_lsb_bits_inplace(&mut rest, b, &mut dst);
                    for j in 0..len {
                        c.ok((dst[j] as u128) < 1 << bits, "plain digit range", ctx);
                        c.eq(dst[j] as u128, digits(xs[j] as u128, bits, i + 1)[i], "plain digit", || format!("{} x={} digit {i}", ctx(), xs[j]));
                        sum[j] += (dst[j] as u128) << (bits as usize * i);
                    }
                }
                c.ok(rest.iter().all(|&r| r == 0), "plain rest", ctx);
                c.ok(sum.iter().zip(&xs).all(|(&s, &x)| s == x as u128), "plain recomposition", || format!("{} {xs:?}", ctx()));
                c.seen((m, bits, xs));
                let nb = 128 - m.leading_zeros();
                if m.is_power_of_two() { for w in mbits + 1..=<$T>::BITS { c.ok(catch(|| LBasis::<$T>::new(w, m as $T)).is_err(), "plain basis too wide refused", ctx); } }
                else if nb < <$T>::BITS { c.ok(catch(|| LBasis::<$T>::new(nb + 1, m as $T)).is_err(), "plain basis too wide refused", ctx); }
            }
        });
    )*};
}

fn main() {
    let mon = Mon::new("C15");
    macro_rules! f { ($F:ty, $n:expr) => { field::<$F>(&mon, $n); } }
    for_ntt_fields!(f);
    field::<A2>(&mon, "u8 p=2");
    field::<A3>(&mon, "u8 p=3");
    field::<CTwo>(&mon, "u32 p=2");
    field::<Comp15>(&mon, "u8 p=15");
    prim!(mon, u8, u16, u32, u64);
    mon.finish(
        "every field, every basis width it admits, all values for p<=257 and edge-biased ones (incl. single non-zero digits) otherwise, into destinations pre-filled with arbitrary values; plain moduli of every width; distinct by basis and value",
        &["digits are recomputed by shifts and masks in u128"],
    );
}
