//! C21: number-theory helpers.
use algebra::modulus::BarrettModulus;
use algebra::utils::{ExtendedGCD, Prime, ReverseLsbs};
use algebra::{Field, NTTField, PrimeField};
use mon::fields::V;
use mon::refs::*;
use mon::{edge, for_ntt_fields, Case, Mon};
use num_traits::Pow;
use rand::RngCore;

macro_rules! primality {
    ($c:expr, $T:ty, $n:expr) => {{
        let n: u64 = $n as u64;
        let got = BarrettModulus::<$T>::new(n as $T).probably_prime(20);
        let want = is_prime(n);
        $c.eq(got, want, "primality", || format!("{} {n}", stringify!($T)));
        $c.count(if want { "primes" } else { "composites" }, 1);
        $c.seen((stringify!($T), n));
    }};
}

/// odd composite n that is a strong pseudoprime to base 2
fn spsp2(n: u64) -> bool {
    let (mut d, mut s) = (n - 1, 0);
    while d % 2 == 0 {
        d /= 2;
        s += 1;
    }
    let mut x = powm(2, d as u128, n as u128) as u64;
    if x == 1 || x == n - 1 {
        return !is_prime(n);
    }
    for _ in 1..s {
        x = mulm(x as u128, x as u128, n as u128) as u64;
        if x == n - 1 {
            return !is_prime(n);
        }
    }
    false
}

fn primes(mon: &Mon) {
    mon.run("primality u8 exhaustive", |c| {
        for n in 2..64u8 {
            primality!(c, u8, n);
        }
        for n in [2u64, 3, 4, 5, 7, 61, 62, 63] {
            for r in [0, 1, 2, 50] {
                c.eq(BarrettModulus::<u64>::new(n).probably_prime(r), is_prime(n), "primality small", || format!("{n} rounds {r}"));
                c.eq(BarrettModulus::<u8>::new(n as u8).probably_prime(r), is_prime(n), "primality small", || format!("{n} rounds {r}"));
            }
        }
    });
    mon.par("primality u16 exhaustive", 128, |c| {
        for n in (2 + c.idx..16384).step_by(128) {
            primality!(c, u16, n);
            if n < 20000 {
                primality!(c, u32, n);
                primality!(c, u64, n);
            }
        }
    });
    // every base-2 strong pseudoprime below a bound: the composites that pass the fixed first round
    let hi = mon.n(4_000_000, 200_000_000);
    mon.par("primality base-2 strong pseudoprimes", 64, |c| {
        let mut n = 16385 + 2 * c.idx as u64;
        while n < hi as u64 {
            if spsp2(n) {
                c.count("base-2 strong pseudoprimes", 1);
                primality!(c, u32, n);
                primality!(c, u64, n);
                c.sample(|| format!("strong pseudoprime {n}"));
            }
            n += 128;
        }
    });
    let n = mon.n(400, 20_000);
    mon.par("primality structured composites", 64, |c| {
        for _ in 0..n {
            // p(2p-1), p(3p-2), Carmichael (6k+1)(12k+1)(18k+1), squares and products of near primes
            let lim = if c.below(2) == 0 { 1u64 << 30 } else { 1u64 << 62 };
            let root = (lim as f64).sqrt() as u64;
            let p = prev_prime(100 + c.rng.next_u64() % (root / 2 - 100));
            for f in [2u64, 3, 4, 5] {
                let q = f * (p - 1) + 1;
                if let Some(n) = p.checked_mul(q) {
                    if n < lim && n & 1 == 1 {
                        if n < 1 << 30 { primality!(c, u32, n); }
                        primality!(c, u64, n);
                    }
                }
            }
            let n = p * p;
            if n < 1 << 30 { primality!(c, u32, n); }
            primality!(c, u64, n);
            let k = c.rng.next_u64() % 150_000;
            let (a, b, d) = (6 * k + 1, 12 * k + 1, 18 * k + 1);
            if k > 9 && is_prime(a) && is_prime(b) && is_prime(d) {
                let n = a * b * d;
                if n < 1 << 62 { primality!(c, u64, n); c.count("Carmichael numbers", 1); }
            }
            // primes and their neighbourhood, also at the top of the range
            let q = prev_prime(match c.below(3) { 0 => lim - 1 - c.below(1000), _ => 70 + c.rng.next_u64() % (lim - 100) });
            for d in [0u64, 2, 4] {
                let n = q - d;
                if n < 1 << 30 { primality!(c, u32, n); }
                primality!(c, u64, n);
            }
            for r in [0, 1, 3] {
                c.ok(BarrettModulus::<u64>::new(q).probably_prime(r), "prime rejected", || format!("{q} rounds {r}"));
            }
        }
    });
}

macro_rules! gcds {
    ($mon:expr, $T:ty, $S:ty, $n:expr) => {{
        let one = |c: &mut Case, x: $T, y: $T| {
            let g = gcd(x as u128, y as u128);
            let ctx = || format!("{} x={x} y={y}", stringify!($T));
            c.eq(x.gcd(y) as u128, g, "gcd", ctx);
            c.eq(x.coprime(y), g <= 1, "coprime", ctx);
            c.eq(x.not_coprime(y), g > 1, "not_coprime", ctx);
            if x > 0 && y > 0 {
                let (a, b, v): ($S, $S, $T) = <$T>::extended_gcd(x, y);
                // exact check modulo 2^128 with |terms| < 2^127
                let lhs = (a as i128).wrapping_mul(x as i128).wrapping_add((b as i128).wrapping_mul(y as i128));
                c.eq(v as u128, g, "extended_gcd value", ctx);
                c.ok(lhs == v as i128, "Bezout identity", || format!("{} got ({a},{b},{v})", ctx()));
            }
            c.seen((stringify!($T), x, y));
        };
        if <$T>::BITS == 8 {
            $mon.par("gcd u8 exhaustive", 256, |c| {
                for y in 0..=255u8 { one(c, c.idx as $T, y as $T); }
            });
        } else {
            $mon.par(concat!("gcd ", stringify!($T)), 64, |c| {
                for _ in 0..$n {
                    let x = edge(&mut c.rng, <$T>::MAX as u128) as $T;
                    let mut y = edge(&mut c.rng, <$T>::MAX as u128) as $T;
                    match c.below(5) {
                        0 => y = x,
                        1 => { let g = 1 + c.below(200) as $T; y = (y / g) * g; one(c, (x / g) * g, y); }
                        2 => { let (mut a, mut b): ($T, $T) = (1, 1); // Fibonacci neighbours: longest Euclid runs
                               for _ in 0..c.below(93) { match a.checked_add(b) { Some(s) => { a = b; b = s; } None => break } }
                               one(c, a, b); }
                        _ => {}
                    }
                    one(c, x, y);
                }
            });
        }
    }};
}

macro_rules! reverse {
    ($mon:expr, $($T:ty),*) => {$(
        $mon.par(concat!("reverse_lsbs ", stringify!($T)), <$T>::BITS as usize, |c| {
            let bits = c.idx as u32;
            for i in 0..400u64 {
                let x = if i < 200 { edge(&mut c.rng, <$T>::MAX as u128) as $T } else { (i - 200) as $T };
                let mut w: $T = 0;
                for b in 0..bits { if x >> b & 1 == 1 { w |= (1 as $T) << (bits - 1 - b); } }
                let g = x.reverse_lsbs(bits);
                c.eq(g, w, "reverse_lsbs", || format!("{} {x} bits={bits}", stringify!($T)));
                let low = if bits == 0 { 0 } else { x & (<$T>::MAX >> (<$T>::BITS - bits)) };
                c.eq(g.reverse_lsbs(bits), low, "reverse_lsbs involution", || format!("{} {x} bits={bits}", stringify!($T)));
                c.seen((x, bits));
            }
        });
    )*};
}

fn roots<F: NTTField<Degree = <F as Field>::Value> + Pow<<F as Field>::Value, Output = F>>(mon: &Mon, name: &str) {
    let p = V::<F>::p();
    let bits = (128 - p.leading_zeros()) as usize;
    mon.par(&format!("roots {name}"), bits, |c| {
        let k = c.idx as u32 + 1;
        let d = 1u128 << k;
        if d > V::<F>::max_raw() { return; }
        let deg = V::<F>::val(d);
        let exists = (p - 1) % d == 0;
        let order_ok = |w: u128| powm(w, d, p) == 1 && powm(w, d / 2, p) == p - 1;
        for _ in 0..(if c.thorough() { 40 } else { 10 }) {
            match F::try_primitive_root(deg) {
                Ok(w) => { c.ok(exists && order_ok(V::<F>::get(w)), "primitive root order", || format!("{name} degree {d} root {w}")); }
                Err(_) => { c.ok(!exists, "primitive root missing", || format!("{name} degree {d}")); }
            }
        }
        if !exists {
            c.ok(F::try_minimal_primitive_root(deg).is_err(), "minimal root of impossible order", || format!("{name} degree {d}"));
            c.count("impossible orders", 1);
        } else if k <= 18 {
            match F::try_minimal_primitive_root(deg) {
                Ok(w) => {
                    let w = V::<F>::get(w);
                    c.ok(order_ok(w), "minimal root order", || format!("{name} degree {d} root {w}"));
                    // all primitive roots are odd powers
                    let (sq, mut x, mut min) = (mulm(w, w, p), w, w);
                    for _ in 0..d / 2 { x = mulm(x, sq, p); min = min.min(x); }
                    c.eq(w, min, "minimal root is minimal", || format!("{name} degree {d}"));
                    c.count("minimal roots", 1);
                }
                Err(e) => { c.fail("minimal root missing", format!("{name} degree {d}: {e:?}")); }
            }
        }
        // the membership test itself
        for i in 0..300u128 {
            let r = match i { 0..=200 if i < p => i, _ => V::<F>::edge(&mut c.rng) };
            let want = r != 0 && powm(r, d / 2, p) == p - 1;
            c.eq(F::is_primitive_root(V::<F>::new(r), deg), want, "is_primitive_root", || format!("{name} root {r} degree {d}"));
            if exists {
                let w = powm(r, (p - 1) / d, p);
                let want = w != 0 && powm(w, d / 2, p) == p - 1;
                c.eq(F::is_primitive_root(V::<F>::new(w), deg), want, "is_primitive_root", || format!("{name} root {w} degree {d}"));
            }
        }
        c.seen((name, k));
        c.ok(F::is_prime_field(), "is_prime_field", || name.into());
    });
}

fn main() {
    let mon = Mon::new("C21");
    primes(&mon);
    let n = mon.n(20_000, 500_000);
    gcds!(mon, u8, i8, n);
    gcds!(mon, u16, i16, n);
    gcds!(mon, u32, i32, n);
    gcds!(mon, u64, i64, n);
    reverse!(mon, u8, u16, u32, u64, u128, usize);
    macro_rules! r { ($F:ty, $n:expr) => { roots::<$F>(&mon, $n); } }
    for_ntt_fields!(r);
    mon.run("prime field report", |c| {
        use mon::fields::*;
        macro_rules! pf { ($F:ty) => { c.eq(<$F>::is_prime_field(), is_prime(V::<$F>::p() as u64), "is_prime_field", || stringify!($F).into()); } }
        pf!(A2); pf!(A3); pf!(CTwo); pf!(Comp15); pf!(Comp65281); pf!(Comp42799); pf!(Comp3215031751);
        c.seen(1);
    });
    mon.finish(
        "every 8/16-bit modulus, every base-2 strong pseudoprime below a bound, structured composites (p(kp-k+1), squares, Carmichael), primes at the range ends; all 8-bit gcd pairs and edge-biased wider ones incl. Fibonacci neighbours; every root order of every field; distinct by operands",
        &["deterministic 12-base Miller-Rabin is the primality reference below 2^64", "the acceptance error 4^-19 of 20 rounds is treated as zero"],
    );
}
