//! C14: derived prime fields against integers modulo p.
use algebra::reduce::{AddReduce, MulReduce, Reduce};
use algebra::{ModulusConfig, ConstNegOne, FheField, Field, NTTField, NegOne, PrimeField};
use mon::fields::V;
use mon::refs::*;
use mon::{edge, for_ntt_fields, Case, Mon};
use num_traits::{ConstOne, ConstZero, Inv, One, Pow, Zero};
use rand::RngCore;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

fn pair<F: FheField>(c: &mut Case, name: &str, x: u128, y: u128, z: u128, fast_acc: u128) {
    let p = V::<F>::p();
    let (a, b, d) = (V::<F>::new(x), V::<F>::new(y), V::<F>::new(z));
    let ctx = || format!("{name}: {x}, {y}, {z}");
    macro_rules! bin {
        ($sig:expr, $op:tt, $opa:tt, $want:expr) => {{
            let w = $want;
            c.eq(V::<F>::get(a $op b), w, $sig, ctx);
            c.eq(V::<F>::get(a $op &b), w, concat!($sig, " by reference"), ctx);
            let mut t = a; t $opa b;
            c.eq(V::<F>::get(t), w, concat!($sig, " in place"), ctx);
            let mut t = a; t $opa &b;
            c.eq(V::<F>::get(t), w, concat!($sig, " in place by reference"), ctx);
        }};
    }
    bin!("field add", +, +=, addm(x, y, p));
    bin!("field sub", -, -=, subm(x, y, p));
    bin!("field mul", *, *=, mulm(x, y, p));
    // documented lazy forms: congruent and below 2p
    let lazy = |c: &mut Case, got: F, want: u128, sig: &str| {
        let g = V::<F>::get(got);
        c.ok(g < 2 * p && g % p == want, sig, || format!("{name}: {x},{y},{z}: got {g} want {want} mod {p}"));
    };
    lazy(c, a.mul_fast(b), mulm(x, y, p), "field mul_fast");
    let mut t = a; t.mul_assign_fast(b);
    lazy(c, t, mulm(x, y, p), "field mul_assign_fast");
    let w = addm(z, mulm(x, y, p), p);
    c.eq(V::<F>::get(d.add_mul(a, b)), w, "field add_mul", ctx);
    let mut t = d; t.add_mul_assign(a, b);
    c.eq(V::<F>::get(t), w, "field add_mul_assign", ctx);
    lazy(c, d.add_mul_fast(a, b), w, "field add_mul_fast");
    let mut t = d; t.add_mul_assign_fast(a, b);
    lazy(c, t, w, "field add_mul_assign_fast");
    // an accumulator already in lazy range
    let l = F::lazy_new(V::<F>::val(fast_acc));
    c.eq(V::<F>::get(l), fast_acc, "field lazy_new", ctx);
    lazy(c, l.add_mul_fast(a, b), addm(fast_acc, mulm(x, y, p), p), "field add_mul_fast lazy accumulator");
    // order, equality and hashing follow the canonical value
    c.eq(a.cmp(&b), x.cmp(&y), "field order", ctx);
    c.eq(a.partial_cmp(&b), Some(x.cmp(&y)), "field partial order", ctx);
    c.eq(a == b, x == y, "field equality", ctx);
    if x == y {
        c.eq(hash(&a), hash(&b), "field hash", ctx);
    }
    c.seen((x, y));
}

fn division<F: FheField>(c: &mut Case, name: &str, x: u128, y: u128) {
    let p = V::<F>::p();
    if y == 0 {
        return;
    }
    let (a, b) = (V::<F>::new(x), V::<F>::new(y));
    let ctx = || format!("{name}: {x} / {y}");
    let i = invm(y, p).expect("prime modulus");
    let w = mulm(x, i, p);
    c.eq(V::<F>::get(b.inv()), i, "field inverse", ctx);
    c.eq(V::<F>::get(a / b), w, "field div", ctx);
    c.eq(V::<F>::get(a / &b), w, "field div by reference", ctx);
    let mut t = a; t /= b;
    c.eq(V::<F>::get(t), w, "field div in place", ctx);
    let mut t = a; t /= &b;
    c.eq(V::<F>::get(t), w, "field div in place by reference", ctx);
}

fn single<F: FheField<Order = <F as Field>::Value>>(c: &mut Case, name: &str, x: u128, e: u128) {
    let p = V::<F>::p();
    let a = V::<F>::new(x);
    let ctx = || format!("{name}: {x}");
    c.eq(V::<F>::get(a), x, "field new/value", ctx);
    c.eq(V::<F>::get(-a), negm(x, p), "field neg", ctx);
    c.eq(V::<F>::get(a.pow(V::<F>::val(e))), powm(x, e, p), "field pow", || format!("{name}: {x}^{e}"));
    c.eq(a.is_zero(), x == 0, "field is_zero", ctx);
    c.eq(a.is_one(), x == 1 % p, "field is_one", ctx);
    c.eq(format!("{a}"), format!("{x}"), "field display", ctx);
    let mut t = a; t.set_zero();
    c.eq(V::<F>::get(t), 0, "field set_zero", ctx);
    let mut t = a; t.set_one();
    c.eq(V::<F>::get(t), 1, "field set_one", ctx);
    let mut t = a; t.set_neg_one();
    c.eq(V::<F>::get(t), p - 1, "field set_neg_one", ctx);
    c.eq(a.is_neg_one(), x == p - 1, "field is_neg_one", ctx);
    c.eq(a.clone(), a, "field clone", ctx);
}

fn words<F: FheField>(c: &mut Case, name: &str, x: u128) {
    c.eq(V::<F>::get(V::<F>::new(x)), x % V::<F>::p(), "field new of any word", || format!("{name}: {x}"));
}

fn field<F: FheField<Order = <F as Field>::Value> + PrimeField>(mon: &Mon, name: &str) {
    let p = V::<F>::p();
    mon.run(&format!("constants {name}"), |c| {
        c.eq(V::<F>::get(F::ZERO), 0, "field constants", || name.into());
        c.eq(V::<F>::get(F::zero()), 0, "field constants", || name.into());
        c.eq(V::<F>::get(F::default()), 0, "field constants", || name.into());
        c.eq(V::<F>::get(F::ONE), 1, "field constants", || name.into());
        c.eq(V::<F>::get(F::one()), 1, "field constants", || name.into());
        c.eq(V::<F>::get(F::NEG_ONE), p - 1, "field constants", || name.into());
        c.eq(V::<F>::get(<F as NegOne>::neg_one()), p - 1, "field constants", || name.into());
        c.ok(is_prime(p as u64), "self test", || name.into());
        c.seen(p);
    });
    if p <= 257 {
        let all = V::<F>::max_raw().min(65535);
        mon.par(&format!("exhaustive {name}"), p as usize, |c| {
            let x = c.idx as u128;
            for y in 0..p {
                let z = c.rng.next_u64() as u128 % p;
                let f = c.rng.next_u64() as u128 % (2 * p);
                pair::<F>(c, name, x, y, z, f);
                division::<F>(c, name, x, y);
                single::<F>(c, name, x, y);
            }
            let mut w = x;
            while w <= all {
                words::<F>(c, name, w);
                w += p;
            }
        });
    }
    let n = mon.n(1500, 100_000);
    mon.par(&format!("edges {name}"), 32, |c| {
        for i in 0..n {
            let (x, y, z) = (V::<F>::edge(&mut c.rng), V::<F>::edge(&mut c.rng), V::<F>::edge(&mut c.rng));
            let f = edge(&mut c.rng, 2 * p - 1);
            pair::<F>(c, name, x, y, z, f);
            if i % 4 == 0 {
                division::<F>(c, name, x, y);
                let e = edge(&mut c.rng, V::<F>::max_raw());
                single::<F>(c, name, x, e);
            }
            let w = edge(&mut c.rng, V::<F>::max_raw());
            words::<F>(c, name, w);
        }
        c.sample(|| format!("{name}: {n} edge-biased operand triples"));
    });
}

fn ntt_field<F: NTTField>(mon: &Mon, name: &str) {
    let p = V::<F>::p();
    let n = mon.n(1000, 50_000);
    mon.par(&format!("roots and integers {name}"), 16, |c| {
        for _ in 0..n {
            let (x, r) = (V::<F>::edge(&mut c.rng), V::<F>::edge(&mut c.rng));
            let (a, b) = (V::<F>::new(x), V::<F>::new(r));
            let ctx = || format!("{name}: {x} * {r}");
            let root = b.to_root();
            c.eq(V::<F>::get(F::from_root(root)), r, "root round trip", ctx);
            c.eq(V::<F>::get(a.mul_root(root)), mulm(x, r, p), "mul_root", ctx);
            let mut t = a;
            t.mul_root_assign(root);
            c.eq(V::<F>::get(t), mulm(x, r, p), "mul_root_assign", ctx);
            let u = edge(&mut c.rng, u64::MAX as u128);
            c.eq(V::<F>::get(F::from(u as usize)), u % p, "field from usize", || format!("{name}: {u}"));
            c.seen((x, r));
        }
    });
}

/// the modulus a field hands out does the field's arithmetic on raw values
macro_rules! config {
    ($F:ty, $mon:expr, $name:expr) => {
        $mon.par(concat!("modulus of the field ", $name), 4, |c| {
            let p = V::<$F>::p();
            for m in [<$F as ModulusConfig>::MODULUS, <$F>::modulus()] {
                for _ in 0..500 {
                    let (x, y) = (V::<$F>::edge(&mut c.rng), V::<$F>::edge(&mut c.rng));
                    let (a, b) = (V::<$F>::val(x), V::<$F>::val(y));
                    let ctx = || format!("{} {x} {y}", $name);
                    c.eq(V::<$F>::raw(a.mul_reduce(b, m)), mulm(x, y, p), "product under the field's modulus", ctx);
                    c.eq(V::<$F>::raw(a.add_reduce(b, m)), addm(x, y, p), "sum under the field's modulus", ctx);
                    let w = edge(&mut c.rng, V::<$F>::max_raw());
                    c.eq(V::<$F>::raw(V::<$F>::val(w).reduce(m)), w % p, "reduction under the field's modulus", || format!("{} {w}", $name));
                }
            }
            c.seen(p);
        });
    };
}

fn main() {
    let mon = Mon::new("C14");
    macro_rules! f { ($F:ty, $n:expr) => { field::<$F>(&mon, $n); ntt_field::<$F>(&mon, $n); config!($F, mon, $n); } }
    for_ntt_fields!(f);
    use mon::fields::{A2, A3, CTwo};
    field::<A2>(&mon, "u8 p=2");
    field::<A3>(&mon, "u8 p=3");
    field::<CTwo>(&mon, "u32 p=2");
    mon.finish(
        "26 derived fields over u8/u16/u32/u64, incl. p=2, 3, 5, the largest supported primes and the default FHE fields: all operand pairs for p<=257, edge-biased triples otherwise; every operator form; distinct by operand pair and field",
        &["integer arithmetic in u128 is the reference"],
    );
}
