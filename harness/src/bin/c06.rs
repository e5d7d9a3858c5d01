//! C06: LWE arithmetic is exactly linear.
use algebra::modulus::*;
use algebra::reduce::*;
use algebra::Field;
use lattice::{DiscreteGaussian, LWE};
use mon::fields::*;
use mon::refs::*;
use mon::stats::*;
use mon::{edge, for_ntt_fields, Case, Mon};
use std::fmt::Debug;

#[derive(Clone, Debug, PartialEq)]
struct Model {
    a: Vec<u128>,
    b: u128,
}
fn phase(m: &Model, s: &[u128], q: u128) -> u128 {
    let dot = m.a.iter().zip(s).fold(0, |t, (&x, &y)| addm(t, mulm(x, y, q), q));
    subm(m.b, dot, q)
}
fn zip(x: &Model, y: &Model, f: impl Fn(u128, u128) -> u128) -> Model {
    Model { a: x.a.iter().zip(&y.a).map(|(&u, &v)| f(u, v)).collect(), b: f(x.b, y.b) }
}
fn map(x: &Model, f: impl Fn(u128) -> u128) -> Model {
    Model { a: x.a.iter().map(|&u| f(u)).collect(), b: f(x.b) }
}
/// coefficients below q, biased to the ends
fn draw(c: &mut Case, n: usize, q: u128) -> Model {
    let style = c.below(6);
    let one = |c: &mut Case| match style { 0 => q - 1, 1 => 0, _ => edge(&mut c.rng, q - 1) };
    Model { a: (0..n).map(|_| one(c)).collect(), b: one(c) }
}

/// A random program over a pool of ciphertexts, shadowed by the model.
macro_rules! program {
    ($c:ident, $T:ty, $to:expr, $from:expr, $q:expr, $name:expr, $ops:expr, $apply:expr) => {{
        let c: &mut Case = $c;
        let q: u128 = $q;
        let to = $to;
        let from = $from;
        let n = match c.below(4) { 0 => 1, 1 => 1 + c.below(4) as usize, 2 if c.idx % 8 == 5 => 1 + c.below(2100) as usize, _ => 1 + c.below(70) as usize };
        let key: Vec<u128> = draw(c, n, q).a;
        let enc = |m: &Model| -> LWE<$T> { LWE::new(m.a.iter().map(|&x| to(x)).collect(), to(m.b)) };
        let dec = |l: &LWE<$T>| -> Model { Model { a: l.a().iter().map(|&x| from(x)).collect(), b: from(l.b()) } };
        let mut pool: Vec<(LWE<$T>, Model)> = (0..3).map(|_| { let m = draw(c, n, q); (enc(&m), m) }).collect();
        for _ in 0..24 {
            let i = c.below(3) as usize;
            let j = c.below(3) as usize;
            let op = c.below($ops);
            let k = match c.below(4) { 0 => 0, 1 => q - 1, _ => edge(&mut c.rng, q - 1) };
            let x = pool[i].clone();
            let y = pool[j].clone();
            let keep = (x.0.clone(), y.0.clone());
            let (got, want): (LWE<$T>, Model) = $apply(op, &x, &y, k);
            let ctx = || format!("{} op {op} scalar {k} q {q} x {:?} y {:?}", $name, x.1, y.1);
            c.ok(keep.0 == x.0 && keep.1 == y.0, "operand changed", ctx);
            let g = dec(&got);
            c.ok(g.a.iter().chain([&g.b]).all(|&v| v < q), "result not reduced", || format!("{:?} {}", g, ctx()));
            c.eq(&g, &want, "coefficients", ctx);
            c.eq(phase(&g, &key, q), phase(&want, &key, q), "phase", ctx);
            c.seen((op, k, i, j, want.b));
            c.count("operations", 1);
            let t = c.below(3) as usize;
            pool[t] = if g == want { (got, want) } else { let m = draw(c, n, q); (enc(&m), m) };
        }
        // accessors
        let (l, m) = &pool[0];
        c.eq(dec(&LWE::from_ref(l.a(), l.b())), m.clone(), "from_ref", || $name.into());
        let mut t = l.clone();
        t.a_mut()[n - 1] = to(q - 1);
        *t.b_mut() = to(1 % q);
        let mut w = m.clone();
        w.a[n - 1] = q - 1;
        w.b = 1 % q;
        c.eq(dec(&t), w, "mutable accessors", || $name.into());
        c.ok((t == *l) == (dec(&t) == *m), "equality", || $name.into());
        c.sample(|| format!("{} dimension {n} modulus {q}: 24 operations, last pool {:?}", $name, pool[0].1));
    }};
}

fn reduced<T, M>(c: &mut Case, md: M, q: u128, name: &str)
where
    M: Copy,
    T: Copy + PartialEq + Debug + TryFrom<u128> + TryInto<u128>
        + AddReduce<M, Output = T> + AddReduceAssign<M> + SubReduce<M, Output = T> + SubReduceAssign<M>
        + NegReduce<M, Output = T> + NegReduceAssign<M> + MulReduce<M, Output = T> + MulReduceAssign<M>,
{
    let to = |x: u128| T::try_from(x).ok().expect("fits");
    let from = |x: T| -> u128 { x.try_into().ok().expect("unsigned") };
    program!(c, T, to, from, q, name, 10, |op, x: &(LWE<T>, Model), y: &(LWE<T>, Model), k: u128| {
        let add = zip(&x.1, &y.1, |u, v| addm(u, v, q));
        let sub = zip(&x.1, &y.1, |u, v| subm(u, v, q));
        let mut t = x.0.clone();
        match op {
            0 => (x.0.add_reduce_component_wise_ref(&y.0, md), add),
            1 => (t.add_reduce_component_wise(&y.0, md), add),
            2 => { t.add_reduce_inplace_component_wise(&y.0, md); (t, add) }
            3 => (x.0.sub_reduce_component_wise_ref(&y.0, md), sub),
            4 => (t.sub_reduce_component_wise(&y.0, md), sub),
            5 => { t.sub_reduce_inplace_component_wise(&y.0, md); (t, sub) }
            6 => { t.scalar_mul_reduce_inplace(to(k), md); (t, map(&x.1, |u| mulm(u, k, q))) }
            7 => { t.add_assign_rhs_mul_scalar_reduce(&y.0, to(k), md); (t, zip(&x.1, &y.1, |u, v| addm(u, mulm(v, k, q), q))) }
            8 => (x.0.neg_reduce(md), map(&x.1, |u| negm(u, q))),
            _ => { t.neg_reduce_assign(md); (t, map(&x.1, |u| negm(u, q))) }
        }
    });
}
/// plain integer moduli have no multiplication
fn additive<T, M>(c: &mut Case, md: M, q: u128, name: &str)
where
    M: Copy,
    T: Copy + PartialEq + Debug + TryFrom<u128> + TryInto<u128>
        + AddReduce<M, Output = T> + AddReduceAssign<M> + SubReduce<M, Output = T> + SubReduceAssign<M>
        + NegReduce<M, Output = T> + NegReduceAssign<M>,
{
    let to = |x: u128| T::try_from(x).ok().expect("fits");
    let from = |x: T| -> u128 { x.try_into().ok().expect("unsigned") };
    program!(c, T, to, from, q, name, 8, |op, x: &(LWE<T>, Model), y: &(LWE<T>, Model), _k: u128| {
        let add = zip(&x.1, &y.1, |u, v| addm(u, v, q));
        let sub = zip(&x.1, &y.1, |u, v| subm(u, v, q));
        let mut t = x.0.clone();
        match op {
            0 => (x.0.add_reduce_component_wise_ref(&y.0, md), add),
            1 => (t.add_reduce_component_wise(&y.0, md), add),
            2 => { t.add_reduce_inplace_component_wise(&y.0, md); (t, add) }
            3 => (x.0.sub_reduce_component_wise_ref(&y.0, md), sub),
            4 => (t.sub_reduce_component_wise(&y.0, md), sub),
            5 => { t.sub_reduce_inplace_component_wise(&y.0, md); (t, sub) }
            6 => (x.0.neg_reduce(md), map(&x.1, |u| negm(u, q))),
            _ => { t.neg_reduce_assign(md); (t, map(&x.1, |u| negm(u, q))) }
        }
    });
}
fn on_field<F: Field>(c: &mut Case, name: &str) {
    let q = V::<F>::p();
    program!(c, F, |x: u128| V::<F>::new(x), |x: F| V::<F>::get(x), q, name, 6, |op, x: &(LWE<F>, Model), y: &(LWE<F>, Model), _k: u128| {
        let add = zip(&x.1, &y.1, |u, v| addm(u, v, q));
        let sub = zip(&x.1, &y.1, |u, v| subm(u, v, q));
        let mut t = x.0.clone();
        match op {
            0 => (x.0.add_component_wise_ref(&y.0), add),
            1 => (t.add_component_wise(&y.0), add),
            2 => { t.add_inplace_component_wise(&y.0); (t, add) }
            3 => (x.0.sub_component_wise_ref(&y.0), sub),
            4 => (t.sub_component_wise(&y.0), sub),
            _ => { t.sub_inplace_component_wise(&y.0); (t, sub) }
        }
    });
}

/// Fresh samples of zero: phase within the noise bound for any key, mask uniform.
macro_rules! zero_sample {
    ($c:ident, $T:ty, $md:expr, $qv:expr, $q:expr, $name:expr) => {{
        let c: &mut Case = $c;
        let q: u128 = $q;
        let n = if c.idx % 32 == 13 { 256 + c.below(1800) as usize } else { [1usize, 2, 15, 16, 17, 31, 33, 64, 100, 255][c.below(10) as usize] };
        let key: Vec<u128> = match c.below(5) {
            0 => vec![q - 1; n],
            1 => vec![0; n],
            2 => (0..n).map(|_| c.below(2) as u128).collect(),
            3 => (0..n).map(|_| [0, 0, 1, q - 1][c.below(4) as usize]).collect(),
            _ => draw(c, n, q).a,
        };
        let sk: Vec<$T> = key.iter().map(|&x| x as $T).collect();
        let sd = [0.0, 0.4, 1.0, 3.2, 6.4][c.below(5) as usize];
        let bound = (6.0 * sd + 0.5) as i128;
        if q as i128 <= 2 * bound + 4 { return; }
        let dg = match DiscreteGaussian::<$T>::new($qv, 0.0, sd) { Ok(d) => d, Err(e) => { c.fail("noise rejected", format!("{e:?}")); return; } };
        let reps = 40;
        let mut hist = vec![0u64; 16];
        let mut noise = vec![];
        let mut last: Option<LWE<$T>> = None;
        for _ in 0..reps {
            let l = LWE::<$T>::generate_random_zero_sample(&sk, $qv, $md, dg, &mut c.rng);
            let ctx = || format!("{} n {n} q {q} sd {sd} key {:?}", $name, &key[..n.min(8)]);
            c.eq(l.a().len(), n, "sample dimension", ctx);
            c.ok(l.a().iter().chain([&l.b()]).all(|&x| (x as u128) < q), "sample not reduced", ctx);
            let m = Model { a: l.a().iter().map(|&x| x as u128).collect(), b: l.b() as u128 };
            let e = centered(phase(&m, &key, q), q);
            c.ok(e.abs() <= bound, "noise beyond its bound", || format!("noise {e} bound {bound} {}", ctx()));
            noise.push(e as f64);
            for &x in &m.a { hist[(x * 16 / q) as usize] += 1; }
            if n >= 15 && q > 1000 {
                c.ok(last.as_ref().map(|p| p.a() != l.a()).unwrap_or(true), "mask repeated", ctx);
            }
            c.seen((n, m.b, m.a[0]));
            last = Some(l);
        }
        let probs: Vec<f64> = (0..16u128).map(|i| (((i + 1) * q).div_ceil(16) - (i * q).div_ceil(16)) as f64 / q as f64).collect();
        if let Some(z) = fit(&hist, &probs) {
            c.ok(z < LIMIT, "mask not uniform", || format!("{} n {n} q {q} score {z:.1} {hist:?}", $name));
        }
        if sd >= 1.0 {
            let v = noise.iter().map(|e| e * e).sum::<f64>() / reps as f64;
            let r = v / (sd * sd + 1.0 / 12.0);
            // 40 draws: chi-square with 40 degrees stays within (0.15, 3.5) but for 1e-10
            c.ok(r > 0.15 && r < 3.5, "noise spread", || format!("{} sd {sd}: variance ratio {r:.2}", $name));
        }
        c.count("zero samples", reps);
    }};
}

fn main() {
    let m = Mon::new("C06");
    let n = m.n(1500, 40_000);
    macro_rules! ints {
        ($($T:ident)*) => {$(
            let top = 1u128 << (<$T>::BITS - 2);
            m.par(concat!("Barrett ", stringify!($T)), n, |c| {
                let q = match c.below(4) { 0 => top - 1 - c.below(3) as u128, 1 => 2 + c.below(40) as u128, _ => 2 + edge(&mut c.rng, top - 3) }.clamp(2, top - 1);
                reduced::<$T, _>(c, <BarrettModulus<$T>>::new(q as $T), q, concat!("Barrett ", stringify!($T)));
            });
            m.par(concat!("power of two ", stringify!($T)), n, |c| {
                let q = 1u128 << (1 + c.below(<$T>::BITS as u64 - 1));
                reduced::<$T, _>(c, <PowOf2Modulus<$T>>::new(q as $T), q, concat!("power of two ", stringify!($T)));
            });
            m.par(concat!("native ", stringify!($T)), n, |c| {
                reduced::<$T, _>(c, (), 1u128 << <$T>::BITS, concat!("native ", stringify!($T)));
            });
            m.par(concat!("plain modulus ", stringify!($T)), n, |c| {
                let half = 1u128 << (<$T>::BITS - 1);
                let q = match c.below(4) { 0 => half - c.below(3) as u128, 1 => 2 + c.below(40) as u128, _ => 2 + edge(&mut c.rng, half - 2) };
                additive::<$T, $T>(c, q as $T, q, concat!("plain modulus ", stringify!($T)));
            });
        )*};
    }
    ints!(u8 u16 u32 u64);
    macro_rules! fields { ($F:ty, $name:expr, $m:expr) => {
        $m.par(concat!("field ", $name), $m.n(300, 10_000), |c| on_field::<$F>(c, $name));
    }; }
    for_ntt_fields!(fields, m);
    macro_rules! zero {
        ($($T:ident)*) => {$(
            m.par(concat!("zero samples power of two ", stringify!($T)), m.n(400, 10_000), |c| {
                let q = 1u128 << (1 + c.below(<$T>::BITS as u64 - 1));
                zero_sample!(c, $T, <PowOf2Modulus<$T>>::new(q as $T), q as $T, q, "power of two");
            });
            m.par(concat!("zero samples Barrett ", stringify!($T)), m.n(400, 10_000), |c| {
                let top = 1u128 << (<$T>::BITS - 2);
                let q = match c.below(3) { 0 => top - 1 - c.below(3) as u128, _ => 2 + edge(&mut c.rng, top - 3) };
                zero_sample!(c, $T, <BarrettModulus<$T>>::new(q as $T), q as $T, q, "Barrett");
            });
        )*};
    }
    zero!(u8 u16 u32 u64);
    m.finish(
        "a distinct operation with its operands inside a random program over a pool of ciphertexts, or a distinct fresh sample",
        &["both operands have the same dimension", "operands are reduced; plain integer moduli are at most half the word"],
    );
}
