//! C17: polynomial arithmetic, every operator form, against the definition.
use algebra::{ntt_add_mul_assign, ntt_add_mul_assign_fast, ntt_add_mul_inplace, Field, NTTField, NTTPolynomial, Polynomial};
use mon::fields::V;
use mon::refs::*;
use mon::{catch, edge, for_ntt_fields, Case, Mon};
use num_traits::Inv;

fn zip(a: &[u128], b: &[u128], f: impl Fn(u128, u128) -> u128) -> Vec<u128> {
    a.iter().zip(b).map(|(&x, &y)| f(x, y)).collect()
}

/// operators shared by both forms; $raw extracts the stored values
macro_rules! common {
    ($c:ident, $F:ident, $Poly:ident, $form:expr, $xs:ident, $ys:ident, $p:ident, $name:ident) => {{
        let n = $xs.len();
        let raw = |q: &$Poly<$F>| -> Vec<u128> { q.iter().map(|&v| V::<$F>::get(v)).collect() };
        let a = $Poly::<$F>::new(V::<$F>::vec(&$xs));
        let b = $Poly::<$F>::from_slice(&V::<$F>::vec(&$ys));
        let (xs, ys) = (&$xs, &$ys);
        let ctx = || format!("{} {} n={n} {:?} {:?}", $form, $name, &xs[..n.min(16)], &ys[..n.min(16)]);
        macro_rules! all_forms {
            ($sig:expr, $op:tt, $opa:tt, $want:expr) => {{
                let w: Vec<u128> = $want;
                $c.eq(raw(&(a.clone() $op b.clone())), w.clone(), concat!($sig, " value value"), ctx);
                $c.eq(raw(&(a.clone() $op &b)), w.clone(), concat!($sig, " value ref"), ctx);
                $c.eq(raw(&(&a $op b.clone())), w.clone(), concat!($sig, " ref value"), ctx);
                $c.eq(raw(&(&a $op &b)), w.clone(), concat!($sig, " ref ref"), ctx);
                let mut t = a.clone(); t $opa b.clone();
                $c.eq(raw(&t), w.clone(), concat!($sig, " assign value"), ctx);
                let mut t = a.clone(); t $opa &b;
                $c.eq(raw(&t), w, concat!($sig, " assign ref"), ctx);
            }};
        }
        let add = zip(xs, ys, |x, y| addm(x, y, $p));
        let sub = zip(xs, ys, |x, y| subm(x, y, $p));
        all_forms!("add", +, +=, add.clone());
        all_forms!("sub", -, -=, sub.clone());
        let mut d = $Poly::<$F>::new(V::<$F>::vec(&V::<$F>::edges(&mut $c.rng, n)));
        a.add_inplace(&b, &mut d);
        $c.eq(raw(&d), add, "add_inplace", ctx);
        a.sub_inplace(&b, &mut d);
        $c.eq(raw(&d), sub, "sub_inplace", ctx);
        let neg: Vec<u128> = xs.iter().map(|&x| negm(x, $p)).collect();
        $c.eq(raw(&-a.clone()), neg.clone(), "neg value", ctx);
        $c.eq(raw(&-&a), neg.clone(), "neg ref", ctx);
        let mut t = a.clone(); t.neg_assign();
        $c.eq(raw(&t), neg, "neg_assign", ctx);
        let k = V::<$F>::edge(&mut $c.rng);
        let sc: Vec<u128> = xs.iter().map(|&x| mulm(x, k, $p)).collect();
        $c.eq(raw(&a.mul_scalar(V::<$F>::new(k))), sc.clone(), "mul_scalar", ctx);
        let mut t = a.clone(); t.mul_scalar_assign(V::<$F>::new(k));
        $c.eq(raw(&t), sc, "mul_scalar_assign", ctx);
        // views and bookkeeping
        $c.eq(a.coeff_count(), n, "coeff_count", ctx);
        $c.eq(a.is_zero(), xs.iter().all(|&x| x == 0), "is_zero", ctx);
        $c.eq(raw(&$Poly::<$F>::zero(n)), vec![0; n], "zero", ctx);
        let mut t = a.clone(); t.set_zero();
        $c.ok(t.is_zero() && t.coeff_count() == n, "set_zero", ctx);
        let mut t = b.clone(); t.copy_from(&a);
        $c.eq(&t, &a, "copy_from", ctx);
        let mut t = b.clone(); t.copy_from(a.as_slice());
        $c.eq(&t, &a, "copy_from", ctx);
        $c.eq(V::<$F>::back(a.as_slice()), xs.to_vec(), "as_slice", ctx);
        $c.eq(V::<$F>::back(AsRef::<[$F]>::as_ref(&a)), xs.to_vec(), "as_ref", ctx);
        $c.eq(a.copied_iter().map(|v| V::<$F>::get(v)).collect::<Vec<_>>(), xs.to_vec(), "copied_iter", ctx);
        $c.eq(a.clone().into_iter().map(|v| V::<$F>::get(v)).collect::<Vec<_>>(), xs.to_vec(), "into_iter", ctx);
        $c.eq((&a).into_iter().map(|&v| V::<$F>::get(v)).collect::<Vec<_>>(), xs.to_vec(), "ref into_iter", ctx);
        $c.eq(V::<$F>::back(&a.clone().data()), xs.to_vec(), "data", ctx);
        let mut t = a.clone();
        for (v, y) in t.iter_mut().zip(b.iter()) { *v = *y; }
        $c.eq(&t, &b, "iter_mut", ctx);
        let mut t = a.clone();
        for (v, y) in (&mut t).into_iter().zip(b.iter()) { *v = *y; }
        $c.eq(&t, &b, "mut into_iter", ctx);
        let mut t = a.clone();
        t.as_mut_slice().copy_from_slice(b.as_slice());
        $c.eq(&t, &b, "as_mut_slice", ctx);
        let mut t = a.clone();
        AsMut::<[$F]>::as_mut(&mut t).copy_from_slice(b.as_slice());
        $c.eq(&t, &b, "as_mut", ctx);
        $c.eq(a == b, xs == ys, "equality", ctx);
        if n > 0 {
            let i = $c.below(n as u64) as usize;
            $c.eq(V::<$F>::get(a[i]), xs[i], "index", ctx);
            $c.eq(V::<$F>::back(&a[i..]), xs[i..].to_vec(), "index range", ctx);
            let mut t = a.clone();
            t[i] = V::<$F>::new(k);
            let mut w = xs.to_vec(); w[i] = k;
            $c.eq(raw(&t), w, "index_mut", ctx);
            $c.ok(catch(|| a[n]).is_err(), "index out of range refused", ctx);
        }
        let m = $c.below(2 * n as u64 + 3) as usize;
        let mut t = a.clone();
        t.resize(m, V::<$F>::new(k));
        let mut w = xs.to_vec(); w.resize(m, k);
        $c.eq(raw(&t), w.clone(), "resize", ctx);
        let mut t = a.clone();
        t.resize_with(m, || V::<$F>::new(k));
        $c.eq(raw(&t), w.clone(), "resize_with", ctx);
        let mut t = a.clone();
        t.data_mut().resize(m, V::<$F>::new(k));
        $c.eq(raw(&t), w, "data_mut", ctx);
        $c.eq(raw(&a), xs.to_vec(), "operand changed", ctx);
        $c.eq(raw(&b), ys.to_vec(), "operand changed", ctx);
    }};
}

fn field<F: NTTField>(mon: &Mon, name: &str) {
    let p = V::<F>::p();
    let reps = mon.n(60, 3000);
    mon.par(&format!("any length {name}"), 16, |c| {
        for r in 0..reps {
            let n = match r { 0..20 => r, 40 => 130 + c.below(4000) as usize, _ => c.below(130) as usize };
            let (xs, mut ys) = (V::<F>::edges(&mut c.rng, n), V::<F>::edges(&mut c.rng, n));
            if c.below(8) == 0 { ys = xs.clone(); }
            common!(c, F, Polynomial, "coefficient", xs, ys, p, name);
            common!(c, F, NTTPolynomial, "transform", xs, ys, p, name);
            let ctx = || format!("{name} {xs:?} {ys:?}");
            // evaluation
            let x = V::<F>::edge(&mut c.rng);
            let w = xs.iter().rev().fold(0, |s, &k| addm(mulm(s, x, p), k, p));
            c.eq(V::<F>::get(V::<F>::poly(&xs).evaluate(V::<F>::new(x))), w, "evaluate", || format!("{} at {x}", ctx()));
            // pointwise product of transform form, every form
            let (a, b) = (V::<F>::ntt(&xs), V::<F>::ntt(&ys));
            let w = zip(&xs, &ys, |x, y| mulm(x, y, p));
            for (i, g) in [a.clone() * b.clone(), a.clone() * &b, &a * b.clone(), &a * &b].iter().enumerate() {
                c.eq(V::<F>::unntt(g), w.clone(), "pointwise mul", || format!("form {i} {}", ctx()));
            }
            let mut t = a.clone(); t *= b.clone();
            c.eq(V::<F>::unntt(&t), w.clone(), "pointwise mul_assign", ctx);
            let mut t = a.clone(); t *= &b;
            c.eq(V::<F>::unntt(&t), w.clone(), "pointwise mul_assign", ctx);
            let mut t = V::<F>::ntt(&V::<F>::edges(&mut c.rng, n));
            a.mul_inplace(&b, &mut t);
            c.eq(V::<F>::unntt(&t), w.clone(), "pointwise mul_inplace", ctx);
            // multiply-accumulate
            let zs = V::<F>::edges(&mut c.rng, n);
            let z = V::<F>::ntt(&zs);
            let w = zip(&zs, &w, |x, y| addm(x, y, p));
            let mut t = z.clone();
            ntt_add_mul_assign(&mut t, &a, &b);
            c.eq(V::<F>::unntt(&t), w.clone(), "ntt_add_mul_assign", ctx);
            let mut t = V::<F>::ntt(&V::<F>::edges(&mut c.rng, n));
            ntt_add_mul_inplace(&z, &a, &b, &mut t);
            c.eq(V::<F>::unntt(&t), w.clone(), "ntt_add_mul_inplace", ctx);
            let ls: Vec<u128> = zs.iter().map(|&x| if c.idx % 2 == 0 { x } else { (x + p).min(2 * p - 1) }).collect();
            let mut t = NTTPolynomial::<F>::new(ls.iter().map(|&x| F::lazy_new(V::<F>::val(x))).collect());
            ntt_add_mul_assign_fast(&mut t, &a, &b);
            let g = V::<F>::unntt(&t);
            let wl: Vec<u128> = (0..n).map(|i| addm(ls[i], mulm(xs[i], ys[i], p), p)).collect();
            c.ok(g.iter().all(|&x| x < 2 * p) && g.iter().zip(&wl).all(|(&x, &y)| x % p == y), "ntt_add_mul_assign_fast", || format!("got {g:?} {}", ctx()));
            c.eq((V::<F>::unntt(&a), V::<F>::unntt(&b), V::<F>::unntt(&z)), (xs.clone(), ys.clone(), zs.clone()), "operand changed", ctx);
            // inverse of transform form
            let nz: Vec<u128> = xs.iter().map(|&x| if x == 0 { 1 } else { x }).collect();
            let a = V::<F>::ntt(&nz);
            let w: Vec<u128> = nz.iter().map(|&x| invm(x, p).unwrap()).collect();
            c.eq(V::<F>::unntt(&a.clone().inv()), w.clone(), "transform inv", ctx);
            c.eq(V::<F>::unntt(&(&a).inv()), w, "transform inv", ctx);
            c.seen((&xs, &ys));
        }
    });
    let top = V::<F>::max_log_n().min(11);
    let reps = mon.n(40, 1500);
    mon.par(&format!("ring product {name}"), (top as usize + 1) * 4, |c| {
        let n = 1usize << (c.idx / 4);
        for _ in 0..if n <= 128 { reps } else { 1 + reps / 40 } {
            let (xs, ys) = (V::<F>::edges(&mut c.rng, n), V::<F>::edges(&mut c.rng, n));
            let ctx = || format!("{name} n={n} {xs:?} {ys:?}");
            let w = negacyclic(&xs, &ys, p);
            let (a, b) = (V::<F>::poly(&xs), V::<F>::poly(&ys));
            let (fa, fb) = (a.clone().into_ntt_polynomial(), b.clone().into_ntt_polynomial());
            let fw = V::<F>::unntt(&V::<F>::poly(&w).into_ntt_polynomial());
            for (i, g) in [a.clone() * b.clone(), a.clone() * &b, &a * b.clone(), &a * &b,
                           a.clone() * fb.clone(), a.clone() * &fb, &a * fb.clone(), &a * &fb].iter().enumerate() {
                c.eq(V::<F>::unpoly(g), w.clone(), "ring mul", || format!("form {i} {}", ctx()));
            }
            let mut t = a.clone(); t *= b.clone();
            c.eq(V::<F>::unpoly(&t), w.clone(), "ring mul_assign", ctx);
            let mut t = a.clone(); t *= &b;
            c.eq(V::<F>::unpoly(&t), w.clone(), "ring mul_assign", ctx);
            let mut t = a.clone(); t *= fb.clone();
            c.eq(V::<F>::unpoly(&t), w.clone(), "ring mul_assign transform", ctx);
            let mut t = a.clone(); t *= &fb;
            c.eq(V::<F>::unpoly(&t), w.clone(), "ring mul_assign transform", ctx);
            for (i, g) in [fa.clone() * b.clone(), fa.clone() * &b, &fa * b.clone(), &fa * &b].iter().enumerate() {
                c.eq(V::<F>::unntt(g), fw.clone(), "transform times coefficient form", || format!("form {i} {}", ctx()));
            }
            let mut t = fa.clone(); t *= b.clone();
            c.eq(V::<F>::unntt(&t), fw.clone(), "transform times coefficient form", ctx);
            let mut t = fa.clone(); t *= &b;
            c.eq(V::<F>::unntt(&t), fw.clone(), "transform times coefficient form", ctx);
            c.eq((V::<F>::unpoly(&a), V::<F>::unpoly(&b)), (xs.clone(), ys.clone()), "operand changed", ctx);
            // inverse in the ring, where it exists
            if V::<F>::unntt(&fa).iter().all(|&x| x != 0) {
                let mut one = vec![0; n];
                one[0] = 1;
                c.eq(negacyclic(&V::<F>::unpoly(&a.clone().inv()), &xs, p), one.clone(), "ring inv", ctx);
                c.eq(negacyclic(&V::<F>::unpoly(&(&a).inv()), &xs, p), one, "ring inv", ctx);
                c.count("ring inverses", 1);
            }
            c.seen((&xs, &ys));
        }
        c.sample(|| format!("{name}: ring products of degree {n}"));
    });
}

fn main() {
    let mon = Mon::new("C17");
    macro_rules! f { ($F:ty, $n:expr) => { field::<$F>(&mon, $n); } }
    for_ntt_fields!(f);
    let _ = edge;
    mon.finish(
        "every test field; every length 0..20, random lengths to 130 and one in sixty to 4130 for elementwise operations, every power of two to 2048 for ring products; constant, sparse, alternating and random coefficients; every operator form, dirty destinations; distinct by operand pair",
        &["schoolbook negacyclic multiplication in u128 is the reference"],
    );
}
