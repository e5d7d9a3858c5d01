//! C16: the number-theoretic transform against direct evaluation.
use algebra::transformation::{AbstractNTT, MonomialNTT, NTTTable};
use algebra::{FheField, Field, NTTField, NTTPolynomial, Polynomial};
use algebra::modulus::ShoupFactor;
use mon::fields::V;
use mon::refs::*;
use mon::{edge, for_ntt_fields, Case, Mon};
use rand::RngCore;

fn rev(i: usize, bits: u32) -> usize {
    if bits == 0 { 0 } else { i.reverse_bits() >> (usize::BITS - bits) }
}
fn eval(a: &[u128], x: u128, p: u128) -> u128 {
    a.iter().rev().fold(0, |s, &c| addm(mulm(s, x, p), c, p))
}

/// exponents (odd) of the evaluation points, in the table's order
fn exps(log_n: u32) -> Vec<usize> {
    (0..1usize << log_n).map(|i| 2 * rev(i, log_n) + 1).collect()
}

fn input<F: Field>(c: &mut Case, n: usize, p: u128) -> Vec<u128> {
    match c.below(8) {
        0 => vec![p - 1; n],
        1 => { let mut v = vec![0; n]; v[c.below(n as u64) as usize] = p - 1; v }
        2 => (0..n).map(|i| if i % 2 == 0 { p - 1 } else { 0 }).collect(),
        3 => (0..n).map(|i| if i < n / 2 { p - 1 } else { 1 }).collect(),
        _ => (0..n).map(|_| edge(&mut c.rng, p - 1)).collect(),
    }
}

fn field<F>(mon: &Mon, name: &str)
where
    F: NTTField<Table = NTTTable<F>, Root = ShoupFactor<<F as Field>::Value>>,
{
    let p = V::<F>::p();
    let top = V::<F>::max_log_n().min(if mon.thorough { 17 } else { 13 });
    let reps = mon.n(60, 400);
    mon.par(&format!("transform {name}"), (top as usize + 1) * 4, |c| {
        let log_n = (c.idx / 4) as u32;
        let n = 1usize << log_n;
        let t = F::get_ntt_table(log_n).expect("supported size");
        let ctx = || format!("{name} n={n}");
        if c.idx % 4 == 0 {
            // the table itself
            let w = V::<F>::get(t.root());
            c.ok(powm(w, n as u128, p) == p - 1, "table root order", ctx);
            c.eq(V::<F>::get(AbstractNTT::root(&*t)), w, "table root accessors", ctx);
            c.eq(mulm(w, V::<F>::get(t.inv_root()), p), 1, "table inverse root", ctx);
            c.eq(t.coeff_count(), n, "table size", ctx);
            c.eq(t.coeff_count_power(), log_n, "table size", ctx);
            c.eq(mulm(V::<F>::get(F::from_root(t.inv_degree())), n as u128, p), 1, "table inverse degree", ctx);
            let o: Vec<u128> = t.ordinal_root_powers().iter().map(|&r| V::<F>::get(F::from_root(r))).collect();
            c.eq(o.len(), 2 * n, "ordinal root powers", ctx);
            let mut x = 1;
            for (i, &r) in o.iter().enumerate() {
                c.eq(r, x, "ordinal root powers", || format!("{} power {i}", ctx()));
                x = mulm(x, w, p);
            }
            for (i, &r) in t.root_powers().iter().enumerate() {
                c.eq(V::<F>::get(F::from_root(r)), powm(w, rev(i, log_n) as u128, p), "root powers order", || format!("{} index {i}", ctx()));
            }
            // two independently generated tables transform alike
            let g = F::generate_ntt_table(log_n).expect("supported size");
            c.eq(g.root(), t.root(), "generated table root", ctx);
            let a = input::<F>(c, n, p);
            let (mut x, mut y) = (V::<F>::vec(&a), V::<F>::vec(&a));
            t.transform_slice(&mut x);
            g.transform_slice(&mut y);
            c.eq(V::<F>::back(&x), V::<F>::back(&y), "generated table transform", ctx);
        }
        let w = V::<F>::get(t.root());
        let e = exps(log_n);
        for _ in 0..(if n > 1024 { reps / 4 + 1 } else { reps }) {
            let a = input::<F>(c, n, p);
            let poly = V::<F>::poly(&a);
            let f = t.transform(&poly);
            let fv = V::<F>::unntt(&f);
            c.ok(fv.iter().all(|&x| x < p), "transform output reduced", ctx);
            let mut pos: Vec<usize> = if n <= 128 { (0..n).collect() } else { (0..12).map(|_| c.below(n as u64) as usize).collect() };
            pos.push(n - 1);
            for i in pos {
                c.eq(fv[i], eval(&a, powm(w, e[i] as u128, p), p), "transform is evaluation", || format!("{} position {i} {:?}", ctx(), &a[..n.min(16)]));
            }
            // every form of the forward transform
            c.eq(V::<F>::unntt(&t.transform_inplace(poly.clone())), fv.clone(), "transform forms", ctx);
            c.eq(V::<F>::unntt(&poly.clone().into_ntt_polynomial()), fv.clone(), "transform forms", ctx);
            c.eq(V::<F>::unntt(&NTTPolynomial::from(poly.clone())), fv.clone(), "transform forms", ctx);
            // lazy inputs below 4p, as documented
            let mut lz: Vec<F> = a.iter().map(|&x| { let k = c.rng.next_u32() as u128 % 4; F::lazy_new(V::<F>::val(x + k * p)) }).collect();
            t.transform_slice(&mut lz);
            c.eq(V::<F>::back(&lz), fv.clone(), "transform of lazy input", ctx);
            let mut lz: Vec<F> = a.iter().map(|&x| F::lazy_new(V::<F>::val(x + 3 * p))).collect();
            t.transform_slice(&mut lz);
            c.eq(V::<F>::back(&lz), fv.clone(), "transform of lazy input", ctx);
            // inverse
            let b = t.inverse_transform(&f);
            c.eq(V::<F>::unpoly(&b), a.clone(), "inverse undoes transform", || format!("{} {:?}", ctx(), &a[..n.min(16)]));
            c.eq(V::<F>::unpoly(&t.inverse_transform_inplace(f.clone())), a.clone(), "inverse forms", ctx);
            c.eq(V::<F>::unpoly(&f.clone().into_native_polynomial()), a.clone(), "inverse forms", ctx);
            c.eq(V::<F>::unpoly(&Polynomial::from(f.clone())), a.clone(), "inverse forms", ctx);
            for all in [false, true] {
                let mut lz: Vec<F> = fv.iter().map(|&x| { let k = if all { 1 } else { c.rng.next_u32() as u128 % 2 }; F::lazy_new(V::<F>::val(x + k * p)) }).collect();
                t.inverse_transform_slice(&mut lz);
                c.eq(V::<F>::back(&lz), a.clone(), "inverse of lazy input", ctx);
            }
            // inverse first, on arbitrary values
            let g = input::<F>(c, n, p);
            let h = t.inverse_transform(&V::<F>::ntt(&g));
            let hv = V::<F>::unpoly(&h);
            c.ok(hv.iter().all(|&x| x < p), "inverse output reduced", ctx);
            c.eq(V::<F>::unntt(&t.transform(&h)), g.clone(), "transform undoes inverse", ctx);
            // products
            let prod = V::<F>::unpoly(&t.inverse_transform(&(f.clone() * &t.transform(&h))));
            if n <= 64 {
                c.eq(prod, negacyclic(&a, &hv, p), "pointwise product is the negacyclic product", || format!("{} {a:?} {hv:?}", ctx()));
            } else {
                for _ in 0..4 {
                    let k = c.below(n as u64) as usize;
                    let mut s = 0;
                    for i in 0..n {
                        let v = mulm(a[i], hv[(k + n - i) % n], p);
                        s = if i <= k { addm(s, v, p) } else { subm(s, v, p) };
                    }
                    c.eq(prod[k], s, "pointwise product is the negacyclic product", || format!("{} coefficient {k}", ctx()));
                }
            }
            c.seen(&a);
        }
        c.count("table sizes", (c.idx % 4 == 0) as u64);
        c.sample(|| format!("{name} n={n} root {w}"));
    });
    let cap = if mon.thorough { 11 } else { 9 };
    mon.par(&format!("monomials {name}"), (top.min(cap) as usize + 1) * 2, |c| {
        let log_n = (c.idx / 2) as u32;
        let n = 1usize << log_n;
        let t = F::get_ntt_table(log_n).expect("supported size");
        let w = V::<F>::get(t.root());
        let e = exps(log_n);
        let mut degs: Vec<usize> = if n <= 32 { (0..4 * n + 3).collect() } else { (0..40).map(|_| c.below(2 * n as u64) as usize).collect() };
        degs.extend([0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n + 1, 1 << 20, u32::MAX as usize]);
        for d in degs {
            let want1: Vec<u128> = { e.iter().map(|&k| powm(w, (k * d % (2 * n)) as u128, p)).collect() };
            if d < n {
                // against the general transform
                let mut a = vec![0; n];
                a[d] = 1;
                c.eq(V::<F>::unntt(&t.transform(&V::<F>::poly(&a))), want1.clone(), "transform of a monomial", || format!("{name} n={n} X^{d}"));
            }
            let x = V::<F>::edge(&mut c.rng);
            for k in [0, 1, p - 1, x, 2 % p] {
                let mut v: Vec<F> = V::<F>::vec(&V::<F>::edges(&mut c.rng, n));
                t.transform_monomial(V::<F>::new(k), d, &mut v);
                let want: Vec<u128> = want1.iter().map(|&r| mulm(r, k, p)).collect();
                c.eq(V::<F>::back(&v), want, "transform_monomial", || format!("{name} n={n} {k} X^{d}"));
            }
            let mut v: Vec<F> = V::<F>::vec(&V::<F>::edges(&mut c.rng, n));
            t.transform_coeff_one_monomial(d, &mut v);
            c.eq(V::<F>::back(&v), want1.clone(), "transform_coeff_one_monomial", || format!("{name} n={n} X^{d}"));
            let mut v: Vec<F> = V::<F>::vec(&V::<F>::edges(&mut c.rng, n));
            t.transform_coeff_neg_one_monomial(d, &mut v);
            let want: Vec<u128> = want1.iter().map(|&r| negm(r, p)).collect();
            c.eq(V::<F>::back(&v), want, "transform_coeff_neg_one_monomial", || format!("{name} n={n} -X^{d}"));
            c.seen((n, d));
        }
    });
}

fn main() {
    let mon = Mon::new("C16");
    macro_rules! f { ($F:ty, $n:expr) => { field::<$F>(&mon, $n); } }
    for_ntt_fields!(f);
    mon.finish(
        "every transform-friendly test field and every size it supports up to 2^13 (2^17 thorough); constant, sparse, alternating and random inputs, reduced and lazy; monomials of every degree up to 4n at small sizes; distinct by input",
        &["Horner evaluation and schoolbook multiplication in u128 are the references", "sizes above the cap are not observed"],
    );
}
