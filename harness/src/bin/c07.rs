//! C07: RLWE arithmetic, rotation and extraction against the ring Z_p[X]/(X^n+1).
use algebra::{Field, FieldDiscreteGaussianSampler, NTTField, NTTPolynomial, Polynomial};
use lattice::{NTTRLWE, RLWE};
use mon::fields::*;
use mon::refs::*;
use mon::stats::*;
use mon::{for_ntt_fields, Case, Mon};

type P = Vec<u128>;
fn add(a: &P, b: &P, p: u128) -> P {
    a.iter().zip(b).map(|(&x, &y)| addm(x, y, p)).collect()
}
fn sub(a: &P, b: &P, p: u128) -> P {
    a.iter().zip(b).map(|(&x, &y)| subm(x, y, p)).collect()
}
/// a * X^r for 0 <= r <= 2n
fn rot(a: &P, r: usize, p: u128) -> P {
    let n = a.len();
    let mut v = vec![0; n];
    for i in 0..n {
        let k = (i + r) % (2 * n);
        if k < n {
            v[k] = a[i];
        } else {
            v[k - n] = negm(a[i], p);
        }
    }
    v
}
fn phase(a: &P, b: &P, s: &P, p: u128) -> P {
    sub(b, &negacyclic(a, s, p), p)
}
fn rl<F: NTTField>(a: &P, b: &P) -> RLWE<F> {
    RLWE::new(V::<F>::poly(a), V::<F>::poly(b))
}
fn un<F: NTTField>(r: &RLWE<F>) -> (P, P) {
    (V::<F>::back(r.a_slice()), V::<F>::back(r.b_slice()))
}
fn unn<F: NTTField>(r: &NTTRLWE<F>) -> (P, P) {
    (V::<F>::back(r.a_slice()), V::<F>::back(r.b_slice()))
}
fn coef<F: NTTField>(q: &P) -> P {
    V::<F>::unpoly(&V::<F>::ntt(q).into_native_polynomial())
}
fn tr<F: NTTField>(q: &P) -> P {
    V::<F>::unntt(&V::<F>::poly(q).into_ntt_polynomial())
}

fn size<F: NTTField>(c: &mut Case) -> usize {
    let small = if c.thorough() { 8 } else { 6 };
    V::<F>::ring(c, small, 11)
}

fn arithmetic<F: NTTField>(c: &mut Case, name: &str) {
    let p = V::<F>::p();
    let n = size::<F>(c);
    let e = |c: &mut Case| V::<F>::edges(&mut c.rng, n);
    let (a1, b1, a2, b2, s) = (e(c), e(c), e(c), e(c), e(c));
    let x = rl::<F>(&a1, &b1);
    let y = rl::<F>(&a2, &b2);
    let (x0, y0) = (x.clone(), y.clone());
    let ctx = || format!("{name} n={n} {:?} {:?} / {:?} {:?}", &a1[..n.min(8)], &b1[..n.min(8)], &a2[..n.min(8)], &b2[..n.min(8)]);
    let wadd = (add(&a1, &a2, p), add(&b1, &b2, p));
    let wsub = (sub(&a1, &a2, p), sub(&b1, &b2, p));
    c.eq(un(&x.add_element_wise_ref(&y)), wadd.clone(), "add ref", ctx);
    c.eq(un(&x.clone().add_element_wise(&y)), wadd.clone(), "add", ctx);
    c.eq(un(&x.sub_element_wise_ref(&y)), wsub.clone(), "sub ref", ctx);
    c.eq(un(&x.clone().sub_element_wise(&y)), wsub.clone(), "sub", ctx);
    let mut t = x.clone();
    t.add_assign_element_wise(&y);
    c.eq(un(&t), wadd.clone(), "add assign", ctx);
    let mut t = x.clone();
    t.sub_assign_element_wise(&y);
    c.eq(un(&t), wsub.clone(), "sub assign", ctx);
    let mut d = rl::<F>(&e(c), &e(c));
    x.add_inplace(&y, &mut d);
    c.eq(un(&d), wadd.clone(), "add inplace", ctx);
    x.sub_inplace(&y, &mut d);
    c.eq(un(&d), wsub.clone(), "sub inplace", ctx);
    // the phase is linear
    let (ph1, ph2) = (phase(&a1, &b1, &s, p), phase(&a2, &b2, &s, p));
    let (ga, gb) = un(&x.add_element_wise_ref(&y));
    c.eq(phase(&ga, &gb, &s, p), add(&ph1, &ph2, p), "phase of a sum", ctx);
    // transform form
    let (nx, ny) = (NTTRLWE::from(x.clone()), NTTRLWE::from(y.clone()));
    let t1 = (tr::<F>(&a1), tr::<F>(&b1));
    let t2 = (tr::<F>(&a2), tr::<F>(&b2));
    c.eq(unn(&nx), t1.clone(), "to transform form", ctx);
    c.eq(unn(&NTTRLWE::<F>::from((V::<F>::poly(&a1), V::<F>::poly(&b1)))), t1.clone(), "pair to transform form", ctx);
    c.eq(un(&RLWE::from(nx.clone())), (a1.clone(), b1.clone()), "back from transform form", ctx);
    c.eq(un(&RLWE::<F>::from((V::<F>::ntt(&t1.0), V::<F>::ntt(&t1.1)))), (a1.clone(), b1.clone()), "pair back from transform form", ctx);
    let mut d = rl::<F>(&e(c), &e(c));
    nx.inverse_transform_inplace(&mut d);
    c.eq(un(&d), (a1.clone(), b1.clone()), "inverse_transform_inplace", ctx);
    let tadd = (add(&t1.0, &t2.0, p), add(&t1.1, &t2.1, p));
    let tsub = (sub(&t1.0, &t2.0, p), sub(&t1.1, &t2.1, p));
    c.eq(unn(&nx.add_element_wise_ref(&ny)), tadd.clone(), "ntt add ref", ctx);
    c.eq(unn(&nx.clone().add_element_wise(&ny)), tadd.clone(), "ntt add", ctx);
    c.eq(unn(&nx.sub_element_wise_ref(&ny)), tsub.clone(), "ntt sub ref", ctx);
    c.eq(unn(&nx.clone().sub_element_wise(&ny)), tsub.clone(), "ntt sub", ctx);
    let mut t = nx.clone();
    t.add_element_wise_assign(&ny);
    c.eq(unn(&t), tadd.clone(), "ntt add assign", ctx);
    let mut t = nx.clone();
    t.sub_element_wise_assign(&ny);
    c.eq(unn(&t), tsub.clone(), "ntt sub assign", ctx);
    let mut d = NTTRLWE::new(V::<F>::ntt(&e(c)), V::<F>::ntt(&e(c)));
    nx.add_inplace(&ny, &mut d);
    c.eq(unn(&d), tadd, "ntt add inplace", ctx);
    nx.sub_inplace(&ny, &mut d);
    c.eq(unn(&d), tsub, "ntt sub inplace", ctx);
    // multiplication by a polynomial: negacyclic on both halves, in every form
    let q = e(c);
    let qn = V::<F>::poly(&q).into_ntt_polynomial();
    let w = (negacyclic(&a1, &q, p), negacyclic(&b1, &q, p));
    let view = |r: &NTTRLWE<F>| { let (a, b) = unn(r); (coef::<F>(&a), coef::<F>(&b)) };
    let mut d = NTTRLWE::new(V::<F>::ntt(&e(c)), V::<F>::ntt(&e(c)));
    x.mul_ntt_polynomial_inplace(&qn, &mut d);
    c.eq(view(&d), w.clone(), "times polynomial from coefficient form", ctx);
    let mut d = NTTRLWE::new(V::<F>::ntt(&e(c)), V::<F>::ntt(&e(c)));
    nx.mul_ntt_polynomial_inplace(&qn, &mut d);
    c.eq(view(&d), w.clone(), "times polynomial inplace", ctx);
    let mut t = nx.clone();
    t.mul_ntt_polynomial_assign(&qn);
    c.eq(view(&t), w.clone(), "times polynomial assign", ctx);
    let wacc = (add(&a2, &w.0, p), add(&b2, &w.1, p));
    let mut t = ny.clone();
    t.add_ntt_rlwe_mul_ntt_polynomial_assign(&nx, &qn);
    c.eq(view(&t), wacc.clone(), "multiply-accumulate", ctx);
    let mut d = NTTRLWE::new(V::<F>::ntt(&e(c)), V::<F>::ntt(&e(c)));
    ny.add_ntt_rlwe_mul_ntt_polynomial_inplace(&nx, &qn, &mut d);
    c.eq(view(&d), wacc.clone(), "multiply-accumulate inplace", ctx);
    // lazy accumulation: below 2p, congruent, and accepted by the inverse transform, however often repeated
    let mut t = ny.clone();
    let reps = 1 + c.below(6) as usize;
    let mut want = (a2.clone(), b2.clone());
    for _ in 0..reps {
        t.add_ntt_rlwe_mul_ntt_polynomial_assign_fast(&nx, &qn);
        want = (add(&want.0, &w.0, p), add(&want.1, &w.1, p));
        let (g, h) = unn(&t);
        c.ok(g.iter().chain(&h).all(|&v| v < 2 * p), "lazy accumulate range", ctx);
    }
    let mut d = rl::<F>(&e(c), &e(c));
    t.inverse_transform_inplace(&mut d);
    c.eq(un(&d), want, "lazy accumulate value", ctx);
    c.ok(x == x0 && y == y0, "operand changed", ctx);
    // construction and views
    c.eq(un(&RLWE::<F>::zero(n)), (vec![0; n], vec![0; n]), "zero", ctx);
    c.eq(unn(&NTTRLWE::<F>::zero(n)), (vec![0; n], vec![0; n]), "ntt zero", ctx);
    let mut t = x.clone();
    t.set_zero();
    c.eq(un(&t), (vec![0; n], vec![0; n]), "set_zero", ctx);
    let mut t = nx.clone();
    t.set_zero();
    c.eq(unn(&t), (vec![0; n], vec![0; n]), "ntt set_zero", ctx);
    c.ok(RLWE::from_ref(x.a(), x.b()) == x && NTTRLWE::from_ref(nx.a(), nx.b()) == nx, "from_ref", ctx);
    c.ok(RLWE::from((V::<F>::poly(&a1), V::<F>::poly(&b1))) == x, "from pair", ctx);
    c.eq((x.dimension(), nx.dimension()), (n, n), "dimension", ctx);
    let mut t = x.clone();
    {
        let (ta, tb) = t.a_b_mut_slices();
        ta.copy_from_slice(y.a_slice());
        tb.copy_from_slice(y.b_slice());
    }
    c.ok(t == y, "mutable slices", ctx);
    let mut t = x.clone();
    t.a_mut().copy_from(y.a());
    t.b_mut_slice().copy_from_slice(y.b_slice());
    c.ok(t == y, "mutable halves", ctx);
    let mut t = x.clone();
    { let (ta, tb) = t.a_b_mut(); std::mem::swap(ta, tb); }
    c.eq(un(&t), (b1.clone(), a1.clone()), "a_b_mut order", ctx);
    let mut t = nx.clone();
    { let (ta, tb) = t.a_b_mut(); std::mem::swap(ta, tb); }
    c.eq(unn(&t), (t1.1.clone(), t1.0.clone()), "ntt a_b_mut order", ctx);
    let mut t = nx.clone();
    { let (ta, tb) = t.a_b_mut_slices(); ta.swap_with_slice(tb); }
    c.eq(unn(&t), (t1.1.clone(), t1.0.clone()), "ntt slices order", ctx);
    c.seen((n, a1.clone(), b2.clone()));
    c.count("ring operations", 34);
    c.sample(|| format!("{name} n={n} a={:?} b={:?}", &a1[..n.min(4)], &b1[..n.min(4)]));
}

fn monomials<F: NTTField>(c: &mut Case, name: &str) {
    let p = V::<F>::p();
    let n = size::<F>(c);
    let e = |c: &mut Case| V::<F>::edges(&mut c.rng, n);
    let (a, b, a2, b2) = (e(c), e(c), e(c), e(c));
    let x = rl::<F>(&a, &b);
    let all = n <= 16;
    for k in 0..if all { 2 * n + 1 } else { 40 } {
        let r = if all { k } else { match c.below(4) { 0 => [0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n][c.below(7) as usize], _ => c.below(2 * n as u64 + 1) as usize } };
        let ctx = || format!("{name} n={n} r={r} a={:?}", &a[..n.min(8)]);
        let (ra, rb) = (rot(&a, r, p), rot(&b, r, p));
        let mut d = rl::<F>(&e(c), &e(c));
        x.mul_monic_monomial_sub_one_inplace(n, r, &mut d);
        c.eq(un(&d), (sub(&ra, &a, p), sub(&rb, &b, p)), "times X^r - 1", ctx);
        let mut d = rl::<F>(&a2, &b2);
        d.add_assign_rhs_mul_monic_monomial(&x, n, r);
        c.eq(un(&d), (add(&a2, &ra, p), add(&b2, &rb, p)), "plus times X^r", ctx);
        c.seen((n, r, a[0], b[n - 1]));
        c.count("rotations", 2);
    }
    c.eq(un(&x), (a.clone(), b.clone()), "operand changed", || name.into());
}

fn extraction<F: NTTField>(c: &mut Case, name: &str) {
    let p = V::<F>::p();
    let n = size::<F>(c);
    let e = |c: &mut Case| V::<F>::edges(&mut c.rng, n);
    let (a, b, mut s) = (e(c), e(c), e(c));
    let x = rl::<F>(&a, &b);
    let ctx = || format!("{name} n={n} a={:?}", &a[..n.min(8)]);
    let dot = |l: &lattice::LWE<F>, k: &P| -> u128 {
        let t = l.a().iter().zip(k).fold(0, |t, (&u, &v)| addm(t, mulm(V::<F>::get(u), v, p), p));
        subm(V::<F>::get(l.b()), t, p)
    };
    let want = phase(&a, &b, &s, p)[0];
    let full = x.extract_lwe();
    c.eq(full.a().len(), n, "extracted dimension", ctx);
    c.eq(dot(&full, &s), want, "extract_lwe phase", ctx);
    c.eq(dot(&x.clone().extract_lwe_locally(), &s), want, "extract_lwe_locally phase", ctx);
    // the reversed form pairs with the reversed key (s0, -s_{n-1}, ..., -s_1)
    let rev = |s: &P| -> P { (0..n).map(|i| if i == 0 { s[0] } else { negm(s[n - i], p) }).collect() };
    c.eq(dot(&x.clone().extract_lwe_reverse_locally(), &rev(&s)), want, "extract_lwe_reverse_locally phase", ctx);
    // partial forms pair with keys whose remaining coefficients are zero
    let d = 1 + c.below(n as u64) as usize;
    let l = x.clone().extract_partial_lwe_locally(d);
    c.eq(l.a().len(), d, "partial dimension", ctx);
    s = e(c);
    s[d..].iter_mut().for_each(|v| *v = 0);
    c.eq(dot(&l, &s), phase(&a, &b, &s, p)[0], "extract_partial_lwe_locally phase", ctx);
    let l = x.clone().extract_partial_lwe_reverse_locally(d);
    c.eq(l.a().len(), d, "partial reversed dimension", ctx);
    s = e(c);
    // s_0 and the d-1 highest coefficients remain
    s[1..n - (d - 1)].iter_mut().for_each(|v| *v = 0);
    c.eq(dot(&l, &rev(&s)), phase(&a, &b, &s, p)[0], "extract_partial_lwe_reverse_locally phase", ctx);
    for l in [&full, &l] {
        c.ok(l.a().iter().chain([&l.b()]).all(|&v| V::<F>::get(v) < p), "extracted value not reduced", ctx);
    }
    c.seen((n, d, a.clone()));
    c.count("extractions", 5);
}

fn samples<F: NTTField>(c: &mut Case, name: &str) {
    let p = V::<F>::p();
    let large = if c.idx % 32 == 13 { 5 } else { 0 };
    let n = 1usize << V::<F>::max_log_n().min(6 + large).min(2 + large + c.below(5) as u32);
    let s: P = match c.below(4) {
        0 => (0..n).map(|_| c.below(2) as u128).collect(),
        1 => (0..n).map(|_| [0, 0, 1, p - 1][c.below(4) as usize]).collect(),
        2 => vec![0; n],
        _ => V::<F>::edges(&mut c.rng, n),
    };
    let sk = V::<F>::poly(&s).into_ntt_polynomial();
    let sd = [0.4, 1.0, 3.2, 6.4, 20.0][c.below(5) as usize];
    let bound = if sd == 3.2 { 21 } else { (6.0 * sd + 0.5) as i128 };
    if (p as i128) < 2 * bound + 4 {
        return;
    }
    let Ok(g) = FieldDiscreteGaussianSampler::new(0.0, sd) else { return };
    let mut sum2 = 0f64;
    let mut num = 0f64;
    let mut hist = vec![0u64; 8];
    let mut masks = vec![];
    for k in 0..12 {
        let v = V::<F>::edge(&mut c.rng);
        let (r, val, how): (RLWE<F>, u128, &str) = match k % 3 {
            0 => (RLWE::generate_random_zero_sample(&sk, g, &mut c.rng), 0, "coefficient zero sample"),
            1 => (NTTRLWE::generate_random_zero_sample(&sk, g, &mut c.rng).into(), 0, "transform zero sample"),
            _ => (NTTRLWE::generate_random_value_sample(&sk, V::<F>::new(v), g, &mut c.rng).into(), v, "value sample"),
        };
        let ctx = || format!("{name} {how} n={n} sd={sd} value {val}");
        let (a, b) = un(&r);
        c.ok(a.len() == n && b.len() == n && a.iter().chain(&b).all(|&x| x < p), "sample shape", ctx);
        let mut ph = phase(&a, &b, &s, p);
        ph[0] = subm(ph[0], val, p);
        let err: Vec<i128> = ph.iter().map(|&x| centered(x, p)).collect();
        c.ok(err.iter().all(|e| e.abs() <= bound), "sample phase", || format!("error {:?} bound {bound} {}", &err[..n.min(8)], ctx()));
        sum2 += err.iter().map(|&e| (e * e) as f64).sum::<f64>();
        num += n as f64;
        a.iter().for_each(|&x| hist[(x * 8 / p) as usize] += 1);
        masks.push(a.clone());
        c.seen((how, a, val));
        c.count("samples", 1);
    }
    if sd >= 1.0 {
        let w = if sd == 3.2 { 10.5 } else { sd * sd + 1.0 / 12.0 };
        let z = (sum2 / num / w - 1.0) / (2.0 / num).sqrt();
        // the tail of a small chi-square is heavier than a normal's
        c.ok(z > -LIMIT && z < 12.0, "sample noise spread", || format!("{name} n={n} sd={sd}: variance ratio {:.3} over {num}", sum2 / num / w));
    }
    let probs: Vec<f64> = (0..8u128).map(|i| (((i + 1) * p).div_ceil(8) - (i * p).div_ceil(8)) as f64 / p as f64).collect();
    if let Some(z) = fit(&hist, &probs) {
        c.ok(z < LIMIT, "sample mask not uniform", || format!("{name} n={n} {hist:?}"));
    }
    if n >= 8 && p > 1000 {
        masks.sort();
        let k = masks.len();
        masks.dedup();
        c.eq(masks.len(), k, "sample mask repeated", || name.into());
    }
}

fn main() {
    let m = Mon::new("C07");
    macro_rules! all {
        ($F:ty, $name:expr, $m:expr) => {
            $m.par(concat!("arithmetic ", $name), $m.n(250, 8000), |c| arithmetic::<$F>(c, $name));
            $m.par(concat!("monomials ", $name), $m.n(120, 3000), |c| monomials::<$F>(c, $name));
            $m.par(concat!("extraction ", $name), $m.n(300, 8000), |c| extraction::<$F>(c, $name));
            $m.par(concat!("samples ", $name), $m.n(60, 2000), |c| samples::<$F>(c, $name));
        };
    }
    for_ntt_fields!(all, m);
    // the shipped ring size
    m.par("shipped ring", m.n(8, 200), |c| {
        type F = DefaultFieldU32;
        let (n, p) = (1024usize, V::<F>::p());
        let a = V::<F>::edges(&mut c.rng, n);
        let b = V::<F>::edges(&mut c.rng, n);
        let x = rl::<F>(&a, &b);
        for _ in 0..200 {
            let r = c.below(2 * n as u64 + 1) as usize;
            let mut d = RLWE::<F>::zero(n);
            x.mul_monic_monomial_sub_one_inplace(n, r, &mut d);
            c.eq(un(&d), (sub(&rot(&a, r, p), &a, p), sub(&rot(&b, r, p), &b, p)), "times X^r - 1", || format!("r={r}"));
            let mut d = x.clone();
            d.add_assign_rhs_mul_monic_monomial(&x, n, r);
            c.eq(un(&d), (add(&rot(&a, r, p), &a, p), add(&rot(&b, r, p), &b, p)), "plus times X^r", || format!("r={r}"));
            c.seen((r, a[0]));
        }
        let s: P = (0..n).map(|_| [0, 0, 1, p - 1][c.below(4) as usize]).collect();
        let sk: NTTPolynomial<F> = V::<F>::poly(&s).into_ntt_polynomial();
        let g = FieldDiscreteGaussianSampler::new(0.0, 6.4).expect("valid");
        let (sa, sb) = un::<F>(&NTTRLWE::generate_random_zero_sample(&sk, g, &mut c.rng).into());
        let ph = phase(&sa, &sb, &s, p);
        c.ok(ph.iter().all(|&x| centered(x, p).abs() <= 38), "sample phase", || "shipped ring".into());
        let _ = (Polynomial::<F>::zero(1), <F as Field>::MODULUS_VALUE);
    });
    m.finish(
        "a distinct (field, size, operands, degree or truncation) checked against the ring definition",
        &["ring sizes up to 2^6 (2^8 thorough), one case in 32 up to 2^11", "rotation degrees 0..=2n as documented; a negacyclic key convention (s0, -s_{n-1}, .., -s_1) for the reversed extractions"],
    );
}
