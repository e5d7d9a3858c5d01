//! C08: gadget and RGSW products against the ring.
use algebra::{Basis, Field, FieldDiscreteGaussianSampler, NTTField};
use lattice::*;
use mon::fields::*;
use mon::refs::*;
use mon::stats::*;
use mon::{for_ntt_fields, Case, Mon};

type P = Vec<u128>;
type Row = (P, P);
fn add(a: &P, b: &P, p: u128) -> P {
    a.iter().zip(b).map(|(&x, &y)| addm(x, y, p)).collect()
}
fn sub(a: &P, b: &P, p: u128) -> P {
    a.iter().zip(b).map(|(&x, &y)| subm(x, y, p)).collect()
}
fn neg(a: &P, p: u128) -> P {
    a.iter().map(|&x| negm(x, p)).collect()
}
fn scale(a: &P, k: u128, p: u128) -> P {
    a.iter().map(|&x| mulm(x, k, p)).collect()
}
fn radd(x: &Row, y: &Row, p: u128) -> Row {
    (add(&x.0, &y.0, p), add(&x.1, &y.1, p))
}
fn rsub(x: &Row, y: &Row, p: u128) -> Row {
    (sub(&x.0, &y.0, p), sub(&x.1, &y.1, p))
}
fn rmul(x: &Row, q: &P, p: u128) -> Row {
    (negacyclic(&x.0, q, p), negacyclic(&x.1, q, p))
}
fn phase(x: &Row, s: &P, p: u128) -> P {
    sub(&x.1, &negacyclic(&x.0, s, p), p)
}
fn rl<F: NTTField>(x: &Row) -> RLWE<F> {
    RLWE::new(V::<F>::poly(&x.0), V::<F>::poly(&x.1))
}
fn nrl<F: NTTField>(x: &Row) -> NTTRLWE<F> {
    NTTRLWE::from(rl::<F>(x))
}
fn un<F: NTTField>(r: &RLWE<F>) -> Row {
    (V::<F>::back(r.a_slice()), V::<F>::back(r.b_slice()))
}
/// coefficient view of a transform-form ciphertext, whose values may be lazy (below 2p)
fn view<F: NTTField>(r: &NTTRLWE<F>) -> Row {
    let p = V::<F>::p();
    let f = |v: &[F]| {
        let w: P = v.iter().map(|&x| V::<F>::get(x) % p).collect();
        V::<F>::unpoly(&V::<F>::ntt(&w).into_native_polynomial())
    };
    (f(r.a_slice()), f(r.b_slice()))
}
fn top<F: NTTField>(r: &NTTRLWE<F>) -> u128 {
    r.a_slice().iter().chain(r.b_slice()).map(|&x| V::<F>::get(x)).max().unwrap()
}
fn digits(x: &P, bits: u32, len: usize) -> Vec<P> {
    (0..len).map(|i| x.iter().map(|&v| (v >> (bits as usize * i)) & ((1 << bits) - 1)).collect()).collect()
}
/// sum of digit_i * row_i
fn gprod(rows: &[Row], x: &P, bits: u32, p: u128) -> Row {
    let mut t = (vec![0; x.len()], vec![0; x.len()]);
    for (d, r) in digits(x, bits, rows.len()).iter().zip(rows) {
        t = radd(&t, &rmul(r, d, p), p);
    }
    t
}
fn size<F: NTTField>(c: &mut Case) -> usize {
    let small = if c.thorough() { 7 } else { 5 };
    V::<F>::ring(c, small, 10)
}
fn mbits<F: Field>() -> u32 {
    128 - V::<F>::p().leading_zeros()
}
struct Dirty<F: NTTField> {
    d: DecompositionSpace<F>,
    p: PolynomialSpace<F>,
    m: NTTRLWESpace<F>,
}
fn spaces<F: NTTField>(c: &mut Case, n: usize) -> Dirty<F> {
    let mut t = Dirty { d: DecompositionSpace::new(n), p: PolynomialSpace::new(n), m: NTTRLWESpace::new(n) };
    if c.below(2) == 0 {
        t.d.as_mut_slice().copy_from_slice(&V::<F>::vec(&V::<F>::edges(&mut c.rng, n)));
        t.p.as_mut_slice().copy_from_slice(&V::<F>::vec(&V::<F>::edges(&mut c.rng, n)));
        t.m.a_mut_slice().copy_from_slice(&V::<F>::vec(&V::<F>::edges(&mut c.rng, n)));
        t.m.b_mut_slice().copy_from_slice(&V::<F>::vec(&V::<F>::edges(&mut c.rng, n)));
    }
    t
}

/// Arbitrary gadget rows: every form equals the digit sum in the ring.
fn products<F: NTTField>(c: &mut Case, name: &str) {
    let p = V::<F>::p();
    let n = size::<F>(c);
    let bits = 1 + c.below(mbits::<F>() as u64) as u32;
    let basis = Basis::<F>::new(bits);
    let len = basis.decompose_len();
    let e = |c: &mut Case| V::<F>::edges(&mut c.rng, n);
    let row = |c: &mut Case| (e(c), e(c));
    let rows: Vec<Row> = (0..len).map(|_| row(c)).collect();
    let rows2: Vec<Row> = (0..len).map(|_| row(c)).collect();
    let (x, acc, acc2) = (e(c), row(c), row(c));
    let ctx = || format!("{name} n={n} bits={bits} x={:?} row0={:?}", &x[..n.min(8)], (&rows[0].0[..n.min(4)], &rows[0].1[..n.min(4)]));
    let g = GadgetRLWE::<F>::new(rows.iter().map(rl).collect(), basis);
    let ng = NTTGadgetRLWE::<F>::from(g.clone());
    let xp = V::<F>::poly(&x);
    let w = gprod(&rows, &x, bits, p);
    c.eq((ng.data().len(), ng.basis().bits(), g.basis().bits()), (len, bits, bits), "gadget shape", ctx);
    c.ok(ng.iter().zip(&rows).all(|(r, w)| &view(r) == w), "gadget to transform form", ctx);
    c.eq(un(&g.mul_polynomial(&xp)), w.clone(), "gadget mul_polynomial", ctx);
    c.eq(un(&g.mul_polynomial_add_rlwe(&xp, rl(&acc))), radd(&w, &acc, p), "gadget mul_polynomial_add_rlwe", ctx);
    c.eq(un(&rl::<F>(&acc).add_gadget_rlwe_mul_polynomial(&g, &xp)), radd(&w, &acc, p), "rlwe add_gadget_rlwe_mul_polynomial", ctx);
    let r = ng.mul_polynomial(&xp);
    c.ok(top(&r) < p, "transform mul_polynomial not reduced", ctx);
    c.eq(view(&r), w.clone(), "transform mul_polynomial", ctx);
    let mut s = spaces::<F>(c, n);
    let mut d = nrl::<F>(&acc2);
    ng.mul_polynomial_inplace(&xp, &mut s.d, &mut s.p, &mut d);
    c.ok(top(&d) < p, "mul_polynomial_inplace not reduced", ctx);
    c.eq(view(&d), w.clone(), "mul_polynomial_inplace", ctx);
    let mut d = nrl::<F>(&acc2);
    ng.mul_polynomial_inplace_fast(&xp, &mut s.d, &mut s.p, &mut d);
    c.ok(top(&d) < 2 * p, "mul_polynomial_inplace_fast beyond 2p", ctx);
    c.eq(view(&d), w.clone(), "mul_polynomial_inplace_fast", ctx);
    // accumulate on a lazy accumulator
    let wa = radd(&acc, &w, p);
    d = nrl::<F>(&acc);
    d.add_assign_gadget_rlwe_mul_polynomial(&ng, &xp, &mut s.d, &mut s.p);
    c.ok(top(&d) < p, "add_assign not reduced", ctx);
    c.eq(view(&d), wa.clone(), "add_assign_gadget_rlwe_mul_polynomial", ctx);
    c.eq(view(&nrl::<F>(&acc).add_gadget_rlwe_mul_polynomial(&ng, &xp)), wa.clone(), "transform add_gadget_rlwe_mul_polynomial", ctx);
    let mut d = nrl::<F>(&acc);
    d.add_assign_gadget_rlwe_mul_polynomial_fast(&ng, &xp, &mut s.d, &mut s.p);
    c.ok(top(&d) < 2 * p, "add_assign fast beyond 2p", ctx);
    c.eq(view(&d), wa.clone(), "add_assign_gadget_rlwe_mul_polynomial_fast", ctx);
    let mut y = xp.clone();
    d.add_assign_gadget_rlwe_mul_polynomial_inplace_fast(&ng, &mut y, &mut s.d);
    c.ok(top(&d) < 2 * p, "add_assign inplace fast beyond 2p", ctx);
    c.eq(view(&d), radd(&wa, &w, p), "add_assign_gadget_rlwe_mul_polynomial_inplace_fast", ctx);
    let wn = gprod(&rows, &neg(&x, p), bits, p);
    let mut y = xp.clone();
    d.sub_assign_gadget_rlwe_mul_polynomial_inplace_fast(&ng, &mut y, &mut s.d);
    c.ok(top(&d) < 2 * p, "sub_assign fast beyond 2p", ctx);
    c.eq(view(&d), radd(&radd(&wa, &w, p), &wn, p), "sub_assign_gadget_rlwe_mul_polynomial_inplace_fast", ctx);
    let mut d = nrl::<F>(&acc);
    d.sub_assign_gadget_rlwe_mul_polynomial_inplace(&ng, xp.clone(), &mut s.d);
    c.ok(top(&d) < p, "sub_assign not reduced", ctx);
    c.eq(view(&d), radd(&acc, &wn, p), "sub_assign_gadget_rlwe_mul_polynomial_inplace", ctx);
    c.eq(V::<F>::unpoly(&xp), x.clone(), "multiplier changed", ctx);
    // gadget-wise sums
    let g2 = GadgetRLWE::<F>::from_ref(&rows2.iter().map(rl).collect::<Vec<_>>(), basis);
    let ng2 = NTTGadgetRLWE::<F>::from_ref(&rows2.iter().map(nrl).collect::<Vec<_>>(), basis);
    let mut gd = g2.clone();
    let mut nd = ng2.clone();
    g.add_inplace(&g2, &mut gd);
    ng.add_inplace(&ng2, &mut nd);
    for i in 0..len {
        let w = radd(&rows[i], &rows2[i], p);
        c.ok(un(&gd.data()[i]) == w && view(&nd.data()[i]) == w, "gadget add_inplace", ctx);
    }
    g.sub_inplace(&g2, &mut gd);
    ng.sub_inplace(&ng2, &mut nd);
    for i in 0..len {
        let w = rsub(&rows[i], &rows2[i], p);
        c.ok(un(&gd.data()[i]) == w && view(&nd.data()[i]) == w, "gadget sub_inplace", ctx);
    }
    let q = e(c);
    let qn = V::<F>::poly(&q).into_ntt_polynomial();
    ng.add_ntt_gadget_rlwe_mul_ntt_polynomial_inplace(&ng2, &qn, &mut nd);
    for i in 0..len {
        c.eq(view(&nd.data()[i]), radd(&rows[i], &rmul(&rows2[i], &q, p), p), "add_ntt_gadget_rlwe_mul_ntt_polynomial_inplace", ctx);
    }
    nd.set_zero();
    c.ok(nd.iter().all(|r| top(r) == 0) && NTTGadgetRLWE::<F>::zero(n, basis).iter().all(|r| top(r) == 0 && r.dimension() == n), "zero gadget", ctx);
    c.seen((n, bits, x.clone(), rows[0].0.clone()));
    c.count("gadget products", 11);
    c.sample(|| format!("{name} n={n} basis 2^{bits} x {len} digits, x={:?} -> {:?}", &x[..n.min(4)], &w.0[..n.min(4)]));

    // external products with arbitrary RGSW rows
    let rg = RGSW::<F>::new(g.clone(), g2.clone());
    let nrg = NTTRGSW::<F>::from(rg.clone());
    let ct = row(c);
    let ext = |ct: &Row| radd(&gprod(&rows, &ct.0, bits, p), &gprod(&rows2, &ct.1, bits, p), p);
    let w = ext(&ct);
    let x = rl::<F>(&ct);
    c.eq(un(&x.mul_rgsw(&rg)), w.clone(), "mul_rgsw", ctx);
    c.eq(un(&x.mul_ntt_rgsw(&nrg)), w.clone(), "mul_ntt_rgsw", ctx);
    let mut d = rl::<F>(&acc);
    x.mul_ntt_rgsw_inplace(&nrg, &mut s.d, &mut s.p, &mut s.m, &mut d);
    c.eq(un(&d), w.clone(), "mul_ntt_rgsw_inplace", ctx);
    let mut d = x.clone();
    d.mul_assign_ntt_rgsw(&nrg, &mut s.d, &mut s.p, &mut s.m);
    c.eq(un(&d), w.clone(), "mul_assign_ntt_rgsw", ctx);
    c.eq(un(&x), ct.clone(), "ciphertext changed", ctx);
    let r3: Vec<Row> = (0..2 * len).map(|_| row(c)).collect();
    let left = RGSW::<F>::from((
        GadgetRLWE::from((r3[..len].iter().map(rl).collect::<Vec<_>>(), basis)),
        GadgetRLWE::from((r3[len..].iter().map(rl).collect::<Vec<_>>(), basis)),
    ));
    let m1 = left.mul_small_rgsw(&rg);
    let m2 = left.mul_small_ntt_rgsw(&nrg);
    for i in 0..len {
        c.eq(un(&m1.c_neg_s_m().data()[i]), ext(&r3[i]), "mul_small_rgsw secret half", ctx);
        c.eq(un(&m1.c_m().data()[i]), ext(&r3[len + i]), "mul_small_rgsw message half", ctx);
        c.ok(m1.c_m().data()[i] == m2.c_m().data()[i] && m1.c_neg_s_m().data()[i] == m2.c_neg_s_m().data()[i], "mul_small_ntt_rgsw", ctx);
    }
    c.eq((m1.basis().bits(), nrg.basis().bits()), (bits, bits), "rgsw basis", ctx);
    if c.below(3) == 0 {
        // the left factor over another basis: its own digits and shape, the right one's decomposition
        let bits2 = 1 + c.below(mbits::<F>() as u64) as u32;
        let basis2 = Basis::<F>::new(bits2);
        let len2 = basis2.decompose_len();
        let r4: Vec<Row> = (0..2 * len2).map(|_| row(c)).collect();
        let other = RGSW::<F>::new(
            GadgetRLWE::from((r4[..len2].iter().map(rl).collect::<Vec<_>>(), basis2)),
            GadgetRLWE::from((r4[len2..].iter().map(rl).collect::<Vec<_>>(), basis2)),
        );
        for m in [other.mul_small_rgsw(&rg), other.mul_small_ntt_rgsw(&nrg)] {
            c.eq((m.basis().bits(), m.c_m().basis().bits(), m.c_neg_s_m().basis().bits()), (bits2, bits2, bits2), "basis of a product over two bases", ctx);
            c.eq((m.c_m().data().len(), m.c_neg_s_m().data().len()), (len2, len2), "shape of a product over two bases", ctx);
            for i in 0..len2 {
                c.ok(un(&m.c_neg_s_m().data()[i]) == ext(&r4[i]) && un(&m.c_m().data()[i]) == ext(&r4[len2 + i]), "product over two bases", ctx);
            }
            // and it multiplies with its own digits
            let h = |r: &GadgetRLWE<F>| r.data().iter().map(un).collect::<Vec<_>>();
            let w = radd(&gprod(&h(m.c_neg_s_m()), &ct.0, bits2, p), &gprod(&h(m.c_m()), &ct.1, bits2, p), p);
            c.eq(un(&x.mul_rgsw(&m)), w, "external product with a product over two bases", ctx);
        }
        c.count("products over two bases", 2);
    }
    let nl = NTTRGSW::<F>::from(left.clone());
    let rgrow = |r: &RGSW<F>, i: usize| if i < len { un(&r.c_neg_s_m().data()[i]) } else { un(&r.c_m().data()[i - len]) };
    let nrow = |r: &NTTRGSW<F>, i: usize| if i < len { view(&r.c_neg_s_m().data()[i]) } else { view(&r.c_m().data()[i - len]) };
    let all: Vec<Row> = rows.iter().chain(&rows2).cloned().collect();
    let mut d1 = RGSW::from_ref(left.c_neg_s_m(), left.c_m());
    let mut d2 = NTTRGSW::from_ref(nl.c_neg_s_m(), nl.c_m());
    left.add_inplace(&rg, &mut d1);
    nl.add_inplace(&nrg, &mut d2);
    for i in 0..2 * len {
        let w = radd(&r3[i], &all[i], p);
        c.ok(rgrow(&d1, i) == w && nrow(&d2, i) == w, "rgsw add_inplace", ctx);
    }
    left.sub_inplace(&rg, &mut d1);
    nl.sub_inplace(&nrg, &mut d2);
    for i in 0..2 * len {
        let w = rsub(&r3[i], &all[i], p);
        c.ok(rgrow(&d1, i) == w && nrow(&d2, i) == w, "rgsw sub_inplace", ctx);
    }
    nl.add_ntt_rgsw_mul_ntt_polynomial_inplace(&nrg, &qn, &mut d2);
    for i in 0..2 * len {
        c.eq(nrow(&d2, i), radd(&r3[i], &rmul(&all[i], &q, p), p), "add_ntt_rgsw_mul_ntt_polynomial_inplace", ctx);
    }
    let mut d2 = NTTRGSW::new(nl.c_neg_s_m().clone(), nl.c_m().clone());
    d2.mul_ntt_polynomial_assign(&qn);
    for i in 0..2 * len {
        c.eq(nrow(&d2, i), rmul(&r3[i], &q, p), "mul_ntt_polynomial_assign", ctx);
    }
    d2.set_zero();
    let z = NTTRGSW::<F>::zero(n, basis);
    c.ok((0..2 * len).all(|i| nrow(&d2, i) == nrow(&z, i) && nrow(&z, i) == (vec![0; n], vec![0; n])), "zero rgsw", ctx);
    c.count("external products", 4 + 4 * len as u64);
}

fn rgsw_rows<F: NTTField>(n: &NTTRGSW<F>) -> (Vec<Row>, Vec<Row>) {
    (n.c_neg_s_m().iter().map(view).collect(), n.c_m().iter().map(view).collect())
}
fn native_rows<F: NTTField>(n: &RGSW<F>) -> (Vec<Row>, Vec<Row>) {
    (n.c_neg_s_m().iter().map(un).collect(), n.c_m().iter().map(un).collect())
}

/// Generated encryptions carry what they promise, and products multiply phases.
fn encryptions<F: NTTField>(c: &mut Case, name: &str) {
    let p = V::<F>::p();
    let n = 1usize << V::<F>::max_log_n().min(1 + c.below(5) as u32);
    let bits = 1 + c.below(mbits::<F>() as u64) as u32;
    let sd = [0.0, 0.0, 1.0, 3.2, 6.4][c.below(5) as usize];
    let bound: i128 = if sd == 3.2 { 21 } else { (6.0f64 * sd + 0.5) as i128 };
    if (p as i128) < 2 * bound + 4 {
        return;
    }
    let Ok(gs) = FieldDiscreteGaussianSampler::new(0.0, sd) else { return };
    let basis = Basis::<F>::new(bits);
    let len = basis.decompose_len();
    let s: P = match c.below(3) {
        0 => (0..n).map(|_| c.below(2) as u128).collect(),
        1 => (0..n).map(|_| [0, 0, 1, p - 1][c.below(4) as usize]).collect(),
        _ => V::<F>::edges(&mut c.rng, n),
    };
    let sk = V::<F>::poly(&s).into_ntt_polynomial();
    let ctx = || format!("{name} n={n} bits={bits} sd={sd}");
    let one: P = { let mut v = vec![0; n]; v[0] = 1; v };
    let zero = vec![0; n];
    let negs = neg(&s, p);
    // rows encrypt message * B^i
    let mut masks: Vec<P> = vec![];
    let mut noise = vec![];
    let mut check = |c: &mut Case, rows: &[Row], m: &P, what: &'static str| {
        c.eq(rows.len(), len, "row count", ctx);
        for (i, r) in rows.iter().enumerate() {
            let want = scale(m, powm(2, (bits as usize * i) as u128, p), p);
            let err: Vec<i128> = sub(&phase(r, &s, p), &want, p).iter().map(|&x| centered(x, p)).collect();
            c.ok(err.iter().all(|x| x.abs() <= bound), what, || format!("row {i}: error {:?} bound {bound} {}", &err[..n.min(8)], ctx()));
            c.ok(r.0.iter().chain(&r.1).all(|&x| x < p), "row not reduced", ctx);
            noise.push(err);
            masks.push(r.0.clone());
            c.count("rows checked", 1);
        }
    };
    macro_rules! gen { ($T:ident, $f:ident) => { $T::<F>::$f(&sk, basis, gs, &mut c.rng) } }
    let g = gen!(GadgetRLWE, generate_random_zero_sample);
    check(c, &g.iter().map(un).collect::<Vec<_>>(), &zero, "gadget zero sample");
    let g1 = gen!(GadgetRLWE, generate_random_one_sample);
    check(c, &g1.iter().map(un).collect::<Vec<_>>(), &one, "gadget one sample");
    let gn = gen!(GadgetRLWE, generate_random_neg_secret_sample);
    check(c, &gn.iter().map(un).collect::<Vec<_>>(), &negs, "gadget minus-secret sample");
    let g = gen!(NTTGadgetRLWE, generate_random_zero_sample);
    check(c, &g.iter().map(view).collect::<Vec<_>>(), &zero, "transform gadget zero sample");
    let ng1 = gen!(NTTGadgetRLWE, generate_random_one_sample);
    check(c, &ng1.iter().map(view).collect::<Vec<_>>(), &one, "transform gadget one sample");
    let ngn = gen!(NTTGadgetRLWE, generate_random_neg_secret_sample);
    check(c, &ngn.iter().map(view).collect::<Vec<_>>(), &negs, "transform gadget minus-secret sample");
    let r0 = gen!(RGSW, generate_random_zero_sample);
    let r1 = gen!(RGSW, generate_random_one_sample);
    let n0 = gen!(NTTRGSW, generate_random_zero_sample);
    let n1 = gen!(NTTRGSW, generate_random_one_sample);
    for (rows, m, what, whats) in [
        (native_rows(&r0), 0, "rgsw zero sample", "rgsw zero sample secret half"),
        (native_rows(&r1), 1, "rgsw one sample", "rgsw one sample secret half"),
        (rgsw_rows(&n0), 0, "transform rgsw zero sample", "transform rgsw zero sample secret half"),
        (rgsw_rows(&n1), 1, "transform rgsw one sample", "transform rgsw one sample secret half"),
    ] {
        check(c, &rows.1, if m == 0 { &zero } else { &one }, what);
        check(c, &rows.0, if m == 0 { &zero } else { &negs }, whats);
    }
    drop(check);
    if n >= 8 && p > 1000 {
        let k = masks.len();
        masks.sort();
        masks.dedup();
        c.eq(masks.len(), k, "mask repeated between rows", ctx);
        if sd >= 3.2 && n >= 16 {
            noise.sort();
            noise.dedup();
            c.eq(noise.len(), k, "noise repeated between rows", ctx);
        }
    }
    c.ok(sd == 0.0 || noise.iter().flatten().any(|&x| x != 0) || n * len < 40, "no noise at all", ctx);
    // phase-level products: error bounded by what digits and noise allow; exact without noise
    let m: P = match c.below(3) {
        0 => { let mut v = vec![0; n]; let i = c.below(n as u64) as usize; v[i] = [1, p - 1][c.below(2) as usize]; v }
        1 => (0..n).map(|_| c.below(2) as u128).collect(),
        _ => V::<F>::edges(&mut c.rng, n),
    };
    let mp = V::<F>::poly(&m);
    let room = (1u128 << bits) - 1;
    let lim = (len * n) as i128 * room as i128 * bound;
    let near = |got: &P, want: &P, lim: i128| -> bool { sub(got, want, p).iter().all(|&x| centered(x, p).abs() <= lim) };
    let tells = 2 * lim < p as i128;
    if tells || bound == 0 {
        c.ok(near(&phase(&un(&g1.mul_polynomial(&mp)), &s, p), &m, lim), "phase of polynomial times encrypted one", ctx);
        c.ok(near(&phase(&view(&ng1.mul_polynomial(&mp)), &s, p), &m, lim), "phase of polynomial times encrypted one, transform form", ctx);
        let w = negacyclic(&m, &negs, p);
        c.ok(near(&phase(&un(&gn.mul_polynomial(&mp)), &s, p), &w, lim), "phase of polynomial times encrypted -s", ctx);
        c.ok(near(&phase(&view(&ngn.mul_polynomial(&mp)), &s, p), &w, lim), "phase of polynomial times encrypted -s, transform form", ctx);
        c.count("phase products", 4);
        c.seen((n, bits, sd.to_bits(), m.clone(), s.clone()));
    }
    let lim2 = 2 * lim;
    if 2 * lim2 < p as i128 || bound == 0 {
        let ct = (V::<F>::edges(&mut c.rng, n), V::<F>::edges(&mut c.rng, n));
        let ph = phase(&ct, &s, p);
        let x = rl::<F>(&ct);
        for (got, want, what) in [
            (x.mul_rgsw(&r1), &ph, "external product with one"),
            (x.mul_ntt_rgsw(&n1), &ph, "external product with one, transform form"),
            (x.mul_rgsw(&r0), &zero, "external product with zero"),
            (x.mul_ntt_rgsw(&n0), &zero, "external product with zero, transform form"),
        ] {
            c.ok(near(&phase(&un(&got), &s, p), want, lim2), what, ctx);
        }
        // +-X^k times one, then an external product and an RGSW product
        let k = c.below(n as u64) as usize;
        let mut mono = vec![0; n];
        mono[k] = [1, p - 1][c.below(2) as usize];
        let mn = V::<F>::poly(&mono).into_ntt_polynomial();
        let mut rk = n1.clone();
        rk.mul_ntt_polynomial_assign(&mn);
        let w = negacyclic(&ph, &mono, p);
        c.ok(near(&phase(&un(&x.mul_ntt_rgsw(&rk)), &s, p), &w, lim2), "external product with a monomial", ctx);
        let mut cm = NTTRGSW::zero(n, basis);
        n0.add_ntt_rgsw_mul_ntt_polynomial_inplace(&n1, &mn, &mut cm);
        let lim4 = 2 * lim2;
        if 2 * lim4 < p as i128 || bound == 0 {
            c.ok(near(&phase(&un(&x.mul_ntt_rgsw(&cm)), &s, p), &w, lim4), "external product with 0 + monomial * 1", ctx);
            // the product RGSW encrypts the product: its rows are within lim2 + the row noise
            let pr = r1.mul_small_ntt_rgsw(&rk);
            let (a, b) = native_rows(&pr);
            for i in 0..len {
                let f = powm(2, (bits as usize * i) as u128, p);
                c.ok(near(&phase(&b[i], &s, p), &scale(&mono, f, p), lim2 + bound), "rgsw product message half", ctx);
                c.ok(near(&phase(&a[i], &s, p), &scale(&negacyclic(&mono, &negs, p), f, p), lim2 + bound), "rgsw product secret half", ctx);
            }
        }
        c.count("phase external products", 6);
    }
}

fn main() {
    let m = Mon::new("C08");
    macro_rules! all {
        ($F:ty, $name:expr, $m:expr) => {
            $m.par(concat!("products ", $name), $m.n(1200, 20000), |c| products::<$F>(c, $name));
            $m.par(concat!("encryptions ", $name), $m.n(1000, 20000), |c| encryptions::<$F>(c, $name));
        };
    }
    for_ntt_fields!(all, m);
    // the shipped sizes and bases, with the spread of the product noise
    m.par("shipped parameters", m.n(16, 200), |c| {
        type F = DefaultFieldU32;
        let (n, p) = (1024usize, V::<F>::p());
        let (bits, sd) = [(7u32, 3.2f64), (7, 6.4)][c.idx % 2];
        let basis = Basis::<F>::new(bits);
        let len = basis.decompose_len();
        let gs = FieldDiscreteGaussianSampler::new(0.0, sd).unwrap();
        let s: P = (0..n).map(|_| [0, 0, 1, p - 1][c.below(4) as usize]).collect();
        let sk = V::<F>::poly(&s).into_ntt_polynomial();
        let g = NTTRGSW::<F>::generate_random_one_sample(&sk, basis, gs, &mut c.rng);
        let ct = (0..2).map(|_| (0..n).map(|_| c.below(p as u64) as u128).collect::<P>()).collect::<Vec<_>>();
        let ct = (ct[0].clone(), ct[1].clone());
        let ph = phase(&ct, &s, p);
        let out = un(&rl::<F>(&ct).mul_ntt_rgsw(&g));
        let err: Vec<i128> = sub(&phase(&out, &s, p), &ph, p).iter().map(|&x| centered(x, p)).collect();
        // each of 2*len*n terms is digit * noise
        let b = ((1u64 << bits) - 1) as f64;
        let d2 = b * (2.0 * b + 1.0) / 6.0;
        let lastd = (p >> (bits as usize * (len - 1))) as f64;
        let dl2 = lastd * (2.0 * lastd + 1.0) / 6.0;
        let var = 2.0 * n as f64 * sd * sd * ((len - 1) as f64 * d2 + dl2);
        let lim = 9.0 * var.sqrt();
        let worst = err.iter().map(|e| e.abs()).max().unwrap() as f64;
        c.ok(worst <= lim, "external product noise beyond nine predicted deviations", || format!("worst {worst} limit {lim}"));
        let got = err.iter().map(|&e| (e * e) as f64).sum::<f64>() / n as f64;
        // the digits' mean makes coefficients correlated: the ratio has a wide but bounded spread
        c.ok(got < 6.0 * var && got > var / 30.0, "external product noise spread", || format!("variance {got} predicted {var}"));
        c.seen((c.idx, ct.0[0]));
        c.count("shipped products", 1);
        c.sample(|| format!("n=1024 basis 2^{bits} sd {sd}: external product noise variance {got:.0}, predicted {var:.0}, worst {worst}"));
    });
    let _ = LIMIT;
    m.finish(
        "one case per ring size, basis width, plaintext and ciphertext drawn; products compared coefficient by coefficient with the digit sum in Z_p[X]/(X^n+1)",
        &["fields come from the derive macros with primes of 3 to 62 bits; ring sizes 1 to 32 (128 thorough) and 1024"],
    );
}
