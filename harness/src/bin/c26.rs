//! C26: results never depend on what a workspace or destination held before.
use algebra::transformation::{AbstractNTT, MonomialNTT};
use algebra::{Basis, DecomposableField, Field, NTTField, NTTPolynomial, Polynomial};
use fhe_core::{lwe_modulus_switch_inplace, LWEModulusType};
use lattice::*;
use mon::fhe::{lwe, parts, put};
use mon::fields::*;
use mon::{edge, for_ntt_fields, Case, Mon};

struct Ws<F: NTTField> {
    dec: DecompositionSpace<F>,
    poly: PolynomialSpace<F>,
    npoly: NTTPolynomialSpace<F>,
    med: NTTRLWESpace<F>,
    ring: RLWESpace<F>,
    key: NTTRGSWSpace<F>,
    digits: Vec<Polynomial<F>>,
    gad: GadgetRLWE<F>,
    rgsw: RGSW<F>,
    switched: LWE<u32>,
}
type Bits = Vec<u128>;

fn poly<F: NTTField>(c: &mut Case, n: usize) -> Polynomial<F> {
    let v = V::<F>::edges(&mut c.rng, n);
    V::<F>::poly(&v)
}
fn npoly<F: NTTField>(c: &mut Case, n: usize) -> NTTPolynomial<F> {
    let v = V::<F>::edges(&mut c.rng, n);
    V::<F>::ntt(&v)
}
fn rlwe<F: NTTField>(c: &mut Case, n: usize) -> RLWE<F> {
    RLWE::new(poly(c, n), poly(c, n))
}
fn nrlwe<F: NTTField>(c: &mut Case, n: usize) -> NTTRLWE<F> {
    NTTRLWE::new(npoly(c, n), npoly(c, n))
}
fn gadget<F: NTTField>(c: &mut Case, n: usize, b: Basis<F>) -> GadgetRLWE<F> {
    GadgetRLWE::new((0..b.decompose_len()).map(|_| rlwe(c, n)).collect(), b)
}
fn ngadget<F: NTTField>(c: &mut Case, n: usize, b: Basis<F>) -> NTTGadgetRLWE<F> {
    NTTGadgetRLWE::new((0..b.decompose_len()).map(|_| nrlwe(c, n)).collect(), b)
}
fn fresh<F: NTTField>(n: usize, b: Basis<F>, m: usize) -> Ws<F> {
    let g = || GadgetRLWE::new((0..b.decompose_len()).map(|_| RLWE::zero(n)).collect(), b);
    Ws {
        dec: DecompositionSpace::new(n),
        poly: PolynomialSpace::new(n),
        npoly: NTTPolynomialSpace::new(n),
        med: NTTRLWESpace::new(n),
        ring: RLWESpace::new(n),
        key: NTTRGSWSpace::new(n, b),
        digits: vec![Polynomial::zero(n); b.decompose_len()],
        gad: g(),
        rgsw: RGSW::new(g(), g()),
        switched: lwe(&vec![0; m], 0),
    }
}
/// fills every workspace with arbitrary elements
fn dirty<F: NTTField>(c: &mut Case, w: &mut Ws<F>, n: usize, b: Basis<F>) {
    *w.dec.get_mut() = npoly(c, n);
    *w.poly.get_mut() = poly(c, n);
    *w.npoly.get_mut() = npoly(c, n);
    *w.med.get_mut() = nrlwe(c, n);
    *w.ring.get_mut() = rlwe(c, n);
    *w.key.get_mut() = NTTRGSW::new(ngadget(c, n, b), ngadget(c, n, b));
    w.digits = (0..b.decompose_len()).map(|_| poly(c, n)).collect();
    w.gad = gadget(c, n, b);
    w.rgsw = RGSW::new(gadget(c, n, b), gadget(c, n, b));
    w.switched.a_mut().iter_mut().for_each(|x| *x = 0xdead_beef);
    *w.switched.b_mut() = 77;
}

struct In<F: NTTField> {
    n: usize,
    b: Basis<F>,
    r: [RLWE<F>; 2],
    nr: [NTTRLWE<F>; 2],
    p: [Polynomial<F>; 2],
    np: [NTTPolynomial<F>; 2],
    g: [GadgetRLWE<F>; 2],
    ng: [NTTGadgetRLWE<F>; 2],
    k: [NTTRGSW<F>; 2],
    kc: [RGSW<F>; 2],
    l: LWE<F>,
    rot: usize,
    after: u128,
}
fn inputs<F: NTTField>(c: &mut Case, n: usize, b: Basis<F>, m: usize) -> In<F> {
    In {
        n,
        b,
        r: [rlwe(c, n), rlwe(c, n)],
        nr: [nrlwe(c, n), nrlwe(c, n)],
        p: [poly(c, n), poly(c, n)],
        np: [npoly(c, n), npoly(c, n)],
        g: [gadget(c, n, b), gadget(c, n, b)],
        ng: [ngadget(c, n, b), ngadget(c, n, b)],
        k: [NTTRGSW::new(ngadget(c, n, b), ngadget(c, n, b)), NTTRGSW::new(ngadget(c, n, b), ngadget(c, n, b))],
        kc: [RGSW::new(gadget(c, n, b), gadget(c, n, b)), RGSW::new(gadget(c, n, b), gadget(c, n, b))],
        l: LWE::new(V::<F>::vec(&V::<F>::edges(&mut c.rng, m)), V::<F>::new(V::<F>::edge(&mut c.rng))),
        rot: c.below(2 * n as u64) as usize,
        after: 1 << c.below(31),
    }
}
fn bits_r<F: NTTField>(x: &RLWE<F>) -> Bits {
    [V::<F>::back(x.a_slice()), V::<F>::back(x.b_slice())].concat()
}
fn bits_n<F: NTTField>(x: &NTTRLWE<F>) -> Bits {
    [V::<F>::back(x.a_slice()), V::<F>::back(x.b_slice())].concat()
}
fn bits_g<F: NTTField>(x: &GadgetRLWE<F>) -> Bits {
    x.iter().flat_map(bits_r).collect()
}
fn bits_ng<F: NTTField>(x: &NTTGadgetRLWE<F>) -> Bits {
    x.iter().flat_map(bits_n).collect()
}

type Op<F> = (&'static str, fn(&In<F>, &mut Ws<F>) -> Bits);
fn ops<F: NTTField>() -> Vec<Op<F>> {
    vec![
        ("RLWE::mul_assign_ntt_rgsw", |i, w| {
            let mut x = i.r[0].clone();
            x.mul_assign_ntt_rgsw(&i.k[0], &mut w.dec, &mut w.poly, &mut w.med);
            bits_r(&x)
        }),
        ("RLWE::mul_assign_ntt_rgsw on a workspace", |i, w| {
            w.ring.a_mut().copy_from(i.r[1].a());
            w.ring.b_mut().copy_from(i.r[1].b());
            w.ring.mul_assign_ntt_rgsw(&i.k[1], &mut w.dec, &mut w.poly, &mut w.med);
            bits_r(&w.ring)
        }),
        ("RLWE::mul_ntt_rgsw_inplace", |i, w| {
            i.r[0].mul_ntt_rgsw_inplace(&i.k[0], &mut w.dec, &mut w.poly, &mut w.med, &mut w.ring);
            bits_r(&w.ring)
        }),
        ("RLWE::mul_monic_monomial_sub_one_inplace", |i, w| {
            i.r[0].mul_monic_monomial_sub_one_inplace(i.n, i.rot, &mut w.ring);
            bits_r(&w.ring)
        }),
        ("RLWE::mul_ntt_polynomial_inplace", |i, w| {
            i.r[0].mul_ntt_polynomial_inplace(&i.np[0], &mut w.med);
            bits_n(&w.med)
        }),
        ("RLWE::add_inplace", |i, w| { i.r[0].add_inplace(&i.r[1], &mut w.ring); bits_r(&w.ring) }),
        ("RLWE::sub_inplace", |i, w| { i.r[0].sub_inplace(&i.r[1], &mut w.ring); bits_r(&w.ring) }),
        ("NTTRLWE::add_inplace", |i, w| { i.nr[0].add_inplace(&i.nr[1], &mut w.med); bits_n(&w.med) }),
        ("NTTRLWE::sub_inplace", |i, w| { i.nr[0].sub_inplace(&i.nr[1], &mut w.med); bits_n(&w.med) }),
        ("NTTRLWE::inverse_transform_inplace", |i, w| { i.nr[0].inverse_transform_inplace(&mut w.ring); bits_r(&w.ring) }),
        ("NTTRLWE::mul_ntt_polynomial_inplace", |i, w| { i.nr[0].mul_ntt_polynomial_inplace(&i.np[0], &mut w.med); bits_n(&w.med) }),
        ("NTTRLWE::add_ntt_rlwe_mul_ntt_polynomial_inplace", |i, w| {
            i.nr[0].add_ntt_rlwe_mul_ntt_polynomial_inplace(&i.nr[1], &i.np[0], &mut w.med);
            bits_n(&w.med)
        }),
        ("NTTRLWE::add_assign_gadget_rlwe_mul_polynomial", |i, w| {
            let mut x = i.nr[0].clone();
            x.add_assign_gadget_rlwe_mul_polynomial(&i.ng[0], &i.p[0], &mut w.dec, &mut w.poly);
            bits_n(&x)
        }),
        ("NTTRLWE::add_assign_gadget_rlwe_mul_polynomial_fast", |i, w| {
            let mut x = i.nr[0].clone();
            x.add_assign_gadget_rlwe_mul_polynomial_fast(&i.ng[0], &i.p[0], &mut w.dec, &mut w.poly);
            bits_n(&x)
        }),
        ("NTTRLWE::add_assign_gadget_rlwe_mul_polynomial_inplace_fast", |i, w| {
            let mut x = i.nr[0].clone();
            w.poly.copy_from(&i.p[0]);
            x.add_assign_gadget_rlwe_mul_polynomial_inplace_fast(&i.ng[0], &mut w.poly, &mut w.dec);
            bits_n(&x)
        }),
        ("NTTRLWE::sub_assign_gadget_rlwe_mul_polynomial_inplace", |i, w| {
            let mut x = i.nr[0].clone();
            x.sub_assign_gadget_rlwe_mul_polynomial_inplace(&i.ng[0], i.p[0].clone(), &mut w.dec);
            bits_n(&x)
        }),
        ("NTTRLWE::sub_assign_gadget_rlwe_mul_polynomial_inplace_fast", |i, w| {
            let mut x = i.nr[0].clone();
            w.poly.copy_from(&i.p[0]);
            x.sub_assign_gadget_rlwe_mul_polynomial_inplace_fast(&i.ng[0], &mut w.poly, &mut w.dec);
            bits_n(&x)
        }),
        ("NTTGadgetRLWE::mul_polynomial_inplace", |i, w| {
            i.ng[0].mul_polynomial_inplace(&i.p[0], &mut w.dec, &mut w.poly, &mut w.med);
            bits_n(&w.med)
        }),
        ("NTTGadgetRLWE::mul_polynomial_inplace_fast", |i, w| {
            i.ng[0].mul_polynomial_inplace_fast(&i.p[0], &mut w.dec, &mut w.poly, &mut w.med);
            bits_n(&w.med)
        }),
        ("NTTGadgetRLWE::add_inplace", |i, w| { i.ng[0].add_inplace(&i.ng[1], w.key.c_m_mut()); bits_ng(w.key.c_m()) }),
        ("NTTGadgetRLWE::sub_inplace", |i, w| { i.ng[0].sub_inplace(&i.ng[1], w.key.c_m_mut()); bits_ng(w.key.c_m()) }),
        ("NTTGadgetRLWE::add_ntt_gadget_rlwe_mul_ntt_polynomial_inplace", |i, w| {
            i.ng[0].add_ntt_gadget_rlwe_mul_ntt_polynomial_inplace(&i.ng[1], &i.np[0], w.key.c_m_mut());
            bits_ng(w.key.c_m())
        }),
        ("GadgetRLWE::add_inplace", |i, w| { i.g[0].add_inplace(&i.g[1], &mut w.gad); bits_g(&w.gad) }),
        ("GadgetRLWE::sub_inplace", |i, w| { i.g[0].sub_inplace(&i.g[1], &mut w.gad); bits_g(&w.gad) }),
        ("RGSW::add_inplace", |i, w| { i.kc[0].add_inplace(&i.kc[1], &mut w.rgsw); [bits_g(w.rgsw.c_m()), bits_g(w.rgsw.c_neg_s_m())].concat() }),
        ("RGSW::sub_inplace", |i, w| { i.kc[0].sub_inplace(&i.kc[1], &mut w.rgsw); [bits_g(w.rgsw.c_m()), bits_g(w.rgsw.c_neg_s_m())].concat() }),
        ("NTTRGSW::add_inplace", |i, w| { i.k[0].add_inplace(&i.k[1], &mut w.key); [bits_ng(w.key.c_m()), bits_ng(w.key.c_neg_s_m())].concat() }),
        ("NTTRGSW::sub_inplace", |i, w| { i.k[0].sub_inplace(&i.k[1], &mut w.key); [bits_ng(w.key.c_m()), bits_ng(w.key.c_neg_s_m())].concat() }),
        ("NTTRGSW::add_ntt_rgsw_mul_ntt_polynomial_inplace", |i, w| {
            i.k[0].add_ntt_rgsw_mul_ntt_polynomial_inplace(&i.k[1], &i.np[0], &mut w.key);
            [bits_ng(w.key.c_m()), bits_ng(w.key.c_neg_s_m())].concat()
        }),
        ("Polynomial::add_inplace", |i, w| { i.p[0].add_inplace(&i.p[1], &mut w.poly); V::<F>::unpoly(&w.poly) }),
        ("Polynomial::sub_inplace", |i, w| { i.p[0].sub_inplace(&i.p[1], &mut w.poly); V::<F>::unpoly(&w.poly) }),
        ("Polynomial::decompose_inplace", |i, w| {
            i.p[0].clone().decompose_inplace(i.b, &mut w.digits);
            w.digits.iter().flat_map(|d| V::<F>::unpoly(d)).collect()
        }),
        ("Polynomial::decompose_lsb_bits_inplace", |i, w| {
            let mut x = i.p[0].clone();
            x.decompose_lsb_bits_inplace(i.b, w.dec.as_mut_slice());
            [V::<F>::unntt(w.dec.get()), V::<F>::unpoly(&x)].concat()
        }),
        ("decompose_at", |i, w| {
            // one element at a time into slots with old contents
            let mut out = vec![];
            for &x in i.p[0].as_slice() {
                let d: &mut [F] = &mut w.npoly.as_mut_slice();
                let l = i.b.decompose_len();
                if d.len() < l { break; }
                x.decompose_at(i.b, &mut d[..l]);
                out.extend(V::<F>::back(&d[..l]));
            }
            out
        }),
        ("decompose_lsb_bits_at", |i, w| {
            let mut out = vec![];
            for &x in i.p[1].as_slice() {
                let mut x = x;
                let d = &mut w.npoly.as_mut_slice()[0];
                x.decompose_lsb_bits_at(d, i.b.mask(), i.b.bits());
                out.extend([V::<F>::get(*d), V::<F>::get(x)]);
            }
            out
        }),
        ("NTTPolynomial::add_inplace", |i, w| { i.np[0].add_inplace(&i.np[1], &mut w.npoly); V::<F>::unntt(&w.npoly) }),
        ("NTTPolynomial::sub_inplace", |i, w| { i.np[0].sub_inplace(&i.np[1], &mut w.npoly); V::<F>::unntt(&w.npoly) }),
        ("NTTPolynomial::mul_inplace", |i, w| { i.np[0].mul_inplace(&i.np[1], &mut w.npoly); V::<F>::unntt(&w.npoly) }),
        ("ntt_add_mul_inplace", |i, w| {
            algebra::ntt_add_mul_inplace(&i.np[0], &i.np[1], &i.nr[0].a(), &mut w.npoly);
            V::<F>::unntt(&w.npoly)
        }),
        ("copy_from", |i, w| { w.poly.copy_from(&i.p[0]); V::<F>::unpoly(&w.poly) }),
        ("lwe_modulus_switch_inplace", |i, w| {
            lwe_modulus_switch_inplace(i.l.clone(), put::<u32>(i.after), &mut w.switched);
            let (mut a, b) = parts(&w.switched);
            a.push(b);
            a
        }),
    ]
}
fn monomials<F: NTTField>() -> Vec<Op<F>>
where
    F::Table: MonomialNTT<F> + AbstractNTT<F>,
{
    vec![
        ("transform_coeff_one_monomial", |i, w| {
            F::get_ntt_table(i.n.trailing_zeros()).unwrap().transform_coeff_one_monomial(i.rot, w.dec.as_mut_slice());
            V::<F>::unntt(&w.dec)
        }),
        ("transform_coeff_neg_one_monomial", |i, w| {
            F::get_ntt_table(i.n.trailing_zeros()).unwrap().transform_coeff_neg_one_monomial(i.rot, w.dec.as_mut_slice());
            V::<F>::unntt(&w.dec)
        }),
        ("transform_monomial", |i, w| {
            F::get_ntt_table(i.n.trailing_zeros()).unwrap().transform_monomial(i.p[0][0], i.rot, w.dec.as_mut_slice());
            V::<F>::unntt(&w.dec)
        }),
    ]
}

fn history<F: NTTField>(c: &mut Case, name: &'static str)
where
    F::Table: MonomialNTT<F> + AbstractNTT<F>,
{
    let n = V::<F>::ring(c, 6, 10);
    let pbits = 128 - V::<F>::p().leading_zeros();
    let b = Basis::<F>::new(1 + c.below(pbits as u64 - 1) as u32);
    let m = 1 + c.below(10) as usize;
    let ops: Vec<Op<F>> = ops().into_iter().chain(monomials()).collect();
    let mut reused = fresh(n, b, m);
    let mut soiled = fresh(n, b, m);
    let mut last = "nothing";
    for _ in 0..ops.len() {
        let i = inputs(c, n, b, m);
        let (op, f) = ops[c.below(ops.len() as u64) as usize];
        let want = f(&i, &mut fresh(n, b, m));
        let ctx = |what: &str| format!("{op} with {what}; {name} n={n} basis 2^{}", b.bits());
        let l = last;
        c.ok(f(&i, &mut reused) == want, op, || ctx(&format!("the workspace reused after {l}")));
        dirty(c, &mut soiled, n, b);
        c.ok(f(&i, &mut soiled) == want, op, || ctx("arbitrary workspace contents"));
        // and straight away again
        c.ok(f(&i, &mut reused) == want, op, || ctx("the workspace reused after itself"));
        c.ok(f(&i, &mut soiled) == want, op, || ctx("the workspace reused after itself"));
        c.seen((op, l, n, b.bits()));
        c.count("operations compared", 4);
        last = op;
    }
    c.sample(|| format!("{name} n={n} basis 2^{}: {} operations in one workspace", b.bits(), ops.len()));
}

/// the integer decomposition fills its destination
fn ints<C: LWEModulusType>(c: &mut Case) {
    let lq = 2 + c.below(C::BITS as u64 - 2) as u32;
    let bits = 1 + c.below(lq as u64) as u32;
    let q = 1u128 << lq;
    let basis = lattice::Basis::<C>::new(bits.min(lq), put(q));
    let n = if c.idx % 32 == 13 { 1 + c.below(2000) } else { 1 + c.below(20) } as usize;
    let data: Vec<C> = (0..n).map(|_| put(edge(&mut c.rng, q - 1))).collect();
    let mut x = (data.clone(), vec![put::<C>(0); n]);
    let mut y = (data, (0..n).map(|_| put::<C>(edge(&mut c.rng, q - 1))).collect::<Vec<C>>());
    for _ in 0..basis.decompose_len() {
        decompose_lsb_bits_inplace(&mut x.0, basis, &mut x.1);
        decompose_lsb_bits_inplace(&mut y.0, basis, &mut y.1);
        c.ok(x == y, "decompose_lsb_bits_inplace", || format!("q=2^{lq} basis 2^{bits}"));
        c.seen((lq, bits, n));
    }
}

fn main() {
    let m = Mon::new("C26");
    macro_rules! all {
        ($F:ty, $name:expr, $m:expr) => {
            $m.par($name, $m.n(150, 6000), |c| history::<$F>(c, $name));
        };
    }
    for_ntt_fields!(all, m);
    m.par("integers", m.n(2000, 50000), |c| {
        ints::<u8>(c);
        ints::<u16>(c);
        ints::<u32>(c);
        ints::<u64>(c);
    });
    m.finish(
        "one case per operation and predecessor; each in-place operation gives bit-identical output in a fresh, a reused and an arbitrarily filled workspace",
        &["workspaces hold reduced field elements, or whatever earlier operations left in them"],
    );
}
