//! C22: random call sequences over the safe interface, valid and hostile, for sanitizers to watch.
//!
//! Valid sequences must neither fault nor fail an assertion, and the values they produce are logged
//! so that the same sequence run in another build (plain release, address or memory sanitizer, the
//! undefined-behaviour interpreter) must produce the same ones.  Hostile sequences break the
//! documented length and range preconditions inside guarded buffers.
use algebra::modulus::*;
use algebra::reduce::*;
use algebra::transformation::{AbstractNTT, MonomialNTT, NTTTable};
use algebra::utils::{sample_binary_field_vec, sample_cbd_field_vec, sample_ternary_field_vec, Aes, Block, Prg};
use algebra::{AsFrom, BorrowingSub, CarryingAdd, CarryingMul, DecomposableField, FieldBinarySampler, FieldTernarySampler, FieldUniformSampler, WideningMul, ntt_add_mul_assign, ntt_add_mul_inplace, Basis, Field, FieldDiscreteGaussianSampler, NTTField, NTTPolynomial, Polynomial};
use algebra::modulus::ShoupFactor;
use fhe_core::*;
use lattice::*;
use mon::fhe::{parts, Spec};
use mon::fields::*;
use mon::lab::*;
use mon::{catch, edge, for_ntt_fields, Case, Mon};
use num_traits::Inv;
use rand::distributions::Distribution;
use rand::{RngCore, SeedableRng};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

static LOG: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());

struct Digest(DefaultHasher, u64);
impl Digest {
    fn new() -> Self {
        Digest(DefaultHasher::new(), 0)
    }
    fn field<F: Field>(&mut self, v: &[F]) {
        for &x in v {
            V::<F>::get(x).hash(&mut self.0);
        }
        self.1 += v.len() as u64;
    }
    fn any<T: Hash>(&mut self, t: T) {
        t.hash(&mut self.0);
        self.1 += 1;
    }
    fn end(self, c: &mut Case) {
        let h = self.0.finish();
        c.count("output values logged", self.1);
        c.seen(h);
        LOG.lock().unwrap().insert(format!("{}:{}", c.label, c.idx), h);
    }
}

struct World<F: NTTField> {
    n: usize,
    s: NTTPolynomial<F>,
    chi: FieldDiscreteGaussianSampler,
    basis: Basis<F>,
    p: Vec<Polynomial<F>>,
    t: Vec<NTTPolynomial<F>>,
    r: Vec<RLWE<F>>,
    nr: Vec<NTTRLWE<F>>,
    g: Vec<GadgetRLWE<F>>,
    ng: Vec<NTTGadgetRLWE<F>>,
    w: Vec<RGSW<F>>,
    nw: Vec<NTTRGSW<F>>,
    l: Vec<LWE<F>>,
    d: DecompositionSpace<F>,
    ps: PolynomialSpace<F>,
    ns: NTTRLWESpace<F>,
}
fn pol<F: NTTField>(c: &mut Case, n: usize) -> Polynomial<F> {
    match c.below(6) {
        0 => Polynomial::random(n, &mut c.rng),
        1 => Polynomial::random_with_binary(n, &mut c.rng),
        2 => Polynomial::random_with_ternary(n, &mut c.rng),
        3 => Polynomial::zero(n),
        _ => V::<F>::poly(&V::<F>::edges(&mut c.rng, n)),
    }
}
fn tra<F: NTTField>(c: &mut Case, n: usize) -> NTTPolynomial<F> {
    match c.below(3) {
        0 => NTTPolynomial::random(n, &mut c.rng),
        1 => NTTPolynomial::zero(n),
        _ => V::<F>::ntt(&V::<F>::edges(&mut c.rng, n)),
    }
}
impl<F> World<F>
where
    F: NTTField<Table = NTTTable<F>, Root = ShoupFactor<<F as Field>::Value>>,
{
    fn new(c: &mut Case, log_n: u32) -> World<F> {
        let n = 1usize << log_n;
        let pbits = 128 - V::<F>::p().leading_zeros();
        let bits = 1 + c.below(pbits as u64) as u32;
        // a power of the base must fit the value type
        let bits = bits.min(pbits - 1).max(1).max(pbits.div_ceil(if log_n < 4 { 4 } else { 12 }));
        let basis = Basis::<F>::new(bits);
        let chi = FieldDiscreteGaussianSampler::new(0.0, [0.0f64, 0.4, 3.2][c.below(3) as usize].min(V::<F>::p() as f64 / 32.0)).unwrap();
        let s = Polynomial::<F>::random_with_ternary(n, &mut c.rng).into_ntt_polynomial();
        let rng = &mut c.rng;
        let g = vec![GadgetRLWE::generate_random_zero_sample(&s, basis, chi, rng), GadgetRLWE::generate_random_one_sample(&s, basis, chi, rng),
            GadgetRLWE::generate_random_neg_secret_sample(&s, basis, chi, rng)];
        let ng = vec![NTTGadgetRLWE::generate_random_zero_sample(&s, basis, chi, rng), NTTGadgetRLWE::generate_random_one_sample(&s, basis, chi, rng),
            NTTGadgetRLWE::generate_random_neg_secret_sample(&s, basis, chi, rng)];
        let w = vec![RGSW::generate_random_zero_sample(&s, basis, chi, rng), RGSW::generate_random_one_sample(&s, basis, chi, rng)];
        let nw = vec![NTTRGSW::generate_random_zero_sample(&s, basis, chi, rng), NTTRGSW::generate_random_one_sample(&s, basis, chi, rng)];
        let r = (0..3).map(|_| RLWE::generate_random_zero_sample(&s, chi, rng)).collect();
        let nr = vec![NTTRLWE::generate_random_zero_sample(&s, chi, rng), NTTRLWE::generate_random_value_sample(&s, F::one(), chi, rng), NTTRLWE::zero(n)];
        let p = (0..4).map(|_| pol(c, n)).collect();
        let t = (0..4).map(|_| tra(c, n)).collect();
        let l = (0..3).map(|_| LWE::new(V::<F>::vec(&V::<F>::edges(&mut c.rng, n)), V::<F>::new(V::<F>::edge(&mut c.rng)))).collect();
        World { n, s, chi, basis, p, t, r, nr, g, ng, w, nw, l,
            d: DecompositionSpace::new(n), ps: PolynomialSpace::new(n), ns: NTTRLWESpace::new(n) }
    }
    fn log(&self, d: &mut Digest) {
        self.p.iter().for_each(|x| d.field(x.as_slice()));
        self.t.iter().for_each(|x| d.field(x.as_slice()));
        self.r.iter().for_each(|x| { d.field(x.a_slice()); d.field(x.b_slice()) });
        self.nr.iter().for_each(|x| { d.field(x.a_slice()); d.field(x.b_slice()) });
        self.l.iter().for_each(|x| { d.field(x.a()); d.field(&[x.b()]) });
        for g in &self.g { g.iter().for_each(|x| { d.field(x.a_slice()); d.field(x.b_slice()) }) }
        for g in &self.ng { g.iter().for_each(|x| { d.field(x.a_slice()); d.field(x.b_slice()) }) }
        for w in &self.nw { w.c_m().iter().for_each(|x| { d.field(x.a_slice()); d.field(x.b_slice()) }) }
        for w in &self.w { w.c_m().iter().for_each(|x| { d.field(x.a_slice()); d.field(x.b_slice()) }) }
    }
    /// every value in its documented range
    fn ranged(&self) -> bool {
        let p = V::<F>::p();
        let ok = |v: &[F]| v.iter().all(|&x| V::<F>::get(x) < p);
        self.p.iter().all(|x| ok(x.as_slice())) && self.t.iter().all(|x| ok(x.as_slice()))
            && self.r.iter().all(|x| ok(x.a_slice()) && ok(x.b_slice())) && self.nr.iter().all(|x| ok(x.a_slice()) && ok(x.b_slice()))
            && self.l.iter().all(|x| ok(x.a()) && ok(&[x.b()]))
    }
    /// one valid call
    fn step(&mut self, c: &mut Case, d: &mut Digest) -> u64 {
        let n = self.n;
        let op = c.below(78);
        // operands are taken out of the pools, so that results can be put back
        let (i, j, k) = (c.below(3) as usize, c.below(3) as usize, c.below(3) as usize);
        let s = V::<F>::new(V::<F>::edge(&mut c.rng));
        let rot = c.below(2 * n as u64 + 1) as usize;
        let table = F::get_ntt_table(n.trailing_zeros()).unwrap();
        match op {
            0 => { let x = self.p[j].clone(); let y = self.p[k].clone(); self.p[i] = &x + &y }
            1 => { let x = self.p[j].clone(); let y = self.p[k].clone(); self.p[i] = x - y }
            2 => { let y = self.p[k].clone(); self.p[i] += y }
            3 => { let y = self.p[k].clone(); self.p[i] -= &y }
            4 => { let x = self.p[j].clone(); let y = self.p[k].clone(); self.p[i] = x * y }
            5 => { let x = self.p[j].clone(); let tx = self.t[j].clone(); self.p[i] = &x * &tx }
            6 => { let y = self.p[k].clone(); self.p[i] *= y }
            7 => { let tx = self.t[j].clone(); self.p[i] *= &tx }
            8 => { let x = self.p[j].clone(); self.p[i] = -&x }
            9 => { self.p[i].neg_assign() }
            10 => { let x = self.p[j].clone(); self.p[i] = x.mul_scalar(s) }
            11 => { self.p[i].mul_scalar_assign(s) }
            12 => { let x = self.p[j].clone(); let y = self.p[k].clone(); x.add_inplace(&y, &mut self.p[i]) }
            13 => { let x = self.p[j].clone(); let y = self.p[k].clone(); x.sub_inplace(&y, &mut self.p[i]) }
            14 => { let x = self.p[j].clone(); d.field(&[x.evaluate(s)]) }
            15 => { let y = self.p[k].clone(); self.p[i].copy_from(&y) }
            16 => { let v = self.p[i].clone().decompose(self.basis); v.iter().for_each(|q| d.field(q.as_slice())); self.p[i] = v[0].clone() }
            17 => {
                let mut v: Vec<Polynomial<F>> = (0..self.basis.decompose_len()).map(|_| pol(c, n)).collect();
                self.p[i].decompose_inplace(self.basis, &mut v);
                v.iter().for_each(|q| d.field(q.as_slice()));
                self.p[i] = v.pop().unwrap();
            }
            18 => { let tx = self.t[j].clone(); let mut v = tx.data(); self.p[i].decompose_lsb_bits_inplace(self.basis, &mut v); d.field(&v) }
            19 => { let x = self.p[j].clone(); self.t[i] = x.into_ntt_polynomial() }
            20 => { let tx = self.t[j].clone(); self.p[i] = tx.into_native_polynomial() }
            21 => { let x = self.p[j].clone(); self.t[i] = table.transform(&x) }
            22 => { let tx = self.t[j].clone(); self.p[i] = table.inverse_transform(&tx) }
            23 => { table.transform_slice(self.p[i].as_mut_slice()) }
            24 => { table.inverse_transform_slice(self.t[i].as_mut_slice()) }
            25 => { let deg = c.rng.next_u32() as usize; table.transform_monomial(s, deg, self.t[i].as_mut_slice()) }
            26 => { table.transform_monomial(if c.below(2) == 0 { F::one() } else { F::neg_one() }, rot, self.t[i].as_mut_slice()) }
            27 => { let deg = edge(&mut c.rng, u32::MAX as u128) as usize; table.transform_coeff_one_monomial(deg, self.t[i].as_mut_slice()) }
            28 => { let deg = edge(&mut c.rng, u32::MAX as u128) as usize; table.transform_coeff_neg_one_monomial(deg, self.t[i].as_mut_slice()) }
            29 => { let tx = self.t[j].clone(); let ty = self.t[k].clone(); self.t[i] = &tx + &ty }
            30 => { let tx = self.t[j].clone(); let ty = self.t[k].clone(); self.t[i] = tx - ty }
            31 => { let tx = self.t[j].clone(); self.t[i] *= tx }
            32 => { let tx = self.t[j].clone(); let ty = self.t[k].clone(); tx.mul_inplace(&ty, &mut self.t[i]) }
            33 => { let tx = self.t[j].clone(); let ty = self.t[k].clone(); tx.add_inplace(&ty, &mut self.t[i]) }
            34 => { let tx = self.t[j].clone(); let ty = self.t[k].clone(); tx.sub_inplace(&ty, &mut self.t[i]) }
            35 => { let tx = self.t[j].clone(); self.t[i] = -tx }
            36 => { let tx = self.t[j].clone(); self.t[i] = tx.mul_scalar(s) }
            37 => { let tx = self.t[j].clone(); let ty = self.t[k].clone(); ntt_add_mul_assign(&mut self.t[i], &tx, &ty) }
            38 => { let tx = self.t[j].clone(); let ty = self.t[k].clone(); let t2 = self.t[3].clone(); ntt_add_mul_inplace(&tx, &ty, &t2, &mut self.t[i]) }
            39 => { let tx = self.t[j].clone(); if tx.iter().all(|v| !v.is_zero()) { self.t[i] = tx.inv() } }
            40 => { let x = self.p[j].clone(); let tx = self.t[j].clone(); self.t[i] = tx * x }
            41 => { let rx = self.r[j].clone(); let ry = self.r[k].clone(); self.r[i] = rx.add_element_wise(&ry) }
            42 => { let rx = self.r[j].clone(); let ry = self.r[k].clone(); self.r[i] = rx.sub_element_wise_ref(&ry) }
            43 => { let ry = self.r[k].clone(); self.r[i].add_assign_element_wise(&ry) }
            44 => { let rx = self.r[j].clone(); let ry = self.r[k].clone(); rx.sub_inplace(&ry, &mut self.r[i]) }
            45 => { let tx = self.t[j].clone(); let rx = self.r[j].clone(); rx.mul_ntt_polynomial_inplace(&tx, &mut self.nr[i]) }
            46 => { let rx = self.r[j].clone(); self.l[i] = rx.extract_lwe() }
            47 => { let rx = self.r[j].clone(); self.l[i] = rx.extract_lwe_locally() }
            48 => { let rx = self.r[j].clone(); self.l[i] = rx.extract_lwe_reverse_locally() }
            49 => { let rx = self.r[j].clone(); let m = rot.min(n); d.field(rx.clone().extract_partial_lwe_locally(m).a()); d.field(rx.extract_partial_lwe_reverse_locally(m).a()) }
            50 => { let rx = self.r[j].clone(); rx.mul_monic_monomial_sub_one_inplace(n, rot, &mut self.r[i]) }
            51 => { let ry = self.r[k].clone(); self.r[i].add_assign_rhs_mul_monic_monomial(&ry, n, rot) }
            52 => { let rx = self.r[j].clone(); self.nr[i] = NTTRLWE::from(rx) }
            53 => { let nx = self.nr[j].clone(); self.r[i] = RLWE::from(nx) }
            54 => { let nx = self.nr[j].clone(); nx.inverse_transform_inplace(&mut self.r[i]) }
            55 => { let nx = self.nr[j].clone(); let ny = self.nr[k].clone(); self.nr[i] = nx.add_element_wise_ref(&ny) }
            56 => { let ny = self.nr[k].clone(); self.nr[i].sub_element_wise_assign(&ny) }
            57 => { let tx = self.t[j].clone(); self.nr[i].mul_ntt_polynomial_assign(&tx) }
            58 => { let tx = self.t[j].clone(); let ny = self.nr[k].clone(); self.nr[i].add_ntt_rlwe_mul_ntt_polynomial_assign(&ny, &tx) }
            59 => { let tx = self.t[j].clone(); let nx = self.nr[j].clone(); let ny = self.nr[k].clone(); nx.add_ntt_rlwe_mul_ntt_polynomial_inplace(&ny, &tx, &mut self.nr[i]) }
            60 => { let x = self.p[j].clone(); self.r[i] = self.g[j].mul_polynomial(&x) }
            61 => { let x = self.p[j].clone(); let rx = self.r[j].clone(); self.r[i] = rx.add_gadget_rlwe_mul_polynomial(&self.g[j], &x) }
            62 => { let x = self.p[j].clone(); self.nr[i] = self.ng[j].mul_polynomial(&x) }
            63 => { let x = self.p[j].clone(); self.ng[j].mul_polynomial_inplace(&x, &mut self.d, &mut self.ps, &mut self.nr[i]) }
            64 => { let x = self.p[j].clone(); let nx = self.nr[j].clone(); self.nr[i] = nx.add_gadget_rlwe_mul_polynomial(&self.ng[j], &x) }
            65 => { let x = self.p[j].clone(); self.nr[i].add_assign_gadget_rlwe_mul_polynomial(&self.ng[j], &x, &mut self.d, &mut self.ps) }
            66 => { let x = self.p[j].clone(); self.nr[i].sub_assign_gadget_rlwe_mul_polynomial_inplace(&self.ng[j], x, &mut self.d) }
            67 => { let rx = self.r[j].clone(); self.r[i] = rx.mul_rgsw(&self.w[j % 2]) }
            68 => { let rx = self.r[j].clone(); self.r[i] = rx.mul_ntt_rgsw(&self.nw[j % 2]) }
            69 => { self.r[i].mul_assign_ntt_rgsw(&self.nw[j % 2], &mut self.d, &mut self.ps, &mut self.ns) }
            70 => { let rx = self.r[j].clone(); rx.mul_ntt_rgsw_inplace(&self.nw[j % 2], &mut self.d, &mut self.ps, &mut self.ns, &mut self.r[i]) }
            71 => { let tx = self.t[j].clone(); let a = self.ng[j].clone(); let b = self.ng[k].clone(); a.add_ntt_gadget_rlwe_mul_ntt_polynomial_inplace(&b, &tx, &mut self.ng[i]) }
            72 => { let tx = self.t[j].clone(); let a = self.nw[j % 2].clone(); let b = self.nw[k % 2].clone(); a.add_ntt_rgsw_mul_ntt_polynomial_inplace(&b, &tx, &mut self.nw[i % 2]) }
            73 => { let m = self.w[0].mul_small_ntt_rgsw(&self.nw[j % 2]); self.w[i % 2] = m }
            74 => { let a = self.g[j].clone(); let b = self.g[k].clone(); a.sub_inplace(&b, &mut self.g[i]) }
            75 => { let lx = self.l[j].clone(); self.l[i] = lx.clone().add_component_wise(&self.l[i]) }
            76 => {
                let x = self.p[j].clone();
                // resizing through the vectors behind polynomials, and polynomials of any length
                let m = c.below(2 * n as u64 + 3) as usize;
                let mut z = x.clone();
                z.resize(m, s);
                d.field(z.as_slice());
                let z2 = Polynomial::<F>::from_slice(&vec![s; m]);
                let mut z3 = &z + &z2;
                z3 -= &z;
                z3.neg_assign();
                d.field(z3.mul_scalar(s).as_slice());
                let b = Polynomial::<F>::random_with_binary(m, &mut c.rng);
                let t = Polynomial::<F>::random_with_ternary(m, &mut c.rng);
                let g = Polynomial::<F>::random_with_gaussian(m, &mut c.rng, self.chi);
                d.field(b.as_slice());
                d.field(t.as_slice());
                d.field(g.as_slice());
            }
            _ => {
                self.r[i] = RLWE::generate_random_zero_sample(&self.s, self.chi, &mut c.rng);
                self.nr[i] = NTTRLWE::generate_random_zero_sample(&self.s, self.chi, &mut c.rng);
            }
        }
        op
    }
}
/// a slice inside a larger buffer whose surroundings must survive
struct Guarded<T: Clone + PartialEq> {
    buf: Vec<T>,
    at: usize,
    len: usize,
    mark: T,
}
impl<T: Clone + PartialEq> Guarded<T> {
    fn new(len: usize, pad: usize, fill: impl Fn(usize) -> T, mark: T) -> Self {
        let buf = (0..len + 2 * pad).map(|i| if i < pad || i >= pad + len { mark.clone() } else { fill(i) }).collect();
        Guarded { buf, at: pad, len, mark }
    }
    fn get(&mut self) -> &mut [T] {
        &mut self.buf[self.at..self.at + self.len]
    }
    fn intact(&self) -> bool {
        self.buf.iter().enumerate().all(|(i, x)| (i >= self.at && i < self.at + self.len) || *x == self.mark)
    }
}

fn wrong(c: &mut Case, n: usize) -> usize {
    let v = match c.below(9) {
        0 => 0,
        1 => 1,
        2 => n + 1,
        3 => n - 1,
        4 => 2 * n,
        5 => n / 2,
        6 => 3 * n,
        7 => n,
        _ => c.below(4 * n as u64 + 2) as usize,
    };
    v.min(1 << 13)
}

fn hostile<F>(c: &mut Case, w: &mut World<F>)
where
    F: NTTField<Table = NTTTable<F>, Root = ShoupFactor<<F as Field>::Value>>,
{
    let n = w.n;
    let m = wrong(c, n);
    let m2 = wrong(c, n);
    let table = F::get_ntt_table(n.trailing_zeros()).unwrap();
    let s = V::<F>::new(V::<F>::edge(&mut c.rng));
    let mark = V::<F>::new(V::<F>::p() - 1);
    let deg = match c.below(3) { 0 => usize::MAX - c.below(3) as usize, 1 => c.rng.next_u64() as usize, _ => c.rng.next_u32() as usize };
    let mut g = Guarded::new(m, 4 * n + 8, |i| V::<F>::new(i as u128 % V::<F>::p()), mark);
    let op = c.below(34);
    let bad = |x: &Polynomial<F>, m: usize| { let mut x = x.clone(); x.resize(m, F::one()); x };
    let badt = |x: &NTTPolynomial<F>, m: usize| { let mut x = x.clone(); x.resize(m, F::one()); x };
    // a row whose halves have been resized behind its back
    let badr = |x: &RLWE<F>, m: usize, m2: usize| { let mut x = x.clone(); x.a_mut().resize(m, F::one()); x.b_mut().resize(m2, F::one()); x };
    let badn = |x: &NTTRLWE<F>, m: usize, m2: usize| { let mut x = x.clone(); x.a_mut().resize(m, F::one()); x.b_mut().resize(m2, F::one()); x };
    let (x, y, tx) = (w.p[0].clone(), w.p[1].clone(), w.t[0].clone());
    let sel = c.below(4);
    let seed = c.rng.next_u64();
    let r = catch(|| {
        let mut rng = mon::R::seed_from_u64(seed);
        match op {
            0 => table.transform_slice(g.get()),
            1 => table.inverse_transform_slice(g.get()),
            2 => table.transform_monomial(s, deg, g.get()),
            3 => table.transform_monomial(F::one(), deg, g.get()),
            4 => table.transform_monomial(F::neg_one(), deg, g.get()),
            5 => table.transform_coeff_one_monomial(deg, g.get()),
            6 => table.transform_coeff_neg_one_monomial(deg, g.get()),
            7 => drop(table.transform(&bad(&x, m))),
            8 => drop(table.inverse_transform(&badt(&tx, m))),
            9 => drop(&x + &bad(&y, m)),
            10 => drop(bad(&x, m) - &y),
            11 => drop(bad(&x, m) * bad(&y, m2)),
            12 => { let mut z = x.clone(); z *= bad(&y, m) }
            13 => drop(badt(&tx, m) * &tx),
            14 => { let mut z = bad(&x, m); x.add_inplace(&bad(&y, m2), &mut z); x.sub_inplace(&y, &mut z) }
            15 => { let mut z = badt(&tx, m); tx.mul_inplace(&badt(&tx, m2), &mut z); tx.add_inplace(&tx, &mut z) }
            16 => { let mut z = bad(&x, m); z.copy_from(&y) }
            17 => { let mut v = vec![bad(&x, m); if sel == 0 { w.basis.decompose_len() } else { m2 % 9 }]; x.clone().decompose_inplace(w.basis, &mut v) }
            18 => x.clone().decompose_lsb_bits_inplace(w.basis, g.get()),
            19 => { let mut z = badt(&tx, m); ntt_add_mul_assign(&mut z, &tx, &badt(&tx, m2)); ntt_add_mul_inplace(&tx, &badt(&tx, m2), &tx, &mut z) }
            20 => drop(badr(&w.r[0], m, m2).extract_lwe()),
            21 => match sel {
                0 => drop(badr(&w.r[0], m, m2).extract_lwe_locally()),
                1 => drop(w.r[0].clone().extract_partial_lwe_locally(m)),
                2 => drop(w.r[0].clone().extract_partial_lwe_reverse_locally(m)),
                _ => drop(badr(&w.r[0], m, m2).extract_lwe_reverse_locally()),
            },
            22 => { let mut z = badr(&w.r[0], m, m2); w.r[1].mul_monic_monomial_sub_one_inplace(if sel == 0 { m } else { n }, deg % (6 * n + 3), &mut z) }
            23 => { let mut z = badr(&w.r[0], m, m2); z.add_assign_rhs_mul_monic_monomial(&w.r[1], if sel == 0 { m } else { n }, deg % (6 * n + 3)) }
            24 => { let mut z = badr(&w.r[0], m, m2); w.nr[0].inverse_transform_inplace(&mut z); drop(NTTRLWE::from(badr(&w.r[0], m2, m))) }
            25 => drop(w.g[0].mul_polynomial(&bad(&x, m))),
            26 => drop(w.ng[0].mul_polynomial(&bad(&x, m))),
            27 => {
                let mut dd = DecompositionSpace::new(m);
                let mut pp = PolynomialSpace::new(if sel == 0 { n } else { m2 });
                let mut nn = badn(&w.nr[0], if sel == 1 { n } else { m }, m2);
                if sel < 2 { w.ng[0].mul_polynomial_inplace(&x, &mut dd, &mut pp, &mut nn) } else { w.ng[0].mul_polynomial_inplace_fast(&x, &mut dd, &mut pp, &mut nn) }
            }
            28 => {
                let mut dd = DecompositionSpace::new(if sel == 0 { n } else { m });
                let mut pp = PolynomialSpace::new(if sel == 1 { n } else { m2 });
                let mut nn = NTTRLWESpace::new(if sel == 2 { n } else { m });
                let mut z = badr(&w.r[0], m, m2);
                if sel < 2 { z.mul_assign_ntt_rgsw(&w.nw[0], &mut dd, &mut pp, &mut nn) } else { w.r[0].mul_ntt_rgsw_inplace(&w.nw[0], &mut dd, &mut pp, &mut nn, &mut z) }
            }
            29 => { let mut z = badn(&w.nr[0], m, m2); z.add_ntt_rlwe_mul_ntt_polynomial_assign_fast(&w.nr[1], &tx); w.nr[1].add_ntt_rlwe_mul_ntt_polynomial_inplace(&w.nr[0], &badt(&tx, m), &mut z) }
            30 => {
                let mut l = w.l[0].clone();
                l.a_mut().resize(m, F::one());
                match sel {
                    0 => drop(l.add_component_wise_ref(&w.l[1])),
                    1 => { let mut o = w.l[1].clone(); o.sub_inplace_component_wise(&l) }
                    2 => drop(w.l[1].clone().add_component_wise(&l)),
                    _ => l.add_inplace_component_wise(&w.l[1]),
                }
            }
            31 => {
                let k = badt(&w.s, m);
                match sel {
                    0 => drop(RLWE::<F>::generate_random_zero_sample(&k, w.chi, &mut rng)),
                    1 => drop(NTTRGSW::<F>::generate_random_one_sample(&k, w.basis, w.chi, &mut rng)),
                    2 => drop(GadgetRLWE::<F>::generate_random_neg_secret_sample(&k, w.basis, w.chi, &mut rng)),
                    _ => drop(NTTRLWE::<F>::generate_random_value_sample(&k, s, w.chi, &mut rng)),
                }
            }
            32 => { let _ = F::get_ntt_table(V::<F>::max_log_n() + 1 + (deg % 50) as u32).map(|_| ()); F::get_ntt_table(deg as u32 | 64).map(|_| ()).ok(); }
            _ => { let b = Basis::<F>::new(deg as u32 % 70); drop(x.clone().decompose(b)); let v = RLWE::new(bad(&x, m), bad(&y, m2)); drop(v) }
        }
    });
    c.count(if r.is_ok() { "hostile calls that returned" } else { "hostile calls that stopped with a panic" }, 1);
    c.ok(g.intact(), "a call wrote outside the slice it was given", || format!("op {op} length {m} of {n}"));
}

fn field<F>(mon: &Mon, name: &str, tier: Tier)
where
    F: NTTField<Table = NTTTable<F>, Root = ShoupFactor<<F as Field>::Value>> + serde::Serialize + serde::de::DeserializeOwned,
{
    let top = V::<F>::max_log_n();
    mon.par(&format!("valid, small, {name}"), tier.small, |c| {
        let log_n = c.below(top.min(3) as u64 + 1) as u32;
        valid::<F>(c, log_n, 40);
    });
    mon.par(&format!("elements, {name}"), tier.small, |c| scalars::<F>(c));
    if tier.large > 0 {
        mon.par(&format!("valid, {name}"), tier.large, |c| {
            let log_n = c.below(top.min(11) as u64 + 1) as u32;
            valid::<F>(c, log_n, if log_n > 7 { 120 } else { 400 });
        });
    }
    mon.par(&format!("hostile, {name}"), tier.hostile, |c| {
        let log_n = c.below(top.min(if tier.large > 0 { 8 } else { 3 }) as u64 + 1) as u32;
        let mut w = World::<F>::new(c, log_n);
        for _ in 0..tier.calls {
            hostile(c, &mut w);
        }
        // after all that, everything still works
        let mut d = Digest::new();
        for _ in 0..10 {
            w.step(c, &mut d);
        }
        c.ok(w.ranged(), "values out of range after hostile calls", || format!("n={}", w.n));
        c.seen((log_n, c.idx));
    });
}
fn valid<F>(c: &mut Case, log_n: u32, steps: usize)
where
    F: NTTField<Table = NTTTable<F>, Root = ShoupFactor<<F as Field>::Value>>,
{
    let mut w = World::<F>::new(c, log_n);
    let mut d = Digest::new();
    let mut hist = vec![];
    for _ in 0..steps {
        hist.push(w.step(c, &mut d));
    }
    w.log(&mut d);
    c.count("valid calls", steps as u64);
    c.ok(w.ranged(), "values out of their documented range", || format!("n={} calls {hist:?}", w.n));
    c.sample(|| format!("n={} calls {:?}...", w.n, &hist[..20]));
    d.end(c);
}

/// element-level calls: arithmetic, digits, roots, samplers, encodings
fn scalars<F>(c: &mut Case)
where
    F: NTTField<Table = NTTTable<F>, Root = ShoupFactor<<F as Field>::Value>> + serde::Serialize + serde::de::DeserializeOwned,
{
    let p = V::<F>::p();
    let pbits = 128 - p.leading_zeros();
    let mut d = Digest::new();
    for _ in 0..12 {
        let x = V::<F>::edges(&mut c.rng, 3);
        let [a, b, e] = [V::<F>::new(x[0]), V::<F>::new(x[1]), V::<F>::new(x[2])];
        d.field(&[a + b, a - b, a * b, -a, e.add_mul(a, b), a + &b, a - &b, a * &b]);
        if x[1] != 0 { d.field(&[a / b, b.inv(), a / &b]); }
        let (mut s, mut t, mut u, mut v) = (a, a, a, a);
        s += b; t -= b; u *= b; v.add_mul_assign(e, b);
        d.field(&[s, t, u, v]);
        let root = b.to_root();
        d.field(&[a.mul_root(root), F::from_root(root), F::from(x[2] as usize)]);
        d.any((a.cmp(&b), a == b, a.is_zero(), a.is_one(), format!("{a} {b:?}")));
        // digits: every way to take them apart
        let bits = 1 + c.below(pbits as u64) as u32;
        let basis = Basis::<F>::new(bits);
        for z in [a, F::ZERO, F::ONE] {
            d.field(&z.decompose(basis));
            let mut dst = vec![b; basis.decompose_len()];
            z.decompose_at(basis, &mut dst);
            d.field(&dst);
            let (mut r, mut q, mut to) = (z, z, b);
            d.field(&[r.decompose_lsb_bits(basis.mask(), bits), r]);
            q.decompose_lsb_bits_at(&mut to, basis.mask(), bits);
            d.field(&[q, to]);
        }
        // encodings
        let j = serde_json::to_string(&a).expect("json");
        let w = bincode::serialize(&vec![a, b, e]).expect("bincode");
        d.field(&[serde_json::from_str::<F>(&j).expect("json")]);
        d.field(&bincode::deserialize::<Vec<F>>(&w).expect("bincode"));
        d.any((j, w));
        // something else than an encoding
        let n = c.below(20) as usize;
        let junk: Vec<u8> = (0..n).map(|_| c.rng.next_u32() as u8).collect();
        let r = bincode::deserialize::<F>(&junk).ok();
        d.any(r.map(|r| V::<F>::get(r)));
    }
    // samplers
    let n = c.below(70) as usize;
    let rng = &mut c.rng;
    d.field(Polynomial::<F>::random(n, rng).as_slice());
    d.field(Polynomial::<F>::random_with_binary(n, rng).as_slice());
    d.field(Polynomial::<F>::random_with_ternary(n, rng).as_slice());
    d.field(&sample_binary_field_vec::<F, _>(n, rng));
    d.field(&sample_ternary_field_vec::<F, _>(n, rng));
    sample_binary_values::<<F as Field>::Value, _>(n, rng).into_iter().for_each(|x| d.any(V::<F>::raw(x)));
    sample_ternary_values::<<F as Field>::Value, _>(V::<F>::val(p), n, rng).into_iter().for_each(|x| d.any(V::<F>::raw(x)));
    d.field(&[F::random(rng), FieldUniformSampler::<F>::new().sample(rng), FieldBinarySampler.sample(rng), FieldTernarySampler.sample(rng)]);
    if p > 64 {
        d.field(&sample_cbd_field_vec::<F, _>(n, rng));
        for sd in [0.7, 3.2, 1.0] {
            let g = FieldDiscreteGaussianSampler::new(0.0, sd).expect("sampler");
            d.field(Polynomial::<F>::random_with_gaussian(n, rng, g).as_slice());
            d.field(Polynomial::<F>::random_with_distribution(n, rng, g).as_slice());
            let g = DiscreteGaussian::new(V::<F>::val(p), 0.0, sd).expect("sampler");
            d.any((0..n).map(|_| V::<F>::raw(g.sample(rng))).collect::<Vec<_>>());
        }
    }
    // number theory over the modulus
    d.any(F::is_prime_field());
    // moduli of the encryption layer
    let m = 1 + c.below(40) as usize;
    let xs = V::<F>::edges(&mut c.rng, m);
    let l: LWE<F> = LWE::new(V::<F>::vec(&xs), V::<F>::new(V::<F>::edge(&mut c.rng)));
    macro_rules! switches { ($($T:ty),*) => {$({
        let q = edge(&mut c.rng, (<$T>::MAX as u128).min((1 << 62) - 1) - 1) + 1;
        let y = lwe_modulus_switch::<$T, F>(l.clone(), q as $T);
        let mut z = y.clone();
        lwe_modulus_switch_inplace::<$T, F>(l.clone(), q as $T, &mut z);
        let q2 = edge(&mut c.rng, (<$T>::MAX as u128).min((1 << 62) - 1) - 1) + 1;
        lwe_modulus_switch_assign_between_modulus(&mut z, q as $T, q2 as $T);
        d.any((parts(&y), parts(&z)));
    })*}; }
    switches!(u8, u16, u32, u64);
    // shapes between the types
    let x = Polynomial::<F>::new(V::<F>::vec(&xs));
    d.field(&[x.evaluate(V::<F>::new(xs[0]))]);
    d.any((x.coeff_count(), x.is_zero(), x == x.clone(), x.iter().count()));
    let mut y = x.clone();
    y.resize(m + 3, F::ONE);
    y.as_mut_slice()[0] = F::ZERO;
    y.iter_mut().for_each(|v| *v = -*v);
    d.field(y.as_slice());
    y.set_zero();
    d.field(y.as_slice());
    d.field(&x.data());
    c.count("valid calls", 400);
    d.end(c);
}

/// plain words: widening, casts, gcds, bit reversal, primality, digits over any modulus
fn integers(c: &mut Case) {
    use algebra::utils::{ExtendedGCD, Prime, ReverseLsbs};
    let mut d = Digest::new();
    macro_rules! go { ($($T:ty, $S:ty);*) => {$({
        for _ in 0..8 {
            let a = edge(&mut c.rng, <$T>::MAX as u128) as $T;
            let b = edge(&mut c.rng, <$T>::MAX as u128) as $T;
            let k = edge(&mut c.rng, <$T>::MAX as u128) as $T;
            d.any((WideningMul::widening_mul(a, b), WideningMul::widening_mul_hw(a, b), CarryingMul::carrying_mul(a, b, k), CarryingMul::carrying_mul_hw(a, b, k)));
            d.any((CarryingAdd::carrying_add(a, b, k & 1 == 1), BorrowingSub::borrowing_sub(a, b, k & 1 == 1)));
            d.any((a.gcd(b), a.coprime(b), a.reverse_lsbs(k as u32 % <$T>::BITS)));
            if a > 0 && b > 0 { d.any(<$T>::extended_gcd(a, b)); }
            let m = (edge(&mut c.rng, (1 << (<$T>::BITS - 2)) - 1) as $T).max(2);
            d.any(BarrettModulus::<$T>::new(m).probably_prime(8));
            let mbits = <$T>::BITS - (m - 1).leading_zeros();
            let bits = 1 + c.below(mbits as u64) as u32;
            let basis = lattice::Basis::<$T>::new(bits, m);
            let n = c.below(20) as usize;
            let mut xs: Vec<$T> = (0..n).map(|_| edge(&mut c.rng, m as u128 - 1) as $T).collect();
            let mut dst = vec![k; n];
            for _ in 0..basis.decompose_len() {
                decompose_lsb_bits_inplace(&mut xs, basis, &mut dst);
                d.any(&dst);
            }
            d.any(&xs);
            // ciphertexts over plain words
            let md = BarrettModulus::<$T>::new(m);
            let mut x: LWE<$T> = LWE::new((0..n).map(|_| edge(&mut c.rng, m as u128 - 1) as $T).collect(), b % m);
            let y: LWE<$T> = LWE::new((0..n).map(|_| edge(&mut c.rng, m as u128 - 1) as $T).collect(), a % m);
            x = x.add_reduce_component_wise_ref(&y, md).sub_reduce_component_wise(&y, md).neg_reduce(md);
            x.add_reduce_inplace_component_wise(&y, md);
            x.scalar_mul_reduce_inplace(k % m, md);
            x.add_assign_rhs_mul_scalar_reduce(&y, a % m, md);
            d.any((x.a(), x.b()));
        }
    })*}; }
    go!(u8, i8; u16, i16; u32, i32; u64, i64);
    c.count("valid calls", 600);
    d.end(c);
}

/// slices of blocks and bytes at every length and offset
fn blocks(mon: &Mon, tier: Tier) {
    mon.par("blocks and generators", tier.blocks, |c| {
        let mut d = Digest::new();
        let key: u128 = (c.rng.next_u64() as u128) << 64 | c.rng.next_u64() as u128;
        let aes = Aes::new(Block::from(key));
        let mut prg = Prg::from_seed(Block::from(key ^ 1));
        let len = c.below(70) as usize;
        let pad = c.below(5) as usize;
        let mark = Block::from(0xa5a5_a5a5u128);
        let mut g = Guarded::new(len, pad + 1, |i| Block::from(i as u128), mark);
        aes.encrypt_block_slice(g.get());
        c.ok(g.intact(), "encrypt_block_slice wrote outside its slice", || format!("{len} blocks"));
        g.get().iter().for_each(|&b| d.any(u128::from(b)));
        let mut g = Guarded::new(len, pad + 1, |_| mark, mark);
        prg.random_blocks(g.get());
        c.ok(g.intact(), "random_blocks wrote outside its slice", || format!("{len} blocks"));
        g.get().iter().for_each(|&b| d.any(u128::from(b)));
        for _ in 0..4 {
            let len = c.below(300) as usize;
            let pad = 1 + c.below(40) as usize;
            let mut g = Guarded::new(len, pad, |_| 0u8, 0x5a);
            match c.below(3) {
                0 => prg.random_bytes(g.get()),
                1 => prg.fill_bytes(g.get()),
                _ => prg.try_fill_bytes(g.get()).unwrap(),
            }
            c.ok(g.intact(), "random bytes written outside the slice", || format!("{len} bytes"));
            d.any(g.get().to_vec());
            let mut b = Guarded::new(len, pad, |_| false, true);
            prg.random_bools(b.get());
            c.ok(b.intact(), "random_bools wrote outside the slice", || format!("{len} bools"));
            // a bool holds 0 or 1 whatever the generator put there
            let raw: Vec<u8> = b.get().iter().map(|&x| x as u8).collect();
            c.ok(raw.iter().all(|&x| x < 2), "invalid bool", || format!("{raw:?}"));
            d.any(raw);
        }
        d.any((prg.random_bool(), prg.random_byte(), u128::from(prg.random_block()), prg.next_u32(), prg.next_u64()));
        // bytes of any length at any alignment
        let bytes: Vec<u8> = (0..64).map(|_| c.rng.next_u32() as u8).collect();
        for o in 0..20 {
            for l in [0, 1, 15, 16, 17, 32] {
                let b = Block::try_from_slice(&bytes[o..o + l]);
                c.eq(b.is_some(), l == 16, "try_from_slice length", || format!("{l} bytes"));
                if let Some(b) = b {
                    d.any(u128::from(b));
                    let mut bb = b ^ Block::from(key) & b | Block::ZERO;
                    bb.as_mut()[o % 16] ^= 1;
                    d.any((bb.as_ref().to_vec(), bb == b, format!("{bb} {bb:?}")));
                    d.any((<[u8; 16]>::from(bb), <[u64; 2]>::from(bb)));
                }
            }
        }
        let arr: [Block; 8] = std::array::from_fn(|i| Block::from((i as u128).wrapping_mul(key)));
        aes.encrypt_many_blocks(arr).iter().for_each(|&b| d.any(u128::from(b)));
        aes.encrypt_many_blocks([arr[0]; 3]).iter().for_each(|&b| d.any(u128::from(b)));
        let _: [Block; 0] = aes.encrypt_many_blocks([]);
        d.any(u128::from(aes.encrypt_block(arr[1])));
        d.end(c);
    });
}

/// every modulus type on words over the whole range
fn words(mon: &Mon, tier: Tier) {
    macro_rules! sweep {
        ($c:expr, $d:expr, $T:ty, $md:expr, $m:expr) => {{
            let (c, d, md, m): (&mut Case, &mut Digest, _, u128) = ($c, $d, $md, $m);
            for _ in 0..8 {
                let a = edge(&mut c.rng, m - 1) as $T;
                let b = edge(&mut c.rng, m - 1) as $T;
                let e = edge(&mut c.rng, 300) as $T;
                d.any((a.add_reduce(b, md), a.sub_reduce(b, md), a.mul_reduce(b, md), a.neg_reduce(md)));
                d.any(a.exp_reduce(e % 200, md));
                let (mut x, mut y, mut z) = (a, a, a);
                x.add_reduce_assign(b, md);
                y.sub_reduce_assign(b, md);
                z.mul_reduce_assign(b, md);
                d.any((x, y, z));
            }
        }};
    }
    mon.par("modular words", tier.small * 8, |c| {
        let mut d = Digest::new();
        macro_rules! barrett {
            ($T:ty) => {{
                let top = (1u128 << (<$T>::BITS - 2)) - 1;
                let m = edge(&mut c.rng, top).max(2);
                let md = BarrettModulus::<$T>::new(m as $T);
                sweep!(c, &mut d, $T, md, m);
                let w = edge(&mut c.rng, <$T>::MAX as u128) as $T;
                let w2 = edge(&mut c.rng, <$T>::MAX as u128) as $T;
                d.any((w.reduce(md), [w, w2 % m as $T].reduce(md)));
                // a modulus the type cannot hold stops
                let big = edge(&mut c.rng, <$T>::MAX as u128) as $T;
                let r = catch(|| BarrettModulus::<$T>::new(big));
                c.count(if r.is_ok() { "hostile calls that returned" } else { "hostile calls that stopped with a panic" }, 1);
            }};
        }
        barrett!(u8);
        barrett!(u16);
        barrett!(u32);
        barrett!(u64);
        macro_rules! pow2 {
            ($T:ty) => {{
                let k = 1 + c.below(<$T>::BITS as u64 - 1) as u32;
                let m = 1u128 << k;
                let md = PowOf2Modulus::<$T>::new(m as $T);
                sweep!(c, &mut d, $T, md, m);
                let v = c.rng.next_u64() as $T;
                let _ = catch(|| PowOf2Modulus::<$T>::new(v));
            }};
        }
        pow2!(u8);
        pow2!(u16);
        pow2!(u32);
        pow2!(u64);
        d.end(c);
    });
    mon.par("integers", tier.small * 4, integers);
    // Miri has no inline assembly
    if cfg!(miri) {
        return;
    }
    mon.par("goldilocks words", tier.small * 8, |c| {
        let mut d = Digest::new();
        for _ in 0..40 {
            let p = (1u128 << 64) - (1 << 32) + 1;
            let a = edge(&mut c.rng, p - 1) as u64;
            let b = edge(&mut c.rng, p - 1) as u64;
            let md = GoldilocksModulus;
            d.any((a.add_reduce(b, md), a.sub_reduce(b, md), a.mul_reduce(b, md), a.neg_reduce(md)));
        }
        d.end(c);
    });
}

/// key sets and gates, valid and with ill-sized arguments
fn gates<C: LWEModulusType, Q: NTTField>(mon: &Mon, what: &str, n: usize, tiny: bool) {
    mon.par(&if tiny { format!("gates, tiny, {what}") } else { format!("gates, {what}") }, n, |c| {
        let Some(mut s) = Spec::pick::<C, Q>(&mut c.rng, if tiny { 2 } else { 6 }, 0.0) else { return };
        if tiny {
            if !matches!(s.steps, Steps::BrMs) { s.n = s.n.min(2); }
            let bits = 128 - V::<Q>::p().leading_zeros();
            s.bits = s.bits.max(bits / 2);
            s.ks_bits = s.ks_bits.max(if matches!(s.steps, Steps::BrMsKs) { 1 } else { bits / 2 });
        }
        let l = lab::<C, Q>(c, s.params(), format!("{s:?}"));
        let mut d = Digest::new();
        let mut x: Vec<LWE<C>> = (0..3).map(|i| l.fresh(c, i % 2 == 0)).collect();
        for _ in 0..if tiny { 2 } else { 24 } {
            let g = if tiny { c.below(8) } else { c.below(9) } as usize;
            let y = gate(&l.eval, g, [&x[0], &x[1], &x[2]]);
            let (a, b) = parts(&y);
            d.any((g, a, b));
            d.any(l.dec.decrypt::<u64>(&y));
            x.remove(0);
            x.push(y);
            c.count("valid calls", 1);
        }
        d.end(c);
        for _ in 0..if tiny { 3 } else { 40 } {
            let m = wrong(c, s.n) as usize;
            let mut z = x[0].clone();
            let big: C = if c.below(2) == 0 { C::as_from(u64::MAX) } else { C::as_from(c.rng.next_u64()) };
            z.a_mut().resize(m, big);
            if c.below(2) == 0 { *z.b_mut() = big }
            let op = c.below(14);
            let sel = c.below(6) as usize;
            let len = wrong(c, s.ring);
            let r = catch(|| match op {
                0..=8 => drop(gate(&l.eval, op as usize, if sel < 3 { [&z, &x[1], &x[2]] } else { [&x[0], &z, &z] })),
                9 => drop(l.eval.bootstrap(z.clone(), V::<Q>::poly(&vec![1; len]))),
                10 => drop(l.eval.bootstrap(x[0].clone(), V::<Q>::poly(&vec![1; len]))),
                11 => { l.dec.decrypt::<u8>(&z); l.sk.decrypt_with_noise::<u64>(&z); }
                12 => { let _ = l.enc.encrypt(m as u64, &mut mon::R::seed_from_u64(1)); }
                _ => { l.sk.decrypt::<bool>(&z); }
            });
            c.count(if r.is_ok() { "hostile calls that returned" } else { "hostile calls that stopped with a panic" }, 1);
        }
        // the evaluator is as good as before
        let y = gate(&l.eval, 1, [&x[0], &x[1], &x[2]]);
        let z = gate(&l.eval, 1, [&x[0], &x[1], &x[2]]);
        c.eq(parts(&y), parts(&z), "gate outputs after hostile calls", || format!("{s:?}"));
    });
}

#[derive(Clone, Copy)]
struct Tier {
    small: usize,
    large: usize,
    hostile: usize,
    calls: usize,
    blocks: usize,
    gates: usize,
    tiny_gates: usize,
}

fn main() {
    // C27 compares the same sequences between the supported builds
    let prop = std::env::args().skip_while(|a| a != "--prop").nth(1).unwrap_or("C22".into());
    let mon = Mon::new(&prop);
    let has = |f: &str| std::env::args().any(|a| a == f);
    let deep = mon.thorough;
    let tier = if has("--tiny") {
        Tier { small: if deep { 20 } else { 3 }, large: 0, hostile: if deep { 10 } else { 2 }, calls: 40, blocks: if deep { 40 } else { 4 }, gates: 0, tiny_gates: if deep { 12 } else { 1 } }
    } else if has("--small") {
        Tier { small: 30, large: if deep { 60 } else { 10 }, hostile: if deep { 60 } else { 16 }, calls: 300, blocks: 240, gates: if deep { 40 } else { 8 }, tiny_gates: 12 }
    } else {
        Tier { small: 60, large: if deep { 800 } else { 120 }, hostile: if deep { 1200 } else { 160 }, calls: 400, blocks: 480, gates: if deep { 300 } else { 60 }, tiny_gates: 12 }
    };
    macro_rules! go {
        ($F:ty, $name:expr, $m:expr, $tier:expr) => { field::<$F>($m, $name, $tier); };
    }
    for_ntt_fields!(go, &mon, tier);
    blocks(&mon, tier);
    words(&mon, tier);
    for tiny in [false, true] {
        let n = if tiny { tier.tiny_gates } else { tier.gates };
        if n > 0 {
            gates::<u16, DefaultFieldU32>(&mon, "u16 with 30 bits", n, tiny);
            gates::<u32, D50>(&mon, "u32 with 50 bits", n, tiny);
            gates::<u64, C998M>(&mon, "u64 with 30 bits", n, tiny);
            gates::<u8, A17>(&mon, "u8 with 5 bits", n, tiny);
        }
    }

    // what every sequence gave, for the driver to compare with the same sequence in other builds
    let part = std::env::args().skip_while(|a| a != "--part").nth(1).unwrap_or_default();
    let dir = format!("{}/.build/{}", mon.root, prop.to_lowercase());
    let _ = std::fs::create_dir_all(&dir);
    let text: String = LOG.lock().unwrap().iter().map(|(k, v)| format!("{v:016x} {k}\n")).collect();
    let _ = std::fs::write(format!("{dir}/{part}.log"), text);
    mon.finish(
        "one verdict per call sequence (values in range, guards around slices intact, values equal across builds); sanitizers and assertions watch every call",
        &["non-canonical inputs, degrees of 2^32 and more and ill-sized arguments count as hostile: they may stop with a panic or return, but not touch foreign memory"],
    )
}
