//! C09: key switching moves the phase from the ring key to the LWE key.
use algebra::{Field, NTTField};
use fhe_core::*;
use lattice::{LWE, RLWE};
use mon::fhe::{get, lwe, parts, phase, put, sign, Spec};
use mon::fields::*;
use mon::refs::*;
use mon::stats::{chi2_score, LIMIT};
use mon::{edge, Case, Mon};
use rand::RngCore;

const TYPES: [LWESecretKeyType; 2] = [LWESecretKeyType::Binary, LWESecretKeyType::Ternary];
const RING: [RingSecretKeyType; 3] = [RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian];

fn masks(c: &mut Case, n: usize, q: u128) -> Vec<u128> {
    match c.below(8) {
        0 => vec![q - 1; n],
        1 => vec![0; n],
        2 => { let mut v = vec![0; n]; v[c.below(n as u64) as usize] = edge(&mut c.rng, q - 1); v }
        3 => { let x = edge(&mut c.rng, q - 1); vec![x; n] }
        _ => (0..n).map(|_| edge(&mut c.rng, q - 1)).collect(),
    }
}
/// the ring key as small signed integers
fn ring_key<C: LWEModulusType, Q: NTTField>(sk: &SecretKeyPack<C, Q>) -> Vec<i128> {
    V::<Q>::unpoly(sk.ring_secret_key()).into_iter().map(|x| centered(x, V::<Q>::p())).collect()
}
fn dot(a: &[u128], s: &[i128], q: u128) -> u128 {
    a.iter().zip(s).fold(0, |t, (&x, &k)| addm(t, mulm(x, k.rem_euclid(q as i128) as u128, q), q))
}

/// (n, q, N) -> (n, q) with LWE rows over the power-of-two modulus
fn by_lwe<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let ring = V::<Q>::ring(c, (C::BITS - 2).min(7), (C::BITS - 2).min(10));
    let lq = 3 + c.below(C::BITS as u64 - 3);
    let q = 1u128 << lq;
    let n = match c.below(4) { 0 => 1, 1 => ring, 2 => 1 + c.below(2 * ring as u64) as usize, _ => 1 + c.below(70) as usize };
    let sd = if c.below(2) == 0 || lq < 8 { 0.0 } else { 3.2 };
    let ks_bits = 1 + c.below(lq.min(7)) as u32;
    let spec = Spec {
        n, q: q as u64, t: 2, key: TYPES[c.below(2) as usize], ring_key: RING[c.below(2) as usize], ring,
        steps: Steps::BrMsKs, ks_bits, ks_sd: sd, bits: 1, ..Default::default()
    };
    if ks_bits == C::BITS { return; }
    let ctx = || format!("{name} {spec:?}");
    let sk: SecretKeyPack<C, Q> = SecretKeyPack::new(spec.params(), &mut c.rng);
    let s = ring_key(&sk);
    let ksk = KeySwitchingLWEKey::generate(&sk, &mut c.rng);
    let len = (lq as u32).div_ceil(ks_bits) as usize;
    for _ in 0..6 {
        let a = masks(c, ring, q);
        let b = edge(&mut c.rng, q - 1);
        let x: LWE<C> = lwe(&a, b);
        let want = subm(b, dot(&a, &s, q), q);
        let y = ksk.key_switch_for_lwe(x.clone());
        c.eq(y.a().len(), n, "switched dimension", ctx);
        let (ya, yb) = parts(&y);
        c.ok(ya.iter().chain([&yb]).all(|&v| v < q), "switched value not reduced", ctx);
        let e = centered(subm(phase(&y, sk.lwe_secret_key(), q), want, q), q);
        judge(c, e, sd, (ring * len) as f64, q, ctx);
        c.eq(parts(&ksk.key_switch_for_lwe(x)), (ya, yb), "second switch differs", ctx);
        c.seen((ring, n, lq, ks_bits, &a, b));
        c.count("LWE rows: ciphertexts switched", 1);
    }
    c.sample(|| ctx());
}
fn judge(c: &mut Case, e: i128, sd: f64, units: f64, q: u128, ctx: impl Fn() -> String) {
    if sd == 0.0 {
        c.eq(e, 0, "noiseless switch moved the phase", ctx);
    } else {
        let bound = 9.0 * sd * units.sqrt() + 1.0;
        c.ok((e.unsigned_abs() as f64) <= bound, "switching noise", || format!("{e} above {bound:.0} {}", ctx()));
        if bound > q as f64 / 4.0 { c.count("noise bounds wider than the modulus", 1); }
    }
}

/// (N, Q) -> (n, Q) with transformed gadget rows
fn by_rlwe<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let p = V::<Q>::p();
    let ring = V::<Q>::ring(c, (C::BITS - 2).min(8), (C::BITS - 2).min(10));
    let n = match c.below(4) { 0 => ring, 1 => 1, _ => 1 + c.below(ring as u64) as usize };
    let pbits = 128 - p.leading_zeros();
    let ks_bits = 1 + c.below(pbits as u64 - 1) as u32;
    let len = pbits.div_ceil(ks_bits) as usize;
    let big = p > 1 << 12;
    let sd = if c.below(2) == 0 || !big { 0.0 } else { 3.2 };
    let spec = Spec {
        n, q: 32, t: 2, key: TYPES[c.below(2) as usize], ring_key: RING[c.below(2 + big as u64) as usize], ring,
        steps: Steps::BrKsMs, ks_bits, ks_sd: sd, bits: 1, ..Default::default()
    };
    let ctx = || format!("{name} {spec:?}");
    let sk: SecretKeyPack<C, Q> = SecretKeyPack::new(spec.params(), &mut c.rng);
    let s = ring_key(&sk);
    let z: Vec<i128> = sk.lwe_secret_key().iter().map(|&k| sign(k) as i128).collect();
    let ksk = KeySwitchingRLWEKey::generate(&sk, &mut c.rng);
    let worst = (ring * len) as f64 * ((1u128 << ks_bits) - 1) as f64 * ((1u128 << ks_bits) - 1) as f64;
    for k in 0..6 {
        let a = masks(c, ring, p);
        let b = if k % 2 == 0 { masks(c, ring, p) } else { (0..ring).map(|_| V::<Q>::edge(&mut c.rng)).collect() };
        let out = |y: LWE<Q>| {
            let a = V::<Q>::back(y.a());
            let b = V::<Q>::get(y.b());
            (subm(b, dot(&a, &z, p), p), a, b)
        };
        // a ring ciphertext: the constant coefficient of b - a*s
        let sp: Vec<u128> = s.iter().map(|&x| x.rem_euclid(p as i128) as u128).collect();
        let want = subm(b[0], negacyclic(&a, &sp, p)[0], p);
        let x = RLWE::new(V::<Q>::poly(&a), V::<Q>::poly(&b));
        let y = out(ksk.key_switch_for_rlwe(x.clone()));
        c.eq(y.1.len(), n, "switched dimension", ctx);
        c.ok(y.1.iter().chain([&y.2]).all(|&v| v < p), "switched value not reduced", ctx);
        judge(c, centered(subm(y.0, want, p), p), sd, worst, p, ctx);
        c.ok(out(ksk.key_switch_for_rlwe(x)) == y, "second switch differs", ctx);
        // the same mask as an LWE ciphertext under the key's coefficients
        let want = subm(b[0], dot(&a, &s, p), p);
        let x: LWE<Q> = LWE::new(V::<Q>::vec(&a), V::<Q>::new(b[0]));
        let y = out(ksk.key_switch_for_lwe(x.clone()));
        c.eq(y.1.len(), n, "switched dimension", ctx);
        judge(c, centered(subm(y.0, want, p), p), sd, worst, p, ctx);
        c.ok(out(ksk.key_switch_for_lwe(x)) == y, "second switch differs", ctx);
        c.seen((ring, n, ks_bits, &a, b[0]));
        c.count("ring rows: ciphertexts switched", 2);
    }
    c.sample(|| ctx());
}

/// over many keys the added noise has the variance the rows predict
fn spread(c: &mut Case) {
    type Q = DefaultFieldU32;
    let p = V::<Q>::p();
    let keys = 400;
    let ring = 32;
    let (n, lwe_rows, ks_bits) = [(32, false, 3), (16, false, 5), (7, false, 1), (20, true, 2), (40, true, 5), (1, true, 1)][c.idx % 6];
    let q = 1u128 << 20;
    let sd = 4.0;
    let spec = Spec {
        n, q: q as u64, t: 2, ring, ks_bits, ks_sd: sd, bits: 1,
        steps: if lwe_rows { Steps::BrMsKs } else { Steps::BrKsMs }, ..Default::default()
    };
    let m = if lwe_rows { q } else { p };
    let bits = if lwe_rows { 20 } else { 27u32 };
    let base = (1u64 << ks_bits) as f64;
    let mut sum = 0.0;
    for _ in 0..keys {
        let sk: SecretKeyPack<u32, Q> = SecretKeyPack::new(spec.params(), &mut c.rng);
        let s = ring_key(&sk);
        let a: Vec<u128> = (0..ring).map(|_| c.rng.next_u64() as u128 % m).collect();
        let (want, got) = if lwe_rows {
            let y = KeySwitchingLWEKey::generate(&sk, &mut c.rng).key_switch_for_lwe(lwe(&a, 0));
            (negm(dot(&a, &s, q), q), phase(&y, sk.lwe_secret_key(), q))
        } else {
            let z: Vec<i128> = sk.lwe_secret_key().iter().map(|&k| sign(k) as i128).collect();
            let y = KeySwitchingRLWEKey::generate(&sk, &mut c.rng).key_switch_for_lwe(LWE::new(V::<Q>::vec(&a), Q::new(0)));
            (negm(dot(&a, &s, p), p), subm(V::<Q>::get(y.b()), dot(&V::<Q>::back(y.a()), &z, p), p))
        };
        // the digits this mask really has
        let len = bits.div_ceil(ks_bits);
        let units: f64 = a.iter().flat_map(|&x| (0..len).map(move |j| ((x >> (j * ks_bits)) % base as u128) as f64))
            .map(|d| if lwe_rows { (d != 0.0) as u8 as f64 } else { d * d }).sum();
        let e = centered(subm(got, want, m), m) as f64;
        sum += e * e / (units * sd * sd);
    }
    let z = chi2_score(sum, keys as f64);
    c.ok(z.abs() < LIMIT, "switching noise spread", || format!("{spec:?}: {:.3} of the predicted variance", sum / keys as f64));
    c.seen(c.idx);
    c.sample(|| format!("{spec:?}: {:.3} of the predicted variance over {keys} keys", sum / keys as f64));
    c.count("keys measured for noise spread", keys as u64);
    let _ = (get(0u32), put::<u32>(0));
}

fn main() {
    let m = Mon::new("C09");
    macro_rules! all {
        ($($C:ty, $F:ty, $name:expr);*) => {$(
            m.par(concat!("LWE rows ", $name), m.n(250, 6000), |c| by_lwe::<$C, $F>(c, $name));
            m.par(concat!("ring rows ", $name), m.n(250, 6000), |c| by_rlwe::<$C, $F>(c, $name));
        )*};
    }
    all!(u8, B12289, "u8, u16 p=12289"; u16, DefaultFieldU32, "u16, default field"; u16, B257, "u16, u16 p=257";
         u32, D50, "u32, u64 p=1125899904679937"; u64, C998M, "u64, u32 p=998244353"; u32, A17, "u32, u8 p=17"; u32, A61, "u32, u8 p=61";
         u64, D62, "u64, u64 p=4611686018405367809"; u64, DMax, "u64, u64 p=4611686018427387847"; u32, C65537, "u32, u32 p=65537");
    m.par("noise spread", m.n(24, 600), spread);
    m.finish(
        "one case per ciphertext and key; keys without noise must preserve the phase exactly, noisy ones within nine standard deviations; many keys together have the predicted variance",
        &["the secret keys are read through the public accessors", "ring rows need a target dimension not above the ring dimension"],
    );
}
