//! C11: blind rotation multiplies the table by X to the minus phase.
use algebra::NTTField;
use fhe_core::*;
use mon::fhe::{lwe, sign, Spec};
use mon::fields::*;
use mon::refs::*;
use mon::stats::{chi2_score, LIMIT};
use mon::{edge, Case, Mon};
use rand::RngCore;

const TYPES: [LWESecretKeyType; 2] = [LWESecretKeyType::Binary, LWESecretKeyType::Ternary];

/// digits and rows: the most one external product can add, in units of the noise variance
fn worst(ring: usize, bits: u32, pbits: u32, ternary: bool) -> f64 {
    let d = (1u128 << bits) as f64 - 1.0;
    2.0 * pbits.div_ceil(bits) as f64 * ring as f64 * d * d * if ternary { 2.0 } else { 1.0 }
}
fn exponent(c: &mut Case, two_n: u128) -> u128 {
    match c.below(4) {
        0 => [0, 1, two_n / 2 - 1, two_n / 2, (two_n / 2 + 1) % two_n, two_n - 1][c.below(6) as usize],
        _ => c.rng.next_u64() as u128 % two_n,
    }
}

fn rotate<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let p = V::<Q>::p();
    let pbits = 128 - p.leading_zeros();
    let ring = V::<Q>::ring(c, (C::BITS - 2).min(if c.idx % 8 == 0 { 8 } else { 5 }), (C::BITS - 2).min(10));
    let two_n = 2 * ring as u128;
    let steps = [Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs][c.below(3) as usize];
    let n = match steps { Steps::BrMs => ring, Steps::BrKsMs => 1 + c.below(ring.min(24) as u64) as usize, _ => 1 + c.below(24) as usize };
    let bits = 1 + c.below(pbits as u64 - 1) as u32;
    let key = TYPES[c.below(2) as usize];
    let sd = if p < 1 << 12 || c.below(2) == 0 { 0.0 } else { 3.2 };
    let gaussian = sd > 0.0 && matches!(steps, Steps::BrKsMs) && c.below(2) == 0;
    let spec = Spec {
        n, t: 2, q: 4.max(two_n as u64 >> c.below(3)), ring, ring_sd: sd, key, steps, bits,
        ring_key: if gaussian { RingSecretKeyType::Gaussian } else { [RingSecretKeyType::Binary, RingSecretKeyType::Ternary][c.below(2) as usize] },
        ..Default::default()
    };
    let ctx = || format!("{name} {spec:?}");
    let sk: SecretKeyPack<C, Q> = SecretKeyPack::new(spec.params(), &mut c.rng);
    let z: Vec<i128> = sk.lwe_secret_key().iter().map(|&k| sign(k) as i128).collect();
    let s = V::<Q>::unpoly(sk.ring_secret_key());
    let brk = BlindRotationKey::generate(&sk, &mut c.rng);
    for k in 0..6 {
        let a: Vec<u128> = match c.below(6) {
            0 => vec![0; n],
            1 => { let mut v = vec![0; n]; v[c.below(n as u64) as usize] = exponent(c, two_n); v }
            2 => vec![two_n - 1; n],
            3 => vec![ring as u128; n],
            _ => (0..n).map(|_| exponent(c, two_n)).collect(),
        };
        let b = if k == 0 { 0 } else { exponent(c, two_n) };
        let lut = match c.below(4) {
            0 => { let mut v = vec![0; ring]; v[c.below(ring as u64) as usize] = V::<Q>::edge(&mut c.rng); v }
            1 => vec![p / 8; ring],
            _ => V::<Q>::edges(&mut c.rng, ring),
        };
        let phase = (a.iter().zip(&z).fold(b as i128, |t, (&x, &k)| t - x as i128 * k)).rem_euclid(two_n as i128) as u128;
        let want = monomul(&lut, ((two_n - phase) % two_n) as usize, p);
        let out = brk.blind_rotate(V::<Q>::poly(&lut), &lwe::<C>(&a, b), spec.params::<C, Q>().blind_rotation_basis());
        let (oa, ob) = (V::<Q>::back(out.a_slice()), V::<Q>::back(out.b_slice()));
        c.eq((oa.len(), ob.len()), (ring, ring), "rotated dimension", ctx);
        c.ok(oa.iter().chain(&ob).all(|&v| v < p), "rotated value not reduced", ctx);
        let prod = negacyclic(&oa, &s, p);
        let active = a.iter().filter(|&&x| x != 0).count() as f64;
        let bound = if sd == 0.0 { 0.0 } else { 9.0 * sd * (active * worst(ring, bits, pbits, key == TYPES[1])).sqrt() + active };
        let mut top = 0f64;
        for i in 0..ring {
            let e = centered(subm(subm(ob[i], prod[i], p), want[i], p), p);
            top = top.max(e.unsigned_abs() as f64);
        }
        let sig = if sd == 0.0 { "noiseless rotation is not exact" } else { "rotation noise" };
        c.ok(top <= bound, sig, || format!("error {top} bound {bound:.0} a={a:?} b={b} key={z:?} {}", ctx()));
        if sd > 0.0 && bound < p as f64 / 4.0 { c.count("noisy rotations with a bound below a quarter of the modulus", 1); }
        if active == 0.0 { c.ok(top == 0.0 && oa.iter().all(|&x| x == 0), "trivial rotation touched the keys", ctx); }
        c.seen((ring, n, bits, &a, b));
        c.count("rotations", 1);
    }
    c.sample(|| ctx());
}

/// every exponent pair of a small ring, for each key value
fn exhaustive<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let p = V::<Q>::p();
    let ring = 1usize << (c.idx % (V::<Q>::max_log_n().min(4) as usize + 1));
    let two_n = 2 * ring as u128;
    let key = TYPES[(c.idx / 5) % 2];
    let spec = Spec { n: 4, t: 2, q: 8, ring, ring_sd: 0.0, key, steps: Steps::BrMsKs, bits: 2, ..Default::default() };
    let sk: SecretKeyPack<C, Q> = SecretKeyPack::new(spec.params(), &mut c.rng);
    let z: Vec<i128> = sk.lwe_secret_key().iter().map(|&k| sign(k) as i128).collect();
    let s = V::<Q>::unpoly(sk.ring_secret_key());
    let brk = BlindRotationKey::generate(&sk, &mut c.rng);
    let lut: Vec<u128> = (0..ring).map(|i| (3 * i as u128 + 1) % p).collect();
    for i in 0..4 {
        for x in 0..two_n {
            for b in 0..two_n {
                let mut a = vec![0; 4];
                a[i] = x;
                let e = (b as i128 - x as i128 * z[i]).rem_euclid(two_n as i128) as u128;
                let out = brk.blind_rotate(V::<Q>::poly(&lut), &lwe::<C>(&a, b), spec.params::<C, Q>().blind_rotation_basis());
                let prod = negacyclic(&V::<Q>::back(out.a_slice()), &s, p);
                let got: Vec<u128> = V::<Q>::back(out.b_slice()).iter().zip(&prod).map(|(&x, &y)| subm(x, y, p)).collect();
                c.eq(got, monomul(&lut, ((two_n - e) % two_n) as usize, p), "exponent", || format!("{name} ring {ring} a={x} b={b} s={}", z[i]));
                c.seen((ring, key as u8, x, b, z[i]));
            }
        }
    }
    c.count("exponent pairs", 4 * (two_n * two_n) as u64);
}

/// over many keys the noise has the variance the rows predict
fn spread(c: &mut Case) {
    type Q = DefaultFieldU32;
    let p = V::<Q>::p();
    let (keys, ring, n, sd) = (200, 32, 6, 2.0);
    let bits = [1, 3, 7][c.idx % 3];
    let key = TYPES[c.idx / 3 % 2];
    let spec = Spec { n, t: 2, q: 64, ring, ring_sd: sd, key, steps: Steps::BrMsKs, bits, ..Default::default() };
    let d: f64 = (0..27u32.div_ceil(bits)).map(|j| {
        // mean square of digit j of a uniform residue
        let m = 1u128 << bits.min(27 - j * bits);
        let top = ((p - 1) >> (j * bits)) as f64 + 1.0;
        let m = (m as f64).min(top);
        (m - 1.0) * (2.0 * m - 1.0) / 6.0
    }).sum();
    // the first rotation meets a mask of zeros
    let unit = (n as f64 - 0.5) * 2.0 * ring as f64 * d * (sd * sd + 1.0 / 12.0) * if key == TYPES[1] { 2.0 } else { 1.0 };
    let mut sum = 0.0;
    for _ in 0..keys {
        let sk: SecretKeyPack<u32, Q> = SecretKeyPack::new(spec.params(), &mut c.rng);
        let s = V::<Q>::unpoly(sk.ring_secret_key());
        let z: Vec<i128> = sk.lwe_secret_key().iter().map(|&k| sign(k) as i128).collect();
        let brk = BlindRotationKey::generate(&sk, &mut c.rng);
        let a: Vec<u128> = (0..n).map(|_| 1 + c.rng.next_u64() as u128 % 63).collect();
        let lut: Vec<u128> = (0..ring).map(|_| c.rng.next_u64() as u128 % p).collect();
        let e = a.iter().zip(&z).fold(0, |t, (&x, &k)| t - x as i128 * k).rem_euclid(64) as usize;
        let want = monomul(&lut, (64 - e) % 64, p);
        let out = brk.blind_rotate(V::<Q>::poly(&lut), &lwe::<u32>(&a, 0), spec.params::<u32, Q>().blind_rotation_basis());
        let prod = negacyclic(&V::<Q>::back(out.a_slice()), &s, p);
        let ob = V::<Q>::back(out.b_slice());
        let i = c.rng.next_u32() as usize % ring;
        let e = centered(subm(subm(ob[i], prod[i], p), want[i], p), p) as f64;
        sum += e * e / unit;
    }
    // the prediction itself is good to a few percent
    let ratio = sum / keys as f64;
    c.ok(chi2_score(sum / 1.2, keys as f64) < LIMIT && chi2_score(sum * 1.2, keys as f64) > -LIMIT, "rotation noise spread", || format!("{spec:?}: {ratio:.3} of the predicted variance"));
    c.seen(c.idx);
    c.count("keys measured for noise spread", keys as u64);
    c.sample(|| format!("{spec:?}: {ratio:.3} of the predicted variance over {keys} keys"));
}

fn main() {
    let m = Mon::new("C11");
    m.par("noise spread", m.n(24, 600), spread);
    macro_rules! all {
        ($($C:ty, $F:ty, $name:expr);*) => {$(
            m.par(concat!("rotate ", $name), m.n(250, 6000), |c| rotate::<$C, $F>(c, $name));
            m.par(concat!("every exponent ", $name), m.n(20, 200), |c| exhaustive::<$C, $F>(c, $name));
        )*};
    }
    all!(u8, B12289, "u8, u16 p=12289"; u16, DefaultFieldU32, "u16, default field"; u16, B257, "u16, u16 p=257";
         u32, D50, "u32, u64 p=1125899904679937"; u64, C998M, "u64, u32 p=998244353"; u32, A17, "u32, u8 p=17"; u32, A61, "u32, u8 p=61";
         u64, D62, "u64, u64 p=4611686018405367809"; u64, DMax, "u64, u64 p=4611686018427387847"; u32, C65537, "u32, u32 p=65537");
    m.finish(
        "one case per rotation; keys without noise must be exact, noisy ones within nine standard deviations of the table times the monomial; all exponents of small rings; noise variance over many keys",
        &["the secret keys are read through the public accessors"],
    );
}
