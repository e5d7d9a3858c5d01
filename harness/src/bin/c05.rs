//! C05: encoding, encryption and decryption round trips with every tolerable noise.
use algebra::{utils::Prg, NTTField};
use fhe_core::*;
use mon::fhe::{cut, get, lwe, parts, phase, put, Spec};
use mon::fields::*;
use mon::refs::*;
use mon::{catch, edge, Case, Mon};
use rand::{RngCore, SeedableRng};
use zkfhe::{Decryptor, Encryptor, KeyGen};

trait Msg: LWEMsgType + PartialEq + std::fmt::Debug {
    const TOP: u64;
    fn of(x: u64) -> Self;
    fn u(self) -> u64 {
        algebra::AsInto::<u64>::as_into(self)
    }
}
impl Msg for bool { const TOP: u64 = 1; fn of(x: u64) -> bool { x == 1 } }
impl Msg for u8 { const TOP: u64 = u8::MAX as u64; fn of(x: u64) -> u8 { x as u8 } }
impl Msg for u16 { const TOP: u64 = u16::MAX as u64; fn of(x: u64) -> u16 { x as u16 } }
impl Msg for u32 { const TOP: u64 = u32::MAX as u64; fn of(x: u64) -> u32 { x as u32 } }
impl Msg for u64 { const TOP: u64 = u64::MAX; fn of(x: u64) -> u64 { x } }

fn noises(c: &mut Case, q: u128, t: u128) -> Vec<i128> {
    // |e| < q/(2t)
    let top = if q > t { (q / (2 * t)) as i128 - 1 } else { 0 };
    let mut v = vec![0, top, -top];
    for _ in 0..5 {
        let e = edge(&mut c.rng, top as u128) as i128;
        v.push(if c.rng.next_u32() & 1 == 0 { e } else { -e });
    }
    v
}
fn shift(x: u128, e: i128, q: u128) -> u128 {
    (x as i128 + e).rem_euclid(q as i128) as u128
}

fn codec<C: LWEModulusType, M: Msg>(c: &mut Case, lq: u32, lt: u32, name: &'static str) {
    let (q, t) = (1u128 << lq, 1u128 << lt);
    let all = t <= 64;
    for k in 0..if all { t } else { 40 } {
        let m = if all { k } else { edge(&mut c.rng, t - 1) } as u64;
        if m > M::TOP { continue; }
        let ctx = || format!("{name} t=2^{lt} q=2^{lq} message {m}");
        let e: C = match catch(|| encode(M::of(m), t as u64, q as u64)) {
            Ok(e) => e,
            Err(x) => { c.fail("encode panicked", format!("{x} {}", ctx())); continue; }
        };
        c.eq(get(e), m as u128 * (q / t), "encoded value", ctx);
        for n in noises(c, q, t) {
            let x: C = put(shift(get(e), n, q));
            match catch(|| decode::<M, C>(x, t as u64, q as u64)) {
                Ok(d) => { c.eq(d.u(), m, "decoded message", || format!("noise {n} {}", ctx())); }
                Err(x) => c.fail("decode panicked", format!("{x} noise {n} {}", ctx())),
            }
            c.seen((lq, lt, m, n));
            c.count("codec round trips", 1);
        }
        c.sample(|| format!("{name} t=2^{lt} q=2^{lq}: message {m} -> {}", get(e)));
    }
    // messages outside the space are refused
    for m in [t, t + 1, M::TOP as u128] {
        if m >= t && m <= M::TOP as u128 {
            let r = catch(|| encode::<M, C>(M::of(m as u64), t as u64, q as u64));
            c.ok(r.is_err(), "message outside the space accepted", || format!("{name} t=2^{lt} q=2^{lq} message {m}"));
        }
    }
    // every residue decodes to the nearest message, never outside the space or the message type
    if q > t {
        for _ in 0..40 {
            let x = edge(&mut c.rng, q - 1);
            let w = (x * t + q / 2) / q % t;
            match catch(|| decode::<M, C>(put(x), t as u64, q as u64)) {
                Ok(d) => { c.eq(d.u() as u128, w, "nearest message", || format!("{name} t=2^{lt} q=2^{lq} residue {x}")); }
                Err(x) => { c.ok(w > M::TOP as u128, "decode of a residue panicked", || format!("{name} {x}")); }
            }
        }
    }
}

fn crypt<C: LWEModulusType, Q: NTTField>(c: &mut Case, top: u32, name: &'static str) {
    let lq = 2 + c.below(top as u64 - 1) as u32;
    let lt = c.below(lq as u64 + 1) as u32;
    let (q, t) = (1u128 << lq, 1u128 << lt);
    let n = match c.below(4) { 0 => 1 + c.below(3), 1 => 1 + c.below(40), 2 => 1 << c.below(9), _ => 1 + c.below(300) } as usize;
    let key = [LWESecretKeyType::Binary, LWESecretKeyType::Ternary][c.below(2) as usize];
    // the widest noise the margin allows
    let margin = if q > t { q / (2 * t) } else { 0 };
    let sd = [3.2, 6.4, 1.0, 0.4, 0.0].into_iter().find(|&s| s == 0.0 || cut(s) < margin).unwrap();
    let ring = 1usize << V::<Q>::max_log_n().min(c.below(4) as u32);
    let (n, steps, ring) = if c.below(3) == 0 { (ring, Steps::BrMs, ring) } else { (n, Steps::BrMsKs, ring) };
    let spec = Spec { n, t: t as u64, q: q as u64, sd, key, steps, ring, bits: 1, ..Default::default() };
    if 2 * ring as u128 >= 1u128 << C::BITS { return; }
    let sk: SecretKeyPack<C, Q> = if c.below(2) == 0 {
        SecretKeyPack::new(spec.params(), &mut c.rng)
    } else {
        KeyGen::generate_secret_key(spec.params(), &mut c.rng)
    };
    let (enc, dec) = (Encryptor::new(sk.clone()), Decryptor::new(sk.clone()));
    let s = sk.lwe_secret_key();
    let ctx = || format!("{name} {spec:?}");
    for k in 0..12 {
        let m = if k < 4 && t > 4 { [0, 1, t - 1, t / 2][k] } else { edge(&mut c.rng, t - 1) } as u64;
        let mut prg;
        let ct = match k % 3 {
            0 => sk.encrypt(m, &mut c.rng),
            1 => enc.encrypt(m, &mut c.rng),
            _ => { prg = Prg::from_rng(&mut c.rng).unwrap(); enc.encrypt(m, &mut prg) }
        };
        let (a, b) = parts(&ct);
        c.ok(a.len() == n && a.iter().chain([&b]).all(|&x| x < q), "ciphertext shape", ctx);
        c.eq(sk.decrypt::<u64>(&ct), m, "decrypted message", ctx);
        c.eq(dec.decrypt::<u64>(&ct), m, "decryptor message", ctx);
        if t == 2 { c.eq(dec.decrypt::<bool>(&ct), m == 1, "decrypted bool", ctx); }
        if t <= 256 { c.eq(sk.decrypt::<u8>(&ct) as u64, m, "decrypted u8", ctx); }
        let e = centered(subm(phase(&ct, s, q), m as u128 * (q / t) % q, q), q);
        c.ok(e.unsigned_abs() <= cut(sd), "fresh noise", || format!("noise {e} {}", ctx()));
        // push the phase anywhere inside the margin, and add a second mask
        for e in noises(c, q, t) {
            let want = shift(m as u128 * (q / t), e, q);
            let a: Vec<u128> = (0..n).map(|_| edge(&mut c.rng, q - 1)).collect();
            let zero = lwe::<C>(&a, 0);
            let b = addm(want, negm(phase(&zero, s, q), q), q);
            let ct = lwe::<C>(&a, b);
            let (d1, n1) = sk.decrypt_with_noise::<u64>(&ct);
            let (d2, n2) = dec.decrypt_with_noise::<u64>(&ct);
            c.eq((sk.decrypt::<u64>(&ct), d1, d2), (m, m, m), "perturbed decryption", || format!("noise {e} {}", ctx()));
            c.eq((get(n1), get(n2)), (e.unsigned_abs(), e.unsigned_abs()), "reported noise", || format!("noise {e} {}", ctx()));
            c.seen((lq, lt, m, e));
            c.count("perturbed decryptions", 1);
        }
        c.count("encryptions", 1);
    }
    c.sample(|| ctx());
}

fn main() {
    let m = Mon::new("C05");
    macro_rules! codecs {
        ($C:ty, $top:expr) => {{
            // every pair of powers of two
            let mut pairs = vec![];
            for lq in 0..=$top { for lt in 0..=lq { pairs.push((lq, lt)); } }
            let reps = m.n(2, 40);
            m.par(concat!("encoding ", stringify!($C)), pairs.len() * reps, |c| {
                let (lq, lt) = pairs[c.idx % pairs.len()];
                codec::<$C, u64>(c, lq, lt, concat!(stringify!($C), "/u64"));
                codec::<$C, u32>(c, lq, lt, concat!(stringify!($C), "/u32"));
                codec::<$C, u16>(c, lq, lt, concat!(stringify!($C), "/u16"));
                codec::<$C, u8>(c, lq, lt, concat!(stringify!($C), "/u8"));
                codec::<$C, bool>(c, lq, lt, concat!(stringify!($C), "/bool"));
            });
            m.par(concat!("encryption ", stringify!($C), " default field"), m.n(600, 20000), |c| crypt::<$C, DefaultFieldU32>(c, $top, stringify!($C)));
            m.par(concat!("encryption ", stringify!($C), " 62-bit field"), m.n(200, 8000), |c| crypt::<$C, D62>(c, $top, stringify!($C)));
            m.par(concat!("encryption ", stringify!($C), " 13-bit field"), m.n(200, 8000), |c| crypt::<$C, B7681>(c, $top, stringify!($C)));
        }};
    }
    codecs!(u8, 7u32);
    codecs!(u16, 15u32);
    codecs!(u32, 31u32);
    codecs!(u64, 63u32);
    m.par("shipped parameters", m.n(6, 60), |c| {
        let p = if c.idx % 2 == 0 { *zkfhe::bfhe::DEFAULT_TERNARY_128_BITS_PARAMETERS } else { *zkfhe::bfhe::CUSTOM_TERNARY_128_BITS_PARAMETERS };
        let sk = KeyGen::generate_secret_key(p, &mut c.rng);
        let (enc, dec) = (Encryptor::new(sk.clone()), Decryptor::new(sk.clone()));
        let q = get(p.lwe_cipher_modulus_value());
        for k in 0..800u32 {
            let m = (k % 4) as u8;
            let ct = enc.encrypt(m, &mut c.rng);
            let (d, noise) = dec.decrypt_with_noise::<u8>(&ct);
            let e = centered(subm(phase(&ct, sk.lwe_secret_key(), q), m as u128 * q / 4, q), q).unsigned_abs();
            c.eq((d, get(noise)), (m, e), "decrypted message and noise", || format!("message {m}"));
            c.ok(e <= cut(p.lwe_noise_standard_deviation()), "fresh noise", || format!("{e}"));
            if m < 2 {
                let ct = enc.encrypt(m == 1, &mut c.rng);
                c.eq(dec.decrypt::<bool>(&ct), m == 1, "bool round trip", || format!("message {m}"));
            }
            c.seen((m, parts(&ct).1, e));
            c.count("encryptions", 1);
        }
    });
    m.finish(
        "one case per plaintext modulus, ciphertext modulus, message and noise; every pair of powers of two with t <= q of every ciphertext width is visited, exhaustively over messages up to t = 64",
        &["noise drawn up to the largest magnitude below q/(2t); with t = q only noise 0 is tolerable"],
    );
}
