//! C23: parameter building accepts exactly the supported configurations and reports them back.
use algebra::reduce::*;
use algebra::{Field, NTTField, Polynomial};
use fhe_core::*;
use mon::fhe::{get, lwe, put, Spec};
use mon::fields::*;
use mon::refs::*;
use mon::{catch, edge, for_ntt_fields, Case, Mon};
use zkfhe::bfhe::Evaluator;
use zkfhe::{Decryptor, Encryptor, KeyGen};

/// why the library cannot run this combination, if it cannot
fn unsupported<C: LWEModulusType, Q: NTTField>(s: &Spec) -> Option<&'static str> {
    let p = V::<Q>::p();
    let n = s.ring as u128;
    if !s.ring.is_power_of_two() { return Some("ring dimension not a power of two"); }
    if 2 * n >= 1 << 64 { return Some("ring dimension too large"); }
    if (p - 1) % (2 * n) != 0 { return Some("ring modulus has no root for the dimension"); }
    if !s.q.is_power_of_two() { return Some("ciphertext modulus not a power of two"); }
    if !s.t.is_power_of_two() { return Some("plaintext modulus not a power of two"); }
    if s.t > s.q { return Some("plaintext modulus above the ciphertext modulus"); }
    if 2 * n >= 1 << C::BITS { return Some("doubled ring dimension not representable"); }
    let gaussian = s.ring_key == RingSecretKeyType::Gaussian;
    match s.steps {
        Steps::BrMsKs if gaussian => Some("Gaussian ring key switched as an LWE key"),
        Steps::BrMs if gaussian => Some("Gaussian ring key as LWE key"),
        Steps::BrMs if s.n != s.ring => Some("no key switching but dimensions differ"),
        Steps::BrKsMs if s.n > s.ring => Some("LWE dimension above the ring dimension"),
        _ => None,
    }
}
fn random<C: LWEModulusType, Q: NTTField>(c: &mut Case) -> Spec {
    let top = C::BITS;
    let odd = |c: &mut Case, good: u64, max: u64| -> u64 {
        // mostly good, sometimes next to it or anywhere
        match c.below(16) { 0 => good.wrapping_add(1).min(max), 1 => good.saturating_sub(1), 2 => edge(&mut c.rng, max as u128) as u64, _ => good }
    };
    let maxc = ((1u128 << top) - 1) as u64;
    let lq = 1 + c.below(top as u64 - 1);
    let q = odd(c, 1 << lq, maxc).max(2);
    let any = c.below(8) == 0;
    let lt = c.below(if any { top as u64 } else { lq + 1 });
    let t = odd(c, 1 << lt, maxc);
    let any = c.below(6) == 0;
    let lr = c.below(if any { 63 } else { V::<Q>::max_log_n() as u64 + 2 });
    let mut ring = 1usize << lr;
    if c.below(12) == 0 { ring = [0, 3, ring + 1, ring.saturating_sub(1), ring | ring >> 1, usize::MAX, 1 << 63][c.below(7) as usize]; }
    let n = match c.below(6) {
        0 => ring,
        1 => ring.wrapping_add(1),
        2 => ring >> 1,
        3 => ring.saturating_sub(1),
        4 => 1 + c.below(2000) as usize,
        _ => ring,
    };
    let pbits = 128 - V::<Q>::p().leading_zeros();
    Spec {
        n: n.max(1), t, q, ring,
        sd: [0.5, 3.2, 6.4][c.below(3) as usize],
        ring_sd: [0.25, 3.2, 6.4][c.below(3) as usize],
        ks_sd: [0.75, 3.2, 12.8][c.below(3) as usize],
        key: [LWESecretKeyType::Binary, LWESecretKeyType::Ternary][c.below(2) as usize],
        ring_key: [RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian][c.below(3) as usize],
        steps: [Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs][c.below(3) as usize],
        bits: 1 + c.below(pbits as u64) as u32,
        ks_bits: 1 + c.below(12) as u32,
    }
}
fn same_steps(a: Steps, b: Steps) -> bool {
    std::mem::discriminant(&a) == std::mem::discriminant(&b)
}

fn build<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let s = random::<C, Q>(c);
    let ctx = || format!("{name} {s:?}");
    let why = unsupported::<C, Q>(&s);
    c.seen((s.n, s.t, s.q, s.ring, s.bits, s.ring_key as u8, s.steps as u8));
    let r = catch(|| Parameters::<C, Q>::new(s.consts::<C, Q>()).ok());
    c.sample(|| format!("{} -> {}", ctx(), why.unwrap_or("supported")));
    match (why, r) {
        (Some(w), Ok(Some(_))) => c.fail("unsupported combination accepted", format!("{w}: {}", ctx())),
        (Some(_), _) => { c.ok(true, "", || String::new()); c.count("unsupported combinations rejected", 1); }
        (None, Ok(None)) => c.fail("supported combination rejected", ctx()),
        (None, Err(e)) => c.fail("supported combination panicked", format!("{e} {}", ctx())),
        (None, Ok(Some(p))) => {
            c.count("supported combinations accepted", 1);
            let w = V::<Q>::p();
            let f = |c: &mut Case, what: &'static str, got: f64, want: f64| { c.eq(got, want, "reported value", || format!("{what} {name} {s:?}")); };
            c.eq(p.lwe_dimension(), s.n, "lwe_dimension", ctx);
            c.eq(p.lwe_plain_modulus(), s.t, "lwe_plain_modulus", ctx);
            c.eq(get(p.lwe_cipher_modulus_value()), s.q as u128, "lwe_cipher_modulus_value", ctx);
            c.eq(p.ring_dimension(), s.ring, "ring_dimension", ctx);
            c.eq(V::<Q>::raw(p.ring_modulus()), w, "ring_modulus", ctx);
            c.eq(p.key_switching_basis_bits(), s.ks_bits, "key_switching_basis_bits", ctx);
            c.ok(p.lwe_secret_key_type() == s.key, "lwe_secret_key_type", ctx);
            c.ok(p.ring_secret_key_type() == s.ring_key, "ring_secret_key_type", ctx);
            c.ok(same_steps(p.steps(), s.steps), "steps", ctx);
            f(c, "lwe noise", p.lwe_noise_standard_deviation(), s.sd);
            f(c, "ring noise", p.ring_noise_standard_deviation(), s.ring_sd);
            f(c, "key switching noise", p.key_switching_noise_standard_deviation(), s.ks_sd);
            // derived values
            let l = p.lwe_params();
            c.eq((l.dimension, l.plain_modulus, get(l.cipher_modulus)), (s.n, s.t, s.q as u128), "lwe_params", ctx);
            f(c, "lwe_params noise", l.noise_standard_deviation, s.sd);
            c.ok(l.secret_key_type == s.key, "lwe_params key type", ctx);
            let b = p.blind_rotation_basis();
            let bits = 128 - w.leading_zeros();
            c.eq((b.bits(), V::<Q>::raw(b.basis()), b.decompose_len()), (s.bits, 1u128 << s.bits, bits.div_ceil(s.bits) as usize), "blind_rotation_basis", ctx);
            let m = p.lwe_cipher_modulus();
            for _ in 0..8 {
                let (x, y) = (edge(&mut c.rng, s.q as u128 - 1), edge(&mut c.rng, s.q as u128 - 1));
                let (u, v): (C, C) = (put(x), put(y));
                c.eq(get(u.add_reduce(v, m)), addm(x, y, s.q as u128), "lwe_cipher_modulus", ctx);
                c.eq(get(u.mul_reduce(v, m)), mulm(x, y, s.q as u128), "lwe_cipher_modulus", ctx);
            }
            let d = p.ring_noise_distribution();
            f(c, "ring distribution", d.std_dev(), s.ring_sd);
            f(c, "ring distribution mean", d.mean(), 0.0);
            let d = p.key_switching_noise_distribution_for_ring();
            f(c, "key switching distribution", d.std_dev(), s.ks_sd);
            f(c, "key switching distribution mean", d.mean(), 0.0);
            if s.q >= 4 {
                let d = p.lwe_noise_distribution();
                f(c, "lwe distribution", d.std_dev(), s.sd);
                f(c, "lwe distribution mean", d.mean(), 0.0);
                let d = p.key_switching_noise_distribution_for_lwe();
                f(c, "lwe key switching distribution", d.std_dev(), s.ks_sd);
                f(c, "lwe key switching distribution mean", d.mean(), 0.0);
            }
        }
    }
}

/// accepted parameters carry through key generation, encryption and a bootstrap
fn works<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let lr = c.below((V::<Q>::max_log_n().min(C::BITS - 2).min(6) + 1) as u64);
    let ring = 1usize << lr;
    let steps = [Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs][c.below(3) as usize];
    let n = match steps { Steps::BrMs => ring, Steps::BrKsMs => 1 + c.below(ring as u64) as usize, _ => 1 + c.below(20) as usize };
    let lq = 6 + c.below(C::BITS as u64 - 6).min(10);
    let pbits = 128 - V::<Q>::p().leading_zeros();
    let gaussian = matches!(steps, Steps::BrKsMs) && V::<Q>::p() > 200;
    let sd = if V::<Q>::p() > 200 { 1.0 } else { 0.2 };
    let s = Spec {
        n, t: 4, q: 1 << lq, ring, sd: 0.5, ring_sd: sd, ks_sd: sd.min(0.5),
        key: [LWESecretKeyType::Binary, LWESecretKeyType::Ternary][c.below(2) as usize],
        ring_key: [RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian][c.below(2 + gaussian as u64) as usize],
        steps,
        bits: 1 + c.below(pbits as u64 - 1) as u32,
        ks_bits: 1 + c.below(if matches!(steps, Steps::BrMsKs) { 6.min(lq) } else { pbits as u64 - 1 }) as u32,
    };
    let ctx = || format!("{name} {s:?}");
    c.seen((s.n, s.q, s.ring, s.bits, s.ks_bits, s.ring_key as u8, s.steps as u8));
    let rng = &mut c.rng;
    let r = catch(|| {
        let sk: SecretKeyPack<C, Q> = KeyGen::generate_secret_key(s.params(), rng);
        let ev = Evaluator::new(&sk, rng);
        let (enc, dec) = (Encryptor::new(sk.clone()), Decryptor::new(sk.clone()));
        let x = enc.encrypt(1u8, rng);
        let y = enc.encrypt(0u8, rng);
        let z = ev.nand(&x, &y);
        let m: u64 = dec.decrypt(&z);
        let w = ev.bootstrap(lwe(&vec![0; s.n], 0), Polynomial::zero(s.ring));
        let _: u64 = dec.decrypt(&ev.mux(&x, &y, &z));
        ((sk.lwe_secret_key().len(), sk.ring_secret_key().coeff_count(), sk.ntt_ring_secret_key().coeff_count()), z.a().len(), w.a().len(), m)
    });
    match r {
        Err(e) => c.fail("accepted parameters fail later", format!("{e} {}", ctx())),
        Ok((keys, a, b, m)) => {
            c.eq(keys, (s.n, s.ring, s.ring), "key dimensions", ctx);
            c.eq((a, b), (s.n, s.n), "output dimension", ctx);
            c.ok(m < 4, "message outside the space", ctx);
        }
    }
    c.count("pipelines run end to end", 1);
}

fn main() {
    let m = Mon::new("C23");
    macro_rules! all {
        ($F:ty, $name:expr, $m:expr) => {
            $m.par(concat!("u8, ", $name), $m.n(3000, 100000), |c| build::<u8, $F>(c, concat!("u8, ", $name)));
            $m.par(concat!("u16, ", $name), $m.n(3000, 100000), |c| build::<u16, $F>(c, concat!("u16, ", $name)));
            $m.par(concat!("u32, ", $name), $m.n(3000, 100000), |c| build::<u32, $F>(c, concat!("u32, ", $name)));
            $m.par(concat!("u64, ", $name), $m.n(3000, 100000), |c| build::<u64, $F>(c, concat!("u64, ", $name)));
        };
    }
    for_ntt_fields!(all, m);
    macro_rules! run {
        ($($C:ty, $F:ty, $name:expr);*) => {$(
            m.par(concat!("end to end ", $name), m.n(150, 3000), |c| works::<$C, $F>(c, $name));
        )*};
    }
    run!(u8, B12289, "u8, u16 p=12289"; u16, DefaultFieldU32, "u16, default field"; u32, D50, "u32, u64 p=1125899904679937";
         u64, C998M, "u64, u32 p=998244353"; u32, A17, "u32, u8 p=17"; u64, D62, "u64, u64 p=4611686018405367809");
    // the shipped sets build and report a consistent whole
    m.run("shipped sets", |c| {
        for (name, p) in [("default", &*zkfhe::bfhe::DEFAULT_TERNARY_128_BITS_PARAMETERS), ("custom", &*zkfhe::bfhe::CUSTOM_TERNARY_128_BITS_PARAMETERS)] {
            let s = Spec {
                n: p.lwe_dimension(), t: p.lwe_plain_modulus(), q: get(p.lwe_cipher_modulus_value()) as u64,
                sd: p.lwe_noise_standard_deviation(), key: p.lwe_secret_key_type(), ring: p.ring_dimension(),
                ring_sd: p.ring_noise_standard_deviation(), ring_key: p.ring_secret_key_type(), bits: p.blind_rotation_basis().bits(),
                steps: p.steps(), ks_bits: p.key_switching_basis_bits(), ks_sd: p.key_switching_noise_standard_deviation(),
            };
            c.eq(unsupported::<u16, DefaultFieldU32>(&s), None, "shipped set unsupported", || name.into());
            c.eq(p.ring_modulus(), DefaultFieldU32::MODULUS_VALUE, "shipped ring modulus", || name.into());
            c.eq(s.t, 4, "gates need a plaintext modulus of four", || name.into());
            c.seen(name);
        }
    });
    m.finish(
        "one case per configuration drawn around the boundary of every rule; accepted ones report every value back, and small ones are run through key generation and bootstrapping",
        &["a rejection is an Err or a panic while building", "key-switching basis and noise widths are drawn from values the samplers and bases accept", "the ring modulus is that of the ring field"],
    );
}
