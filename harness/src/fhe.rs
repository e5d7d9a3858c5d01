//! Shared pieces for the encryption-layer monitors.
use crate::refs::*;
use algebra::{AsFrom, AsInto, NTTField};
use fhe_core::*;
use lattice::LWE;

#[derive(Clone, Copy, Debug)]
pub struct Spec {
    pub n: usize,
    pub t: u64,
    pub q: u64,
    pub sd: f64,
    pub key: LWESecretKeyType,
    pub ring: usize,
    pub ring_sd: f64,
    pub ring_key: RingSecretKeyType,
    pub bits: u32,
    pub steps: Steps,
    pub ks_bits: u32,
    pub ks_sd: f64,
}
impl Spec {
    pub fn consts<C: LWEModulusType, Q: NTTField>(&self) -> ConstParameters<C, Q::Value> {
        ConstParameters {
            lwe_dimension: self.n,
            lwe_plain_modulus: C::as_from(self.t),
            lwe_cipher_modulus: C::as_from(self.q),
            lwe_noise_standard_deviation: self.sd,
            lwe_secret_key_type: self.key,
            ring_dimension: self.ring,
            ring_modulus: Q::MODULUS_VALUE,
            ring_noise_standard_deviation: self.ring_sd,
            ring_secret_key_type: self.ring_key,
            blind_rotation_basis_bits: self.bits,
            steps: self.steps,
            key_switching_basis_bits: self.ks_bits,
            key_switching_standard_deviation: self.ks_sd,
        }
    }
    pub fn params<C: LWEModulusType, Q: NTTField>(&self) -> Parameters<C, Q> {
        Parameters::new(self.consts::<C, Q>()).expect("supported parameters")
    }
}
impl Default for Spec {
    fn default() -> Self {
        Spec {
            n: 8, t: 4, q: 1024, sd: 3.2, key: LWESecretKeyType::Ternary, ring: 8, ring_sd: 3.2,
            ring_key: RingSecretKeyType::Ternary, bits: 3, steps: Steps::BrKsMs, ks_bits: 1, ks_sd: 3.2,
        }
    }
}
pub fn get<C: LWEModulusType>(x: C) -> u128 {
    let v: u64 = x.as_into();
    v as u128
}
pub fn put<C: LWEModulusType>(x: u128) -> C {
    C::as_from(x as u64)
}
pub fn lwe<C: LWEModulusType>(a: &[u128], b: u128) -> LWE<C> {
    LWE::new(a.iter().map(|&x| put(x)).collect(), put(b))
}
pub fn parts<C: LWEModulusType>(c: &LWE<C>) -> (Vec<u128>, u128) {
    (c.a().iter().map(|&x| get(x)).collect(), get(c.b()))
}
/// b - <a, s> mod q, with the key read as 0, 1 or -1
pub fn phase<C: LWEModulusType>(c: &LWE<C>, key: &[C], q: u128) -> u128 {
    let (a, b) = parts(c);
    a.iter().zip(key).fold(b, |t, (&x, &k)| match sign(k) { 0 => t, 1 => subm(t, x % q, q), _ => addm(t, x % q, q) })
}
/// a secret-key coefficient as -1, 0 or 1
pub fn sign<C: LWEModulusType>(k: C) -> i8 {
    match get(k) { 0 => 0, 1 => 1, _ => -1 }
}
/// the largest error a sampler of this deviation may return
pub fn cut(sd: f64) -> u128 {
    (6.0 * sd + 0.5) as u128 + 2
}

/// What the parameters predict for a bootstrap's output, as variances in units of the first modulus.
#[derive(Clone, Copy, Debug)]
pub struct Noise {
    /// blind rotation
    pub br: f64,
    /// key switching
    pub ks: f64,
    /// final modulus switch
    pub ms: f64,
    /// entry switch down to twice the ring dimension
    pub entry: f64,
}
impl Noise {
    pub fn sd(&self) -> f64 {
        (self.br + self.ks + self.ms).sqrt()
    }
}
/// mean square of the base-2^bits digits of a uniform value below p, summed over the digits
pub fn digit_power(p: u128, bits: u32) -> f64 {
    let mut t = 0.0;
    let mut rest = p - 1;
    while rest > 0 {
        let m = rest.min((1u128 << bits) - 1) as f64;
        t += m * (2.0 * m + 1.0) / 6.0;
        rest >>= bits;
    }
    t
}
/// the part of `digit_power` that comes from the digits' means
pub fn digit_means(p: u128, bits: u32) -> f64 {
    let mut t = 0.0;
    let mut rest = p - 1;
    while rest > 0 {
        let m = rest.min((1u128 << bits) - 1) as f64;
        t += m * m / 4.0;
        rest >>= bits;
    }
    t
}
pub fn spread(sd: f64) -> f64 {
    if sd == 0.0 { 0.0 } else { sd * sd + 1.0 / 12.0 }
}
impl Spec {
    /// mean square of an LWE key coefficient
    pub fn lwe_weight(&self) -> f64 {
        0.5
    }
    /// mean square of a ring key coefficient
    pub fn ring_weight(&self) -> f64 {
        match self.ring_key { RingSecretKeyType::Gaussian => spread(self.ring_sd), _ => 0.5 }
    }
    pub fn noise(&self, p: u128) -> Noise {
        let unit = (self.q as f64 / p as f64).powi(2);
        let (n, ring, q) = (self.n as f64, self.ring as f64, self.q as f64);
        let pair = if self.key == LWESecretKeyType::Ternary { 2.0 } else { 1.0 };
        let br = n * pair * 2.0 * ring * digit_power(p, self.bits) * spread(self.ring_sd) * unit;
        let (ks, w) = match self.steps {
            Steps::BrKsMs => (ring * digit_power(p, self.ks_bits) * spread(self.ks_sd) * unit, n * self.lwe_weight()),
            Steps::BrMsKs => {
                let mut rest = self.q - 1;
                let mut t = 0.0;
                while rest > 0 {
                    let m = rest.min((1 << self.ks_bits) - 1) as f64;
                    t += m / (m + 1.0);
                    rest >>= self.ks_bits;
                }
                (ring * t * spread(self.ks_sd), ring * self.ring_weight())
            }
            Steps::BrMs => (0.0, ring * self.lwe_weight()),
        };
        let two_n = 2.0 * ring;
        let entry = if q > two_n { (1.0 + n * self.lwe_weight()) / 12.0 * (q / two_n).powi(2) } else { 0.0 };
        Noise { br, ks, ms: (1.0 + w) / 12.0, entry }
    }
    /// the noise a gate meets, worst case over its inputs, in deviations that fit its margin
    pub fn budget(&self, p: u128) -> f64 {
        let z = self.noise(p);
        let input = spread(self.sd).max(z.br + z.ks + z.ms);
        // gate margins are an eighth of the modulus; the table has one entry per step
        (self.q as f64 / 8.0 - 1.0) / (3.0 * input + z.entry).sqrt()
    }
    /// a random supported set with at least `margin` deviations of room
    pub fn pick<C: LWEModulusType, Q: NTTField>(rng: &mut crate::R, max_log_n: u32, margin: f64) -> Option<Spec> {
        use crate::fields::V;
        let p = V::<Q>::p();
        let pbits = 128 - p.leading_zeros();
        let mut below = |n: u64| rand::RngCore::next_u64(rng) % n;
        for _ in 0..4000 {
            let top = V::<Q>::max_log_n().min(C::BITS - 2).min(max_log_n).max(2);
            let ring = 1usize << (2 + below(top as u64 - 1));
            let qmax = (C::BITS as u64 - 1).min(40);
            let log_2n = ring.trailing_zeros() as u64 + 1;
            // below, equal to and above twice the ring dimension
            let lq = match below(8) {
                0..=2 if log_2n > 3 => 3 + below(log_2n - 3),
                3 => log_2n,
                _ => 3 + below(qmax - 2),
            }.min(qmax);
            let steps = [Steps::BrKsMs, Steps::BrMsKs, Steps::BrMs][below(3) as usize];
            let n = match steps {
                Steps::BrMs => ring,
                Steps::BrKsMs => 1 + below(ring.min(48) as u64) as usize,
                Steps::BrMsKs => 1 + below(64) as usize,
            };
            let key = [LWESecretKeyType::Binary, LWESecretKeyType::Ternary][below(2) as usize];
            let ring_key = match (steps, key) {
                (Steps::BrMs, LWESecretKeyType::Binary) => RingSecretKeyType::Binary,
                (Steps::BrMs, LWESecretKeyType::Ternary) => RingSecretKeyType::Ternary,
                (Steps::BrMsKs, _) => [RingSecretKeyType::Binary, RingSecretKeyType::Ternary][below(2) as usize],
                (Steps::BrKsMs, _) => [RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian][below(3) as usize],
            };
            let sds = [0.0, 0.6, 1.7, 3.2, 6.4];
            let ring_sd = sds[below(5) as usize];
            if ring_key == RingSecretKeyType::Gaussian && ring_sd < 0.6 { continue; }
            let s = Spec {
                n, t: 4, q: 1 << lq, sd: sds[below(5) as usize], key, ring, ring_sd, ring_key,
                bits: 1 + below((pbits as u64 - 1).min(12)) as u32, steps,
                ks_bits: 1 + below(if matches!(steps, Steps::BrMsKs) { (lq - 1).min(7) } else { (pbits as u64 - 1).min(12) }) as u32,
                ks_sd: sds[below(5) as usize],
            };
            // the errors of the samplers stay below half of the moduli
            let cut = 7.0 * s.sd.max(if matches!(steps, Steps::BrMsKs) { s.ks_sd } else { 0.0 });
            if cut > s.q as f64 / 4.0 || 7.0 * s.ring_sd.max(s.ks_sd) > p as f64 / 4.0 { continue; }
            if s.budget(p) >= margin { return Some(s); }
        }
        None
    }
}
