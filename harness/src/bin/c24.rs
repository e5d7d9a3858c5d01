//! C24: keys, fresh ciphertexts and every evaluation-key row are as random as the scheme requires.
//!
//! Evaluation-key rows are private; they are recovered exactly from what the public operations return
//! on chosen inputs (unit digits select single rows, and for the rows that only ever appear in sums a
//! linear system over the field is solved).
use algebra::utils::Prg;
use algebra::NTTField;
use fhe_core::*;
use lattice::{LWE, RLWE};
use mon::fhe::{get, lwe, parts, phase, put, sign, Spec};
use mon::fields::*;
use mon::refs::*;
use mon::stats::*;
use mon::{Case, Mon};
use rand::{RngCore, SeedableRng};
use std::collections::HashMap;
use zkfhe::{Encryptor, KeyGen};

#[derive(Default)]
struct Rows {
    masks: Vec<Vec<u128>>,
    errs: Vec<Vec<i128>>,
}
impl Rows {
    fn push(&mut self, mask: Vec<u128>, err: Vec<i128>) {
        self.masks.push(mask);
        self.errs.push(err);
    }
}
fn near(c: &mut Case, z: f64, sig: &str, ctx: impl FnOnce() -> String) {
    c.ok(z.abs() < LIMIT, sig, || format!("score {z:.2}; {}", ctx()));
}
fn unit(v: u128, q: u128) -> f64 {
    (v as f64 + 0.5) / q as f64 - 0.5
}

/// masks uniform modulo q, fresh and independent; errors of deviation sd, fresh and independent
fn judge(c: &mut Case, r: &Rows, q: u128, sd: f64, what: &str) {
    let ctx = || format!("{what}: {} samples of {} modulo {q}, deviation {sd}", r.masks.len(), r.masks[0].len());
    c.count("masks and errors recovered", r.masks.len() as u64);
    // nothing repeats
    let mut seen: HashMap<&[u128], usize> = HashMap::new();
    let width = r.masks[0].len();
    if (q as f64).log2() * width as f64 > 100.0 {
        for (i, m) in r.masks.iter().enumerate() {
            let old = seen.insert(m, i);
            c.ok(old.is_none(), "a mask repeats", || format!("{i} and {old:?}; {}", ctx()));
            c.seen((what, q, m));
        }
    } else {
        c.seen((what, q, width, r.masks.len()));
    }
    shared(c, r, q, sd, &ctx);
    let flat: Vec<f64> = r.masks.iter().flatten().map(|&v| unit(v, q)).collect();
    let n = flat.len();
    // top bits and low bits
    let cells = (q as usize).min(64);
    let mut top = vec![0u64; cells];
    let mut low = vec![0u64; 8.min(q as usize)];
    let k = low.len() as u128;
    for &v in r.masks.iter().flatten() {
        top[(v * cells as u128 / q) as usize] += 1;
        low[(v % k) as usize] += 1;
    }
    let edge = |i: usize| (i as u128 * q).div_ceil(cells as u128) as f64;
    let w: Vec<f64> = (0..cells).map(|i| (edge(i + 1) - edge(i)) / q as f64).collect();
    if let Some(z) = fit(&top, &w) { near(c, z.max(0.0), "mask frequencies", ctx); }
    let w: Vec<f64> = (0..k).map(|i| ((q - 1 - i) / k + 1) as f64 / q as f64).collect();
    if let Some(z) = fit(&low, &w) { near(c, z.max(0.0), "mask low digits", ctx); }
    // each position on its own
    if r.masks.len() >= 30 {
        for j in 0..width {
            let m = r.masks.iter().map(|v| unit(v[j], q)).sum::<f64>();
            let s = r.masks.iter().map(|v| unit(v[j], q).powi(2)).sum::<f64>();
            let l = r.masks.len() as f64;
            let spread = (1.0 - 1.0 / (q * q) as f64) / 12.0;
            near(c, m / (l * spread).sqrt(), "mask position mean", || format!("position {j}; {}", ctx()));
            near(c, (s - l * spread) / (l / 180.0).sqrt(), "mask position spread", || format!("position {j}; {}", ctx()));
        }
    }
    // serial correlation of masks
    let corr = |x: &[f64], lag: usize, var: f64| {
        let l = x.len() - lag;
        (0..l).map(|i| x[i] * x[i + lag]).sum::<f64>() / (var * (l as f64).sqrt())
    };
    for lag in (1..=40).chain([width, 2 * width, 3 * width]).filter(|&l| l > 0 && l + 50 < n) {
        near(c, corr(&flat, lag, 1.0 / 12.0), "mask correlation", || format!("lag {lag}; {}", ctx()));
    }
    // errors
    let e: Vec<i128> = r.errs.iter().flatten().copied().collect();
    let max = 6.0 * sd;
    let far = e.iter().find(|&&v| v.unsigned_abs() as f64 > max + 1.0);
    if !c.ok(far.is_none(), "error beyond six deviations", || format!("{far:?}; {}", ctx())) { return; }
    let hi = max.ceil() as i128 + 1;
    let mut h = vec![0u64; 2 * hi as usize + 1];
    e.iter().for_each(|&v| h[(v + hi) as usize] += 1);
    let w: Vec<f64> = (-hi..=hi).map(|v| {
        let f = |x: f64| phi((x / sd).clamp(-6.0, 6.0));
        f(v as f64 + 0.5) - f(v as f64 - 0.5)
    }).collect();
    if let Some(z) = fit(&h, &w) { near(c, z.max(0.0), "error frequencies", ctx); }
    let var: f64 = w.iter().enumerate().map(|(i, p)| p * (i as f64 - hi as f64).powi(2)).sum();
    let ef: Vec<f64> = e.iter().map(|&v| v as f64).collect();
    let l = ef.len();
    near(c, ef.iter().sum::<f64>() / (var * l as f64).sqrt(), "error mean", ctx);
    near(c, chi2_score(ef.iter().map(|x| x * x).sum::<f64>() / var, l as f64), "error variance", ctx);
    // a shared or shifted error shows at some lag
    let top = (l / 3).min(3000);
    for lag in 1..=top {
        if l - lag < 60 { break; }
        near(c, corr(&ef, lag, var), "error correlation", || format!("lag {lag}; {}", ctx()));
    }
    let ew = r.errs[0].len();
    if r.errs.len() >= 60 {
        for j in 0..ew {
            let s: f64 = r.errs.iter().map(|v| (v[j] as f64).powi(2)).sum();
            near(c, chi2_score(s / var, r.errs.len() as f64), "error position variance", || format!("position {j}; {}", ctx()));
        }
    }
    // errors do not follow the masks
    if ew == 1 || ew == width {
        let s: f64 = r.masks.iter().zip(&r.errs).map(|(m, e)| (0..ew).map(|j| unit(m[j], q) * e[j] as f64).sum::<f64>()).sum();
        near(c, s / (var / 12.0 * l as f64).sqrt(), "error follows mask", ctx);
    }
    c.sample(|| format!("{}; error variance {:.3} of the configured one", ctx(), ef.iter().map(|x| x * x).sum::<f64>() / var / l as f64));
}

/// no two samples share (or negate) entries of their masks, in place or moved, or repeat their errors
fn shared(c: &mut Case, r: &Rows, q: u128, sd: f64, ctx: &impl Fn() -> String) {
    let (rows, width) = (r.masks.len() as f64, r.masks[0].len() as f64);
    let pairs = rows * rows / 2.0;
    for moved in [false, true] {
        // chance of one match for a pair
        let chance = if moved { width * width * 2.0 } else { width * 2.0 } / q as f64;
        if pairs * chance > 3e5 { continue; }
        // matches a fair pair never reaches
        let mut k = 1u32;
        let mut p = pairs * chance;
        while p > 1e-13 && k < 40 { k += 1; p *= chance / k as f64; }
        if p > 1e-13 || k as f64 > width { continue; }
        let mut at: HashMap<(usize, u128), Vec<u32>> = HashMap::new();
        for (i, m) in r.masks.iter().enumerate() {
            for (j, &v) in m.iter().enumerate() {
                if v == 0 { continue; }
                at.entry((if moved { 0 } else { j }, v.min(q - v))).or_default().push(i as u32);
            }
        }
        let mut hits: HashMap<(u32, u32), u32> = HashMap::new();
        for l in at.values().filter(|l| l.len() > 1) {
            for i in 0..l.len().min(50) { for j in 0..i { if l[i] != l[j] { *hits.entry((l[j], l[i])).or_default() += 1; } } }
        }
        c.count("mask pairs compared", pairs as u64);
        let bad = hits.iter().find(|h| *h.1 >= k);
        c.ok(bad.is_none(), "masks share entries", || format!("{bad:?}; {}", ctx()));
    }
    let ew = r.errs[0].len();
    if pairs * (0.5641 / (2.0 * sd) + 0.05).min(1.0).powi(ew as i32) < 1e-10 {
        let mut at: HashMap<&[i128], usize> = HashMap::new();
        for (i, e) in r.errs.iter().enumerate() {
            let old = at.insert(e, i);
            c.ok(old.is_none(), "errors repeat", || format!("{i} and {old:?}; {}", ctx()));
        }
    }
}

// ---- secret keys

fn small_keys(c: &mut Case, keys: &[Vec<i128>], law: &[(i128, f64)], what: &str) {
    let ctx = || format!("{what}: {} keys of {}", keys.len(), keys[0].len());
    let width = keys[0].len();
    c.count("secret keys drawn", keys.len() as u64);
    let mut all = vec![0u64; law.len()];
    for k in keys {
        for &v in k {
            match law.iter().position(|l| l.0 == v) {
                Some(i) => all[i] += 1,
                None => { c.fail("key coefficient outside its set", format!("{v}; {}", ctx())); return; }
            }
        }
    }
    let w: Vec<f64> = law.iter().map(|l| l.1).collect();
    if let Some(z) = fit(&all, &w) { near(c, z.max(0.0), "key frequencies", ctx); }
    let mean: f64 = law.iter().map(|l| l.0 as f64 * l.1).sum();
    let var: f64 = law.iter().map(|l| (l.0 as f64 - mean).powi(2) * l.1).sum();
    let n = keys.len() as f64;
    if keys.len() >= 60 {
        for j in 0..width {
            for (v, p) in law {
                let k = keys.iter().filter(|k| k[j] == *v).count() as u64;
                near(c, binom_score(k, keys.len() as u64, *p), "key position", || format!("value {v} at {j}; {}", ctx()));
            }
        }
        // neighbours within a key, and the same place in the next key
        for lag in 1..width.min(70) {
            let s: f64 = keys.iter().map(|k| (0..width - lag).map(|i| (k[i] as f64 - mean) * (k[i + lag] as f64 - mean)).sum::<f64>()).sum();
            near(c, s / (var * (n * (width - lag) as f64).sqrt()), "key correlation", || format!("lag {lag}; {}", ctx()));
        }
        let s: f64 = keys.windows(2).map(|k| (0..width).map(|i| (k[0][i] as f64 - mean) * (k[1][i] as f64 - mean)).sum::<f64>()).sum();
        near(c, s / (var * ((n - 1.0) * width as f64).sqrt()), "keys correlated", ctx);
    }
    if width >= 100 {
        let mut s = std::collections::HashSet::new();
        c.ok(keys.iter().all(|k| s.insert(k)), "a key repeats", ctx);
    }
    c.seen((what, width));
}
fn keys<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let p = V::<Q>::p();
    let (n, ring) = [(40usize, 32usize), (17, 16), (1, 8), (64, 64), (1000, 128), (33, 4)][c.idx % 6];
    let ring = ring.min(1 << V::<Q>::max_log_n().min(C::BITS - 2));
    let steps = [Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs][c.idx / 6 % 3];
    let n = match steps { Steps::BrMs => ring, Steps::BrKsMs => n.min(ring), _ => n };
    let key = [LWESecretKeyType::Binary, LWESecretKeyType::Ternary][c.idx / 18 % 2];
    let rk = [RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian][c.idx / 36 % if matches!(steps, Steps::BrKsMs) { 3 } else { 2 }];
    let lq = 3 + c.below(C::BITS as u64 - 3);
    let q = 1u128 << lq;
    let sd = if p < 1000 { 0.7 } else { 3.2 };
    let spec = Spec { n, q: q as u64, t: 2, key, ring, ring_key: rk, ring_sd: sd, steps, bits: 1, ..Default::default() };
    let total = 40_000 / n.min(ring) + 60;
    let mut lk = vec![];
    let mut rks = vec![];
    let mut nk = vec![];
    let dft = Dft::new(ring, p);
    let mut prg = Prg::from_rng(&mut c.rng).unwrap();
    for i in 0..total.min(4000) {
        let sk: SecretKeyPack<C, Q> = match i % 3 {
            0 => SecretKeyPack::new(spec.params(), &mut c.rng),
            1 => KeyGen::generate_secret_key(spec.params(), &mut c.rng),
            _ => KeyGen::generate_secret_key(spec.params(), &mut prg),
        };
        lk.push(sk.lwe_secret_key().iter().map(|&x| centered(get(x), q)).collect::<Vec<_>>());
        let r = V::<Q>::unpoly(sk.ring_secret_key());
        if i < 3 {
            c.eq((lk[i].len(), r.len()), (n, ring), "key dimension", || format!("{name} {spec:?}"));
            // the transform the library defines for this ring holds the same polynomial
            let back = sk.ntt_ring_secret_key().clone().into_native_polynomial();
            c.eq(V::<Q>::unpoly(&back), r.clone(), "transformed ring key", || format!("{name} {spec:?}"));
            let mut x = V::<Q>::unntt(sk.ntt_ring_secret_key());
            let mut y = dft.fwd(&r);
            x.sort();
            y.sort();
            c.eq(x, y, "transformed ring key values", || format!("{name} {spec:?}"));
            nk.push(());
        }
        rks.push(r.into_iter().map(|x| centered(x, p)).collect::<Vec<_>>());
    }
    let bin = [(0i128, 0.5), (1, 0.5)];
    let ter = [(0i128, 0.5), (1, 0.25), (-1, 0.25)];
    // with q = 2 the two signs coincide; q starts at 8 here
    small_keys(c, &lk, if key == LWESecretKeyType::Binary { &bin } else { &ter }, &format!("{name} LWE key {key:?}"));
    if matches!(steps, Steps::BrMs) {
        c.ok(lk == rks, "ring key is not the LWE key", || format!("{name} {spec:?}"));
    } else {
        match rk {
            RingSecretKeyType::Binary => small_keys(c, &rks, &bin, &format!("{name} ring key binary")),
            RingSecretKeyType::Ternary => small_keys(c, &rks, &ter, &format!("{name} ring key ternary")),
            RingSecretKeyType::Gaussian => {
                let hi = (6.0 * sd).ceil() as i128 + 1;
                let law: Vec<(i128, f64)> = (-hi..=hi).map(|v| {
                    let f = |x: f64| phi((x / sd).clamp(-6.0, 6.0));
                    (v, f(v as f64 + 0.5) - f(v as f64 - 0.5))
                }).collect();
                // positions are judged by their variance
                let r = Rows { masks: vec![], errs: rks };
                let flat: Vec<f64> = r.errs.iter().flatten().map(|&v| v as f64).collect();
                let mut h = vec![0u64; law.len()];
                let mut out = None;
                r.errs.iter().flatten().for_each(|&v| match law.iter().position(|l| l.0 == v) { Some(i) => h[i] += 1, None => out = Some(v) });
                c.ok(out.is_none(), "ring key beyond six deviations", || format!("{out:?} {name} {spec:?}"));
                let w: Vec<f64> = law.iter().map(|l| l.1).collect();
                let var: f64 = law.iter().map(|l| (l.0 as f64).powi(2) * l.1).sum();
                if let Some(z) = fit(&h, &w) { near(c, z.max(0.0), "gaussian key frequencies", || format!("{name} {spec:?}")); }
                near(c, chi2_score(flat.iter().map(|x| x * x).sum::<f64>() / var, flat.len() as f64), "gaussian key variance", || format!("{name} {spec:?}"));
                near(c, flat.iter().sum::<f64>() / (var * flat.len() as f64).sqrt(), "gaussian key mean", || format!("{name} {spec:?}"));
                for lag in 1..100 {
                    let s: f64 = (0..flat.len() - lag).map(|i| flat[i] * flat[i + lag]).sum();
                    near(c, s / (var * ((flat.len() - lag) as f64).sqrt()), "gaussian key correlation", || format!("lag {lag} {name} {spec:?}"));
                }
                c.seen((name, ring));
            }
        }
    }
    c.sample(|| format!("{name} {spec:?}: {} keys", lk.len()));
}

// ---- fresh ciphertexts

fn ciphertexts<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let lq = [C::BITS - 1, C::BITS - 2, 10, 14, 6, 7][c.idx % 6].clamp(6, C::BITS - 1);
    let q = 1u128 << lq;
    let t = 1u128 << c.below(lq as u64 - 2);
    let n = [40usize, 3, 200, 17, 64, 512][c.idx / 6 % 6];
    let key = [LWESecretKeyType::Binary, LWESecretKeyType::Ternary][c.idx % 2];
    let sd = if lq < 8 { 1.3 } else { 3.2 };
    let spec = Spec { n, q: q as u64, t: t as u64, key, sd, ring: 4, steps: Steps::BrMsKs, bits: 1, ..Default::default() };
    let sk: SecretKeyPack<C, Q> = SecretKeyPack::new(spec.params(), &mut c.rng);
    let enc = Encryptor::new(sk.clone());
    let mut prg = Prg::from_rng(&mut c.rng).unwrap();
    let mut r = Rows::default();
    let one = c.below(t as u64);
    for i in 0..(60_000 / n + 100) {
        // equal and differing messages, both entry points, both generators
        let m = if i % 2 == 0 { one } else { c.below(t as u64) };
        let ct = match i % 3 {
            0 => sk.encrypt(m, &mut c.rng),
            1 => enc.encrypt(m, &mut c.rng),
            _ => enc.encrypt(m, &mut prg),
        };
        let e = centered(subm(phase(&ct, sk.lwe_secret_key(), q), m as u128 * (q / t) % q, q), q);
        r.push(parts(&ct).0, vec![e]);
    }
    c.count("fresh ciphertexts", r.masks.len() as u64);
    judge(c, &r, q, sd, name);
}

// ---- evaluation keys

/// rows of the LWE key-switching key: the switch of v * B^j at place i is minus that row
fn lwe_rows<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let (lq, bits) = [(C::BITS - 1, 3), (C::BITS.min(16) - 1, 2), (10, 1), (14, 4)][c.idx % 4];
    let lq = lq.min(C::BITS - 1).max(6);
    let q = 1u128 << lq;
    let (n, ring) = [(20, 16), (30, 4), (100, 8), (8, 32)][c.idx / 4 % 4];
    let sd = if lq < 9 { 1.1 } else { 3.2 };
    let spec = Spec { n, q: q as u64, t: 2, ring, ks_bits: bits, ks_sd: sd, sd: 0.4, steps: Steps::BrMsKs, bits: 1, ..Default::default() };
    let mut r = Rows::default();
    let len = lq.div_ceil(bits);
    for _ in 0..(3000 / (ring as u32 * len << bits) + 2).min(8) {
        let sk: SecretKeyPack<C, Q> = SecretKeyPack::new(spec.params(), &mut c.rng);
        let z: Vec<i128> = V::<Q>::unpoly(sk.ring_secret_key()).into_iter().map(|x| centered(x, V::<Q>::p())).collect();
        let ksk = KeySwitchingLWEKey::<C>::generate(&sk, &mut c.rng);
        for j in 0..len {
            for i in 0..ring {
                for v in 1..1u128 << bits.min(lq - j * bits) {
                    let mut a = vec![0; ring];
                    a[i] = v << (j * bits);
                    let y = ksk.key_switch_for_lwe(lwe::<C>(&a, 0));
                    let want = (-(z[i] * a[i] as i128)).rem_euclid(q as i128) as u128;
                    let e = centered(subm(phase(&y, sk.lwe_secret_key(), q), want, q), q);
                    r.push(parts(&y).0, vec![e]);
                }
            }
        }
    }
    c.count("LWE switching rows", r.masks.len() as u64);
    judge(c, &r, q, sd, name);
}

/// rows of the ring key-switching key: the switch of -B^j at the start of a block is that row
fn ring_rows<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let p = V::<Q>::p();
    let pbits = 128 - p.leading_zeros();
    let (n, ring) = [(16usize, 16usize), (8, 32), (13, 16), (5, 32), (16, 64), (3, 4)][c.idx % 6];
    let block = n.next_power_of_two();
    let bits = [1, 3, 6, 10][c.idx / 6 % 4];
    let len = pbits.div_ceil(bits);
    let sd = [4.9, 1.7, 11.3][c.idx / 3 % 3];
    let spec = Spec { n, q: 64, t: 2, sd: 0.4, ring, ks_bits: bits, ks_sd: sd, ring_sd: 3.2, steps: Steps::BrKsMs, bits: 1, ..Default::default() };
    let mut r = Rows::default();
    for _ in 0..(2000 / (ring as u32 * len) + 2).min(40) {
        let sk: SecretKeyPack<C, Q> = SecretKeyPack::new(spec.params(), &mut c.rng);
        let s: Vec<u128> = V::<Q>::unpoly(sk.ring_secret_key());
        let z: Vec<u128> = sk.lwe_secret_key().iter().map(|&k| (sign(k) as i128).rem_euclid(p as i128) as u128).collect();
        let ksk = KeySwitchingRLWEKey::generate(&sk, &mut c.rng);
        let dot = |a: &[u128], s: &[u128]| a.iter().zip(s).fold(0, |t, (&x, &k)| addm(t, mulm(x, k, p), p));
        for k in 0..ring / block {
            for j in 0..len {
                let unit = 1u128 << (j * bits);
                let mut mask = vec![];
                let mut errs = vec![];
                for i in 0..block {
                    let mut a = vec![0; ring];
                    if i == 0 { a[k * block] = p - unit; } else { a[k * block + block - i] = unit; }
                    let y = ksk.key_switch_for_lwe(LWE::<Q>::new(V::<Q>::vec(&a), Q::new(num_traits::Zero::zero())));
                    let ya = V::<Q>::back(y.a());
                    let got = subm(V::<Q>::get(y.b()), dot(&ya, &z), p);
                    let want = negm(dot(&a, &s), p);
                    errs.push(centered(subm(got, want, p), p));
                    if i == 0 { mask = ya; }
                }
                r.push(mask, errs);
            }
        }
    }
    c.count("ring switching rows", r.masks.len() as u64);
    judge(c, &r, p, sd, name);
}

/// rows of the blind rotation key
fn rotation_rows<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let p = V::<Q>::p();
    let pbits = 128 - p.leading_zeros();
    let ring = [4usize, 8, 16][c.idx % 3];
    let bits = [6u32, 3, 9, 4][c.idx / 3 % 4];
    let ternary = c.idx / 2 % 2 == 0;
    let len = pbits.div_ceil(bits) as usize;
    let n = 4;
    let sd = [4.9, 1.7, 11.3][c.idx % 3];
    let spec = Spec {
        n, q: 64, t: 2, sd: 0.4, ring, ring_sd: sd, ks_sd: 3.2, bits, steps: Steps::BrMsKs,
        key: if ternary { LWESecretKeyType::Ternary } else { LWESecretKeyType::Binary }, ..Default::default()
    };
    let dft = Dft::new(ring, p);
    let half = invm(2, p).unwrap();
    let (mut rm, mut rneg) = (Rows::default(), Rows::default());
    // X^y - 1
    let xm1 = |y: usize| { let mut v = monomul(&{ let mut o = vec![0; ring]; o[0] = 1; o }, y, p); v[0] = subm(v[0], 1, p); v };
    let sub = |x: &[u128], y: &[u128]| -> Vec<u128> { x.iter().zip(y).map(|(&a, &b)| subm(a, b, p)).collect() };
    let scale = |x: &[u128], k: u128| -> Vec<u128> { x.iter().map(|&a| mulm(a, k, p)).collect() };
    let digits = |x: &[u128], j: usize| -> Vec<u128> { x.iter().map(|&a| (a >> (j as u32 * bits)) & ((1 << bits) - 1)).collect() };
    // exponents: X^(N+1) = -X, so sums and differences separate the ternary pair
    let ys: &[usize] = if ternary { &[1, ring + 1] } else { &[1] };
    for _ in 0..(900 / (n * len * ring) + 2) {
        let sk: SecretKeyPack<C, Q> = SecretKeyPack::new(spec.params(), &mut c.rng);
        let s = V::<Q>::unpoly(sk.ring_secret_key());
        let z: Vec<i8> = sk.lwe_secret_key().iter().map(|&k| sign(k)).collect();
        let brk = BlindRotationKey::generate(&sk, &mut c.rng);
        let basis = spec.params::<C, Q>().blind_rotation_basis();
        let rot = |a: &[u128], lut: &[u128]| {
            let o: RLWE<Q> = brk.blind_rotate(V::<Q>::poly(lut), &lwe::<C>(a, 0), basis);
            [V::<Q>::back(o.a_slice()), V::<Q>::back(o.b_slice())]
        };
        let at = |i: usize, y: usize| { let mut a = vec![0; n]; a[i] = y as u128; a };
        // (half, element, exponent index, row) -> the effective row
        let mut m_rows = vec![vec![vec![]; ys.len()]; n];
        let mut neg_rows: Vec<Vec<Vec<[Vec<u128>; 2]>>> = vec![vec![vec![]; ys.len()]; n];
        for i in 0..n {
            for (k, &y) in ys.iter().enumerate() {
                let r = dft.recip(&xm1(y)).expect("invertible");
                for j in 0..len {
                    let lut = scale(&r, 1 << (j as u32 * bits));
                    let o = rot(&at(i, y), &lut);
                    m_rows[i][k].push([o[0].clone(), sub(&o[1], &lut)]);
                }
            }
            if i == 0 { continue; }
            for (k, &y) in ys.iter().enumerate() {
                let mut eqs = vec![];
                for _ in 0..len {
                    let lut: Vec<u128> = (0..ring).map(|_| c.rng.next_u64() as u128 % p).collect();
                    let x = 1 + c.rng.next_u32() as usize % (2 * ring - 1);
                    let acc = rot(&at(0, x), &lut);
                    let mut a = at(0, x);
                    a[i] = y as u128;
                    let out = rot(&a, &lut);
                    let f = xm1(y);
                    let (pa, pb) = (negacyclic(&acc[0], &f, p), negacyclic(&acc[1], &f, p));
                    let mut rhs = [sub(&out[0], &acc[0]), sub(&out[1], &acc[1])];
                    for j in 0..len {
                        let d = digits(&pb, j);
                        for h in 0..2 {
                            rhs[h] = sub(&rhs[h], &negacyclic(&d, &m_rows[i][k][j][h], p));
                        }
                    }
                    let co: Vec<Vec<u128>> = (0..len).map(|j| dft.fwd(&digits(&pa, j))).collect();
                    eqs.push((co, [dft.fwd(&rhs[0]), dft.fwd(&rhs[1])]));
                }
                // one linear system per evaluation point
                let mut ev = vec![[vec![0; ring], vec![0; ring]]; len];
                let mut singular = false;
                for pt in 0..ring {
                    let m: Vec<Vec<u128>> = eqs.iter().map(|e| e.0.iter().map(|d| d[pt]).collect()).collect();
                    let y: Vec<Vec<u128>> = eqs.iter().map(|e| vec![e.1[0][pt], e.1[1][pt]]).collect();
                    match solve(m, y, p) {
                        Some(x) => for j in 0..len { ev[j][0][pt] = x[j][0]; ev[j][1][pt] = x[j][1]; },
                        None => singular = true,
                    }
                }
                if !singular {
                    neg_rows[i][k] = ev.iter().map(|e| [dft.inv(&e[0]), dft.inv(&e[1])]).collect();
                } else {
                    c.count("singular systems", 1);
                }
            }
        }
        let mut put = |rows: &mut Rows, row: &[Vec<u128>; 2], msg: &[u128]| {
            let ph = sub(&row[1], &negacyclic(&row[0], &s, p));
            let e = sub(&ph, msg).into_iter().map(|x| centered(x, p)).collect();
            rows.push(row[0].clone(), e);
        };
        for i in 0..n {
            for (which, eff) in [(false, &m_rows[i]), (true, &neg_rows[i])] {
                if eff.iter().any(|e| e.is_empty()) { continue; }
                for j in 0..len {
                    let unit = 1u128 << (j as u32 * bits);
                    // the message row for key value m
                    let msg = |m: bool| -> Vec<u128> {
                        if !m { vec![0; ring] }
                        else if which { s.iter().map(|&x| negm(mulm(x, unit, p), p)).collect() }
                        else { let mut v = vec![0; ring]; v[0] = unit; v }
                    };
                    let out = if which { &mut rneg } else { &mut rm };
                    if ternary {
                        let (d1, d2) = (&eff[0][j], &eff[1][j]);
                        let add = |x: &[u128], y: &[u128]| -> Vec<u128> { x.iter().zip(y).map(|(&a, &b)| addm(a, b, p)).collect() };
                        let r0 = [scale(&add(&d1[0], &d2[0]), half), scale(&add(&d1[1], &d2[1]), half)];
                        // d1 - d2 = -2 X^-1 R1
                        let up = |x: &[u128]| monomul(&scale(x, p - half), 1, p);
                        let r1 = [up(&sub(&d1[0], &d2[0])), up(&sub(&d1[1], &d2[1]))];
                        put(out, &r0, &msg(z[i] == 1));
                        put(out, &r1, &msg(z[i] == -1));
                    } else {
                        put(out, &eff[0][j], &msg(z[i] == 1));
                    }
                }
            }
        }
    }
    c.count("rotation key rows (message half)", rm.masks.len() as u64);
    c.count("rotation key rows (secret half)", rneg.masks.len() as u64);
    judge(c, &rm, p, sd, &format!("{name} message half"));
    judge(c, &rneg, p, sd, &format!("{name} secret half"));
    // the two halves are independent as well
    let both = Rows { masks: rm.masks.into_iter().chain(rneg.masks).collect(), errs: rm.errs.into_iter().chain(rneg.errs).collect() };
    judge(c, &both, p, sd, &format!("{name} both halves"));
}

fn main() {
    let m = Mon::new("C24");
    macro_rules! all {
        ($($C:ty, $F:ty, $name:expr);*) => {$(
            m.par(concat!("secret keys ", $name), m.n(108, 1080), |c| keys::<$C, $F>(c, $name));
            m.par(concat!("ciphertexts ", $name), m.n(36, 720), |c| ciphertexts::<$C, $F>(c, $name));
            m.par(concat!("LWE switching rows ", $name), m.n(16, 320), |c| lwe_rows::<$C, $F>(c, $name));
            m.par(concat!("ring switching rows ", $name), m.n(24, 480), |c| ring_rows::<$C, $F>(c, $name));
            m.par(concat!("rotation rows ", $name), m.n(12, 240), |c| rotation_rows::<$C, $F>(c, $name));
        )*};
    }
    all!(u16, DefaultFieldU32, "u16, default field"; u8, C998M, "u8, u32 p=998244353"; u64, D50, "u64, u64 p=1125899904679937"; u32, D62, "u32, u64 p=4611686018405367809");
    let _ = put::<u32>(0);
    m.finish(
        "one case per recovered mask and error; masks uniform, unrepeated and uncorrelated, errors of exactly the configured width and uncorrelated, keys of the declared law; evaluation-key rows are recovered from chosen inputs",
        &["scores beyond seven deviations count as violations", "the secret half of the first rotation row pair never takes part in a rotation and stays unobserved"],
    );
}
