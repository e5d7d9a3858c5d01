//! C02: a gate's output noise sits at the level the parameters predict, whatever its inputs carried.
use algebra::NTTField;
use fhe_core::*;
use lattice::LWE;
use mon::fhe::{digit_means, digit_power, lwe, parts, phase, sign, spread, Spec};
use mon::fields::*;
use mon::lab::*;
use mon::refs::*;
use mon::stats::*;
use mon::{Case, Mon};
use rand::RngCore;
use zkfhe::bfhe::{CUSTOM_TERNARY_128_BITS_PARAMETERS, DEFAULT_TERNARY_128_BITS_PARAMETERS};

/// Squared errors from several keys; outputs of one key share part of their error.
#[derive(Default)]
struct Pool {
    sum: f64,
    sq: f64,
    expect: f64,
    n: f64,
    var2: f64,
    worst: f64,
}
impl Pool {
    fn push(&mut self, e: f64, v: f64) {
        self.sum += e;
        self.sq += e * e;
        self.expect += v;
        self.n += 1.0;
        self.worst = self.worst.max(e.abs());
    }
    /// counts the spread of the statistic for one key with m outputs of variance v, f of it shared
    fn key(&mut self, m: f64, v: f64, f: f64) {
        self.var2 += 2.0 * m * (v * v + (m - 1.0) * f * f);
    }
    fn df(&self) -> f64 {
        2.0 * self.expect * self.expect / self.var2
    }
    fn score(&self) -> f64 {
        chi2_score(self.sq / self.expect * self.df(), self.df())
    }
}

/// exact deviation of a phase modulo q from want/p, in units of the modulus q
fn off(got: u128, want: u128, q: u128, p: u128) -> f64 {
    let m = (p * q) as i128;
    let d = (got as i128 * p as i128 - want as i128 * q as i128).rem_euclid(m);
    (if d > m / 2 { d - m } else { d }) as f64 / p as f64
}

/// (total, shared between outputs of one key) for this key
fn predict<C: LWEModulusType, Q: NTTField>(s: &Spec, sk: &SecretKeyPack<C, Q>) -> (f64, f64) {
    let p = V::<Q>::p();
    let z = s.noise(p);
    // every element of the mask takes part; the accumulator has no mask before the first of them
    let br = z.br * (2.0 * s.n as f64 - 1.0) / (2.0 * s.n as f64);
    let lw: f64 = sk.lwe_secret_key().iter().map(|&k| (sign(k) as f64).powi(2)).sum();
    let rw: f64 = V::<Q>::unpoly(sk.ring_secret_key()).into_iter().map(|x| (centered(x, p) as f64).powi(2)).sum();
    let w = match s.steps { Steps::BrKsMs => lw, Steps::BrMsKs | Steps::BrMs => rw };
    let ms = (1.0 + w) / 12.0;
    let fks = match s.steps {
        Steps::BrMsKs => 0.5,
        _ => digit_means(p, s.ks_bits) / digit_power(p, s.ks_bits),
    };
    (br + z.ks + ms, br * digit_means(p, s.bits) / digit_power(p, s.bits) + z.ks * fks)
}

/// a ciphertext of the given phase whose mask elements all matter to the rotation
fn craft<C: LWEModulusType, Q: NTTField>(c: &mut Case, sk: &SecretKeyPack<C, Q>, ph: u128, q: u128, grain: u128) -> LWE<C> {
    let slots = (q / grain) as u64;
    let a: Vec<u128> = sk.lwe_secret_key().iter().map(|_| (1 + c.below(slots - 1)) as u128 * grain).collect();
    let b = a.iter().zip(sk.lwe_secret_key()).fold(ph, |t, (&x, &k)| match sign(k) { 0 => t, 1 => addm(t, x, q), _ => subm(t, x, q) });
    lwe(&a, b)
}

const CLASSES: [&str; 4] = ["rotation", "switching", "rounding", "mixed"];

/// the variance of bootstrap outputs over many keys
fn level<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let p = V::<Q>::p();
    let class = c.idx % 4;
    let spec = (0..400).find_map(|_| {
        let s = Spec::pick::<C, Q>(&mut c.rng, 5, 8.5)?;
        let z = s.noise(p);
        if s.ring_sd == 0.6 || s.ks_sd == 0.6 || s.n > 32 { return None; }
        let ok = match class {
            0 => z.br > 20.0 * (z.ks + z.ms),
            1 => z.ks > 20.0 * (z.br + z.ms),
            2 => z.ms > 20.0 * (z.br + z.ks),
            _ => z.br > 0.0 && (z.ks > 0.0 || matches!(s.steps, Steps::BrMs)) && s.n >= 4,
        };
        ok.then_some(s)
    });
    let Some(s) = spec else { c.count("no parameters of the class", 1); return };
    let q = s.q as u128;
    let grain = (q / (2 * s.ring as u128)).max(1);
    let step = (2 * s.ring as u128 / q).max(1) as usize;
    let ctx = || format!("{} dominates; {name} {s:?}", CLASSES[class]);
    let mut pool = Pool::default();
    let keys = if c.thorough() { 3000 } else { 500 };
    let m = 4;
    let (mut lag, mut pairs, mut inx) = (0.0, 0.0, 0.0);
    for _ in 0..keys {
        let l = lab(c, s.params::<C, Q>(), String::new());
        let (v, f) = predict(&s, &l.sk);
        for _ in 0..m {
            let table: Vec<u128> = (0..s.ring).map(|_| c.rng.next_u64() as u128 % p).collect();
            let at = c.rng.next_u64() as u128 % (q / grain);
            let x = craft(c, &l.sk, at * grain, q, grain);
            let i = at as usize * step;
            let want = addm(if i < s.ring { table[i] } else { negm(table[i - s.ring], p) }, p / 8, p);
            let y = l.eval.bootstrap(x, V::<Q>::poly(&table));
            let e = off(phase(&y, l.sk.lwe_secret_key(), q), want, q, p);
            pool.push(e, v);
            let arg = centered(at, q / grain) as f64;
            lag += arg * e;
            pairs += 1.0;
            inx += arg * arg * (v + f);
        }
        pool.key(m as f64, v, f);
    }
    let z = pool.score();
    c.ok(z.abs() < LIMIT, &format!("noise level ({})", CLASSES[class]), || format!("variance {:.4} of the predicted {:.2}, score {z:.2}; {}", pool.sq / pool.expect, pool.expect / pool.n, ctx()));
    let sd = (pool.expect / pool.n).sqrt();
    c.ok(pool.worst < 9.0 * sd + 1.0, "noise far outside its spread", || format!("{:.1} with deviation {sd:.2}; {}", pool.worst, ctx()));
    let z = pool.sum / (pool.n * m as f64 * sd * sd).sqrt();
    c.ok(z.abs() < LIMIT, "noise has a bias", || format!("score {z:.2}; {}", ctx()));
    let z = lag / inx.sqrt() / (m as f64).sqrt();
    c.ok(z.abs() < LIMIT, "noise follows the input phase", || format!("score {z:.2} over {pairs}; {}", ctx()));
    c.count("bootstrap errors measured", pool.n as u64);
    c.seen(format!("{s:?}"));
    c.sample(|| format!("variance {:.4} of the predicted {:.2} over {keys} keys; {}", pool.sq / pool.expect, pool.expect / pool.n, ctx()));
}

/// noise after one gate, after many, and after gates on inputs at the end of their margin
fn depth<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let p = V::<Q>::p();
    let Some(s) = (0..400).find_map(|_| {
        let s = Spec::pick::<C, Q>(&mut c.rng, 5, 8.5)?;
        let z = s.noise(p);
        ((z.br + z.ks > z.ms || s.idx_any(c.idx)) && s.n <= 32 && s.n >= 4).then_some(s)
    }) else { return };
    let q = s.q as u128;
    let mut strata: [Pool; 3] = Default::default();
    let keys = if c.thorough() { 200 } else { 40 };
    let mut corr = (0.0, 0.0);
    for _ in 0..keys {
        let l = lab(c, s.params::<C, Q>(), format!("{name} {s:?}"));
        let (v, f) = predict(&s, &l.sk);
        let key = l.sk.lwe_secret_key().to_vec();
        let mut done = [0.0; 3];
        let mut take = |c: &mut Case, k: usize, g: usize, y: &LWE<C>, want: bool| {
            let e = off(phase(y, &key, q), want as u128 * (p / 4), q, p);
            c.ok(e.abs() < q as f64 / 16.0, "noise beyond a sixteenth of the modulus", || format!("{e:.1} after {}; {}", GATES[g], l.text));
            let (m, noise) = l.dec.decrypt_with_noise::<u8>(y);
            c.eq(m, want as u8, "decryption of a gate output", || l.text.clone());
            let d = centered(subm(phase(y, &key, q), want as u128 * (q / 4), q), q).unsigned_abs();
            let got: u64 = algebra::AsInto::as_into(noise);
            c.eq(got as u128, d, "reported noise", || l.text.clone());
            strata[k].push(e, v);
            done[k] += 1.0;
            e
        };
        for _ in 0..6 {
            let x = [c.below(2) == 1, c.below(2) == 1, c.below(2) == 1];
            let g = 1 + c.below(8) as usize;
            let e = x.map(|m| l.enc.encrypt(m as u8, &mut c.rng));
            let y = gate(&l.eval, g, [&e[0], &e[1], &e[2]]);
            take(c, 0, g, &y, plain(g, x));
        }
        let mut w = [c.below(2) == 1, c.below(2) == 1, c.below(2) == 1];
        let mut e = w.map(|m| l.enc.encrypt(m as u8, &mut c.rng));
        for k in 0..30 {
            let g = 1 + c.below(8) as usize;
            let y = gate(&l.eval, g, [&e[0], &e[1], &e[2]]);
            let want = plain(g, w);
            if k >= 24 { take(c, 1, g, &y, want); c.count("gates at depth 24 or more", 1); }
            w[k % 3] = want;
            e[k % 3] = y;
            // a chain may settle on constant bits
            if c.below(4) == 0 {
                let z = l.eval.not(&e[k % 3]);
                let (a, b) = (phase(&e[k % 3], &key, q), phase(&z, &key, q));
                c.eq(b, subm(q / 4, a, q), "not changes more than the sign of the noise", || l.text.clone());
                w[k % 3] = !w[k % 3];
                e[k % 3] = z;
            }
        }
        // inputs at the end of what a two-input gate accepts
        let grain = (q / (2 * s.ring as u128)).max(1);
        let top = (q / 8 - grain.min(q / 8)) / grain;
        for _ in 0..6 {
            let x = [c.below(2) == 1, c.below(2) == 1, false];
            let g = 1 + c.below(4) as usize;
            let err = match c.below(3) { 0 => top as i128, 1 => -(top as i128), _ => c.below(2 * top as u64 + 1) as i128 - top as i128 } * grain as i128;
            let half = err / 2 / grain as i128 * grain as i128;
            let ins = [half, err - half].into_iter().zip(x).map(|(e, m)| {
                let ph = (e + m as i128 * (q / 4) as i128).rem_euclid(q as i128) as u128;
                craft(c, &l.sk, ph, q, grain)
            }).collect::<Vec<_>>();
            let y = gate(&l.eval, g, [&ins[0], &ins[1], &ins[0]]);
            let e = take(c, 2, g, &y, plain(g, x));
            corr.0 += e * err as f64;
            corr.1 += (v + 5.0 * f) * (err as f64).powi(2);
        }
        for k in 0..3 { strata[k].key(done[k], v, f); }
    }
    let names = ["after one gate", "after 24 gates or more", "after inputs at the margin"];
    for k in 0..3 {
        let (a, b) = (&strata[k], &strata[(k + 1) % 3]);
        let z = ((a.sq / a.expect) / (b.sq / b.expect)).ln() / (2.0 / a.df() + 2.0 / b.df()).sqrt();
        c.ok(z.abs() < LIMIT, "noise depends on the history", || {
            format!("variance {:.2} {}, {:.2} {}, score {z:.2}; {name} {s:?}", a.sq / a.n, names[k], b.sq / b.n, names[(k + 1) % 3])
        });
        // the first rotation meets a flat table, so the level may lie a little below the prediction
        let z = a.score();
        let low = (2.0 * s.n as f64 - 2.0) / (2.0 * s.n as f64 - 1.0) * 0.9;
        c.ok(z < LIMIT, "noise above its level", || format!("variance {:.3} of the predicted, score {z:.2}; {name} {s:?}", a.sq / a.expect));
        let z = chi2_score(a.sq / (a.expect * low) * a.df(), a.df());
        c.ok(z > -LIMIT, "noise below its level", || format!("variance {:.3} of the predicted, score {z:.2}; {name} {s:?}", a.sq / a.expect));
    }
    if corr.1 > 0.0 {
        let z = corr.0 / corr.1.sqrt();
        c.ok(z.abs() < LIMIT, "output noise follows input noise", || format!("score {z:.2}; {name} {s:?}"));
    }
    c.count("gate errors measured", (strata[0].n + strata[1].n + strata[2].n) as u64);
    c.seen(format!("{s:?}"));
    c.sample(|| format!("variances {:.2} / {:.2} / {:.2}; {name} {s:?}", strata[0].sq / strata[0].n, strata[1].sq / strata[1].n, strata[2].sq / strata[2].n));
}
trait Any { fn idx_any(&self, i: usize) -> bool; }
impl Any for Spec { fn idx_any(&self, i: usize) -> bool { i % 4 == 0 } }

/// the output noise of every gate on its own, against the prediction and against the other gates
fn gates<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let p = V::<Q>::p();
    let Some(s) = (0..400).find_map(|_| {
        let s = Spec::pick::<C, Q>(&mut c.rng, 5, 8.5)?;
        let z = s.noise(p);
        ((z.br + z.ks > z.ms || s.idx_any(c.idx)) && s.n <= 24 && s.n >= 4).then_some(s)
    }) else { return };
    let q = s.q as u128;
    let mut pools: [Pool; 9] = Default::default();
    let keys = if c.thorough() { 400 } else { 100 };
    let m = 6;
    for _ in 0..keys {
        let l = lab(c, s.params::<C, Q>(), format!("{name} {s:?}"));
        let (v, f) = predict(&s, &l.sk);
        let key = l.sk.lwe_secret_key().to_vec();
        // inputs that came out of a gate themselves
        let bits = [0; 5].map(|_| c.below(2) == 1);
        let e = bits.map(|m| { let x = l.enc.encrypt(m as u8, &mut c.rng); l.eval.and(&x, &x) });
        for g in 1..9 {
            for _ in 0..m {
                // three different ones: the difference of equal ciphertexts carries no mask to rotate by
                let at = [c.below(5) as usize, 1 + c.below(2) as usize, 3 + c.below(2) as usize];
                let at = [at[0], (at[0] + at[1]) % 5, (at[0] + at[2]) % 5];
                let y = gate(&l.eval, g, at.map(|i| &e[i]));
                let want = plain(g, at.map(|i| bits[i]));
                let d = off(phase(&y, &key, q), want as u128 * (p / 4), q, p);
                c.ok(d.abs() < q as f64 / 16.0, "noise beyond a sixteenth of the modulus", || format!("{d:.1} after {}; {}", GATES[g], l.text));
                pools[g].push(d, v);
            }
            // outputs may repeat: twenty ordered pairs of inputs
            pools[g].key(m as f64, v, f);
            pools[g].var2 += 2.0 * m as f64 * (m as f64 - 1.0) * v * v / 10.0;
        }
    }
    let low = (2.0 * s.n as f64 - 2.0) / (2.0 * s.n as f64 - 1.0) * 0.9;
    for g in 1..9 {
        let a = &pools[g];
        let z = a.score();
        let text = || format!("{}: variance {:.3} of the predicted {:.2}, score {z:.2}; {name} {s:?}", GATES[g], a.sq / a.expect, a.expect / a.n);
        c.ok(z < LIMIT, "one gate's noise above the level", text);
        let z = chi2_score(a.sq / (a.expect * low) * a.df(), a.df());
        c.ok(z > -LIMIT, "one gate's noise below the level", text);
        c.count("gate errors measured", a.n as u64);
    }
    c.seen(("gates", format!("{s:?}")));
    c.sample(|| format!("variance over prediction by gate {:?}; {name} {s:?}", (1..9).map(|g| (GATES[g], (pools[g].sq / pools[g].expect * 100.0).round() / 100.0)).collect::<Vec<_>>()));
}

/// gates that get one ciphertext several times, with an error far above the level: the output carries fresh noise all the same
fn same<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let p = V::<Q>::p();
    let Some(s) = (0..400).find_map(|_| {
        let s = Spec::pick::<C, Q>(&mut c.rng, 5, 8.5)?;
        let grain = (s.q as u128 / (2 * s.ring as u128)).max(1);
        (s.n <= 24 && s.n >= 4 && s.q as u128 / 32 >= grain).then_some(s)
    }) else { return };
    let q = s.q as u128;
    let grain = (q / (2 * s.ring as u128)).max(1);
    let err = q / 32 / grain * grain;
    const WAYS: [[usize; 3]; 5] = [[0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 0, 0], [0, 1, 2]];
    let mut pools: Vec<Pool> = (0..45).map(|_| Pool::default()).collect();
    let keys = if c.thorough() { 100 } else { 25 };
    for _ in 0..keys {
        let l = lab(c, s.params::<C, Q>(), format!("{name} {s:?}"));
        let (v, f) = predict(&s, &l.sk);
        for g in 1..9 {
            for (k, way) in WAYS.iter().enumerate() {
                let bits = [0; 3].map(|_| c.below(2) == 1);
                let e = bits.map(|m| {
                    let e = if c.below(2) == 0 { err } else { q - err };
                    craft(c, &l.sk, (m as u128 * (q / 4) + e) % q, q, grain)
                });
                let y = gate(&l.eval, g, way.map(|i| &e[i]));
                let want = plain(g, way.map(|i| bits[i]));
                let d = off(phase(&y, l.sk.lwe_secret_key(), q), want as u128 * (p / 4), q, p);
                pools[5 * g + k].push(d, v);
                pools[5 * g + k].key(1.0, v, f);
            }
        }
    }
    for g in 1..9 {
        for (k, way) in WAYS.iter().enumerate() {
            let a = &pools[5 * g + k];
            let z = a.score();
            c.ok(z < LIMIT, "noise above its level on repeated inputs", || {
                format!("{} of inputs {way:?} with errors of {err}: variance {:.3} of the predicted {:.2}, score {z:.2}; {name} {s:?}", GATES[g], a.sq / a.expect, a.expect / a.n)
            });
            c.count("gate errors on repeated inputs measured", a.n as u64);
        }
    }
    c.seen(("same", format!("{s:?}")));
}

/// the two shipped sets: outputs of gates of every depth against the predicted spread
fn shipped(c: &mut Case, outputs: usize) {
    let (par, name) = if c.idx % 2 == 0 { (*DEFAULT_TERNARY_128_BITS_PARAMETERS, "default set") } else { (*CUSTOM_TERNARY_128_BITS_PARAMETERS, "custom set") };
    let l = lab(c, par, name.into());
    let s = Spec {
        n: par.lwe_dimension(), t: 4, q: par.lwe_cipher_modulus_value() as u64, sd: par.lwe_noise_standard_deviation(),
        key: par.lwe_secret_key_type(), ring: par.ring_dimension(), ring_sd: par.ring_noise_standard_deviation(),
        ring_key: par.ring_secret_key_type(), bits: par.blind_rotation_basis().bits(), steps: par.steps(),
        ks_bits: par.key_switching_basis_bits(), ks_sd: par.key_switching_noise_standard_deviation(),
    };
    let q = s.q as u128;
    let p = V::<DefaultFieldU32>::p();
    let (v, f) = predict(&s, &l.sk);
    let mut pool = Pool::default();
    let mut w = [true, false, c.below(2) == 1];
    let mut e = w.map(|m| l.enc.encrypt(m, &mut c.rng));
    for k in 0..outputs {
        let g = 1 + c.below(8) as usize;
        let y = gate(&l.eval, g, [&e[0], &e[1], &e[2]]);
        if !l.fits(g, [(w[0], &e[0]), (w[1], &e[1]), (w[2], &e[2])]) {
            c.count("gates whose inputs left the margin, not judged", 1);
            e[k % 3] = l.enc.encrypt(w[k % 3], &mut c.rng);
            continue;
        }
        let want = plain(g, w);
        let d = off(phase(&y, l.sk.lwe_secret_key(), q), want as u128 * (p / 4), q, p);
        c.ok(d.abs() < q as f64 / 8.0 - 1.0, "noise beyond the decryption bound", || format!("{d:.1} of {q} after {}; {name}", GATES[g]));
        let (m, noise) = l.dec.decrypt_with_noise::<bool>(&y);
        c.eq(m, want, "decryption of a gate output", || name.into());
        let near = centered(subm(phase(&y, l.sk.lwe_secret_key(), q), want as u128 * (q / 4), q), q).unsigned_abs();
        c.eq(noise as u128, near, "reported noise", || name.into());
        pool.push(d, v);
        c.seen((name, k, parts(&y).1));
        w[k % 3] = want;
        e[k % 3] = y;
    }
    pool.key(pool.n, v, f);
    let z = pool.score();
    c.ok(z.abs() < LIMIT, "noise level of a shipped set", || format!("variance {:.3} of the predicted {v:.1}, score {z:.2}, {:.0} degrees; {name}", pool.sq / pool.expect, pool.df()));
    c.count("shipped-set errors measured", pool.n as u64);
    c.sample(|| format!("{name}: deviation {:.2}, predicted {:.2} (of {q})", (pool.sq / pool.n).sqrt(), v.sqrt()));
}

/// the reported noise, for every phase
fn report<C: LWEModulusType>(c: &mut Case, name: &'static str) {
    let lq = 3 + c.below((C::BITS as u64 - 3).min(10));
    let q = 1u128 << lq;
    let t = 1u64 << (1 + c.below(lq.min(7)));
    let s = Spec { n: 1 + c.below(20) as usize, q: q as u64, t, sd: 0.3, ring: 16, key: if c.below(2) == 0 { LWESecretKeyType::Binary } else { LWESecretKeyType::Ternary }, steps: Steps::BrMsKs, bits: 1, ..Default::default() };
    let sk: SecretKeyPack<C, DefaultFieldU32> = SecretKeyPack::new(s.params(), &mut c.rng);
    let delta = q / t as u128;
    for ph in 0..q {
        let x = craft(c, &sk, ph, q, 1);
        let (m, noise) = sk.decrypt_with_noise::<u64>(&x);
        let got: u64 = algebra::AsInto::as_into(noise);
        let d = centered(subm(ph, m as u128 * delta % q, q), q).unsigned_abs();
        c.eq(got as u128, d, "reported noise", || format!("phase {ph} q {q} t {t} message {m}; {name}"));
        // the decoded message is a nearest one
        c.ok(2 * d <= delta, "decoded message is not the nearest", || format!("phase {ph} q {q} t {t} message {m}; {name}"));
        c.eq(sk.decrypt::<u64>(&x), m, "two decryptions differ", || format!("phase {ph} q {q} t {t}; {name}"));
    }
    c.count("phases decrypted with noise", q as u64);
    c.seen((lq, t, s.n));
}

fn main() {
    let m = Mon::new("C02");
    macro_rules! sets {
        ($($C:ident, $Q:ident, $name:expr;)*) => {$(
            m.par(concat!("levels ", $name), m.n(8, 64), |c| level::<$C, $Q>(c, $name));
            m.par(concat!("depth ", $name), m.n(8, 64), |c| depth::<$C, $Q>(c, $name));
            m.par(concat!("same ", $name), m.n(6, 64), |c| same::<$C, $Q>(c, $name));
            m.par(concat!("gates ", $name), m.n(6, 64), |c| gates::<$C, $Q>(c, $name));
        )*};
    }
    sets! {
        u16, DefaultFieldU32, "u16, default field";
        u32, DefaultFieldU32, "u32, default field";
        u32, C786433, "u32, p=786433";
        u16, B12289, "u16, p=12289";
        u64, D998M, "u64, u64 p=998244353";
        u64, D50, "u64, 50-bit p";
    }
    macro_rules! rep { ($($C:ident)*) => {$( m.par(concat!("reported noise ", stringify!($C)), m.n(16, 200), |c| report::<$C>(c, stringify!($C))); )*}; }
    rep! { u8 u16 u32 u64 }
    m.par("shipped sets", m.n(8, 80), |c| { let o = if c.thorough() { 400 } else { 80 }; shipped(c, o) });
    m.finish(
        "one parameter set (or gate output of a shipped set) per distinct case; verdicts compare measured errors with the spread predicted from the parameters and the drawn key",
        &["variance verdicts allow seven standard deviations of their statistic, so changes of the level below about 15% are not resolved",
          "parameter sets are those whose predicted noise leaves at least 8.5 standard deviations of room"],
    );
}
