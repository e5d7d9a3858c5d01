//! C18: samplers draw from the distribution they name.
use algebra::utils::{sample_binary_field_vec, sample_cbd_field_vec, sample_ternary_field_vec};
use algebra::{
    Field, FieldBinarySampler, FieldDiscreteGaussianSampler, FieldTernarySampler, FieldUniformSampler, NTTPolynomial, Polynomial,
};
use lattice::{sample_binary_values, sample_ternary_values, BinarySampler, DiscreteGaussian, TernarySampler};
use mon::fields::*;
use mon::stats::*;
use mon::{catch, for_ntt_fields, Case, Mon, R};
use rand::distributions::Distribution;
use rand::{CryptoRng, RngCore, SeedableRng};

/// Feeds chosen words first, then a real generator.
struct Feed {
    first: Vec<u64>,
    at: usize,
    rest: R,
}
impl RngCore for Feed {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.at < self.first.len() {
            self.at += 1;
            return self.first[self.at - 1];
        }
        self.rest.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for ch in d.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            let n = ch.len();
            ch.copy_from_slice(&w[..n]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Feed {}

fn near(c: &mut Case, z: Option<f64>, sig: &str, ctx: impl FnOnce() -> String) {
    match z {
        Some(z) => {
            c.count("distribution fits scored", 1);
            c.ok(z.abs() < LIMIT, sig, || format!("fit score {z:.1} (limit {LIMIT}); {}", ctx()));
        }
        None => c.count("fits with too few cells", 1),
    }
}
/// one-sided: a suspiciously good fit is not a violation
fn gof(c: &mut Case, counts: &[u64], probs: &[f64], sig: &str, ctx: impl FnOnce() -> String) {
    let z = fit(counts, probs).map(|z| z.max(0.0));
    near(c, z, sig, || format!("{}; counts {:?}", ctx(), &counts[..counts.len().min(48)]));
}

/// Values drawn by every uniform entry point must look uniform on 0..p.
fn uniform_verdicts(c: &mut Case, vals: &[u128], p: u128, bits: u32, what: &str, name: &str) {
    let n = vals.len() as u64;
    let bad = vals.iter().find(|&&v| v >= p);
    c.ok(bad.is_none(), "uniform value not reduced", || format!("{what} {name}: {bad:?}"));
    if bad.is_some() {
        return;
    }
    c.count("uniform values drawn", n);
    let ctx = || format!("{what} {name} n={n}");
    // by magnitude
    let cells = p.min(64).min((n / 64).max(2) as u128);
    let mut k = vec![0u64; cells as usize];
    let mut w = vec![0f64; cells as usize];
    for v in vals {
        k[(v * cells / p) as usize] += 1;
    }
    for i in 0..cells {
        // number of residues v with v*cells/p == i
        let lo = (i * p).div_ceil(cells);
        let hi = ((i + 1) * p).div_ceil(cells);
        w[i as usize] = (hi - lo) as f64 / p as f64;
    }
    gof(c, &k, &w, "uniform by magnitude", ctx);
    // by exact residue when the field is small
    if p * 16 <= n as u128 {
        let mut k = vec![0u64; p as usize];
        for v in vals {
            k[*v as usize] += 1;
        }
        gof(c, &k, &vec![1.0 / p as f64; p as usize], "uniform by residue", ctx);
        c.ok(k.iter().all(|&x| x > 0) || (n as f64) < 60.0 * p as f64, "uniform misses a residue", ctx);
    }
    // by low digits
    for m in [2u128, 3, 7, 16] {
        if p > 64 * m {
            let mut k = vec![0u64; m as usize];
            for v in vals {
                k[(v % m) as usize] += 1;
            }
            let w: Vec<f64> = (0..m).map(|i| ((p - i).div_ceil(m)) as f64 / p as f64).collect();
            gof(c, &k, &w, "uniform by low digits", ctx);
        }
    }
    // the bias a multiply-shift without rejection would leave: residues that own one extra word
    let t = 1u128 << bits;
    if p * 64 > t {
        let owns = |v: u128| ((v + 1) * (t / p) + (v + 1) * (t % p) / p + 1) - (v * (t / p) + v * (t % p) / p + 1);
        let small = t / p;
        let extra = vals.iter().filter(|&&v| owns(v) > small).count() as u64;
        let frac = (t % p) as f64 / p as f64;
        if frac > 0.01 && frac < 0.99 {
            c.count("rejection bias scored", 1);
            near(c, Some(binom_score(extra, n, frac)), "uniform skips rejection", ctx);
        }
    }
    // neighbours are independent
    let mut k = vec![0u64; 16];
    let q4 = |v: u128| (v * 4 / p) as usize;
    if p > 1000 {
        for pair in vals.chunks_exact(2) {
            k[q4(pair[0]) * 4 + q4(pair[1])] += 1;
        }
        gof(c, &k, &vec![1.0 / 16.0; 16], "uniform neighbours dependent", ctx);
    }
    if p > 1 << 60 {
        let mut s: Vec<u128> = vals.to_vec();
        s.sort_unstable();
        c.ok(s.windows(2).all(|w| w[0] != w[1]), "uniform repeats values", ctx);
    }
}

fn sample_bits<F: Field>() -> u32 {
    if std::mem::size_of::<F::Value>() <= 4 { 32 } else { 64 }
}

macro_rules! uniform {
    ($F:ty, $name:expr, $m:expr) => {{
        type F = $F;
        let reps = $m.n(8, 160);
        $m.par(concat!("uniform ", $name), reps, |c| {
            let n = 1 << 18;
            let p = V::<F>::p();
            let seed = c.rng.next_u64();
            let vals: Vec<u128> = {
                let mut g = R::seed_from_u64(seed);
                match c.idx % 4 {
                    0 => FieldUniformSampler::<F>::new().sample_iter(&mut g).take(n).map(|x| V::<F>::get(x)).collect(),
                    1 => (0..n).map(|_| V::<F>::get(<F as Field>::random(&mut g))).collect(),
                    2 => V::<F>::back(Polynomial::<F>::random(n, &mut g).as_slice()),
                    _ => NTTPolynomial::<F>::random(n, &mut g).iter().map(|&x| V::<F>::get(x)).collect(),
                }
            };
            let what = ["FieldUniformSampler", "Field::random", "Polynomial::random", "NTTPolynomial::random"][c.idx % 4];
            c.eq(vals.len(), n, "uniform length", || what.into());
            uniform_verdicts(c, &vals, p, sample_bits::<F>(), what, $name);
            // determined by the generator
            let mut g = R::seed_from_u64(seed);
            let again: Vec<u128> = match c.idx % 4 {
                0 => FieldUniformSampler::<F>::default().sample_iter(&mut g).take(64).map(|x| V::<F>::get(x)).collect(),
                1 => (0..64).map(|_| V::<F>::get(<F as Field>::random(&mut g))).collect(),
                2 => V::<F>::back(Polynomial::<F>::random(64, &mut g).as_slice()),
                _ => NTTPolynomial::<F>::random(64, &mut g).iter().map(|&x| V::<F>::get(x)).collect(),
            };
            c.eq(&again[..], &vals[..64], "uniform not a function of the generator", || what.into());
            c.seen((what, seed));
            c.sample(|| format!("{what} over {}: {:?}", $name, &vals[..6]));
        });
        // extremal generator words
        $m.par(concat!("uniform edge words ", $name), $m.n(8, 64), |c| {
            let p = V::<F>::p();
            let t = 1u128 << sample_bits::<F>();
            for _ in 0..500 {
                let base = match c.below(4) { 0 => 0, 1 => t - 1, _ => mon::edge(&mut c.rng, t - 1) };
                let k = c.below(p.min(1 << 40) as u64) as u128;
                // words around the boundary between residues
                let w = if c.below(2) == 0 { base } else { (k * (t / p) + k * (t % p) / p) % t };
                let w = w.wrapping_add(c.below(3) as u128).wrapping_sub(1) & (t - 1);
                let mut g = Feed { first: vec![w as u64], at: 0, rest: R::seed_from_u64(c.rng.next_u64()) };
                let v = V::<F>::get(<F as Field>::random(&mut g));
                c.ok(v < p, "uniform value not reduced", || format!("{} word {w} gave {v}", $name));
                g.at = 0;
                let v = V::<F>::get(FieldUniformSampler::<F>::new().sample(&mut g));
                c.ok(v < p, "uniform value not reduced", || format!("{} word {w} gave {v}", $name));
                c.seen(w);
            }
        });
    }};
}

/// Frequencies per position and agreement between positions of a bulk sampler with a small support.
fn positions(c: &mut Case, rows: &[Vec<u8>], probs: &[f64], what: &str) {
    let n = rows[0].len();
    let ctx = || format!("{what} length {n} over {} draws", rows.len());
    for i in 0..n {
        let mut k = vec![0u64; probs.len()];
        for r in rows {
            k[r[i] as usize] += 1;
        }
        gof(c, &k, probs, "bulk sampler position frequency", || format!("{} position {i}", ctx()));
    }
    let m = probs.len();
    let joint: Vec<f64> = (0..m * m).map(|x| probs[x / m] * probs[x % m]).collect();
    for i in 0..n {
        for j in i + 1..n {
            let mut k = vec![0u64; m * m];
            for r in rows {
                k[r[i] as usize * m + r[j] as usize] += 1;
            }
            gof(c, &k, &joint, "bulk sampler positions dependent", || format!("{} positions {i},{j}", ctx()));
        }
    }
}

macro_rules! small_support {
    ($F:ty, $name:expr, $m:expr) => {{
        type F = $F;
        let class = |v: u128, p: u128| -> Option<u8> {
            if v == 0 { Some(0) } else if v == 1 { Some(1) } else if v == p - 1 { Some(2) } else { None }
        };
        $m.par(concat!("binary and ternary ", $name), $m.n(12, 96), |c| {
            let p = V::<F>::p();
            let n = [0usize, 1, 15, 16, 17, 31, 32, 33, 47, 64, 70, 96][c.idx % 12];
            let reps = 3000;
            let seed = c.rng.next_u64();
            for (what, binary) in [("binary", true), ("ternary", false)] {
                for form in 0..4 {
                    let mut rows = vec![];
                    let mut out_of_support = None;
                    let mut g = R::seed_from_u64(seed ^ form);
                    for _ in 0..if n == 0 { 1 } else { reps } {
                        let v: Vec<u128> = match (binary, form) {
                            (true, 0) => V::<F>::back(&sample_binary_field_vec::<F, _>(n, &mut g)),
                            (true, 1) => V::<F>::unpoly(&Polynomial::<F>::random_with_binary(n, &mut g)),
                            (true, 2) => sample_binary_values::<<F as Field>::Value, _>(n, &mut g).into_iter().map(V::<F>::raw).collect(),
                            (true, _) => V::<F>::unpoly(&Polynomial::<F>::random_with_distribution(n, &mut g, FieldBinarySampler)),
                            (_, 0) => V::<F>::back(&sample_ternary_field_vec::<F, _>(n, &mut g)),
                            (_, 1) => V::<F>::unpoly(&Polynomial::<F>::random_with_ternary(n, &mut g)),
                            (_, 2) => sample_ternary_values::<<F as Field>::Value, _>(V::<F>::val(p), n, &mut g).into_iter().map(V::<F>::raw).collect(),
                            (_, _) => V::<F>::unpoly(&Polynomial::<F>::random_with_distribution(n, &mut g, FieldTernarySampler)),
                        };
                        if v.len() != n {
                            c.fail("bulk sampler length", format!("{what} form {form} asked {n} got {}", v.len()));
                        }
                        let row: Vec<Option<u8>> = v.iter().map(|&x| class(x, p).filter(|&k| !binary || k < 2)).collect();
                        if let Some(i) = row.iter().position(|x| x.is_none()) {
                            out_of_support = Some(v[i]);
                        }
                        rows.push(row.into_iter().map(|x| x.unwrap_or(0)).collect::<Vec<u8>>());
                    }
                    c.ok(out_of_support.is_none(), "value outside the support", || format!("{what} form {form} {}: {out_of_support:?}", $name));
                    if n > 0 {
                        positions(c, &rows, if binary { &[0.5, 0.5] } else { &[0.5, 0.25, 0.25] }, &format!("{what} form {form} {}", $name));
                        c.count("small-support values drawn", (n * reps) as u64);
                    }
                }
            }
            // long draws: no lag repeats
            let mut g = R::seed_from_u64(seed ^ 77);
            let long = 4096 + c.below(4096) as usize;
            for (what, v) in [("binary field", V::<F>::back(&sample_binary_field_vec::<F, _>(long, &mut g))),
                ("ternary field", V::<F>::back(&sample_ternary_field_vec::<F, _>(long, &mut g))),
                ("binary values", sample_binary_values::<<F as Field>::Value, _>(long, &mut g).into_iter().map(V::<F>::raw).collect()),
                ("ternary values", sample_ternary_values::<<F as Field>::Value, _>(V::<F>::val(p), long, &mut g).into_iter().map(V::<F>::raw).collect())] {
                let probs: &[f64] = if what.starts_with('b') { &[0.5, 0.5] } else { &[0.5, 0.25, 0.25] };
                let k = probs.len();
                let row: Vec<usize> = v.iter().filter_map(|&x| class(x, p)).map(|x| x as usize).filter(|&x| x < k).collect();
                if !c.eq(row.len(), long, "value outside the support", || format!("{what} {}", $name)) { continue; }
                for lag in 1..160 {
                    let mut cell = vec![0u64; k * k];
                    for i in 0..long - lag { cell[row[i] * k + row[i + lag]] += 1; }
                    let joint: Vec<f64> = (0..k * k).map(|x| probs[x / k] * probs[x % k]).collect();
                    // overlapping pairs inflate the statistic by at most 2
                    let z = fit(&cell, &joint).map(|z| (z * 0.5).max(0.0));
                    near(c, z, "bulk sampler repeats itself", || format!("{what} {} lag {lag} length {long}: {cell:?}", $name));
                }
            }
            // single draws
            let mut g = R::seed_from_u64(seed);
            let mut kb = [0u64; 2]; let mut kt = [0u64; 3]; let mut kb2 = [0u64; 2]; let mut kt2 = [0u64; 3];
            let ts = TernarySampler::<<F as Field>::Value>::new(V::<F>::val(p));
            for _ in 0..20000 {
                let b = V::<F>::get(<FieldBinarySampler as Distribution<F>>::sample(&FieldBinarySampler, &mut g));
                let t = V::<F>::get(<FieldTernarySampler as Distribution<F>>::sample(&FieldTernarySampler, &mut g));
                let b2 = V::<F>::raw(<BinarySampler as Distribution<<F as Field>::Value>>::sample(&BinarySampler, &mut g));
                let t2 = V::<F>::raw(ts.sample(&mut g));
                let good = b < 2 && b2 < 2 && class(t, p).is_some() && class(t2, p).is_some();
                if !good {
                    c.fail("value outside the support", format!("single {} {b} {b2} {t} {t2}", $name));
                    return;
                }
                kb[b as usize] += 1; kb2[b2 as usize] += 1;
                kt[class(t, p).unwrap() as usize] += 1; kt2[class(t2, p).unwrap() as usize] += 1;
            }
            for k in [kb, kb2] { gof(c, &k, &[0.5, 0.5], "single binary frequency", || $name.into()); }
            for k in [kt, kt2] { gof(c, &k, &[0.5, 0.25, 0.25], "single ternary frequency", || $name.into()); }
            // determined by the generator
            let a = sample_ternary_field_vec::<F, _>(n, &mut R::seed_from_u64(seed));
            let b = sample_ternary_field_vec::<F, _>(n, &mut R::seed_from_u64(seed));
            c.eq(a, b, "bulk sampler not a function of the generator", || $name.into());
            c.seen((n, seed));
        });
    }};
}

/// Verdicts on a sample of a discrete Gaussian cut at `max`.
fn gaussian_verdicts(c: &mut Case, vals: &[i128], mean: f64, sd: f64, max: f64, what: &str) {
    let ctx = || format!("{what} mean {mean} sd {sd} max {max} n={}", vals.len());
    let far = vals.iter().find(|&&v| (v as f64 - mean).abs() > max + 0.5 + 1e-9);
    c.ok(far.is_none(), "gaussian beyond its bound", || format!("{far:?}; {}", ctx()));
    c.count("gaussian values drawn", vals.len() as u64);
    if sd == 0.0 {
        return;
    }
    let lo = (mean - max).round() as i128 - 1;
    let hi = (mean + max).round() as i128 + 1;
    let cut = max / sd;
    let mass = phi(cut) - phi(-cut);
    let cdf = |x: f64| ((phi(((x - mean) / sd).clamp(-cut, cut)) - phi(-cut)) / mass).clamp(0.0, 1.0);
    let width = ((hi - lo + 1) as f64 / 400.0).ceil().max(1.0) as i128;
    let cells = ((hi - lo) / width + 1) as usize;
    let mut k = vec![0u64; cells];
    for &v in vals {
        k[(((v - lo) / width).clamp(0, cells as i128 - 1)) as usize] += 1;
    }
    let w: Vec<f64> = (0..cells as i128).map(|i| cdf((lo + (i + 1) * width) as f64 - 0.5) - cdf((lo + i * width) as f64 - 0.5)).collect();
    gof(c, &k, &w, "gaussian frequencies", ctx);
    let n = vals.len() as f64;
    let m = vals.iter().map(|&v| v as f64 - mean).sum::<f64>() / n;
    // exact moments of the discretised law
    if width == 1 {
        let em: f64 = w.iter().enumerate().map(|(i, p)| p * ((lo + i as i128) as f64 - mean)).sum();
        let ev: f64 = w.iter().enumerate().map(|(i, p)| p * ((lo + i as i128) as f64 - mean - em).powi(2)).sum();
        near(c, Some((m - em) / (ev / n).sqrt()), "gaussian mean", ctx);
        let e4: f64 = w.iter().enumerate().map(|(i, p)| p * ((lo + i as i128) as f64 - mean - em).powi(4)).sum();
        let v = vals.iter().map(|&v| (v as f64 - mean - em).powi(2)).sum::<f64>() / n;
        if ev > 1e-6 && e4 > ev * ev {
            near(c, Some((v - ev) / ((e4 - ev * ev) / n).sqrt()), "gaussian variance", ctx);
        }
    } else if cut >= 6.0 {
        near(c, Some(m / (sd / n.sqrt())), "gaussian mean", ctx);
        let v = vals.iter().map(|&v| (v as f64 - mean).powi(2)).sum::<f64>() / n;
        near(c, Some((v / (sd * sd) - 1.0) / (2.0 / n).sqrt()), "gaussian variance", ctx);
    }
    // order independence: successive signs
    let s: Vec<bool> = vals.iter().map(|&v| (v as f64) > mean).collect();
    let pos = s.iter().filter(|&&b| b).count() as f64 / n;
    let both = s.chunks_exact(2).filter(|w| w[0] == w[1]).count() as u64;
    let p = pos * pos + (1.0 - pos) * (1.0 - pos);
    if p < 0.999 {
        near(c, Some(binom_score(both, n as u64 / 2, p) * 0.9), "gaussian neighbours dependent", ctx);
    }
}
fn center(v: u128, p: u128, mean: f64) -> i128 {
    // representative nearest the mean
    let m = mean.round() as i128;
    let d = (v as i128 - m).rem_euclid(p as i128);
    let d = if d > p as i128 / 2 { d - p as i128 } else { d };
    m + d
}
const SHAPES: [(f64, f64); 14] = [
    (0.0, 3.2), (0.0, 0.5), (0.0, 1.0), (0.0, 6.4), (0.0, 3.1999), (0.0, 19.2), (0.25, 3.2), (10.5, 2.0),
    (-7.75, 3.2), (0.0, 97.3), (300.0, 40.0), (0.0, 1000.0), (5000.0, 300.5), (0.0, 123456.75),
];

macro_rules! gaussian {
    ($F:ty, $name:expr, $m:expr) => {{
        type F = $F;
        let p = V::<F>::p();
        $m.par(concat!("gaussian ", $name), $m.n(SHAPES.len() * 2, SHAPES.len() * 16), |c| {
            let (mean, sd) = SHAPES[c.idx % SHAPES.len()];
            if (mean.abs() + 6.0 * sd + 2.0) * 2.0 > p as f64 {
                return;
            }
            let tight = (c.idx / SHAPES.len()) % 2 == 1;
            let max = if tight { sd * (1.1 + c.below(40) as f64 / 10.0) } else { sd * 6.0 };
            let n = 60000;
            let seed = c.rng.next_u64();
            let fs = if tight { FieldDiscreteGaussianSampler::new_with_max(mean, sd, max) } else { FieldDiscreteGaussianSampler::new(mean, sd) };
            let vs = if tight { DiscreteGaussian::new_with_max_limit(V::<F>::val(p), mean, sd, max) } else { DiscreteGaussian::new(V::<F>::val(p), mean, sd) };
            let (Ok(fs), Ok(vs)) = (fs, vs) else {
                c.fail("valid gaussian parameters rejected", format!("{mean} {sd} {max}"));
                return;
            };
            c.eq((fs.mean(), fs.std_dev(), fs.max_std_dev()), (mean, sd, max), "gaussian accessors", || $name.into());
            c.eq((vs.mean(), vs.std_dev(), vs.max_std_dev()), (mean, sd, max), "gaussian accessors", || $name.into());
            for form in 0..4 {
                let draw = |n: usize| -> Vec<u128> {
                    let mut g = R::seed_from_u64(seed ^ form);
                    match form {
                        0 => (&mut g).sample_it(fs, n).into_iter().map(|x: F| V::<F>::get(x)).collect(),
                        1 => (0..n).map(|_| V::<F>::raw(vs.sample(&mut g))).collect(),
                        2 => V::<F>::unpoly(&Polynomial::<F>::random_with_distribution(n, &mut g, fs)),
                        _ => V::<F>::unntt(&NTTPolynomial::<F>::random_with_distribution(n, &mut g, fs)),
                    }
                };
                let v = draw(n);
                let bad = v.iter().find(|&&x| x >= p).copied();
                c.ok(bad.is_none(), "gaussian value not reduced", || format!("{} {bad:?}", $name));
                let i: Vec<i128> = v.iter().map(|&x| center(x, p, mean)).collect();
                gaussian_verdicts(c, &i, mean, sd, max, concat!("gaussian ", $name));
                c.eq(&draw(32)[..], &v[..32], "gaussian not a function of the generator", || $name.into());
                c.seen((c.idx, form, seed));
            }
            c.sample(|| format!("gaussian mean {mean} sd {sd} max {max} over {}: {n} values from the field, plain and polynomial samplers", $name));
        });
        // the noise polynomials the encryption layers draw
        $m.par(concat!("noise polynomial ", $name), $m.n(12, 120), |c| {
            if p < 64 { return; }
            let sd = [3.2, 1.0, 3.20000001, 2.7][c.idx % 4];
            let Ok(fs) = FieldDiscreteGaussianSampler::new(0.0, sd) else { c.fail("valid gaussian parameters rejected", "noise".into()); return; };
            let mut g = R::seed_from_u64(c.rng.next_u64());
            let lens = [1usize, 2, 7, 64, 1000, 1024];
            let mut all = vec![];
            for k in 0..60 {
                let n = lens[k % lens.len()];
                let q = V::<F>::unpoly(&Polynomial::<F>::random_with_gaussian(n, &mut g, fs));
                c.eq(q.len(), n, "noise polynomial length", || $name.into());
                all.extend(q);
            }
            let i: Vec<i128> = all.iter().map(|&x| center(x, p, 0.0)).collect();
            c.ok(all.iter().all(|&x| x < p), "noise not reduced", || $name.into());
            // 21-bit centred binomial differences are the documented stand-in for 3.2
            c.ok(i.iter().all(|x| x.abs() <= 21), "noise beyond its bound", || $name.into());
            let n = i.len() as f64;
            let m = i.iter().sum::<i128>() as f64 / n;
            let v = i.iter().map(|&x| (x as f64).powi(2)).sum::<f64>() / n;
            near(c, Some(m / (v / n).sqrt()), "noise mean", || $name.into());
            // variance sd^2 plus rounding, or 10.5 for the binomial stand-in: both lie in [0.98, 1.15] of sd^2 + 1/12
            let want = sd * sd + 1.0 / 12.0;
            c.ok(v > want * 0.92 && v < want * 1.13, "noise spread", || format!("{} sd {sd}: variance {v} expected about {want}", $name));
            c.seen((sd.to_bits(), c.idx));
        });
        $m.par(concat!("centred binomial ", $name), $m.n(4, 32), |c| {
            if p < 64 { return; }
            let mut g = R::seed_from_u64(c.rng.next_u64());
            let v = V::<F>::back(&sample_cbd_field_vec::<F, _>(200_000, &mut g));
            c.ok(v.iter().all(|&x| x < p), "centred binomial not reduced", || $name.into());
            let i: Vec<i128> = v.iter().map(|&x| center(x, p, 0.0)).collect();
            let mut k = vec![0u64; 43];
            for x in &i {
                if x.abs() > 21 { c.fail("centred binomial beyond its bound", format!("{x}")); return; }
                k[(x + 21) as usize] += 1;
            }
            let mut bin = vec![0f64; 43];
            let mut t = 1f64;
            for j in 0..=42usize { bin[j] = t / 2f64.powi(42); t *= (42 - j) as f64 / (j + 1) as f64; }
            gof(c, &k, &bin, "centred binomial frequencies", || $name.into());
            let s = i.chunks_exact(2).filter(|w| (w[0] > 0) == (w[1] > 0)).count() as u64;
            let q = bin[22..].iter().sum::<f64>();
            near(c, Some(binom_score(s, 100_000, q * q + (1.0 - q) * (1.0 - q))), "centred binomial neighbours dependent", || $name.into());
            c.count("centred binomial values drawn", v.len() as u64);
            for n in 0..40 { c.eq(sample_cbd_field_vec::<F, _>(n, &mut g).len(), n, "centred binomial length", || $name.into()); }
            c.seen(c.idx);
        });
    }};
}
trait SampleIt {
    fn sample_it<F: Field, D: Distribution<F>>(self, d: D, n: usize) -> Vec<F>;
}
impl SampleIt for &mut R {
    fn sample_it<F: Field, D: Distribution<F>>(self, d: D, n: usize) -> Vec<F> {
        (0..n).map(|_| d.sample(self)).collect()
    }
}

fn parameters(c: &mut Case) {
    let bad = [(0.0, -1.0), (0.0, -1e-9), (0.0, f64::INFINITY), (0.0, f64::NAN), (0.0, f64::NEG_INFINITY), (5.0, -3.2)];
    for (mean, sd) in bad {
        c.ok(FieldDiscreteGaussianSampler::new(mean, sd).is_err(), "invalid gaussian accepted", || format!("field new({mean},{sd})"));
        c.ok(DiscreteGaussian::<u32>::new(97, mean, sd).is_err(), "invalid gaussian accepted", || format!("new({mean},{sd})"));
        c.ok(FieldDiscreteGaussianSampler::new_with_max(mean, sd, 100.0).is_err(), "invalid gaussian accepted", || format!("field max({mean},{sd})"));
        c.ok(DiscreteGaussian::<u32>::new_with_max_limit(97, mean, sd, 100.0).is_err(), "invalid gaussian accepted", || format!("max({mean},{sd})"));
        c.seen((mean.to_bits(), sd.to_bits()));
    }
    for (sd, max) in [(3.2, 3.2), (3.2, 1.0), (3.2, 0.0), (3.2, -20.0), (1.0, f64::NEG_INFINITY)] {
        c.ok(FieldDiscreteGaussianSampler::new_with_max(0.0, sd, max).is_err(), "bound within one deviation accepted", || format!("{sd} {max}"));
        c.ok(DiscreteGaussian::<u64>::new_with_max_limit(97, 0.0, sd, max).is_err(), "bound within one deviation accepted", || format!("{sd} {max}"));
        c.seen((sd.to_bits(), max.to_bits()));
    }
    // a spread of zero is the constant mean
    for mean in [0.0, 3.0, -4.0] {
        let want = if mean < 0.0 { 97 - (-mean) as u128 } else { mean as u128 };
        let mut g = R::seed_from_u64(1);
        match FieldDiscreteGaussianSampler::new(mean, 0.0) {
            Ok(s) => { let v: B97 = s.sample(&mut g); c.eq(V::<B97>::get(v), want, "zero spread", || format!("{mean}")); }
            Err(_) => c.count("zero spread rejected", 1),
        }
        match DiscreteGaussian::<u32>::new(97, mean, 0.0) {
            Ok(s) => { c.eq(s.sample(&mut g) as u128, want, "zero spread", || format!("{mean}")); }
            Err(_) => c.count("zero spread rejected", 1),
        }
    }
    let e = catch(|| FieldDiscreteGaussianSampler::new(0.0, f64::MAX).is_ok());
    c.ok(e.is_ok(), "constructor panics", || format!("{e:?}"));
}

fn main() {
    let m = Mon::new("C18");
    m.run("parameters", parameters);
    for_ntt_fields!(uniform, m);
    uniform!(A2, "u8 p=2", m);
    uniform!(A3, "u8 p=3", m);
    uniform!(CTwo, "u32 p=2", m);
    for_ntt_fields!(gaussian, m);
    small_support!(A5, "u8 p=5", m);
    small_support!(B12289, "u16 p=12289", m);
    small_support!(DefaultFieldU32, "u32 default field", m);
    small_support!(DMax, "u64 p=4611686018427387847", m);
    m.finish(
        "a distinct (sampler, parameters, generator seed) or generator word whose draws were scored",
        &["distribution verdicts are goodness-of-fit scores with a limit of 7 standard deviations; biases too small for the sample sizes are not seen",
          "the field is wider than twice the Gaussian's reach, and means are finite",
          "the centred-binomial stand-in used for deviation 3.2 has variance 10.5 instead of 10.24"],
    );
}
