//! Statistics used by distribution oracles.  Every verdict is deterministic for a given seed; the
//! thresholds leave a false-alarm chance below 1e-10 per verdict.
/// Standard normal score of a chi-square statistic (Wilson-Hilferty).
pub fn chi2_score(chi2: f64, df: f64) -> f64 {
    let a = 2.0 / (9.0 * df);
    ((chi2 / df).powf(1.0 / 3.0) - (1.0 - a)) / a.sqrt()
}
/// Goodness-of-fit score of observed counts against probabilities; cells with an expectation below 8
/// are merged with their neighbours.  None when fewer than two cells remain.
pub fn fit(counts: &[u64], probs: &[f64]) -> Option<f64> {
    assert_eq!(counts.len(), probs.len());
    let n: u64 = counts.iter().sum();
    let (mut chi, mut cells) = (0.0, 0);
    let (mut o, mut e) = (0.0, 0.0);
    let mut rest = n as f64;
    for i in 0..counts.len() {
        o += counts[i] as f64;
        e += probs[i] * n as f64;
        let left: f64 = rest - e;
        if e >= 8.0 && (left >= 8.0 || i + 1 == counts.len()) {
            chi += (o - e) * (o - e) / e;
            cells += 1;
            rest -= e;
            o = 0.0;
            e = 0.0;
        }
    }
    if e > 1e-9 * n as f64 || o > 0.0 {
        chi += (o - e) * (o - e) / e.max(1e-3);
        cells += 1;
    }
    if cells < 2 {
        return None;
    }
    Some(chi2_score(chi, (cells - 1) as f64))
}
/// Score of a count against a binomial(n, p).
pub fn binom_score(count: u64, n: u64, p: f64) -> f64 {
    (count as f64 - n as f64 * p) / (n as f64 * p * (1.0 - p)).sqrt()
}
/// Standard normal distribution function, to about 1e-12.
pub fn phi(x: f64) -> f64 {
    if x < -9.0 {
        return 0.0;
    }
    if x > 9.0 {
        return 1.0;
    }
    // Taylor series around 0 converges for all |x| <= 9 in double precision on the small side
    if x.abs() < 4.0 {
        let (mut s, mut t, mut k) = (x, x, 1.0);
        while t.abs() > 1e-18 {
            t *= x * x / (2.0 * k + 1.0);
            s += t;
            k += 1.0;
        }
        0.5 + s * (-x * x / 2.0).exp() / (2.0 * std::f64::consts::PI).sqrt()
    } else {
        // continued fraction for the tail
        let a = x.abs();
        let mut f = a;
        for k in (1..200).rev() {
            f = a + k as f64 / f;
        }
        let q = (-a * a / 2.0).exp() / ((2.0 * std::f64::consts::PI).sqrt() * f);
        if x > 0.0 { 1.0 - q } else { q }
    }
}
/// Scores beyond this are violations.
pub const LIMIT: f64 = 7.0;
#[cfg(test)]
mod t {
    #[test]
    fn phi_ok() {
        assert!((super::phi(1.0) - 0.8413447460685429).abs() < 1e-12);
        assert!((super::phi(-5.0) / 2.866515718791939e-7 - 1.0).abs() < 1e-9);
        assert!((super::phi(3.999) - super::phi(4.001)).abs() < 1e-6);
    }
}
