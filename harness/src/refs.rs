//! Independent reference models: plain integer arithmetic, written without the library.
pub fn addm(a: u128, b: u128, m: u128) -> u128 {
    (a % m + b % m) % m // m < 2^127
}
pub fn subm(a: u128, b: u128, m: u128) -> u128 {
    (a % m + m - b % m) % m
}
pub fn negm(a: u128, m: u128) -> u128 {
    (m - a % m) % m
}
/// a*b mod m for m < 2^64
pub fn mulm(a: u128, b: u128, m: u128) -> u128 {
    debug_assert!(m <= 1 << 64);
    (a % m) * (b % m) % m
}
pub fn powm(mut a: u128, mut e: u128, m: u128) -> u128 {
    let mut r = 1 % m;
    a %= m;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, a, m);
        }
        a = mulm(a, a, m);
        e >>= 1;
    }
    r
}
pub fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
pub fn invm(a: u128, m: u128) -> Option<u128> {
    let (mut r0, mut r1) = (m as i128, (a % m) as i128);
    let (mut t0, mut t1) = (0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (t0, t1) = (t1, t0 - q * t1);
    }
    if r0 != 1 {
        return None;
    }
    Some(t0.rem_euclid(m as i128) as u128)
}
/// Deterministic Miller-Rabin for n < 2^64.
pub fn is_prime(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if n % p == 0 {
            return n == p;
        }
    }
    let (mut d, mut s) = (n - 1, 0);
    while d % 2 == 0 {
        d /= 2;
        s += 1;
    }
    'w: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = powm(a as u128, d as u128, n as u128) as u64;
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 1..s {
            x = mulm(x as u128, x as u128, n as u128) as u64;
            if x == n - 1 {
                continue 'w;
            }
        }
        return false;
    }
    true
}
pub fn prev_prime(mut n: u64) -> u64 {
    while !is_prime(n) {
        n -= 1;
    }
    n
}
/// Negacyclic product in Z_p[X]/(X^n+1) by the definition.
pub fn negacyclic(a: &[u128], b: &[u128], p: u128) -> Vec<u128> {
    let n = a.len();
    assert_eq!(n, b.len());
    assert!(p <= 1 << 64);
    let word = |v: &[u128]| -> Vec<u64> { v.iter().map(|&x| (x % p) as u64).collect() };
    let (a, b) = (word(a), word(b));
    // so many products fit the sum, above a remainder
    let room = 1usize << (128 - 2 * (128 - (p - 1).leading_zeros())).min(40);
    let dot = |x: &[u64], y: &[u64]| -> u128 {
        // x[i] * y[len-1-i]
        let mut t = 0u128;
        let k = x.len();
        let mut i = 0;
        while i < k {
            let e = (i + room).min(k);
            for j in i..e {
                t += x[j] as u128 * y[k - 1 - j] as u128;
            }
            t %= p;
            i = e;
        }
        t
    };
    (0..n).map(|k| subm(dot(&a[..=k], &b[..=k]), dot(&a[k + 1..], &b[k + 1..]), p)).collect()
}
/// X^k * a in Z_p[X]/(X^n+1), any k.
pub fn monomul(a: &[u128], k: usize, p: u128) -> Vec<u128> {
    let n = a.len();
    let mut r = vec![0u128; n];
    for i in 0..n {
        let d = (i + k) % (2 * n);
        if d < n {
            r[d] = a[i] % p;
        } else {
            r[d - n] = negm(a[i], p);
        }
    }
    r
}
/// Centered representative of x mod q.
pub fn centered(x: u128, q: u128) -> i128 {
    let x = x % q;
    if x > q / 2 {
        x as i128 - q as i128
    } else {
        x as i128
    }
}

/// Naive evaluation at the roots of X^n + 1 modulo a prime p.
pub struct Dft {
    pub p: u128,
    pub n: usize,
    psi: Vec<u128>,
}
impl Dft {
    pub fn new(n: usize, p: u128) -> Dft {
        let two_n = 2 * n as u128;
        assert!((p - 1) % two_n == 0);
        let psi = (2..p).map(|g| powm(g, (p - 1) / two_n, p)).find(|&r| powm(r, n as u128, p) == p - 1).expect("a root");
        let mut v = vec![1];
        for i in 1..2 * n {
            v.push(mulm(v[i - 1], psi, p));
        }
        Dft { p, n, psi: v }
    }
    pub fn fwd(&self, a: &[u128]) -> Vec<u128> {
        (0..self.n)
            .map(|i| a.iter().enumerate().fold(0, |t, (j, &x)| addm(t, mulm(x, self.psi[(2 * i + 1) * j % (2 * self.n)], self.p), self.p)))
            .collect()
    }
    pub fn inv(&self, a: &[u128]) -> Vec<u128> {
        let k = invm(self.n as u128, self.p).expect("invertible");
        (0..self.n)
            .map(|j| {
                let t = a.iter().enumerate().fold(0, |t, (i, &x)| {
                    let e = (2 * i + 1) * j % (2 * self.n);
                    addm(t, mulm(x, self.psi[(2 * self.n - e) % (2 * self.n)], self.p), self.p)
                });
                mulm(t, k, self.p)
            })
            .collect()
    }
    /// The inverse of a polynomial in the ring, if it has one.
    pub fn recip(&self, a: &[u128]) -> Option<Vec<u128>> {
        let e = self.fwd(a);
        let r: Option<Vec<u128>> = e.iter().map(|&x| invm(x, self.p)).collect();
        Some(self.inv(&r?))
    }
}
/// Solves the square system m x = y modulo a prime; None when singular.
pub fn solve(mut m: Vec<Vec<u128>>, mut y: Vec<Vec<u128>>, p: u128) -> Option<Vec<Vec<u128>>> {
    let n = m.len();
    for i in 0..n {
        let k = (i..n).find(|&k| m[k][i] != 0)?;
        m.swap(i, k);
        y.swap(i, k);
        let r = invm(m[i][i], p)?;
        m[i].iter_mut().for_each(|x| *x = mulm(*x, r, p));
        y[i].iter_mut().for_each(|x| *x = mulm(*x, r, p));
        for k in 0..n {
            if k != i && m[k][i] != 0 {
                let f = m[k][i];
                for j in 0..n {
                    m[k][j] = subm(m[k][j], mulm(f, m[i][j], p), p);
                }
                for j in 0..y[k].len() {
                    y[k][j] = subm(y[k][j], mulm(f, y[i][j], p), p);
                }
            }
        }
    }
    Some(y)
}
