//! C12: modular arithmetic for every modulus type against integer arithmetic.
use algebra::modulus::*;
use algebra::reduce::*;
use algebra::Bits;
use mon::refs::*;
use mon::{catch, edge, Case, Mon};
use rand::RngCore;

macro_rules! barrett {
    ($name:ident, $T:ty) => {
        mod $name {
            use super::*;
            pub const B: u32 = <$T>::BITS;
            pub const MAXM: u128 = (1u128 << (B - 2)) - 1;

            pub fn modulus(c: &mut Case) -> u128 {
                loop {
                    let m = match c.below(6) {
                        0 => MAXM - c.below(4) as u128,
                        1 => {
                            let k = 1 + c.below(B as u64 - 3) as u32;
                            (1u128 << k).wrapping_add(c.below(3) as u128).wrapping_sub(1)
                        }
                        2 => 2 + c.below(30) as u128,
                        3 => (1u128 << (B / 2)).wrapping_add(c.below(7) as u128).wrapping_sub(3),
                        _ => edge(&mut c.rng, MAXM),
                    };
                    if m >= 2 && m <= MAXM {
                        return m;
                    }
                }
            }

            pub fn word(c: &mut Case, m: u128) -> $T {
                // any word, biased to multiples of the modulus
                match c.below(3) {
                    0 => {
                        let q = edge(&mut c.rng, <$T>::MAX as u128 / m);
                        let v = (q * m).wrapping_add(c.below(3) as u128).wrapping_sub(1);
                        v as $T
                    }
                    _ => edge(&mut c.rng, <$T>::MAX as u128) as $T,
                }
            }

            pub fn single(c: &mut Case, md: BarrettModulus<$T>, x: $T) {
                let m = md.value() as u128;
                let w = x as u128 % m;
                let ctx = || format!("{} x={x} m={m}", stringify!($T));
                c.eq(x.reduce(md) as u128, w, "barrett reduce word", ctx);
                let l: $T = x.lazy_reduce(md);
                c.ok((l as u128) < 2 * m && l as u128 % m == w, "barrett lazy_reduce word", || format!("{} got {l}", ctx()));
                let mut y = x;
                y.reduce_assign(md);
                c.eq(y as u128, w, "barrett reduce_assign word", ctx);
                let mut y = x;
                y.lazy_reduce_assign(md);
                c.ok((y as u128) < 2 * m && y as u128 % m == w, "barrett lazy_reduce_assign word", ctx);
            }
            pub fn double(c: &mut Case, md: BarrettModulus<$T>, lo: $T, hi: $T) {
                let m = md.value() as u128;
                let w = (((hi as u128) << (B - 1)) % m * 2 + lo as u128 % m) % m;
                let ctx = || format!("{} lo={lo} hi={hi} m={m}", stringify!($T));
                c.eq([lo, hi].reduce(md) as u128, w, "barrett reduce [lo,hi]", ctx);
                c.eq((lo, hi).reduce(md) as u128, w, "barrett reduce (lo,hi)", ctx);
                let l: $T = [lo, hi].lazy_reduce(md);
                c.ok((l as u128) < 2 * m && l as u128 % m == w, "barrett lazy_reduce [lo,hi]", || format!("{} got {l}", ctx()));
                let l: $T = (lo, hi).lazy_reduce(md);
                c.ok((l as u128) < 2 * m && l as u128 % m == w, "barrett lazy_reduce (lo,hi)", || format!("{} got {l}", ctx()));
            }
            pub fn pair(c: &mut Case, md: BarrettModulus<$T>, a: $T, b: $T) {
                let m = md.value() as u128;
                let (x, y) = (a as u128, b as u128);
                let ctx = || format!("{} a={a} b={b} m={m}", stringify!($T));
                macro_rules! both {
                    ($f:ident, $g:ident, $want:expr, $sig:expr) => {
                        c.eq(a.$f(b, md) as u128, $want, $sig, ctx);
                        let mut t = a;
                        t.$g(b, md);
                        c.eq(t as u128, $want, concat!($sig, " assign"), ctx);
                    };
                }
                both!(add_reduce, add_reduce_assign, addm(x, y, m), "barrett add");
                both!(sub_reduce, sub_reduce_assign, subm(x, y, m), "barrett sub");
                both!(mul_reduce, mul_reduce_assign, mulm(x, y, m), "barrett mul");
                c.eq(a.neg_reduce(md) as u128, negm(x, m), "barrett neg", ctx);
                let mut t = a;
                t.neg_reduce_assign(md);
                c.eq(t as u128, negm(x, m), "barrett neg assign", ctx);
                let l: $T = a.lazy_mul_reduce(b, md);
                c.ok((l as u128) < 2 * m && l as u128 % m == mulm(x, y, m), "barrett lazy mul", || format!("{} got {l}", ctx()));
                let mut t = a;
                t.lazy_mul_reduce_assign(b, md);
                c.ok((t as u128) < 2 * m && t as u128 % m == mulm(x, y, m), "barrett lazy mul assign", ctx);
            }
            pub fn invs(c: &mut Case, md: BarrettModulus<$T>, a: $T, b: $T) {
                let m = md.value();
                let ctx = || format!("{} a={a} b={b} m={m}", stringify!($T));
                match invm(b as u128, m as u128) {
                    Some(i) => {
                        c.eq(b.inv_reduce(md) as u128, i, "barrett inv", ctx);
                        c.eq(b.inv_reduce(m) as u128, i, "plain inv", ctx);
                        let mut t = b;
                        t.inv_reduce_assign(md);
                        c.eq(t as u128, i, "barrett inv assign", ctx);
                        c.eq(b.try_inv_reduce(m).ok().map(|x| x as u128), Some(i), "try_inv", ctx);
                        let q = mulm(a as u128, i, m as u128);
                        c.eq(a.div_reduce(b, md) as u128, q, "barrett div", ctx);
                        let mut t = a;
                        t.div_reduce_assign(b, md);
                        c.eq(t as u128, q, "barrett div assign", ctx);
                        c.count("inverses", 1);
                    }
                    None => {
                        c.ok(b.try_inv_reduce(m).is_err(), "try_inv of non-unit", ctx);
                        c.ok(catch(|| b.inv_reduce(md)).is_err(), "inv of non-unit", ctx);
                        c.count("non-units", 1);
                    }
                }
            }
            pub fn exps(c: &mut Case, md: BarrettModulus<$T>, a: $T) {
                let m = md.value() as u128;
                macro_rules! e { ($E:ty) => {
                    let e = match c.below(4) { 0 => c.below(20) as $E, 1 => (1 as $E) << c.below(<$E>::BITS as u64), _ => edge(&mut c.rng, <$E>::MAX as u128) as $E };
                    c.eq(a.exp_reduce(e, md) as u128, powm(a as u128, e as u128, m), "barrett exp", || format!("{} {a}^{e} mod {m}", stringify!($T)));
                } }
                e!(u8); e!(u16); e!(u32); e!(u64); e!(u128);
                for e in [0 as u32, 1, 2, 3] {
                    c.eq(a.exp_reduce(e, md) as u128, powm(a as u128, e as u128, m), "barrett exp", || format!("{} {a}^{e} mod {m}", stringify!($T)));
                }
                let k = c.below(100) as u32;
                let mut w = a as u128;
                for _ in 0..k { w = mulm(w, w, m); }
                c.eq(a.exp_power_of_2_reduce(k, md) as u128, w, "barrett exp 2^k", || format!("{a}^(2^{k}) mod {m}"));
            }
            pub fn slices(c: &mut Case, md: BarrettModulus<$T>) {
                let m = md.value() as u128;
                let n = 1 + c.below(9) as usize;
                let v: Vec<$T> = (0..n).map(|_| word(c, m)).collect();
                let mut w = 0u128;
                for x in v.iter().rev() {
                    w = ((w << (B - 1)) % m * 2 + *x as u128 % m) % m;
                }
                c.eq(v.as_slice().reduce(md) as u128, w, "barrett reduce slice", || format!("{} {v:?} m={m}", stringify!($T)));
                let l: $T = v.as_slice().lazy_reduce(md);
                c.ok((l as u128) < 2 * m && l as u128 % m == w, "barrett lazy_reduce slice", || format!("{v:?} m={m} got {l}"));
                // dot product
                let n = match c.below(4) { 0 => c.below(8) as usize, 1 => 16 * (1 + c.below(6)) as usize, _ => c.below(100) as usize };
                let full = c.below(3) == 0;
                let mut v = |c: &mut Case| -> Vec<$T> { (0..n).map(|_| if full { (m - 1) as $T } else { edge(&mut c.rng, m - 1) as $T }).collect() };
                let (x, y) = (v(c), v(c));
                let w = x.iter().zip(&y).fold(0, |s, (a, b)| addm(s, mulm(*a as u128, *b as u128, m), m));
                let g = <$T>::dot_product_reduce(&x, &y, md);
                c.eq(g as u128, w, "barrett dot product", || format!("{} len {n} m={m}", stringify!($T)));
                c.seen((n, m, w));
            }
            pub fn plain(c: &mut Case) {
                // plain integer modulus up to 2^(B-1)
                let m = 1 + edge(&mut c.rng, (1u128 << (B - 1)) - 1);
                let (x, y) = (edge(&mut c.rng, m - 1), edge(&mut c.rng, m - 1));
                let (a, b, mm) = (x as $T, y as $T, m as $T);
                let ctx = || format!("{} a={a} b={b} m={m}", stringify!($T));
                c.eq(a.add_reduce(b, mm) as u128, addm(x, y, m), "plain add", ctx);
                c.eq(a.sub_reduce(b, mm) as u128, subm(x, y, m), "plain sub", ctx);
                c.eq(NegReduce::<$T>::neg_reduce(a, mm) as u128, negm(x, m), "plain neg", ctx);
                let mut t = a; t.add_reduce_assign(b, mm);
                c.eq(t as u128, addm(x, y, m), "plain add assign", ctx);
                let mut t = a; t.sub_reduce_assign(b, mm);
                c.eq(t as u128, subm(x, y, m), "plain sub assign", ctx);
                let mut t = a; NegReduceAssign::<$T>::neg_reduce_assign(&mut t, mm);
                c.eq(t as u128, negm(x, m), "plain neg assign", ctx);
                if m > 1 && m < (1u128 << (B - 1)) {
                    match invm(y, m) {
                        Some(i) => {
                            c.eq(b.inv_reduce(mm) as u128, i, "plain inv", ctx);
                            c.eq(b.try_inv_reduce(mm).ok().map(|v| v as u128), Some(i), "try_inv", ctx);
                        }
                        None => {
                            c.ok(b.try_inv_reduce(mm).is_err(), "try_inv of non-unit", ctx);
                            c.ok(catch(|| b.inv_reduce(mm)).is_err(), "inv of non-unit", ctx);
                        }
                    }
                }
                c.seen((a, b, mm));
                // native wrap-around
                let (a, b) = (edge(&mut c.rng, <$T>::MAX as u128) as $T, edge(&mut c.rng, <$T>::MAX as u128) as $T);
                let (x, y) = (a as u128, b as u128);
                let ctx = || format!("{} a={a} b={b} native", stringify!($T));
                c.eq(a.reduce(()), a, "native reduce", ctx);
                let mut t = a; t.reduce_assign(()); c.eq(t, a, "native reduce assign", ctx);
                c.eq(a.add_reduce(b, ()), x.wrapping_add(y) as $T, "native add", ctx);
                c.eq(a.sub_reduce(b, ()), x.wrapping_sub(y) as $T, "native sub", ctx);
                c.eq(a.mul_reduce(b, ()), x.wrapping_mul(y) as $T, "native mul", ctx);
                c.eq(NegReduce::<()>::neg_reduce(a, ()), 0u128.wrapping_sub(x) as $T, "native neg", ctx);
                let mut t = a; t.add_reduce_assign(b, ()); c.eq(t, x.wrapping_add(y) as $T, "native add assign", ctx);
                let mut t = a; t.sub_reduce_assign(b, ()); c.eq(t, x.wrapping_sub(y) as $T, "native sub assign", ctx);
                let mut t = a; t.mul_reduce_assign(b, ()); c.eq(t, x.wrapping_mul(y) as $T, "native mul assign", ctx);
                let mut t = a; NegReduceAssign::<()>::neg_reduce_assign(&mut t, ()); c.eq(t, 0u128.wrapping_sub(x) as $T, "native neg assign", ctx);
                let e = match c.below(2) { 0 => c.below(70) as u32, _ => c.rng.next_u32() };
                let mut w: u128 = 1; let (mut p, mut k) = (x, e);
                while k > 0 { if k & 1 == 1 { w = w.wrapping_mul(p); } p = p.wrapping_mul(p); k >>= 1; }
                c.eq(a.exp_reduce(e, ()), w as $T, "native exp", || format!("{} {a}^{e}", stringify!($T)));
                if b != 0 {
                    c.eq(a.div_reduce(b, ()), a / b, "native div", ctx);
                    let mut t = a; t.div_reduce_assign(b, ()); c.eq(t, a / b, "native div assign", ctx);
                }
            }
            pub fn shoup(c: &mut Case) {
                let m = 2 + edge(&mut c.rng, (1u128 << (B - 1)) - 2);
                let w = edge(&mut c.rng, m - 1);
                let f = ShoupFactor::<$T>::new(w as $T, m as $T);
                let x = match c.below(2) { 0 => word(c, m), _ => edge(&mut c.rng, <$T>::MAX as u128) as $T };
                shoup1(c, f, w, x, m, "shoup");
                let mut g = ShoupFactor::<$T>::new(0, 2);
                let w2 = edge(&mut c.rng, m - 1);
                g.set(w2 as $T, m as $T);
                shoup1(c, g, w2, x, m, "shoup after set");
                if w2 + 1 < (1u128 << (B - 1)) {
                    let m2 = w2 + 1 + edge(&mut c.rng, (1u128 << (B - 1)) - w2 - 1);
                    if m2 >= 2 {
                        g.set_modulus(m2 as $T);
                        shoup1(c, g, w2, x, m2, "shoup after set_modulus");
                    }
                }
                c.seen((w, x, m));
            }
            fn shoup1(c: &mut Case, f: ShoupFactor<$T>, w: u128, x: $T, m: u128, sig: &str) {
                let want = mulm(w, x as u128, m);
                let mm = m as $T;
                let ctx = || format!("{} w={w} x={x} m={m}", stringify!($T));
                c.eq(f.value() as u128, w, sig, ctx);
                let l = f.mul_reduce_lazy(x, mm);
                c.ok((l as u128) < 2 * m && l as u128 % m == want, sig, || format!("lazy {} got {l}", ctx()));
                c.eq(x.mul_reduce(f, mm) as u128, want, sig, ctx);
                c.eq(f.mul_reduce(x, mm) as u128, want, sig, ctx);
                let mut t = x;
                t.mul_reduce_assign(f, mm);
                c.eq(t as u128, want, sig, ctx);
            }
            pub fn accept(c: &mut Case) {
                for m in [0u128, 1, MAXM + 1, MAXM + 2, <$T>::MAX as u128, (1u128 << (B - 1))] {
                    c.ok(catch(|| BarrettModulus::<$T>::new(m as $T)).is_err(), "barrett accepts unsupported modulus", || format!("{} {m}", stringify!($T)));
                }
                for _ in 0..2000 {
                    let m = modulus(c);
                    let md = BarrettModulus::<$T>::new(m as $T);
                    c.eq(md.value() as u128, m, "barrett value", || format!("{m}"));
                    c.eq(md.bit_count(), 128 - m.leading_zeros(), "barrett bit_count", || format!("{m}"));
                    c.seen(m);
                }
            }
            pub fn all(mon: &Mon) {
                let t = stringify!($T);
                mon.run(&format!("barrett accept {t}"), accept);
                let n = mon.n(4000, 150_000);
                mon.par(&format!("barrett {t}"), 64, |c| {
                    for i in 0..n {
                        let m = modulus(c);
                        let md = BarrettModulus::<$T>::new(m as $T);
                        for _ in 0..4 {
                            let x = word(c, m);
                            single(c, md, x);
                            let (lo, hi) = (word(c, m), word(c, m));
                            double(c, md, lo, hi);
                            let (a, b) = (edge(&mut c.rng, m - 1) as $T, edge(&mut c.rng, m - 1) as $T);
                            pair(c, md, a, b);
                            c.seen((m, x, lo, hi, a, b));
                        }
                        if i % 4 == 0 {
                            let (a, b) = (edge(&mut c.rng, m - 1) as $T, edge(&mut c.rng, m - 1) as $T);
                            invs(c, md, a, b);
                            exps(c, md, a);
                            slices(c, md);
                        }
                        plain(c);
                        shoup(c);
                        c.sample(|| format!("{t} modulus {m} with 4 operand sets"));
                    }
                });
            }
        }
    };
}
barrett!(b8, u8);
barrett!(b16, u16);
barrett!(b32, u32);
barrett!(b64, u64);

fn exhaustive(mon: &Mon) {
    mon.par("barrett exhaustive u8", 62, |c| {
        let m = (c.idx + 2) as u8;
        let md = BarrettModulus::<u8>::new(m);
        for x in 0..=255u8 {
            b8::single(c, md, x);
            for h in 0..=255u8 {
                b8::double(c, md, x, h);
            }
        }
        for a in 0..m {
            for b in 0..m {
                b8::pair(c, md, a, b);
                b8::invs(c, md, a, b);
                c.seen((m, a, b));
            }
            for e in 0..=255u8 {
                c.eq(a.exp_reduce(e, md) as u128, powm(a as u128, e as u128, m as u128), "barrett exp", || format!("{a}^{e} mod {m}"));
            }
        }
        c.count("u8 moduli enumerated completely", 1);
    });
    mon.par("shoup exhaustive u8", 127, |c| {
        let m = (c.idx + 2) as u8;
        for w in 0..m {
            let f = ShoupFactor::<u8>::new(w, m);
            for x in 0..=255u8 {
                let want = (w as u32 * x as u32 % m as u32) as u8;
                let l = f.mul_reduce_lazy(x, m);
                c.ok((l as u32) < 2 * m as u32 && l % m == want, "shoup", || format!("w={w} x={x} m={m} lazy {l}"));
                c.eq(x.mul_reduce(f, m), want, "shoup", || format!("w={w} x={x} m={m}"));
            }
            c.seen((m, w));
        }
    });
    mon.par("plain exhaustive u8", 128, |c| {
        let m = (c.idx + 1) as u8;
        for a in 0..m {
            for b in 0..m {
                let ctx = || format!("a={a} b={b} m={m}");
                c.eq(a.add_reduce(b, m) as u128, addm(a as u128, b as u128, m as u128), "plain add", ctx);
                c.eq(a.sub_reduce(b, m) as u128, subm(a as u128, b as u128, m as u128), "plain sub", ctx);
                let mut t = a;
                t.add_reduce_assign(b, m);
                c.eq(t as u128, addm(a as u128, b as u128, m as u128), "plain add assign", ctx);
                let mut t = a;
                t.sub_reduce_assign(b, m);
                c.eq(t as u128, subm(a as u128, b as u128, m as u128), "plain sub assign", ctx);
                c.seen((m, a, b));
            }
            c.eq(NegReduce::<u8>::neg_reduce(a, m) as u128, negm(a as u128, m as u128), "plain neg", || format!("{a} {m}"));
        }
    });
    let step = mon.n(61, 1);
    mon.par("barrett u16 every modulus", 16382, |c| {
        let m = (c.idx + 2) as u16;
        let md = BarrettModulus::<u16>::new(m);
        let mut x = (c.below(step as u64)) as u32;
        while x < 65536 {
            c.eq((x as u16).reduce(md), (x % m as u32) as u16, "barrett reduce word", || format!("u16 {x} mod {m}"));
            x += step as u32;
        }
        for q in 0..(65536 / m as u32).min(2000) {
            for d in [0, 1, m as u32 - 1] {
                let x = q * m as u32 + d;
                if x < 65536 {
                    c.eq((x as u16).reduce(md), (x % m as u32) as u16, "barrett reduce word", || format!("u16 {x} mod {m}"));
                }
            }
        }
        for _ in 0..40 {
            let (a, b) = (edge(&mut c.rng, m as u128 - 1) as u16, edge(&mut c.rng, m as u128 - 1) as u16);
            b16::pair(c, md, a, b);
            let (lo, hi) = (b16::word(c, m as u128), b16::word(c, m as u128));
            b16::double(c, md, lo, hi);
        }
        c.seen(m);
    });
}

macro_rules! powof2 {
    ($mon:expr, $n:expr, $($T:ty),*) => {$(
        $mon.par(concat!("powof2 ", stringify!($T)), <$T>::BITS as usize - 1, |c| {
            let k = c.idx as u32 + 1;
            let m: $T = 1 << k;
            let md = PowOf2Modulus::<$T>::new(m);
            let mask = m - 1;
            c.eq(md.value(), m, "powof2 value", || format!("{k}"));
            c.eq(md.mask(), mask, "powof2 mask", || format!("{k}"));
            for _ in 0..$n {
                let x = edge(&mut c.rng, <$T>::MAX as u128) as $T;
                let (a, b) = (edge(&mut c.rng, mask as u128) as $T, edge(&mut c.rng, mask as u128) as $T);
                let ctx = || format!("{} x={x} a={a} b={b} m=2^{k}", stringify!($T));
                c.eq(x.reduce(md), x % m, "powof2 reduce", ctx);
                let mut t = x; t.reduce_assign(md); c.eq(t, x % m, "powof2 reduce assign", ctx);
                // exact modulo 2^128, then modulo m
                let w = |v: u128| (v & mask as u128) as $T;
                let (p, q) = (a as u128, b as u128);
                c.eq(a.add_reduce(b, md), w(p.wrapping_add(q)), "powof2 add", ctx);
                c.eq(a.sub_reduce(b, md), w(p.wrapping_sub(q)), "powof2 sub", ctx);
                c.eq(a.mul_reduce(b, md), w(p.wrapping_mul(q)), "powof2 mul", ctx);
                c.eq(a.neg_reduce(md), w(0u128.wrapping_sub(p)), "powof2 neg", ctx);
                let mut t = a; t.add_reduce_assign(b, md); c.eq(t, w(p.wrapping_add(q)), "powof2 add assign", ctx);
                let mut t = a; t.sub_reduce_assign(b, md); c.eq(t, w(p.wrapping_sub(q)), "powof2 sub assign", ctx);
                let mut t = a; t.mul_reduce_assign(b, md); c.eq(t, w(p.wrapping_mul(q)), "powof2 mul assign", ctx);
                let mut t = a; t.neg_reduce_assign(md); c.eq(t, w(0u128.wrapping_sub(p)), "powof2 neg assign", ctx);
                let e = match c.below(3) { 0 => c.below(9), 1 => 1 << c.below(64), _ => c.rng.next_u64() };
                let (mut r, mut s, mut j) = (1u128, p, e);
                while j > 0 { if j & 1 == 1 { r = r.wrapping_mul(s); } s = s.wrapping_mul(s); j >>= 1; }
                c.eq(a.exp_reduce(e, md), w(r), "powof2 exp", || format!("{a}^{e} mod 2^{k}"));
                let j = c.below(70) as u32;
                let mut s = p;
                for _ in 0..j { s = s.wrapping_mul(s); }
                c.eq(a.exp_power_of_2_reduce(j, md), w(s), "powof2 exp 2^k", || format!("{a}^(2^{j}) mod 2^{k}"));
                c.seen((k, x, a, b));
            }
            for _ in 0..20 {
                let n = c.below(70) as usize;
                let x: Vec<$T> = (0..n).map(|_| edge(&mut c.rng, mask as u128) as $T).collect();
                let y: Vec<$T> = (0..n).map(|_| edge(&mut c.rng, mask as u128) as $T).collect();
                let s = x.iter().zip(&y).fold(0u128, |s, (a, b)| s.wrapping_add((*a as u128).wrapping_mul(*b as u128)));
                c.eq(<$T>::dot_product_reduce(&x, &y, md), (s & mask as u128) as $T, "powof2 dot product", || format!("len {n} 2^{k}"));
            }
            for bad in [0 as $T, 1, 3, <$T>::MAX, m | 1] {
                if bad.is_power_of_two() && bad > 1 { continue; }
                c.ok(catch(|| PowOf2Modulus::<$T>::new(bad)).is_err(), "powof2 accepts non power of two", || format!("{bad}"));
            }
        });
    )*};
}

fn main() {
    let mon = Mon::new("C12");
    exhaustive(&mon);
    b8::all(&mon);
    b16::all(&mon);
    b32::all(&mon);
    b64::all(&mon);
    let n = mon.n(500, 20_000);
    powof2!(mon, n, u8, u16, u32, u64, u128);
    let _ = <u8 as Bits>::BITS;
    mon.finish(
        "all 8-bit moduli and operands, every 16-bit Barrett modulus, otherwise moduli biased to the ends of the accepted range, powers of two +-1 and half words, and operands biased to multiples of the modulus, 0 and m-1; distinct by (modulus, operands)",
        &["plain integer moduli are at most 2^(bits-1) so that the sum of two reduced operands is representable", "operands of modular operations are reduced, as their documentation requires"],
    );
}
