//! C13: the BabyBear (Montgomery) and Goldilocks moduli against integers modulo their primes.
use algebra::modulus::*;
use algebra::reduce::*;
use mon::refs::*;
use mon::{catch, edge, Case, Mon};
use rand::RngCore;

const BP: u128 = 0x7800_0001;
const GP: u128 = 0xFFFF_FFFF_0000_0001;
const M: BabyBearModulus = BabyBearModulus;
const G: GoldilocksModulus = GoldilocksModulus;

/// decode by the definition of Montgomery form: value * 2^-32
fn dec(x: u32) -> u128 {
    mulm(x as u128, 943718400, BP)
}

fn bb_pair(c: &mut Case, a: u32, b: u32) {
    let (x, y) = (dec(a), dec(b));
    let ctx = || format!("monty a={a} b={b} (values {x},{y})");
    macro_rules! chk {
        ($sig:expr, $want:expr, $f:ident, $g:ident) => {{
            let want = $want;
            let r: u32 = a.$f(b, M);
            c.ok((r as u128) < BP && dec(r) == want, $sig, || format!("{} got {r} ({}) want {want}", ctx(), dec(r)));
            let mut t = a;
            t.$g(b, M);
            c.eq(t, r, concat!($sig, " in place"), ctx);
        }};
    }
    chk!("babybear add", addm(x, y, BP), add_reduce, add_reduce_assign);
    chk!("babybear sub", subm(x, y, BP), sub_reduce, sub_reduce_assign);
    chk!("babybear mul", mulm(x, y, BP), mul_reduce, mul_reduce_assign);
    if b != 0 && c.evals_hint() % 4 == 0 {
        chk!("babybear div", mulm(x, invm(y, BP).unwrap(), BP), div_reduce, div_reduce_assign);
    }
    c.seen((a, b));
}

fn bb_one(c: &mut Case, a: u32, heavy: bool) {
    let x = dec(a);
    let ctx = || format!("monty a={a} (value {x})");
    c.eq(from_monty(a) as u128, x, "babybear from_monty", ctx);
    c.eq(to_monty(x as u32), a, "babybear to_monty", ctx);
    let n = a.neg_reduce(M);
    c.ok((n as u128) < BP && dec(n) == negm(x, BP), "babybear neg", || format!("{} got {n}", ctx()));
    let mut t = a;
    t.neg_reduce_assign(M);
    c.eq(t, n, "babybear neg in place", ctx);
    if !heavy {
        return;
    }
    match a.try_inv_reduce(M) {
        Ok(i) => {
            c.ok((i as u128) < BP && mulm(dec(i), x, BP) == 1, "babybear inverse", || format!("{} got {i}", ctx()));
            c.eq(a.inv_reduce(M), i, "babybear inv forms", ctx);
            let mut t = a;
            t.inv_reduce_assign(M);
            c.eq(t, i, "babybear inv forms", ctx);
        }
        Err(_) => {
            c.ok(a == 0, "babybear inverse missing", ctx);
            c.ok(catch(|| a.inv_reduce(M)).is_err(), "babybear inverse of zero", ctx);
            c.count("inverses of zero refused", 1);
        }
    }
}

fn bb_exp(c: &mut Case, a: u32) {
    let x = dec(a);
    macro_rules! e {
        ($($E:ty),*) => {$(
            let k = edge(&mut c.rng, <$E>::MAX as u128) as $E;
            let r = a.exp_reduce(k, M);
            let want = powm(x, k as u128, BP);
            c.ok((r as u128) < BP && dec(r) == want, if k == 0 && r == 1 { "babybear exp 0" } else { "babybear exp" }, || format!("monty {a} exponent {k} {}: got {r} ({}) want {want}", stringify!($E), dec(r)));
            c.seen((a, k));
        )*};
    }
    e!(u8, u16, u32, u64, usize);
    for k in [0u32, 1, 2, 31, 40] {
        let r = a.exp_power_of_2_reduce(k, M);
        c.eq(dec(r), powm(x, 1u128 << k, BP), "babybear exp pow2", || format!("monty {a} 2^{k}"));
    }
}

fn gold_ops(c: &mut Case, a: u64, b: u64) {
    let (x, y) = (a as u128 % GP, b as u128 % GP);
    let ctx = || format!("a={a:#x} b={b:#x}");
    if a as u128 >= GP || b as u128 >= GP {
        c.count("goldilocks non-canonical operands", 1);
    }
    macro_rules! chk {
        ($sig:expr, $want:expr, $f:ident, $g:ident) => {{
            let r: u64 = a.$f(b, G);
            c.eq(r as u128 % GP, $want, $sig, ctx);
            let mut t = a;
            t.$g(b, G);
            c.eq(t as u128 % GP, $want, concat!($sig, " in place"), ctx);
        }};
    }
    chk!("goldilocks add", addm(x, y, GP), add_reduce, add_reduce_assign);
    chk!("goldilocks sub", subm(x, y, GP), sub_reduce, sub_reduce_assign);
    chk!("goldilocks mul", mulm(x, y, GP), mul_reduce, mul_reduce_assign);
    c.seen((a, b));
}

fn gold_one(c: &mut Case, a: u64) {
    let x = a as u128 % GP;
    let ctx = || format!("a={a:#x}");
    c.eq(a.neg_reduce(G) as u128 % GP, negm(x, GP), "goldilocks neg", ctx);
    let mut t = a;
    t.neg_reduce_assign(G);
    c.eq(t as u128 % GP, negm(x, GP), "goldilocks neg in place", ctx);
    c.eq(a.reduce(G) as u128, x, "goldilocks reduce", ctx);
    let mut t = a;
    t.reduce_assign(G);
    c.eq(t as u128, x, "goldilocks reduce in place", ctx);
    c.eq(to_canonical_u64(a) as u128, x, "goldilocks canonical", ctx);
    match a.try_inv_reduce(G) {
        Ok(i) => {
            c.eq(mulm(i as u128 % GP, x, GP), 1, "goldilocks inverse", ctx);
            c.eq(a.inv_reduce(G) as u128 % GP, i as u128 % GP, "goldilocks inv forms", ctx);
            let mut t = a;
            t.inv_reduce_assign(G);
            c.eq(t as u128 % GP, i as u128 % GP, "goldilocks inv forms", ctx);
        }
        Err(_) => {
            c.ok(x == 0, "goldilocks inverse missing", ctx);
            c.ok(catch(|| a.inv_reduce(G)).is_err(), "goldilocks inverse of zero", ctx);
        }
    }
}

fn gold_exp(c: &mut Case, a: u64) {
    let x = a as u128 % GP;
    macro_rules! e {
        ($($E:ty),*) => {$(
            let k = edge(&mut c.rng, <$E>::MAX as u128) as $E;
            let r = a.exp_reduce(k, G);
            c.eq(r as u128 % GP, powm(x, k as u128, GP), "goldilocks exp", || format!("{a:#x} exponent {k} {}", stringify!($E)));
        )*};
    }
    e!(u8, u16, u32, u64, usize);
    for k in [0u32, 1, 2, 32, 63, 70] {
        let mut w = x;
        for _ in 0..k {
            w = mulm(w, w, GP);
        }
        c.eq(a.exp_power_of_2_reduce(k, G) as u128 % GP, w, "goldilocks exp pow2", || format!("{a:#x} 2^{k}"));
    }
}

/// representation close to the places where carries and corrections happen
fn gv(c: &mut Case) -> u64 {
    match c.below(6) {
        0 => (GP as u64).wrapping_add(c.below(9)).wrapping_sub(4),
        1 => u64::MAX - c.below(5),
        2 => (c.rng.next_u32() as u64) << 32 | [0, 1, u32::MAX as u64, u32::MAX as u64 - 1][c.below(4) as usize],
        3 => GP as u64 + c.below(u32::MAX as u64),
        4 => [0, 1, 2, 3, 0xFFFF_FFFF, 0x1_0000_0000, 0x1_0000_0001, GP as u64 - 1][c.below(8) as usize],
        _ => edge(&mut c.rng, u64::MAX as u128) as u64,
    }
}

trait Hint { fn evals_hint(&mut self) -> u64; }
impl Hint for Case<'_> {
    fn evals_hint(&mut self) -> u64 { self.below(8) }
}

fn main() {
    let mon = Mon::new("C13");
    mon.run("constants", |c| {
        c.eq(mulm(1u128 << 32, 943718400, BP), 1, "self test", || "2^-32".into());
        c.eq(BABY_BEAR_P as u128, BP, "babybear modulus", || String::new());
        c.eq(GOLDILOCKS_P as u128, GP, "goldilocks modulus", || String::new());
        for (k, v) in [(MONTY_ZERO, 0), (MONTY_ONE, 1), (MONTY_TWO, 2), (MONTY_NEG_ONE, BP - 1)] {
            c.eq(dec(k), v, "babybear constants", || format!("{k}"));
        }
        for x in [0u32, 1, BP as u32 - 1, BP as u32, BP as u32 + 1, u32::MAX, u32::MAX - 1] {
            c.eq(dec(to_monty(x)), x as u128 % BP, "babybear to_monty any word", || format!("{x}"));
        }
        let r = MONTY_ONE.exp_reduce(0u32, M);
        c.eq(r, MONTY_ONE, if r == 1 { "babybear exp 0" } else { "babybear exp" }, || "exponent 0 must give the field's one".into());
        c.seen(0);
    });
    let full = mon.thorough;
    mon.par("babybear unary", 512, |c| {
        let stride = if full { 512 } else { 512 * 131 };
        let mut a = c.idx as u128;
        let mut i = 0u64;
        while a < BP {
            bb_one(c, a as u32, i % 64 == 0);
            a += stride;
            i += 1;
        }
        for d in 0..64 {
            bb_one(c, ((BP / 512 * c.idx as u128 + d) % BP) as u32, true);
            bb_one(c, (BP - 1 - d) as u32, true);
            bb_one(c, d as u32, true);
        }
        c.seen(c.idx);
    });
    let n = mon.n(12_000, 600_000);
    mon.par("babybear pairs", 64, |c| {
        for _ in 0..n {
            let (a, b) = (edge(&mut c.rng, BP - 1) as u32, edge(&mut c.rng, BP - 1) as u32);
            bb_pair(c, a, b);
        }
        for _ in 0..n / 40 {
            let a = edge(&mut c.rng, BP - 1) as u32;
            bb_exp(c, a);
            let x = c.rng.next_u32();
            c.eq(dec(to_monty(x)), x as u128 % BP, "babybear to_monty any word", || format!("{x}"));
        }
        for len in (0..40).chain([100, 255]) {
            let a: Vec<u32> = (0..len).map(|_| edge(&mut c.rng, BP - 1) as u32).collect();
            let b: Vec<u32> = (0..len).map(|_| edge(&mut c.rng, BP - 1) as u32).collect();
            let w = a.iter().zip(&b).fold(0, |s, (&x, &y)| addm(s, mulm(dec(x), dec(y), BP), BP));
            c.eq(dec(u32::dot_product_reduce(&a, &b, M)), w, "babybear dot product", || format!("len {len} {a:?} {b:?}"));
        }
        c.sample(|| format!("{n} operand pairs, {} exponents, dot products of length 0..40", n / 40));
    });
    let n = mon.n(20_000, 1_000_000);
    mon.par("goldilocks pairs", 64, |c| {
        for i in 0..n {
            let (a, b) = (gv(c), gv(c));
            gold_ops(c, a, b);
            if i % 8 == 0 {
                gold_one(c, a);
                if b as u128 % GP != 0 {
                    let w = mulm(a as u128 % GP, powm(b as u128 % GP, GP - 2, GP), GP);
                    c.eq(a.div_reduce(b, G) as u128 % GP, w, "goldilocks div", || format!("{a:#x} {b:#x}"));
                    let mut t = a;
                    t.div_reduce_assign(b, G);
                    c.eq(t as u128 % GP, w, "goldilocks div in place", || format!("{a:#x} {b:#x}"));
                }
                gold_exp(c, a);
            }
        }
        for len in (0..40).chain([100, 255]) {
            let a: Vec<u64> = (0..len).map(|_| gv(c)).collect();
            let b: Vec<u64> = (0..len).map(|_| gv(c)).collect();
            let w = a.iter().zip(&b).fold(0, |s, (&x, &y)| addm(s, mulm(x as u128, y as u128, GP), GP));
            c.eq(u64::dot_product_reduce(&a, &b, G) as u128 % GP, w, "goldilocks dot product", || format!("len {len} {a:?} {b:?}"));
        }
    });
    // every pair among the edge representations, then straight-line programs over the operations' own outputs
    mon.run("goldilocks edge square", |c| {
        let mut e: Vec<u64> = vec![];
        for base in [0u64, 0xFFFF_FFFF, 1 << 32, 1 << 63, GP as u64, u64::MAX, GP as u64 / 2, 0xFFFF_FFFE_0000_0000] {
            for d in -5i64..=5 {
                e.push(base.wrapping_add(d as u64));
            }
        }
        for &a in &e {
            gold_one(c, a);
            gold_exp(c, a);
            for &b in &e {
                gold_ops(c, a, b);
            }
        }
    });
    mon.run("babybear edge square", |c| {
        let mut e: Vec<u32> = vec![];
        for base in [0u128, BP, BP / 2, 1 << 27, 1 << 31, to_monty(BP as u32 - 1) as u128] {
            for d in 0..11 {
                e.push(((base + BP + d - 5) % BP) as u32);
            }
        }
        for &a in &e {
            bb_one(c, a, true);
            bb_exp(c, a);
            for &b in &e {
                bb_pair(c, a, b);
            }
        }
    });
    let n = mon.n(300, 20_000);
    mon.par("goldilocks programs", 64, |c| {
        for _ in 0..n {
            let mut reg: Vec<(u64, u128)> = (0..4).map(|_| { let v = gv(c); (v, v as u128 % GP) }).collect();
            let mut trace = vec![];
            for _ in 0..40 {
                let (i, j, k, op) = (c.below(4) as usize, c.below(4) as usize, c.below(4) as usize, c.below(6));
                let ((a, x), (b, y)) = (reg[i], reg[j]);
                reg[k] = match op {
                    0 => (a.add_reduce(b, G), addm(x, y, GP)),
                    1 => (a.sub_reduce(b, G), subm(x, y, GP)),
                    2 => (a.mul_reduce(b, G), mulm(x, y, GP)),
                    3 => (a.neg_reduce(G), negm(x, GP)),
                    4 => { let e = (b & 0x3ff) as u32; (a.exp_reduce(e, G), powm(x, e as u128, GP)) }
                    _ => (a.add_reduce(a, G), addm(x, x, GP)),
                };
                trace.push((op, i, j, k));
                if !c.eq(reg[k].0 as u128 % GP, reg[k].1, "goldilocks program", || format!("{trace:?}")) {
                    break;
                }
                if reg[k].0 as u128 >= GP {
                    c.count("non-canonical intermediate results", 1);
                }
                c.seen(reg[k].0);
            }
        }
    });
    mon.finish(
        "operands biased to carry and correction boundaries, all pairs of edge representations, programs over the operations' own (possibly non-canonical) outputs, dot products of every length 0..40; thorough: every BabyBear residue; distinct by operand pair",
        &["Montgomery form is decoded by multiplication with 2^-32 mod p, not by the library"],
    );
}
