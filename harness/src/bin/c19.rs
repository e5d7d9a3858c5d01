//! C19: AES-128, the counter-mode generator and 128-bit blocks against a software model.
use algebra::utils::{Aes, Block, Prg, AES_SBOX};
use mon::{edge, Case, Mon, R};
use rand::{Rng, RngCore, SeedableRng};
use std::collections::HashSet;

// ---- model: FIPS-197 from the definition, with arithmetic in GF(2^8) ----
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
        b >>= 1;
    }
    r
}
fn sbox() -> [u8; 256] {
    let mut t = [0u8; 256];
    for x in 0..256usize {
        let inv = (0..=255u8).find(|&y| gmul(x as u8, y) == 1).unwrap_or(0);
        let mut s = 0x63u8;
        for k in 0..5 {
            s ^= inv.rotate_left(k);
        }
        t[x] = s;
    }
    t
}
struct Model {
    s: [u8; 256],
    keys: [[u8; 16]; 11],
}
impl Model {
    fn new(s: &[u8; 256], key: [u8; 16]) -> Model {
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rc = 1u8;
        for i in 4..44 {
            let mut t = w[i - 1];
            if i % 4 == 0 {
                t = [s[t[1] as usize] ^ rc, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rc = gmul(rc, 2);
            }
            let p = w[i - 4];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        let mut keys = [[0u8; 16]; 11];
        for r in 0..11 {
            for c in 0..4 {
                keys[r][c * 4..c * 4 + 4].copy_from_slice(&w[r * 4 + c]);
            }
        }
        Model { s: *s, keys }
    }
    fn enc(&self, mut b: [u8; 16]) -> [u8; 16] {
        let xor = |b: &mut [u8; 16], k: &[u8; 16]| b.iter_mut().zip(k).for_each(|(x, y)| *x ^= y);
        xor(&mut b, &self.keys[0]);
        for r in 1..11 {
            let t: Vec<u8> = b.iter().map(|&x| self.s[x as usize]).collect();
            let mut u = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    u[c * 4 + row] = t[((c + row) % 4) * 4 + row];
                }
            }
            if r < 10 {
                for c in 0..4 {
                    let a: [u8; 4] = u[c * 4..c * 4 + 4].try_into().unwrap();
                    for i in 0..4 {
                        u[c * 4 + i] = gmul(a[i], 2) ^ gmul(a[(i + 1) % 4], 3) ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
                    }
                }
            }
            b = u;
            xor(&mut b, &self.keys[r]);
        }
        b
    }
    /// the generator's stream as 32-bit words: AES of 0, 1, 2, ... little-endian
    fn words(&self, n: usize) -> Vec<u32> {
        let mut v = vec![];
        let mut ctr = 0u64;
        while v.len() < n {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&ctr.to_le_bytes());
            v.extend(self.enc(b).chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())));
            ctr += 1;
        }
        v
    }
}
fn word128(r: &mut R) -> [u8; 16] {
    match r.next_u32() % 6 {
        0 => [0; 16],
        1 => [0xff; 16],
        2 => (1u128 << (r.next_u32() % 128)).to_le_bytes(),
        3 => (!(1u128 << (r.next_u32() % 128))).to_le_bytes(),
        4 => edge(r, u128::MAX).to_le_bytes(),
        _ => r.gen(),
    }
}

fn aes(c: &mut Case, s: &[u8; 256]) {
    let key = word128(&mut c.rng);
    let m = Model::new(s, key);
    let a = Aes::new(Block::from(key));
    let ctx = || format!("key {key:02x?}");
    let enc = |b: &[u8; 16]| m.enc(*b);
    for _ in 0..16 {
        let b = word128(&mut c.rng);
        let got: [u8; 16] = a.encrypt_block(Block::new(&b)).into();
        c.eq(got, enc(&b), "aes block", ctx);
        c.seen((key, b));
        c.sample(|| format!("AES key {key:02x?} block {b:02x?} -> {got:02x?}"));
    }
    macro_rules! many {
        ($($n:literal)*) => {$({
            let mut b = [[0u8; 16]; $n];
            b.iter_mut().for_each(|x| *x = word128(&mut c.rng));
            let got = a.encrypt_many_blocks::<$n>(b.map(Block::from)).map(<[u8; 16]>::from);
            c.eq(got.to_vec(), b.iter().map(enc).collect::<Vec<_>>(), "aes array", || format!("{} blocks", $n));
        })*};
    }
    many!(0 1 2 3 4 5 7 8 9 13 16 33);
    // slices of every length at every offset of a larger buffer
    let len = c.idx % 42;
    let off = c.below(9) as usize;
    let buf: Vec<[u8; 16]> = (0..len + off + 9).map(|_| word128(&mut c.rng)).collect();
    let mut blocks: Vec<Block> = buf.iter().map(|&b| Block::from(b)).collect();
    a.encrypt_block_slice(&mut blocks[off..off + len]);
    let got: Vec<[u8; 16]> = blocks.into_iter().map(|b| b.into()).collect();
    let want: Vec<[u8; 16]> = buf.iter().enumerate().map(|(i, b)| if i >= off && i < off + len { enc(b) } else { *b }).collect();
    c.eq(got, want, "aes slice", || format!("length {len} offset {off}"));
    // a copy encrypts alike, and encrypting does not change the cipher
    let a2 = a;
    let b = word128(&mut c.rng);
    c.eq(a2.encrypt_block(Block::from(b)), a.encrypt_block(Block::from(b)), "aes copy", ctx);
    let got: [u8; 16] = a2.encrypt_block(Block::from(b)).into();
    c.eq(got, enc(&b), "aes repeat", ctx);
}

fn prg(c: &mut Case, s: &[u8; 256]) {
    let seed = word128(&mut c.rng);
    let m = Model::new(s, seed);
    let w = m.words(6000);
    let mut at = 0usize;
    let mut g = Prg::from_seed(Block::from(seed));
    let mut other: Option<(Prg, usize)> = None;
    let mut hist = String::new();
    let bytes = |at: usize, n: usize| -> Vec<u8> {
        let k = n.div_ceil(4);
        let mut v: Vec<u8> = w[at..at + k].iter().flat_map(|x| x.to_le_bytes()).collect();
        v.truncate(n);
        v
    };
    let ops = 40 + c.below(200);
    for _ in 0..ops {
        if at + 600 > w.len() {
            break;
        }
        let op = c.below(12);
        let n = match c.below(4) { 0 => c.below(5), 1 => c.below(40), 2 => c.below(200), _ => c.below(520) } as usize;
        hist.push_str(&format!("{op}/{n} "));
        let ctx = || format!("seed {seed:02x?} at word {at} history {hist}");
        match op {
            0 | 1 => { c.eq(g.next_u32(), w[at], "prg next_u32", ctx); at += 1; }
            2 => { c.eq(g.next_u64(), w[at] as u64 | (w[at + 1] as u64) << 32, "prg next_u64", ctx); at += 2; }
            3 | 4 => {
                let mut d = vec![0xa5; n + 3];
                match op { 3 => g.fill_bytes(&mut d[..n]), _ => g.random_bytes(&mut d[..n]) }
                c.eq(&d[n..], &[0xa5; 3][..], "prg writes past the buffer", ctx);
                c.eq(&d[..n], &bytes(at, n)[..], "prg bytes", ctx);
                at += n.div_ceil(4);
            }
            5 => {
                let mut d = vec![0; n];
                c.ok(g.try_fill_bytes(&mut d).is_ok(), "prg try_fill_bytes fails", ctx);
                c.eq(&d[..], &bytes(at, n)[..], "prg try bytes", ctx);
                at += n.div_ceil(4);
            }
            6 => { let b: [u8; 16] = g.random_block().into(); c.eq(&b[..], &bytes(at, 16)[..], "prg block", ctx); at += 4; }
            7 => {
                let k = n / 16;
                let mut d = vec![Block::ZERO; k];
                g.random_blocks(&mut d);
                let got: Vec<u8> = d.iter().flat_map(|b| b.as_ref().to_vec()).collect();
                c.eq(&got[..], &bytes(at, k * 16)[..], "prg blocks", ctx);
                at += k * 4;
            }
            8 => { c.eq(g.random_byte(), w[at] as u8, "prg byte", ctx); at += 1; }
            9 => { c.eq(g.random_bool(), w[at] >> 31 == 1, "prg bool", ctx); at += 1; }
            10 => {
                let mut d = vec![false; n % 50];
                g.random_bools(&mut d);
                let want: Vec<bool> = (0..d.len()).map(|i| w[at + i] >> 31 == 1).collect();
                let k = d.len();
                c.eq(d, want, "prg bools", ctx);
                at += k;
            }
            _ => {
                // swap with an independent copy: clones continue from the same point and do not interfere
                let copy = (g.clone(), at);
                if let Some((o, a)) = other.take() {
                    g = o;
                    at = a;
                }
                other = Some(copy);
            }
        }
    }
    c.count("generator words checked", at as u64);
    c.count("mixed read histories", 1);
    c.seen((seed, hist));
}

fn prg_long(c: &mut Case, s: &[u8; 256]) {
    // a long stream in one piece; no output block repeats, so no counter was reused
    let seed = word128(&mut c.rng);
    let blocks = 20_000;
    let mut g = Prg::from_seed(Block::from(seed));
    let mut seen = HashSet::new();
    let m = Model::new(s, seed);
    for i in 0..blocks as u64 {
        let b: [u8; 16] = g.random_block().into();
        c.ok(seen.insert(b), "prg repeats a block", || format!("block {i}"));
        if i % 97 == 0 || i > 19_990 {
            let mut x = [0; 16];
            x[..8].copy_from_slice(&i.to_le_bytes());
            c.eq(b, m.enc(x), "prg block of a long stream", || format!("seed {seed:02x?} block {i}"));
        }
    }
    c.seen(seed);
    c.count("long-stream blocks", blocks);
    // seeding from another generator
    let k = c.rng.next_u64();
    let mut a = Prg::from_rng(R::seed_from_u64(k)).unwrap();
    let mut b = Prg::from_rng(R::seed_from_u64(k)).unwrap();
    let mut d = Prg::from_rng(R::seed_from_u64(k ^ 1)).unwrap();
    let (x, y, z) = (a.random_block(), b.random_block(), d.random_block());
    c.eq(x, y, "from_rng is not determined by its source", || format!("{k}"));
    c.ok(x != z, "from_rng ignores its source", || format!("{k}"));
    let (mut a, mut b, mut d) = (Prg::seed_from_u64(k), Prg::seed_from_u64(k), Prg::seed_from_u64(k ^ 1));
    let (x, y, z) = (a.random_block(), b.random_block(), d.random_block());
    c.eq(x, y, "seed_from_u64 is not determined by its seed", || format!("{k}"));
    c.ok(x != z, "seed_from_u64 ignores its seed", || format!("{k}"));
    let (x, y, z) = (Prg::new().random_block(), Prg::default().random_block(), Prg::new().random_block());
    c.ok(x != y && y != z && x != z, "fresh generators agree", || "Prg::new".into());
}

fn blocks(c: &mut Case) {
    for _ in 0..200 {
        let (x, y) = (word128(&mut c.rng), word128(&mut c.rng));
        let (u, v) = (u128::from_le_bytes(x), u128::from_le_bytes(y));
        let (a, b) = (Block::from(u), Block::from(v));
        let ctx = || format!("{u:032x} {v:032x}");
        let back = |b: Block| -> u128 { b.into() };
        c.eq(back(a), u, "u128 conversion", ctx);
        c.eq(<[u8; 16]>::from(a), x, "byte conversion", ctx);
        c.eq(<[u64; 2]>::from(a), [u as u64, (u >> 64) as u64], "u64 pair conversion", ctx);
        c.eq(back(Block::from([u as u64, (u >> 64) as u64])), u, "from u64 pair", ctx);
        c.eq(back(Block::from(x)), u, "from bytes", ctx);
        let mut odd = vec![0u8; 40];
        let o = c.below(17) as usize;
        odd[o..o + 16].copy_from_slice(&x);
        c.eq(back(Block::new(odd[o..o + 16].try_into().unwrap())), u, "new from unaligned bytes", ctx);
        c.eq(Block::try_from_slice(&odd[o..o + 16]).map(back), Some(u), "try_from_slice", ctx);
        for n in [0usize, 1, 8, 15, 17, 32] {
            c.ok(Block::try_from_slice(&odd[..n]).is_none(), "try_from_slice takes a wrong length", || format!("{n}"));
        }
        c.eq(back(a ^ b), u ^ v, "xor", ctx);
        c.eq(back(a & b), u & v, "and", ctx);
        c.eq(back(a | b), u | v, "or", ctx);
        let (mut p, mut q, mut r) = (a, a, a);
        p ^= b;
        q &= b;
        r |= b;
        c.eq((back(p), back(q), back(r)), (u ^ v, u & v, u | v), "assigning operators", ctx);
        c.eq(a == b, u == v, "equality", ctx);
        let flip = u ^ 1 << c.below(128);
        c.ok(a != Block::from(flip) && a == Block::from(u), "equality misses a bit", ctx);
        c.eq(format!("{a}"), format!("{u:032X}"), "display", ctx);
        c.eq(format!("{a:?}"), format!("{u:032X}"), "debug", ctx);
        c.eq(a.as_ref(), &x[..], "as_ref", ctx);
        let mut t = a;
        t.as_mut().copy_from_slice(&y);
        c.eq(back(t), v, "as_mut", ctx);
        c.eq((back(Block::ZERO), back(Block::default())), (0, 0), "zero", ctx);
        let k = c.rng.next_u64();
        let (s, t): (Block, u128) = (R::seed_from_u64(k).gen(), R::seed_from_u64(k).gen());
        c.eq(back(s), t, "random block", ctx);
        c.seen((u, v));
    }
}

fn main() {
    let m = Mon::new("C19");
    let s = sbox();
    m.run("published vectors", |c| {
        // FIPS-197 appendix B and C.1
        let v: [([u8; 16], [u8; 16], u128); 2] = [
            (0x2b7e151628aed2a6abf7158809cf4f3cu128.to_be_bytes(), 0x3243f6a8885a308d313198a2e0370734u128.to_be_bytes(), 0x3925841d02dc09fbdc118597196a0b32),
            (0x000102030405060708090a0b0c0d0e0fu128.to_be_bytes(), 0x00112233445566778899aabbccddeeffu128.to_be_bytes(), 0x69c4e0d86a7b0430d8cdb78070b4c55a),
        ];
        for (k, p, want) in v {
            c.eq(Model::new(&s, k).enc(p), want.to_be_bytes(), "the model itself", || "FIPS-197".into());
            let got: [u8; 16] = Aes::new(Block::from(k)).encrypt_block(Block::from(p)).into();
            c.eq(got, want.to_be_bytes(), "FIPS-197 vector", || format!("{k:02x?}"));
            c.seen(k);
        }
        c.eq(AES_SBOX, s, "exported substitution table", || "".into());
    });
    m.par("aes", m.n(1500, 60000), |c| aes(c, &s));
    m.par("generator histories", m.n(600, 20000), |c| prg(c, &s));
    m.par("generator long", m.n(16, 400), |c| prg_long(c, &s));
    m.par("blocks", m.n(200, 4000), blocks);
    m.finish(
        "a distinct (key, block), generator seed with read history, or pair of block values checked against the model",
        &["the x86-64 instruction path is the one that runs here; the aarch64 path cannot be executed",
          "the processor has the AES instructions the library assumes",
          "sequences far below 2^64 generator blocks"],
    );
}
