//! Keys, evaluator and oracle for the gate-level monitors.
use crate::fhe::{lwe, phase, sign};
use crate::refs::*;
use crate::Case;
use algebra::{AsInto, NTTField};
use fhe_core::*;
use lattice::LWE;
use rand::RngCore;
use zkfhe::bfhe::Evaluator;
use zkfhe::{Decryptor, Encryptor, KeyGen};

pub struct Lab<C: LWEModulusType, Q: NTTField> {
    pub sk: SecretKeyPack<C, Q>,
    pub enc: Encryptor<C, Q>,
    pub dec: Decryptor<C, Q>,
    pub eval: Evaluator<C, Q>,
    pub q: u128,
    pub ring: usize,
    pub text: String,
    /// gate outputs may leave the margin of a following gate, so every gate's inputs are looked at first
    pub tight: bool,
}
pub fn lab<C: LWEModulusType, Q: NTTField>(c: &mut Case, p: Parameters<C, Q>, text: String) -> Lab<C, Q> {
    let sk = KeyGen::generate_secret_key(p, &mut c.rng);
    let eval = Evaluator::new(&sk, &mut c.rng);
    c.count("key sets", 1);
    let q: u64 = p.lwe_cipher_modulus_value().as_into();
    Lab { enc: Encryptor::new(sk.clone()), dec: Decryptor::new(sk.clone()), eval, q: q as u128, ring: p.ring_dimension(), sk, text, tight: false }
}
pub const GATES: [&str; 9] = ["not", "nand", "and", "or", "nor", "xor", "xnor", "majority", "mux"];
pub fn plain(g: usize, x: [bool; 3]) -> bool {
    let [a, b, c] = x;
    match g {
        0 => !a,
        1 => !(a && b),
        2 => a && b,
        3 => a || b,
        4 => !(a || b),
        5 => a != b,
        6 => a == b,
        7 => (a as u8 + b as u8 + c as u8) >= 2,
        _ => if a { b } else { c },
    }
}
pub fn gate<C: LWEModulusType, Q: NTTField>(e: &Evaluator<C, Q>, g: usize, x: [&LWE<C>; 3]) -> LWE<C> {
    let [a, b, c] = x;
    match g {
        0 => e.not(a),
        1 => e.nand(a, b),
        2 => e.and(a, b),
        3 => e.or(a, b),
        4 => e.nor(a, b),
        5 => e.xor(a, b),
        6 => e.xnor(a, b),
        7 => e.majority(a, b, c),
        _ => e.mux(a, b, c),
    }
}
impl<C: LWEModulusType, Q: NTTField> Lab<C, Q> {
    /// the oracle: library decryption into several message types, and an independent phase
    pub fn judge(&self, c: &mut Case, g: usize, y: &LWE<C>, want: bool, what: &'static str, from: impl Fn() -> String) {
        let ctx = || format!("{} {what} {}; {}", GATES[g], from(), self.text);
        let p = phase(y, self.sk.lwe_secret_key(), self.q);
        let far = centered(subm(p, want as u128 * (self.q / 4), self.q), self.q);
        c.ok(far.unsigned_abs() < (self.q / 8).max(1), &format!("wrong {} ({what})", GATES[g]), || format!("phase {p} of {}, expected {want}; {}", self.q, ctx()));
        let got: u8 = self.dec.decrypt(y);
        c.eq(got, want as u8, "decryption of a gate output", ctx);
        match c.below(4) {
            0 => { let d = catchb(|| self.dec.decrypt::<bool>(y)); c.eq(d, Some(want), "decryption of a gate output", ctx); }
            1 => { c.eq(self.dec.decrypt::<u64>(y), want as u64, "decryption of a gate output", ctx); }
            2 => { c.eq(self.dec.decrypt_with_noise::<u32>(y).0, want as u32, "decryption of a gate output", ctx); }
            _ => {}
        }
        c.count(COUNTS[g], 1);
    }
    /// how far the phase is from the bit's place
    pub fn error(&self, x: (bool, &LWE<C>)) -> i128 {
        centered(subm(phase(x.1, self.sk.lwe_secret_key(), self.q), x.0 as u128 * (self.q / 4), self.q), self.q)
    }
    /// whether the errors of these inputs leave the gate its margin
    pub fn fits(&self, g: usize, x: [(bool, &LWE<C>); 3]) -> bool {
        let q = self.q as f64;
        let e = x.map(|x| self.error(x) as f64);
        let n = self.sk.lwe_secret_key().iter().filter(|&&k| sign(k) != 0).count() as f64;
        let two_n = 2.0 * self.ring as f64;
        let entry = if q > two_n { (8.0 * ((1.0 + n) / 12.0).sqrt() + 1.0) * q / two_n } else { 1.0 };
        let sum = |e: f64| e.abs() < q / 8.0 - entry;
        match g {
            0 => true,
            1..=4 => sum(e[0] + e[1]),
            5 | 6 => (2.0 * (e[0] - e[1])).abs() < q / 4.0 - entry,
            7 => sum(e[0] + e[1] + e[2]),
            _ => {
                let nc = self.eval.not(x[0].1);
                let (c0, c1, c2) = (x[0], x[1], x[2]);
                let t0 = self.eval.and(c0.1, c1.1);
                let t1 = self.eval.and(&nc, c2.1);
                self.fits(2, [c0, c1, c1]) && self.fits(2, [(!c0.0, &nc), c2, c2])
                    && self.fits(3, [(c0.0 && c1.0, &t0), (!c0.0 && c2.0, &t1), c2])
            }
        }
    }
    /// evaluates a gate and judges it; the bit and the ciphertext of the output
    pub fn step(&self, c: &mut Case, g: usize, x: [(bool, &LWE<C>); 3], what: &'static str, from: impl Fn() -> String) -> (bool, LWE<C>) {
        let y = gate(&self.eval, g, x.map(|x| x.1));
        let want = plain(g, x.map(|x| x.0));
        if self.tight && !self.fits(g, x) {
            c.count("gates whose inputs left the margin, not judged", 1);
            let got: u8 = self.dec.decrypt(&y);
            return (got == 1, y);
        }
        self.judge(c, g, &y, want, what, from);
        (want, y)
    }
    pub fn fresh(&self, c: &mut Case, m: bool) -> LWE<C> {
        match c.below(3) {
            0 => self.enc.encrypt(m, &mut c.rng),
            1 => self.enc.encrypt(m as u8, &mut c.rng),
            _ => self.sk.encrypt(m as u64, &mut c.rng),
        }
    }
    /// a ciphertext with the given phase under this key
    pub fn craft(&self, c: &mut Case, ph: u128, grain: u128) -> LWE<C> {
        let key = self.sk.lwe_secret_key();
        let kind = c.below(6);
        let a: Vec<u128> = (0..key.len()).map(|i| match kind {
            0 => 0,
            1 => self.q - grain,
            2 => self.q / 2 / grain * grain,
            3 => if i == 0 { grain } else { 0 },
            _ => c.rng.next_u64() as u128 % self.q / grain * grain,
        } % self.q).collect();
        let b = a.iter().zip(key).fold(ph, |t, (&x, &k)| match sign(k) { 0 => t, 1 => addm(t, x, self.q), _ => subm(t, x, self.q) });
        lwe(&a, b)
    }
}
fn catchb<T>(f: impl FnOnce() -> T) -> Option<T> {
    crate::catch(f).ok()
}
const COUNTS: [&str; 9] = ["gate outputs: not", "gate outputs: nand", "gate outputs: and", "gate outputs: or", "gate outputs: nor",
    "gate outputs: xor", "gate outputs: xnor", "gate outputs: majority", "gate outputs: mux"];

