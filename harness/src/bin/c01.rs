//! C01: gates compute their boolean function, on any inputs within the noise margin and at any depth.
use algebra::NTTField;
use fhe_core::*;
use lattice::LWE;
use mon::fhe::{phase, Spec};
use mon::fields::*;
use mon::lab::*;
use mon::refs::*;
use mon::{Case, Mon};
use rand::RngCore;
use zkfhe::bfhe::{CUSTOM_TERNARY_128_BITS_PARAMETERS, DEFAULT_TERNARY_128_BITS_PARAMETERS};

/// every truth-table row on fresh inputs
fn tables<C: LWEModulusType, Q: NTTField>(c: &mut Case, l: &Lab<C, Q>) {
    for row in 0..8 {
        let x = [row & 1 == 1, row & 2 == 2, row & 4 == 4];
        let e = x.map(|m| l.fresh(c, m));
        for g in 0..9 {
            if (1..7).contains(&g) && row >= 4 { continue; }
            if g == 0 && row >= 2 { continue; }
            let y = gate(&l.eval, g, [&e[0], &e[1], &e[2]]);
            l.judge(c, g, &y, plain(g, x), "fresh inputs", || format!("{x:?}"));
            c.seen((&l.text, g, row));
        }
        // the same wire on several inputs
        let m = x[0];
        for g in 1..9 {
            if row >= 2 { break; }
            let y = gate(&l.eval, g, [&e[0]; 3]);
            l.judge(c, g, &y, plain(g, [m; 3]), "one wire on all inputs", || format!("{m}"));
        }
    }
}
/// a random circuit: every gate reads any earlier wires
fn circuit<C: LWEModulusType, Q: NTTField>(c: &mut Case, l: &Lab<C, Q>, gates: usize) -> Vec<(bool, LWE<C>, u32)> {
    let mut wires: Vec<(bool, LWE<C>, u32)> = (0..4).map(|_| { let m = c.below(2) == 1; (m, l.fresh(c, m), 0) }).collect();
    for k in 0..gates {
        let g = c.below(9) as usize;
        // mostly the newest wires, to go deep
        let mut pick = || if c.below(3) == 0 { c.below(wires.len() as u64) as usize } else { wires.len() - 1 - c.below(3) as usize };
        let i = [pick(), pick(), pick()];
        let x = i.map(|i| wires[i].0);
        let depth = i.iter().map(|&i| wires[i].2).max().unwrap() + 1;
        let (m, y) = l.step(c, g, i.map(|i| (wires[i].0, &wires[i].1)), "inside a circuit", || format!("step {k} depth {depth} inputs {x:?}"));
        c.seen((&l.text, k, g, i));
        if depth >= 20 { c.count("gates at depth 20 or more", 1); }
        wires.push((m, y, depth));
    }
    wires
}
/// a ripple adder and a comparator on encrypted words
fn adder<C: LWEModulusType, Q: NTTField>(c: &mut Case, l: &Lab<C, Q>, bits: u32) {
    let (x, y) = (c.below(1 << bits), c.below(1 << bits));
    let enc = |c: &mut Case, v: u64| (0..bits).map(|i| { let m = v >> i & 1 == 1; (m, l.fresh(c, m)) }).collect::<Vec<_>>();
    let (ex, ey) = (enc(c, x), enc(c, y));
    let mut carry = (false, l.fresh(c, false));
    let mut less = (false, l.fresh(c, false));
    let mut sum = 0u64;
    let text = || format!("words {x} and {y}");
    for i in 0..bits as usize {
        let (a, b) = ((ex[i].0, &ex[i].1), (ey[i].0, &ey[i].1));
        let k = (carry.0, &carry.1);
        let t = l.step(c, 5, [a, b, a], "in an adder", text);
        let t = (t.0, &t.1);
        let s = l.step(c, 5, [t, k, a], "in an adder", text);
        let next = l.step(c, 7, [a, b, k], "in an adder", text);
        let lt = l.step(c, 8, [t, b, (less.0, &less.1)], "in an adder", text);
        sum |= (l.dec.decrypt::<u8>(&s.1) as u64) << i;
        carry = next;
        less = lt;
    }
    sum |= (l.dec.decrypt::<u8>(&carry.1) as u64) << bits;
    if !l.tight {
        c.eq(sum, x + y, "encrypted addition", || format!("{x} + {y}; {}", l.text));
        c.eq(l.dec.decrypt::<u8>(&less.1), (x < y) as u8, "encrypted comparison", || format!("{x} < {y}; {}", l.text));
    }
    c.count("words added and compared", 1);
    c.seen((&l.text, x, y));
}
/// Gates on the noisiest of many genuine gate outputs.  A set with a budget reads them right.
fn noisiest<C: LWEModulusType, Q: NTTField>(c: &mut Case, l: &Lab<C, Q>, wires: &[(bool, LWE<C>, u32)]) {
    // negation turns the sign of the error, so all may have positive errors
    let mut w: Vec<(i128, bool, LWE<C>)> = wires.iter().filter(|w| w.2 > 0).map(|w| {
        let e = l.error((w.0, &w.1));
        if e >= 0 { (e, w.0, w.1.clone()) } else { (-e, !w.0, l.eval.not(&w.1)) }
    }).collect();
    w.sort_by_key(|x| -x.0);
    let zero = w.iter().find(|x| !x.1);
    let one = w.iter().find(|x| x.1);
    let (Some(z), Some(o)) = (zero, one) else { return };
    let y = l.eval.majority(&z.2, &z.2, &o.2);
    let sig = format!("majority of the noisiest outputs of the {}", l.text);
    let got: u8 = l.dec.decrypt(&y);
    c.eq(got, 0, &sig, || format!("majority(0, 0, 1) of gate outputs with errors {}, {}, {} of {}", z.0, z.0, o.0, l.q));
    c.count("gates on the noisiest outputs", 1);
}
/// inputs whose error is anywhere inside the gate's margin, its ends included
fn margins<C: LWEModulusType, Q: NTTField>(c: &mut Case, l: &Lab<C, Q>, rounds: usize) {
    let q = l.q as i128;
    let two_n = 2 * l.ring as i128;
    let grain = (q / two_n).max(1);
    // the table is read at multiples of the grain
    let top = q / 8 - grain;
    if top < 0 { return; }
    let around = |c: &mut Case, top: i128| match c.below(5) {
        0 => top,
        1 => -top,
        2 => 0,
        _ => c.below(2 * top as u64 + 1) as i128 - top,
    } / grain * grain;
    for _ in 0..rounds {
        let g = 1 + c.below(7) as usize;
        let x = [c.below(2) == 1, c.below(2) == 1, c.below(2) == 1];
        let total = around(c, top);
        let wild = q / 2 / grain;
        let e0 = (c.below(2 * wild as u64 + 1) as i128 - wild) * grain;
        let e1 = if c.below(3) == 0 { around(c, top) } else { 0 };
        let third = c.below(2) == 0;
        let e = match g {
            // xor and xnor double the difference, so their margin is of the doubled error
            5 | 6 => { let half = total; [e0, e0 - half, 0] }
            7 => if third { [e0, e1, total - e0 - e1] } else { [e0, total - e0 - e1, e1] },
            _ => [e0, total - e0, 0],
        };
        // errors that are themselves decodable half of the time
        let e = if c.below(2) == 0 { let s = total / 2 / grain * grain; match g { 7 => [s, 0, total - s], 5 | 6 => [s, s - total, 0], _ => [s, total - s, 0] } } else { e };
        let ins: Vec<LWE<C>> = (0..3).map(|i| {
            let ph = (x[i] as i128 * (q / 4) + e[i]).rem_euclid(q) as u128;
            l.craft(c, ph, grain as u128)
        }).collect();
        let y = gate(&l.eval, g, [&ins[0], &ins[1], &ins[2]]);
        l.judge(c, g, &y, plain(g, x), "error inside the margin", || format!("{x:?} errors {e:?}"));
        c.seen((&l.text, g, x, e));
    }
}
/// bootstrapping returns the table entry selected by the phase
fn bootstrap<C: LWEModulusType, Q: NTTField>(c: &mut Case, l: &Lab<C, Q>, tol: f64, rounds: usize) {
    let p = V::<Q>::p();
    let (q, ring) = (l.q, l.ring);
    let grain = (q / (2 * ring as u128)).max(1);
    let step = (2 * ring as u128 / q).max(1) as usize;
    for k in 0..rounds {
        let table: Vec<u128> = match k % 4 {
            0 => vec![c.rng.next_u64() as u128 % p; ring],
            1 => (0..ring as u128).map(|i| i * (p / 2) / ring as u128).collect(),
            _ => (0..ring).map(|_| c.rng.next_u64() as u128 % p).collect(),
        };
        let slots = q / grain;
        let at = match c.below(4) { 0 => 0, 1 => slots - 1, 2 => slots / 2 - c.below(2) as u128, _ => c.rng.next_u64() as u128 % slots };
        let x = l.craft(c, at * grain, grain);
        let i = at as usize * step;
        let want = addm(if i < ring { table[i] } else { negm(table[i - ring], p) }, p / 8, p);
        let y = l.eval.bootstrap(x.clone(), V::<Q>::poly(&table));
        let got = phase(&y, l.sk.lwe_secret_key(), q) as f64;
        let exact = want as f64 * q as f64 / p as f64;
        let mut d = (got - exact).rem_euclid(q as f64);
        if d > q as f64 / 2.0 { d -= q as f64; }
        c.ok(d.abs() <= tol, "bootstrap with a table", || format!("slot {at}: phase {got} expected {exact:.1} within {tol:.1} of {q}; {}", l.text));
        c.count("table entries read by bootstrapping", 1);
        c.seen((&l.text, "table", at, k));
    }
}

fn small<C: LWEModulusType, Q: NTTField>(c: &mut Case, name: &'static str) {
    let mut s = Spec::pick::<C, Q>(&mut c.rng, if c.idx % 8 == 0 { 8 } else { 6 }, 8.5);
    if c.idx % 4 == 1 {
        // first modulus below twice the ring dimension
        for _ in 0..300 {
            if s.is_some_and(|s| s.q < 2 * s.ring as u64) { break; }
            s = Spec::pick::<C, Q>(&mut c.rng, 9, 8.5);
        }
    }
    let Some(s) = s else { c.count("no parameters fit", 1); return };
    let z = s.noise(V::<Q>::p());
    let p = s.params::<C, Q>();
    let l = lab(c, p, format!("{name} {s:?}"));
    c.count(match s.steps { Steps::BrKsMs => "sets BrKsMs", Steps::BrMsKs => "sets BrMsKs", Steps::BrMs => "sets BrMs" }, 1);
    c.count(match (s.q as usize).cmp(&(2 * s.ring)) { std::cmp::Ordering::Less => "sets q < 2N", std::cmp::Ordering::Equal => "sets q = 2N", _ => "sets q > 2N" }, 1);
    tables(c, &l);
    circuit(c, &l, 60);
    margins(c, &l, 60);
    bootstrap(c, &l, 8.5 * z.sd() + 1.0, 24);
    if c.below(4) == 0 { adder(c, &l, 8); }
    c.sample(|| format!("{} budget {:.1} deviations", l.text, s.budget(V::<Q>::p())));
}

fn shipped(c: &mut Case, gates: usize) {
    let (p, name) = if c.idx % 2 == 0 { (*DEFAULT_TERNARY_128_BITS_PARAMETERS, "default set") } else { (*CUSTOM_TERNARY_128_BITS_PARAMETERS, "custom set") };
    let mut l = lab(c, p, name.into());
    l.tight = c.idx % 2 == 1;
    if c.idx < 2 { tables(c, &l); }
    let mut wires = circuit(c, &l, gates);
    if c.idx == 2 || c.idx == 3 {
        // cheap outputs to choose the noisiest from
        for _ in 0..100 {
            let m = c.below(2) == 1;
            let x = l.fresh(c, m);
            wires.push((m, l.eval.and(&x, &x), 1));
        }
        noisiest(c, &l, &wires);
    }
    margins(c, &l, gates / 3);
    bootstrap(c, &l, if c.idx % 2 == 0 { 60.0 } else { 900.0 }, gates / 6);
    adder(c, &l, 4);
    c.sample(|| format!("{name}: gates {gates}"));
}

fn main() {
    let m = Mon::new("C01");
    let n = m.n(48, 1500);
    macro_rules! sets {
        ($($C:ident, $Q:ident, $name:expr;)*) => {$( m.par(concat!("sets ", $name), n, |c| small::<$C, $Q>(c, $name)); )*};
    }
    sets! {
        u8, DefaultFieldU32, "u8, default field";
        u16, DefaultFieldU32, "u16, default field";
        u32, DefaultFieldU32, "u32, default field";
        u64, DefaultFieldU32, "u64, default field";
        u16, DefaultQks, "u16, key-switching field";
        u8, B7681, "u8, p=7681";
        u16, B12289, "u16, p=12289";
        u16, C65537, "u16, p=65537";
        u32, C786433, "u32, p=786433";
        u16, C998M, "u16, p=998244353";
        u32, CNear30, "u32, p near 2^30";
        u16, D40961, "u16, u64 p=40961";
        u64, D998M, "u64, u64 p=998244353";
        u32, D50, "u32, 50-bit p";
        u64, D62, "u64, 62-bit p";
    }
    // the plain functions the library offers to compare with
    m.run("plain functions", |c| {
        use fhe_core::utils as u;
        for k in 0..8u8 {
            let (x, y, z) = (k & 1 == 1, k & 2 == 2, k & 4 == 4);
            let got = [u::not(x), u::nand(x, y), u::and(x, y), u::or(x, y), u::nor(x, y), u::xor(x, y), u::xnor(x, y), u::majority(x, y, z)];
            for (g, got) in got.into_iter().enumerate() {
                c.eq(got, plain(g, [x, y, z]), "plain function", || format!("{} {x} {y} {z}", GATES[g]));
            }
        }
        c.seen("plain functions");
    });
    m.par("shipped sets", m.n(8, 240), |c| { let g = if c.thorough() { 200 } else { 20 }; shipped(c, g) });
    m.finish(
        "one gate output (or bootstrap output) per distinct parameter set, gate, wiring and error; a verdict compares the decryption with the plain function",
        &["parameter sets are those whose predicted noise leaves at least 8.5 standard deviations of room, plus the two shipped sets"],
    );
}
