//! C20: field elements survive serialisation; decoding never breaks the field's invariant.
use algebra::Field;
use mon::fields::*;
use mon::{catch, edge, for_ntt_fields, Case, Mon};
use rand::RngCore;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(bound = "F: Serialize + DeserializeOwned")]
struct Rec<F> {
    a: F,
    b: Vec<F>,
    c: Option<F>,
    d: (F, u8, F),
    e: [F; 3],
}

fn one<F: Field + Serialize + DeserializeOwned>(c: &mut Case, x: u128, name: &str) {
    let p = V::<F>::p();
    let w = std::mem::size_of::<F::Value>();
    let f = V::<F>::new(x);
    let ctx = || format!("{name} value {x}");
    // text
    let t = serde_json::to_string(&f);
    c.ok(t.is_ok(), "json encoding fails", ctx);
    let t = t.unwrap_or_default();
    c.eq(serde_json::from_str::<F>(&t).ok().map(V::<F>::get), Some(x), "json round trip", ctx);
    c.eq(&t[..], &x.to_string()[..], "json text", ctx);
    // binary
    let b = bincode::serialize(&f);
    c.ok(b.is_ok(), "bincode encoding fails", ctx);
    let b = b.unwrap_or_default();
    c.eq(bincode::deserialize::<F>(&b).ok().map(V::<F>::get), Some(x), "bincode round trip", ctx);
    c.eq(&b[..], &(x as u64).to_le_bytes()[..w], "bincode bytes", ctx);
    c.eq(bincode::serialized_size(&f).ok(), Some(w as u64), "bincode size", ctx);
    // self-describing intermediate value
    let v = serde_json::to_value(f).ok();
    c.eq(v.and_then(|v| serde_json::from_value::<F>(v).ok()).map(V::<F>::get), Some(x), "value round trip", ctx);
    // a truncated encoding is an error
    if w > 0 {
        let cut = (x % w as u128) as usize;
        c.ok(bincode::deserialize::<F>(&b[..cut.min(b.len().saturating_sub(1))]).is_err(), "truncated input accepted", ctx);
    }
    // an element built from a word at or above the modulus encodes like its residue
    let big = x + p;
    if big <= V::<F>::max_raw() {
        let g = V::<F>::new(big);
        c.eq(bincode::serialize(&g).ok(), Some(b.clone()), "equal elements encode differently", ctx);
        c.eq(serde_json::to_string(&g).ok(), Some(t.clone()), "equal elements encode differently", ctx);
    }
    c.seen(x);
}

/// Arbitrary input either fails or decodes to a reduced element congruent to what was written.
fn hostile<F: Field + Serialize + DeserializeOwned>(c: &mut Case, x: u128, name: &str) {
    let p = V::<F>::p();
    let w = std::mem::size_of::<F::Value>();
    let bytes = (x as u64).to_le_bytes()[..w].to_vec();
    let x = x & ((1u128 << (8 * w)) - 1);
    for (how, got) in [
        ("bincode", catch(|| bincode::deserialize::<F>(&bytes).map_err(|e| e.to_string()))),
        ("json", catch(|| serde_json::from_str::<F>(&x.to_string()).map_err(|e| e.to_string()))),
    ] {
        match got {
            Err(e) => c.fail("decoding panics", format!("{name} {how} {x}: {e}")),
            Ok(Err(_)) => {
                c.ok(x >= p, "valid input rejected", || format!("{name} {how} {x}"));
                c.count("inputs rejected", 1);
            }
            Ok(Ok(f)) => {
                let v = V::<F>::get(f);
                c.ok(v < p, "decoded element not reduced", || format!("{name} {how} {x} gave {v}"));
                c.ok(v % p == x % p, "decoded element not congruent", || format!("{name} {how} {x} gave {v}"));
                // it behaves as its residue
                let g = V::<F>::new(x % p);
                c.ok(f == g && f + F::ZERO == g && f * F::ONE == g && f - g == F::ZERO, "decoded element misbehaves", || format!("{name} {how} {x}"));
                if x >= p {
                    c.count("oversized inputs reduced", 1);
                }
            }
        }
    }
    c.seen((x, 1));
}

fn text<F: Field + Serialize + DeserializeOwned>(c: &mut Case, name: &str) {
    let max = V::<F>::max_raw();
    let bad = [
        "-1".to_string(), (max + 1).to_string(), "340282366920938463463374607431768211456".into(), "1.5".into(), "\"3\"".into(), "null".into(), "[]".into(),
        "{}".into(), "".into(), "true".into(), "0x1".into(), "1e400".into(),
    ];
    for b in bad {
        let r = catch(|| serde_json::from_str::<F>(&b).map(V::<F>::get).map_err(|e| e.to_string()));
        c.ok(matches!(r, Ok(Err(_))), "malformed text accepted", || format!("{name} {b:?} gave {r:?}"));
        c.seen(b);
    }
    for n in 0..std::mem::size_of::<F::Value>() {
        c.ok(bincode::deserialize::<F>(&vec![1u8; n]).is_err(), "truncated input accepted", || format!("{name} {n} bytes"));
    }
}

fn records<F: Field + Serialize + DeserializeOwned>(c: &mut Case, name: &str) {
    let f = |c: &mut Case| V::<F>::new(V::<F>::edge(&mut c.rng));
    let n = c.below(200) as usize;
    let r = Rec {
        a: f(c),
        b: V::<F>::vec(&V::<F>::edges(&mut c.rng, n)),
        c: if c.below(2) == 0 { None } else { Some(f(c)) },
        d: (f(c), c.rng.next_u32() as u8, f(c)),
        e: [f(c), f(c), f(c)],
    };
    let b = bincode::serialize(&r).unwrap_or_default();
    c.eq(bincode::deserialize::<Rec<F>>(&b).ok().as_ref(), Some(&r), "record through bincode", || name.into());
    let t = serde_json::to_string(&r).unwrap_or_default();
    c.eq(serde_json::from_str::<Rec<F>>(&t).ok().as_ref(), Some(&r), "record through json", || name.into());
    let t = serde_json::to_vec_pretty(&r).unwrap_or_default();
    c.eq(serde_json::from_slice::<Rec<F>>(&t).ok().as_ref(), Some(&r), "record through pretty json", || name.into());
    // big-endian and variable-length encodings
    use bincode::Options;
    let o = bincode::DefaultOptions::new().with_big_endian().with_varint_encoding();
    let v = o.serialize(&r).unwrap_or_default();
    c.eq(o.deserialize::<Rec<F>>(&v).ok().as_ref(), Some(&r), "record through varint bincode", || name.into());
    // corrupt one byte: an error, or elements that are still reduced
    let mut z = b.clone();
    let at = c.below(z.len() as u64) as usize;
    z[at] ^= 1 << c.below(8);
    let lim = bincode::DefaultOptions::new().with_fixint_encoding().with_limit(1 << 16);
    match catch(|| lim.deserialize::<Rec<F>>(&z).ok()) {
        Err(e) => c.fail("decoding panics", format!("{name} corrupted record: {e}")),
        Ok(None) => c.count("corrupted records rejected", 1),
        Ok(Some(r)) => {
            let all = r.b.iter().chain(r.c.iter()).chain(r.e.iter()).chain([&r.a, &r.d.0, &r.d.2]);
            let bad = all.map(|&x| V::<F>::get(x)).find(|&x| x >= V::<F>::p());
            c.ok(bad.is_none(), "decoded element not reduced", || format!("{name} corrupted record holds {bad:?}"));
            c.count("corrupted records decoded", 1);
        }
    }
    c.sample(|| format!("{name}: record with {n} elements, {} bytes", b.len()));
    c.seen((n, b.len(), at));
}

macro_rules! all {
    ($F:ty, $name:expr, $m:expr) => {{
        type F = $F;
        let p = V::<F>::p();
        let max = V::<F>::max_raw();
        if max < 1 << 16 {
            let step = 2048u128;
            $m.par(concat!("every value ", $name), max.div_ceil(step) as usize, |c| {
                let lo = c.idx as u128 * step;
                for x in lo..(lo + step).min(max + 1) {
                    if x < p { one::<F>(c, x, $name); }
                    hostile::<F>(c, x, $name);
                }
            });
        } else {
            $m.par(concat!("values ", $name), $m.n(40, 2000), |c| for _ in 0..500 {
                let x = V::<F>::edge(&mut c.rng);
                one::<F>(c, x, $name);
                let x = edge(&mut c.rng, max);
                hostile::<F>(c, x, $name);
                let k = 1 + c.below(4) as u128;
                let near = (p * k + c.below(5) as u128).saturating_sub(2);
                if near <= max { hostile::<F>(c, near, $name); }
            });
        }
        $m.run(concat!("malformed ", $name), |c| text::<F>(c, $name));
        $m.par(concat!("records ", $name), $m.n(200, 5000), |c| records::<F>(c, $name));
    }};
}

fn main() {
    let m = Mon::new("C20");
    for_ntt_fields!(all, m);
    all!(A2, "u8 p=2", m);
    all!(A3, "u8 p=3", m);
    all!(CTwo, "u32 p=2", m);
    m.finish(
        "a distinct value, input word or record per field and format",
        &["field elements are the only library values that implement serialisation on this tree",
          "formats: serde_json text and values, bincode fixed and variable length, both byte orders"],
    );
}
