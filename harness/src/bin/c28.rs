//! C28: the transform counters (feature `count_ntt`) against a model of three cells.
//!
//! The counters are process-wide, so cases run one after another; the model is told of every call.
use algebra::modulus::ShoupFactor;
use algebra::transformation::{count, AbstractNTT, NTTTable};
use algebra::{Field, NTTField, NTTPolynomial, Polynomial};
use fhe_core::*;
use lattice::*;
use mon::fhe::{parts, Spec};
use mon::fields::*;
use mon::lab::*;
use mon::{for_ntt_fields, Case, Mon};
use rayon::prelude::*;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Barrier;

#[derive(Clone, Copy, Debug, PartialEq)]
struct Model {
    on: bool,
    ntt: u32,
    intt: u32,
}
fn now() -> (u32, u32) {
    (count::get_ntt_count(), count::get_intt_count())
}
fn reset() -> Model {
    count::disable_count_ntt_and_intt();
    count::clear_ntt_count();
    count::clear_intt_count();
    Model { on: false, ntt: 0, intt: 0 }
}

fn cells<F>(mon: &Mon, name: &str)
where
    F: NTTField<Table = NTTTable<F>, Root = ShoupFactor<<F as Field>::Value>>,
{
    let top = V::<F>::max_log_n().min(10);
    mon.run(&format!("calls, {name}"), |c| {
        for round in 0..c.n(40, 1000) {
            let mut m = reset();
            let mut hist = vec![];
            for _ in 0..c.n(250, 400) {
                let log_n = c.below(top as u64 + 1) as u32;
                let n = 1usize << log_n;
                let table = F::get_ntt_table(log_n).unwrap();
                let x = V::<F>::edges(&mut c.rng, n);
                let mut v = V::<F>::vec(&x);
                let op = c.below(20);
                hist.push((op, log_n));
                let (mut fwd, mut inv) = (0, 0);
                match op {
                    0 | 1 => { count::enable_count_ntt_and_intt(); m.on = true }
                    2 => { count::disable_count_ntt_and_intt(); m.on = false }
                    3 => { count::clear_ntt_count(); m.ntt = 0 }
                    4 => { count::clear_intt_count(); m.intt = 0 }
                    5 => { table.transform_slice(&mut v); fwd = 1 }
                    6 => { table.inverse_transform_slice(&mut v); inv = 1 }
                    7 => { drop(table.transform(&Polynomial::new(v))); fwd = 1 }
                    8 => { drop(table.transform_inplace(Polynomial::new(v))); fwd = 1 }
                    9 => { drop(table.inverse_transform(&NTTPolynomial::new(v))); inv = 1 }
                    10 => { drop(table.inverse_transform_inplace(NTTPolynomial::new(v))); inv = 1 }
                    11 => { drop(Polynomial::new(v).into_ntt_polynomial()); fwd = 1 }
                    12 => { drop(NTTPolynomial::from(Polynomial::new(v))); fwd = 1 }
                    13 => { drop(NTTPolynomial::new(v).into_native_polynomial()); inv = 1 }
                    14 => { drop(Polynomial::from(NTTPolynomial::new(v))); inv = 1 }
                    15 => { drop(NTTRLWE::from(RLWE::new(Polynomial::new(v.clone()), Polynomial::new(v)))); fwd = 2 }
                    16 => { drop(RLWE::from(NTTRLWE::new(NTTPolynomial::new(v.clone()), NTTPolynomial::new(v)))); inv = 2 }
                    17 => {
                        let mut r = RLWE::new(Polynomial::zero(n), Polynomial::zero(n));
                        NTTRLWE::new(NTTPolynomial::new(v.clone()), NTTPolynomial::new(v)).inverse_transform_inplace(&mut r);
                        inv = 2;
                    }
                    18 => {
                        // work without a transform
                        let (a, b) = (Polynomial::<F>::new(v.clone()), Polynomial::<F>::new(v));
                        drop(&a + &b);
                        drop(a - b);
                        drop(F::generate_ntt_table(log_n));
                    }
                    _ => {
                        // reading twice
                        let a = now();
                        c.eq(a, now(), "reading a counter changed it", || format!("{a:?}"));
                    }
                }
                if m.on {
                    m.ntt += fwd;
                    m.intt += inv;
                }
                c.count(if fwd + inv == 0 { "calls that transform nothing" } else if m.on { "transforms while counting" } else { "transforms while not counting" }, 1);
                if !c.eq(now(), (m.ntt, m.intt), "counters", || format!("model {m:?} after calls {:?}", &hist[hist.len().saturating_sub(8)..])) {
                    return;
                }
                c.seen((op, m.on, log_n));
            }
            if round == 0 {
                c.sample(|| format!("{name}: {:?}... ends with {m:?}", &hist[..12]));
            }
        }
        reset();
    });
    // concurrent transforms are neither lost nor counted twice
    mon.run(&format!("threads, {name}"), |c| {
        for round in 0..c.n(16, 200) {
            reset();
            let threads = [2, 3, 8, 16][round % 4];
            let each = c.n(60, 400) as u32;
            let log_n = c.below(top.min(6) as u64 + 1) as u32;
            let table = F::get_ntt_table(log_n).unwrap();
            count::enable_count_ntt_and_intt();
            let go = Barrier::new(threads + 1);
            let done = AtomicBool::new(false);
            let bad = std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads).map(|t| {
                    let (go, table) = (&go, &table);
                    s.spawn(move || {
                        let mut v = vec![F::one(); 1 << log_n];
                        go.wait();
                        for i in 0..each {
                            table.transform_slice(&mut v);
                            if (i as usize + t) % 3 == 0 {
                                table.inverse_transform_slice(&mut v);
                            }
                        }
                    })
                }).collect();
                // a reader beside them sees counts that only grow
                let reader = s.spawn(|| {
                    go.wait();
                    let (mut last, mut reads, mut moved) = (now(), 0u64, 0u64);
                    while !done.load(Ordering::Acquire) {
                        let x = now();
                        if x.0 < last.0 || x.1 < last.1 {
                            return (Some((last, x)), reads, moved);
                        }
                        moved += (x != last) as u64;
                        last = x;
                        reads += 1;
                    }
                    (None, reads, moved)
                });
                hs.into_iter().for_each(|h| h.join().unwrap());
                done.store(true, Ordering::Release);
                reader.join().unwrap()
            });
            c.count("reads beside running transforms", bad.1);
            c.count("reads that saw the counters move", bad.2);
            c.ok(bad.0.is_none(), "a counter went back", || format!("{:?}", bad.0));
            let inv: u32 = (0..threads).map(|t| (0..each).filter(|i| (*i as usize + t) % 3 == 0).count() as u32).sum();
            c.eq(now(), (threads as u32 * each, inv), "counters after concurrent transforms", || format!("{threads} threads, n=2^{log_n}"));
            c.count("concurrent transforms", (threads as u32 * each + inv) as u64);
            // as many from the worker pool
            reset();
            count::enable_count_ntt_and_intt();
            (0..300usize).into_par_iter().for_each(|i| {
                let p = V::<F>::poly(&vec![i as u128 % V::<F>::p(); 1 << log_n]).into_ntt_polynomial();
                if i % 2 == 0 {
                    drop(p.into_native_polynomial());
                }
            });
            c.eq(now(), (300, 150), "counters after concurrent transforms", || format!("worker pool, n=2^{log_n}"));
            c.seen((threads, log_n));
        }
        reset();
    });
    // the same values, counted or not
    mon.run(&format!("values, {name}"), |c| {
        for _ in 0..c.n(200, 4000) {
            let log_n = c.below(top as u64 + 1) as u32;
            let n = 1usize << log_n;
            let table = F::get_ntt_table(log_n).unwrap();
            let v = V::<F>::vec(&V::<F>::edges(&mut c.rng, n));
            let go = || {
                let (mut x, mut y) = (v.clone(), v.clone());
                table.transform_slice(&mut x);
                table.inverse_transform_slice(&mut y);
                (V::<F>::back(&x), V::<F>::back(&y), Polynomial::new(v.clone()) * Polynomial::new(v.clone()))
            };
            reset();
            let a = go();
            c.eq(now(), (0, 0), "counted while disabled", || format!("n={n}"));
            count::enable_count_ntt_and_intt();
            let b = go();
            c.ok(a == b, "counting changed a transform", || format!("n={n}"));
            let once = now();
            c.ok(once.0 >= 1 && once.1 >= 1, "transforms were not counted", || format!("n={n} {once:?}"));
            go();
            c.eq(now(), (2 * once.0, 2 * once.1), "the same work counted differently", || format!("n={n} {once:?}"));
            c.seen(log_n);
        }
        reset();
    });
}

/// what one call adds to the counters
fn cost<T>(f: impl FnOnce() -> T) -> (T, (u32, u32)) {
    let a = now();
    let r = f();
    let b = now();
    (r, (b.0 - a.0, b.1 - a.1))
}

/// gates: the count of a gate is a function of its inputs, and adds up over threads
fn gates<C: LWEModulusType, Q: NTTField>(mon: &Mon, what: &str) {
    mon.run(&format!("gates, {what}"), |c| {
        for _ in 0..c.n(16, 200) {
            let Some(s) = Spec::pick::<C, Q>(&mut c.rng, 6, 0.0) else { continue };
            reset();
            let l = lab::<C, Q>(c, s.params(), format!("{s:?}"));
            c.eq(now(), (0, 0), "counted while disabled", || format!("key generation, {s:?}"));
            let x: Vec<LWE<C>> = (0..3).map(|i| l.fresh(c, i % 2 == 0)).collect();
            let x3 = [&x[0], &x[1], &x[2]];
            let quiet: Vec<_> = (0..9).map(|g| parts(&gate(&l.eval, g, x3))).collect();
            c.eq(now(), (0, 0), "counted while disabled", || format!("gates, {s:?}"));
            count::enable_count_ntt_and_intt();
            let mut each = vec![];
            for g in 0..9 {
                let (y, n) = cost(|| gate(&l.eval, g, x3));
                c.eq(&parts(&y), &quiet[g], "counting changed a gate", || format!("{} {s:?}", GATES[g]));
                let (_, again) = cost(|| gate(&l.eval, g, x3));
                c.eq(n, again, "the same gate counted differently", || format!("{} {s:?}", GATES[g]));
                if g == 0 {
                    c.eq(n, (0, 0), "a negation transforms nothing", || format!("{s:?}"));
                }
                c.count("gates counted", 2);
                each.push(n);
            }
            c.ok(each.iter().any(|n| n.0 > 0 && n.1 > 0), "bootstraps were not counted", || format!("{each:?} {s:?}"));
            // in parallel, the counts add up
            let jobs: Vec<usize> = (0..27).map(|_| c.below(9) as usize).collect();
            let want = jobs.iter().fold((0, 0), |t, &g| (t.0 + each[g].0, t.1 + each[g].1));
            let (_, got) = cost(|| jobs.par_iter().for_each(|&g| drop(gate(&l.eval, g, x3))));
            c.eq(got, want, "counts of concurrent gates", || format!("{jobs:?} {s:?}"));
            let (_, got) = cost(|| std::thread::scope(|t| for _ in 0..4 { t.spawn(|| jobs.iter().for_each(|&g| drop(gate(&l.eval, g, x3)))); }));
            c.eq(got, (4 * want.0, 4 * want.1), "counts of concurrent gates", || format!("{jobs:?} {s:?}"));
            c.count("gates counted", 27 * 5);
            c.seen(format!("{s:?}"));
            c.sample(|| format!("{s:?}: per gate {each:?}"));
        }
        reset();
    });
}

trait Tier {
    fn n(&self, quick: usize, deep: usize) -> usize;
}
impl Tier for Case<'_> {
    fn n(&self, quick: usize, deep: usize) -> usize {
        if self.thorough() { deep } else { quick }
    }
}

fn main() {
    let mon = Mon::new("C28");
    macro_rules! go {
        ($F:ty, $name:expr, $m:expr) => { cells::<$F>($m, $name); };
    }
    for_ntt_fields!(go, &mon);
    gates::<u16, DefaultFieldU32>(&mon, "u16 with 30 bits");
    gates::<u32, D50>(&mon, "u32 with 50 bits");
    gates::<u64, C998M>(&mon, "u64 with 30 bits");
    gates::<u8, A17>(&mon, "u8 with 5 bits");
    mon.finish(
        "one verdict per call (the two counters equal a model of them), per concurrent burst, per repeated or concurrent gate",
        &["a conversion of a whole ciphertext counts once per half; how many transforms a product or a gate takes is not fixed, only that the same work always counts the same"],
    )
}
