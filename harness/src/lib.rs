//! Runtime-monitoring kit: workload driver, oracle verdicts, evidence.
//!
//! A check is a binary that builds a [`Mon`], drives the real library with `par`/`run`, lets oracles
//! judge each observation through [`Case`], and ends with [`Mon::finish`].
#![allow(clippy::all)]
use rand::{RngCore, SeedableRng};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub mod fhe;
pub mod fields;
pub mod lab;
pub mod refs;
pub mod stats;

/// The workload generator: xoshiro256**, cheap enough for an interpreter to run.
#[derive(Clone, Debug)]
pub struct R([u64; 4]);
impl SeedableRng for R {
    type Seed = [u8; 32];
    fn from_seed(s: [u8; 32]) -> R {
        let w = |i: usize| u64::from_le_bytes(s[i * 8..i * 8 + 8].try_into().unwrap());
        let mut r = R([w(0), w(1), w(2), w(3) | 1]);
        for _ in 0..16 {
            r.next_u64();
        }
        r
    }
}
impl RngCore for R {
    #[inline]
    fn next_u64(&mut self) -> u64 {
        let s = &mut self.0;
        let out = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        out
    }
    #[inline]
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.next_u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
impl rand_core::CryptoRng for R {}

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub label: String,
    pub idx: usize,
    pub detail: String,
    pub count: u64,
}

#[derive(Default)]
struct State {
    evals: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: BTreeMap<String, Violation>,
    known: BTreeMap<String, u64>,
}

pub struct Mon {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub root: String,
    only: Option<(String, usize)>,
    part: String,
    /// run only every k-th batch, starting with the i-th
    shard: Option<(usize, usize)>,
    batch: AtomicUsize,
    start: Instant,
    st: Mutex<State>,
    known: BTreeMap<String, String>,
}

/// What one case observes.  Merged into the monitor when the case ends.
pub struct Case<'a> {
    pub rng: R,
    pub idx: usize,
    pub label: String,
    mon: &'a Mon,
    evals: u64,
    hashes: Vec<u64>,
    counters: BTreeMap<&'static str, u64>,
    sample: Option<String>,
    viol: Vec<(String, String)>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

fn arg(name: &str) -> Option<String> {
    let mut it = std::env::args();
    while let Some(a) = it.next() {
        if a == name {
            return it.next();
        }
    }
    None
}

impl Mon {
    pub fn new(prop: &str) -> Mon {
        if std::env::args().any(|a| a == "--none") {
            // built, nothing to run
            std::process::exit(0);
        }
        let root = arg("--root").unwrap_or_else(|| "/verif".into());
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse().ok())
            .unwrap_or(1u64);
        let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
        let only = arg("--only").and_then(|s| {
            let (a, b) = s.rsplit_once(':')?;
            Some((a.to_string(), b.parse().ok()?))
        });
        let mut known = BTreeMap::new();
        // known: property=C13 sig=<signature> :: <what fails>
        for l in std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default().lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={prop} sig=")) {
                if let Some((sig, what)) = r.split_once(" :: ") {
                    known.insert(sig.to_string(), what.to_string());
                }
            }
        }
        std::panic::set_hook(Box::new(|i| {
            let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        }));
        Mon {
            prop: prop.into(),
            thorough,
            seed,
            root,
            only,
            part: arg("--part").unwrap_or_default(),
            shard: arg("--shard").and_then(|s| {
                let (a, b) = s.split_once('/')?;
                Some((a.parse().ok()?, b.parse().ok()?))
            }),
            batch: AtomicUsize::new(0),
            start: Instant::now(),
            st: Mutex::new(State::default()),
            known,
        }
    }

    /// Work size for the tier.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn rng(&self, label: &str, idx: usize) -> R {
        R::seed_from_u64(h(&(self.seed, label, idx as u64)))
    }

    fn case(&self, label: &str, idx: usize) -> Case<'_> {
        Case {
            rng: self.rng(label, idx),
            idx,
            label: label.into(),
            mon: self,
            evals: 0,
            hashes: vec![],
            counters: BTreeMap::new(),
            sample: None,
            viol: vec![],
        }
    }

    fn wanted(&self, label: &str, idx: usize) -> bool {
        match &self.only {
            Some((l, i)) => l == label && *i == idx,
            None => true,
        }
    }

    fn skipped(&self) -> bool {
        let b = self.batch.fetch_add(1, Ordering::Relaxed);
        self.shard.map_or(false, |(i, k)| b % k != i)
    }

    fn run_case<F: Fn(&mut Case)>(&self, label: &str, idx: usize, f: &F) {
        if !self.wanted(label, idx) {
            return;
        }
        let mut c = self.case(label, idx);
        if let Err(_) = catch_unwind(AssertUnwindSafe(|| f(&mut c))) {
            let msg = LAST_PANIC.with(|p| p.borrow().clone());
            let sig = format!("panic in {label}");
            c.evals += 1;
            c.viol.push((sig, msg));
        }
        self.merge(c);
    }

    fn merge(&self, c: Case) {
        let mut s = self.st.lock().unwrap();
        s.evals += c.evals;
        s.distinct.extend(c.hashes.iter());
        for (k, v) in c.counters {
            *s.counters.entry(k.into()).or_insert(0) += v;
        }
        if let Some(x) = c.sample {
            if s.samples.len() < 24 {
                s.samples.push(x);
            }
        }
        for (sig, detail) in c.viol {
            if self.known.contains_key(&sig) {
                *s.known.entry(sig).or_insert(0) += 1;
                continue;
            }
            let e = s.violations.entry(sig.clone()).or_insert(Violation {
                sig,
                label: c.label.clone(),
                idx: c.idx,
                detail,
                count: 0,
            });
            e.count += 1;
        }
    }

    /// Runs `n` independent cases on all cores.
    pub fn par<F: Fn(&mut Case) + Sync>(&self, label: &str, n: usize, f: F) {
        if self.skipped() {
            return;
        }
        let t = std::env::var("VERIF_TRACE").is_ok().then(Instant::now);
        let next = AtomicUsize::new(0);
        // a share of the cases, for slow instrumented builds
        let share = std::env::var("VERIF_SHARE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
        let n = if share < 1.0 { ((n as f64 * share).ceil() as usize).min(n) } else { n };
        let th = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(n.max(1));
        std::thread::scope(|s| {
            for _ in 0..th {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    self.run_case(label, i, &f);
                });
            }
        });
        if let Some(t) = t {
            eprintln!("  {label}: {n} cases {:.2}s", t.elapsed().as_secs_f64());
        }
    }

    /// Runs one case on this thread.
    pub fn run<F: Fn(&mut Case)>(&self, label: &str, f: F) {
        let t = std::env::var("VERIF_TRACE").is_ok().then(Instant::now);
        self.run_case(label, 0, &f);
        if let Some(t) = t {
            eprintln!("  {label}: {:.2}s", t.elapsed().as_secs_f64());
        }
    }

    pub fn finish(self, rule: &str, assumptions: &[&str]) -> ! {
        let s = self.st.into_inner().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        let root = self.root.clone();
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        let _ = std::fs::create_dir_all(format!("{root}/replays"));
        let mut cov = serde_json::json!({
            "evaluations": s.evals,
            "distinct_nontrivial": s.distinct.len(),
            "rule": rule,
            "samples": s.samples,
            "observed": s.counters,
        });
        if !s.known.is_empty() {
            cov["known_findings_seen"] = serde_json::json!(s.known);
        }
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": wall,
            "violations": s.violations.values().map(|v| v.count).sum::<u64>(),
        });
        let evname = if self.part.is_empty() {
            format!("{root}/evidence/{}.json", self.prop)
        } else {
            format!("{root}/evidence/{}.{}.json", self.prop, self.part)
        };
        std::fs::write(&evname, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
        for (sig, n) in &s.known {
            println!("KNOWN-FINDING: property={} {} ({} observations)", self.prop, self.known[sig], n);
        }
        println!(
            "{}{}: {} oracle verdicts, {} distinct non-trivial cases, {:.1}s",
            self.prop, if self.part.is_empty() { String::new() } else { format!(" [{}]", self.part) },
            s.evals, s.distinct.len(), wall
        );
        if !s.violations.is_empty() {
            for (i, v) in s.violations.values().enumerate() {
                if i >= 20 {
                    break;
                }
                let path = format!("{root}/replays/{}-{}{}.json", self.prop, self.part, i);
                let _ = std::fs::write(
                    &path,
                    serde_json::to_string_pretty(&serde_json::json!({
                        "property": self.prop, "seed": self.seed,
                        "tier": if self.thorough {"thorough"} else {"quick"},
                        "signature": v.sig, "case": format!("{}:{}", v.label, v.idx),
                        "detail": v.detail, "observations": v.count,
                        "part": self.part,
                    }))
                    .unwrap(),
                );
                println!("  {} [{}:{}] x{}: {}", v.sig, v.label, v.idx, v.count, trunc(&v.detail.replace("\n", " "), 600));
                println!("VIOLATION property={} replay={}", self.prop, path);
            }
            std::process::exit(1);
        }
        if self.only.is_none() && (s.evals == 0 || s.distinct.is_empty()) {
            println!("INCONCLUSIVE property={}: nothing was observed", self.prop);
            std::process::exit(2);
        }
        std::process::exit(0);
    }
}

fn trunc(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

impl<'a> Case<'a> {
    pub fn thorough(&self) -> bool {
        self.mon.thorough
    }
    /// One oracle verdict.
    #[inline]
    pub fn ok<D: FnOnce() -> String>(&mut self, cond: bool, sig: &str, detail: D) -> bool {
        self.evals += 1;
        if !cond {
            self.fail(sig, detail());
        }
        cond
    }
    #[inline]
    pub fn eq<T: PartialEq + std::fmt::Debug, D: FnOnce() -> String>(&mut self, got: T, want: T, sig: &str, ctx: D) -> bool {
        self.evals += 1;
        let c = got == want;
        if !c {
            let d = format!("got {:?} want {:?}; {}", got, want, ctx());
            self.fail(sig, d);
        }
        c
    }
    #[cold]
    pub fn fail(&mut self, sig: &str, detail: String) {
        if self.viol.len() < 4096 {
            self.viol.push((sig.into(), trunc(&detail, 4000)));
        }
    }
    /// Count a distinct non-trivial case.
    #[inline]
    pub fn seen<T: Hash>(&mut self, t: T) {
        let x = h(&(&self.label, t));
        self.hashes.push(x);
    }
    #[inline]
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.sample.is_none() && self.idx < 2 {
            self.sample = Some(trunc(&f(), 500));
        }
    }
    /// Runs library code whose panic is itself an observation: Err(message).
    pub fn catch<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        catch(f)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        self.rng.next_u64() % n
    }
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// A random value of `bits` bits biased towards the ends of the range and powers of two.
pub fn edge(rng: &mut R, max: u128) -> u128 {
    // value in 0..=max
    let r = |rng: &mut R| ((rng.next_u64() as u128) << 64) | rng.next_u64() as u128;
    let span = max.wrapping_add(1);
    let uni = |rng: &mut R| if span == 0 { r(rng) } else { r(rng) % span };
    match rng.next_u32() % 8 {
        0 => (rng.next_u32() % 4) as u128 % if span == 0 { u128::MAX } else { span },
        1 => max - ((rng.next_u32() % 4) as u128).min(max),
        2 => {
            let k = rng.next_u32() % 128;
            let d = (rng.next_u32() % 5) as i128 - 2;
            let v = (1u128 << k).wrapping_add(d as u128);
            if v <= max { v } else { uni(rng) }
        }
        3 => {
            // near a simple fraction of max
            let d = 2 + (rng.next_u32() % 15) as u128;
            let n = rng.next_u32() as u128 % d;
            let v = (max / d) * n + max % d * n / d;
            let o = (rng.next_u32() % 5) as u128;
            let v = v.saturating_add(o).saturating_sub(2);
            v.min(max)
        }
        _ => uni(rng),
    }
}
