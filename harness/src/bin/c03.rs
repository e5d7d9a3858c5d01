//! C03: gates are pure functions of the key and the inputs, whoever calls them, when, and from where.
//!
//! Every call is logged with what it was given and what it returned; an offline checker groups the
//! log by (key set, operation, inputs) and demands one answer per group.
use algebra::{NTTField, Polynomial};
use fhe_core::*;
use lattice::LWE;
use mon::fhe::{lwe, parts, phase, Spec};
use mon::fields::*;
use mon::lab::*;
use mon::refs::*;
use mon::{catch, Case, Mon, R};
use rand::{RngCore, SeedableRng};
use rayon::prelude::*;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use zkfhe::bfhe::{Evaluator, CUSTOM_TERNARY_128_BITS_PARAMETERS, DEFAULT_TERNARY_128_BITS_PARAMETERS};

/// gate 0..=8 on three ciphertexts, or 9: bootstrap the first with table number `ins[1]`
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
struct Op {
    site: usize,
    gate: usize,
    ins: [usize; 3],
}
#[derive(Clone, Debug)]
struct Event {
    op: Op,
    out: Vec<u64>,
    /// what the call did to its inputs, or a wrong plaintext
    bad: Option<String>,
    at: u64,
    thread: usize,
}
/// how a call reaches the evaluator
#[derive(Clone, Copy, Debug)]
struct Route {
    clone: usize,
    /// inputs copied into buffers that are used again and again
    buffer: bool,
}

trait World: Send + Sync {
    fn call(&self, op: Op, route: Route) -> (Vec<u64>, Option<String>);
    /// an ill-sized call; its outcome is nobody's business, what follows it is
    fn misuse(&self, seed: u64);
    fn fresh_clone(&self) -> Arc<dyn World>;
    fn sizes(&self) -> (usize, usize);
    fn text(&self) -> &str;
    /// everything the keys and the corpus hold, as printed
    fn print(&self) -> u64;
}

struct Site<C: LWEModulusType, Q: NTTField> {
    sk: SecretKeyPack<C, Q>,
    evals: Vec<Evaluator<C, Q>>,
    pool: Vec<(Option<bool>, LWE<C>)>,
    /// table and the slot each pool entry selects, when it is a place
    tables: Vec<(Vec<u128>, Polynomial<Q>)>,
    slots: Vec<Option<usize>>,
    fits: bool,
    tol: f64,
    q: u128,
    ring: usize,
    text: String,
}

thread_local! {
    static BUF: std::cell::RefCell<HashMap<std::any::TypeId, Box<dyn std::any::Any>>> = std::cell::RefCell::new(HashMap::new());
}

fn flat<C: LWEModulusType>(x: &LWE<C>) -> Vec<u64> {
    let (a, b) = parts(x);
    a.into_iter().chain([b]).map(|x| x as u64).collect()
}

impl<C: LWEModulusType, Q: NTTField> Site<C, Q> {
    fn apply(&self, e: &Evaluator<C, Q>, op: Op, x: [&LWE<C>; 3]) -> LWE<C> {
        if op.gate == 9 {
            e.bootstrap(x[0].clone(), self.tables[op.ins[1] % self.tables.len()].1.clone())
        } else {
            gate(e, op.gate, x)
        }
    }
    fn wrong(&self, op: Op, y: &LWE<C>) -> Option<String> {
        if !self.fits { return None; }
        let key = self.sk.lwe_secret_key();
        if op.gate == 9 {
            let at = self.slots[op.ins[0]]?;
            let p = V::<Q>::p();
            let table = &self.tables[op.ins[1] % self.tables.len()].0;
            let i = at % (2 * self.ring);
            let want = addm(if i < self.ring { table[i] } else { negm(table[i - self.ring], p) }, p / 8, p);
            let exact = want as f64 * self.q as f64 / p as f64;
            let got = phase(y, key, self.q) as f64;
            let mut d = (got - exact).rem_euclid(self.q as f64);
            if d > self.q as f64 / 2.0 { d -= self.q as f64; }
            return (d.abs() > self.tol).then(|| format!("bootstrap of slot {at}: phase {got} expected {exact:.1} within {:.1}", self.tol));
        }
        let mut bits = [false; 3];
        for i in 0..3 {
            let used = i == 0 || (i == 1 && op.gate > 0) || op.gate > 6;
            match self.pool[op.ins[i]].0 { Some(b) => bits[i] = b, None if used => return None, _ => {} }
        }
        let want = plain(op.gate, bits);
        let far = centered(subm(phase(y, key, self.q), want as u128 * (self.q / 4), self.q), self.q);
        (far.unsigned_abs() >= self.q / 8).then(|| format!("wrong {} of {bits:?}: off by {far} of {}", GATES[op.gate], self.q))
    }
}

impl<C: LWEModulusType + 'static, Q: NTTField + 'static> World for Site<C, Q> {
    fn call(&self, op: Op, route: Route) -> (Vec<u64>, Option<String>) {
        let e = &self.evals[route.clone % self.evals.len()];
        let x = op.ins.map(|i| &self.pool[i % self.pool.len()].1);
        let (y, changed) = if route.buffer {
            // the same memory holds other inputs in the next call
            let key = std::any::TypeId::of::<[LWE<C>; 3]>();
            let mut b: Box<[LWE<C>; 3]> = BUF.with(|m| m.borrow_mut().remove(&key)).and_then(|b| b.downcast().ok())
                .unwrap_or_else(|| Box::new([x[0].clone(), x[0].clone(), x[0].clone()]));
            for i in 0..3 {
                if b[i].a().len() == x[i].a().len() {
                    b[i].a_mut().copy_from_slice(x[i].a());
                    *b[i].b_mut() = x[i].b();
                } else {
                    b[i] = x[i].clone();
                }
            }
            let y = self.apply(e, op, [&b[0], &b[1], &b[2]]);
            let changed = (0..3).any(|i| flat(&b[i]) != flat(x[i]));
            BUF.with(|m| m.borrow_mut().insert(key, b));
            (y, changed)
        } else {
            let before: Vec<Vec<u64>> = x.iter().map(|x| flat(*x)).collect();
            let y = self.apply(e, op, x);
            (y, (0..3).any(|i| flat(x[i]) != before[i]))
        };
        let bad = if changed { Some("the call changed an input".into()) } else { self.wrong(op, &y) };
        (flat(&y), bad)
    }
    fn misuse(&self, seed: u64) {
        let e = &self.evals[0];
        let n = self.pool[0].1.a().len();
        let short = lwe::<C>(&vec![1; [0, n / 2, n + 1, 2 * n + 3][seed as usize % 4]], 1);
        let ok = &self.pool[0].1;
        let _ = catch(|| match seed / 4 % 4 {
            0 => drop(e.and(&short, ok)),
            1 => drop(e.mux(ok, ok, &short)),
            2 => drop(e.bootstrap(short.clone(), self.tables[0].1.clone())),
            _ => drop(e.bootstrap(ok.clone(), Polynomial::new(vec![Q::zero(); self.ring / 2]))),
        });
    }
    fn fresh_clone(&self) -> Arc<dyn World> {
        Arc::new(Site { sk: self.sk.clone(), evals: vec![self.evals[0].clone()], pool: self.pool.clone(), tables: self.tables.clone(),
            slots: self.slots.clone(), fits: self.fits, tol: self.tol, q: self.q, ring: self.ring, text: self.text.clone() })
    }
    fn sizes(&self) -> (usize, usize) {
        (self.pool.len(), self.tables.len())
    }
    fn text(&self) -> &str {
        &self.text
    }
    fn print(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        format!("{:?}", self.evals[0]).hash(&mut h);
        for (_, x) in &self.pool { flat(x).hash(&mut h); }
        h.finish()
    }
}

fn site<C: LWEModulusType + 'static, Q: NTTField + 'static>(c: &mut Case, params: Parameters<C, Q>, text: String, tol: Option<f64>, inputs: usize) -> Arc<dyn World> {
    let l = lab(c, params, text);
    let p = V::<Q>::p();
    let n = l.sk.lwe_secret_key().len();
    let grain = (l.q / (2 * l.ring as u128)).max(1);
    let step = (2 * l.ring as u128 / l.q).max(1) as usize;
    let mut pool: Vec<(Option<bool>, LWE<C>)> = vec![];
    let mut slots = vec![];
    for i in 0..inputs {
        let (m, x, at) = match i % 6 {
            0 | 1 => { let m = i % 2 == 1; (Some(m), l.fresh(c, m), None) }
            2 => { let at = c.rng.next_u64() as u128 % (l.q / grain); (None, l.craft(c, at * grain, grain), Some(at as usize * step)) }
            3 => {
                // anything at all
                let a: Vec<u128> = (0..n).map(|_| c.rng.next_u64() as u128 % l.q).collect();
                (None, lwe(&a, c.rng.next_u64() as u128 % l.q), None)
            }
            4 => {
                // a near copy of an earlier one: same body, one mask element apart
                let j = c.below(i as u64) as usize;
                let (mut a, b) = parts(&pool[j].1);
                let k = [0, n - 1, c.below(n as u64) as usize][c.below(3) as usize];
                a[k] = addm(a[k], 1 + c.below(l.q as u64 - 1) as u128, l.q);
                (None, lwe(&a, b), None)
            }
            _ => {
                // same mask, other body
                let j = c.below(i as u64) as usize;
                let (a, b) = parts(&pool[j].1);
                (None, lwe(&a, addm(b, l.q / 2, l.q)), None)
            }
        };
        pool.push((m, x));
        slots.push(at);
    }
    let tables = (0..4).map(|k| {
        let t: Vec<u128> = match k { 0 => vec![p / 8; l.ring], 1 => vec![p - 1; l.ring], _ => (0..l.ring).map(|_| c.rng.next_u64() as u128 % p).collect() };
        let q = V::<Q>::poly(&t);
        (t, q)
    }).collect();
    let evals = vec![l.eval.clone(), l.eval.clone(), l.eval];
    Arc::new(Site { sk: l.sk, evals, pool, tables, slots, fits: tol.is_some(), tol: tol.unwrap_or(0.0), q: l.q, ring: l.ring, text: l.text })
}
/// a key set with random parameters over this pair of types
fn random<C: LWEModulusType + 'static, Q: NTTField + 'static>(c: &mut Case, name: &str, log_n: u32) -> Option<Arc<dyn World>> {
    let mut s = Spec::pick::<C, Q>(&mut c.rng, log_n, 8.5)?;
    if c.below(3) == 0 {
        // a first modulus below twice the ring dimension
        for _ in 0..100 {
            if s.q < 2 * s.ring as u64 { break; }
            s = Spec::pick::<C, Q>(&mut c.rng, log_n.max(5) + 2, 8.5)?;
        }
    }
    c.count(match (s.q as usize).cmp(&(2 * s.ring)) { std::cmp::Ordering::Less => "sets q < 2N", std::cmp::Ordering::Equal => "sets q = 2N", _ => "sets q > 2N" }, 1);
    let z = s.noise(V::<Q>::p());
    let tol = 8.5 * z.sd() + 1.0;
    let k = 6 + c.below(12) as usize;
    Some(site::<C, Q>(c, s.params::<C, Q>(), format!("{name} {s:?}"), Some(tol), k))
}
const PAIRS: usize = 8;
fn pair(c: &mut Case, k: usize, log_n: u32) -> Option<Arc<dyn World>> {
    match k % PAIRS {
        0 => random::<u16, DefaultFieldU32>(c, "u16, default field", log_n),
        1 => random::<u32, DefaultFieldU32>(c, "u32, default field", log_n),
        2 => random::<u8, B7681>(c, "u8, p=7681", log_n),
        3 => random::<u16, C65537>(c, "u16, p=65537", log_n),
        4 => random::<u64, D62>(c, "u64, 62-bit p", log_n),
        5 => random::<u32, D50>(c, "u32, 50-bit p", log_n),
        6 => random::<u16, DefaultQks>(c, "u16, key-switching field", log_n),
        _ => random::<u64, DefaultFieldU32>(c, "u64, default field", log_n),
    }
}
/// a key set that another process can make again
#[derive(Clone, Debug)]
struct Birth {
    kind: usize,
    seed: u64,
    log_n: u32,
    print: u64,
}
fn born(c: &mut Case, kind: usize, seed: u64, log_n: u32) -> Option<(Birth, Arc<dyn World>)> {
    let keep = std::mem::replace(&mut c.rng, R::seed_from_u64(seed));
    let w = pair(c, kind, log_n);
    c.rng = keep;
    w.map(|w| (Birth { kind, seed, log_n, print: w.print() }, w))
}
/// the same key set and calls in a process where nothing else ever ran
fn twin(c: &mut Case, k: usize, b: &Birth, ops: &[Op]) -> Option<Vec<Event>> {
    let text = ops.iter().map(|o| format!("{}.{}.{}.{}", o.gate, o.ins[0], o.ins[1], o.ins[2])).collect::<Vec<_>>().join(",");
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["--twin", &b.kind.to_string(), &b.seed.to_string(), &b.log_n.to_string(), &text])
        .env("RAYON_NUM_THREADS", (1 + c.below(6)).to_string())
        .output().expect("twin");
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut lines = text.lines();
    let Some(print) = lines.next().and_then(|l| l.parse::<u64>().ok()) else {
        c.fail("a fresh process cannot evaluate", format!("{} {}; {b:?}", out.status, String::from_utf8_lossy(&out.stderr)));
        return None;
    };
    if print != b.print {
        c.count("twins whose keys came out different, not compared", 1);
        return None;
    }
    let outs: Vec<Vec<u64>> = lines.filter_map(|l| l.strip_prefix("O ")).map(|l| l.split(' ').map(|x| x.parse().unwrap()).collect()).collect();
    if outs.len() != ops.len() {
        c.fail("a fresh process cannot evaluate", format!("{}; {b:?}", String::from_utf8_lossy(&out.stderr)));
        return None;
    }
    c.count("twin processes compared", 1);
    Some(ops.iter().zip(outs).map(|(o, out)| Event { op: Op { site: k, ..*o }, out, bad: None, at: 0, thread: 1000 }).collect())
}
fn be_twin(m: &Mon) -> ! {
    let v: Vec<String> = std::env::args().skip_while(|a| a != "--twin").skip(1).collect();
    m.run("twin", |c| {
        let Some((b, w)) = born(c, v[0].parse().unwrap(), v[1].parse().unwrap(), v[2].parse().unwrap()) else { return };
        println!("{}", b.print);
        for o in v[3].split(',') {
            let x: Vec<usize> = o.split('.').map(|x| x.parse().unwrap()).collect();
            let op = Op { site: 0, gate: x[0], ins: [x[1], x[2], x[3]] };
            let (y, _) = w.call(op, Route { clone: 0, buffer: false });
            println!("O {}", y.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
    });
    std::process::exit(0)
}
/// key sets to run side by side: the same parameters twice with different keys, or different ones
fn worlds(c: &mut Case, log_n: u32) -> (Vec<Birth>, Vec<Arc<dyn World>>) {
    let (mut bs, mut v) = (vec![], vec![]);
    let k = 1 + c.below(3) as usize;
    let first = c.below(PAIRS as u64) as usize;
    for _ in 0..k {
        let kind = if c.below(2) == 0 { first } else { c.below(PAIRS as u64) as usize };
        let seed = c.rng.next_u64();
        if let Some((b, s)) = born(c, kind, seed, log_n) { bs.push(b); v.push(s); }
    }
    (bs, v)
}
fn draw(rng: &mut R, worlds: &[Arc<dyn World>]) -> Op {
    let site = rng.next_u32() as usize % worlds.len();
    let (n, t) = worlds[site].sizes();
    let mut pick = || rng.next_u32() as usize % n;
    let mut ins = [pick(), pick(), pick()];
    let gate = rng.next_u32() as usize % 12;
    let gate = if gate > 9 { 8 } else { gate };
    if rng.next_u32() % 6 == 0 { ins[1] = ins[0]; }
    if gate == 9 { ins[1] = rng.next_u32() as usize % t; ins[2] = 0; }
    if gate < 7 { ins[2] = 0; }
    if gate == 0 { ins[1] = 0; }
    Op { site, gate, ins }
}

#[derive(Default)]
struct Checker {
    one: HashMap<Op, Vec<u64>>,
    sites: Vec<String>,
}
impl Checker {
    fn new(w: &[Arc<dyn World>]) -> Self {
        Checker { one: HashMap::new(), sites: w.iter().map(|w| w.text().to_string()).collect() }
    }
    fn take(&mut self, c: &mut Case, mut log: Vec<Event>, what: &'static str, text: &str) {
        log.sort_by_key(|e| e.at);
        let mut again = 0;
        let mut moves = 0;
        let mut last = usize::MAX;
        for e in &log {
            if let Some(b) = &e.bad {
                c.fail("gate output or input", format!("{b}; {:?} {what} {text}; {}", e.op, self.sites[e.op.site]));
            }
            match self.one.get(&e.op) {
                Some(first) => {
                    again += 1;
                    let same = *first == e.out;
                    c.ok(same, "one call, two answers", || format!("{:?} {what} {text}: {:?}.. then {:?}..; {}", e.op, &first[..first.len().min(4)], &e.out[..e.out.len().min(4)], self.sites[e.op.site]));
                }
                None => { self.one.insert(e.op, e.out.clone()); }
            }
            moves += (e.thread != last) as u64;
            last = e.thread;
        }
        c.count("calls logged", log.len() as u64);
        c.count("calls compared with an earlier identical one", again);
        c.count("hand-overs between threads in completion order", moves);
        c.seen(log.iter().map(|e| (e.thread, e.op)).collect::<Vec<_>>());
    }
}

/// one thread's share of a schedule
#[allow(clippy::too_many_arguments)]
fn drive(seed: u64, thread: usize, worlds: &[Arc<dyn World>], menu: &[Op], calls: usize, clock: &AtomicU64, stop_on: Option<&AtomicBool>) -> Vec<Event> {
    let mut rng = R::seed_from_u64(seed ^ (thread as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15));
    let mut own: Option<(usize, Arc<dyn World>)> = None;
    let mut log = Vec::with_capacity(calls);
    for _ in 0..calls {
        if stop_on.is_some_and(|s| s.load(Ordering::Relaxed)) { break; }
        let op = if rng.next_u32() % 8 == 0 { draw(&mut rng, worlds) } else { menu[rng.next_u32() as usize % menu.len()] };
        let route = Route { clone: rng.next_u32() as usize % 3, buffer: rng.next_u32() % 3 == 0 };
        match rng.next_u32() % 24 {
            0 => std::thread::yield_now(),
            1 => worlds[op.site].misuse(rng.next_u64()),
            2 => own = Some((op.site, worlds[op.site].fresh_clone())),
            3 => own = None,
            _ => {}
        }
        let w: &dyn World = match &own { Some((s, w)) if *s == op.site => &**w, _ => &*worlds[op.site] };
        let r = catch(|| w.call(op, route));
        let at = clock.fetch_add(1, Ordering::Relaxed);
        match r {
            Ok((out, bad)) => log.push(Event { op, out, bad, at, thread }),
            Err(m) => log.push(Event { op, out: vec![], bad: Some(format!("panicked: {m}")), at, thread }),
        }
    }
    log
}

fn menu(c: &mut Case, w: &[Arc<dyn World>], k: usize) -> Vec<Op> {
    (0..k).map(|_| draw(&mut c.rng, w)).collect()
}

/// plain threads sharing the evaluators; nothing orders them but the starting barrier
fn threads(c: &mut Case, w: &[Arc<dyn World>], ck: &mut Checker, th: usize, calls: usize, with_keys: bool) {
    let menu = menu(c, w, 12);
    let seed = c.rng.next_u64();
    let clock = AtomicU64::new(0);
    let start = Barrier::new(th);
    // key generation going on next to the evaluations
    let done = AtomicBool::new(false);
    let extra = with_keys.then(|| c.rng.next_u64());
    let log: Vec<Event> = std::thread::scope(|s| {
        if let Some(x) = extra {
            let done = &done;
            s.spawn(move || {
                let mut rng = R::seed_from_u64(x);
                for _ in 0..3 {
                    if done.load(Ordering::Relaxed) { break; }
                    let sp = Spec::pick::<u16, DefaultFieldU32>(&mut rng, 5, 8.5).unwrap();
                    let sk = zkfhe::KeyGen::generate_secret_key(sp.params::<u16, DefaultFieldU32>(), &mut rng);
                    let e = Evaluator::new(&sk, &mut rng);
                    drop(e);
                }
            });
        }
        let hs: Vec<_> = (0..th).map(|t| {
            let (w, menu, clock, start) = (&w, &menu, &clock, &start);
            s.spawn(move || { start.wait(); drive(seed, t, w, menu, calls, clock, None) })
        }).collect();
        let r = hs.into_iter().flat_map(|h| h.join().expect("thread")).collect();
        done.store(true, Ordering::Relaxed);
        r
    });
    ck.take(c, log, "from threads", &format!("{th} threads"));
}
/// tasks on a work-stealing pool, several nested in each other's waits
fn pool(c: &mut Case, w: &[Arc<dyn World>], ck: &mut Checker, size: usize, tasks: usize) {
    let menu = menu(c, w, 6);
    let seed = c.rng.next_u64();
    let clock = AtomicU64::new(0);
    let p = rayon::ThreadPoolBuilder::new().num_threads(size).build().expect("pool");
    let log: Vec<Event> = p.install(|| (0..tasks).into_par_iter().with_max_len(1).flat_map_iter(|t| {
        let mut l = drive(seed, t, w, &menu, 3, &clock, None);
        for e in &mut l { e.thread = rayon::current_thread_index().unwrap_or(99); }
        l
    }).collect());
    drop(p);
    ck.take(c, log, "from a pool", &format!("{size} workers"));
    c.count("pools", 1);
}
fn alone(c: &mut Case, w: &[Arc<dyn World>], ck: &mut Checker, calls: usize) {
    let menu = menu(c, w, 8);
    let seed = c.rng.next_u64();
    let clock = AtomicU64::new(0);
    let log = drive(seed, 0, w, &menu, calls, &clock, None);
    ck.take(c, log, "in turn", "one thread");
}

fn case(c: &mut Case, small: bool) {
    let (births, w) = worlds(c, if small { 4 } else if c.idx % 6 == 0 { 8 } else { 6 });
    if w.is_empty() { c.count("no parameters fit", 1); return; }
    let mut ck = Checker::new(&w);
    c.count("key sets side by side", w.len() as u64);
    let phases = if small { 2 } else { 4 };
    for k in 0..phases {
        match (k + c.idx) % 4 {
            0 => alone(c, &w, &mut ck, if small { 20 } else { 60 }),
            1 => { let th = [2, 3, 4, 8, 16][c.below(5) as usize]; let keys = c.below(3) == 0; threads(c, &w, &mut ck, th, if small { 10 } else { 30 }, keys) }
            2 => { let size = 1 + c.below(8) as usize; pool(c, &w, &mut ck, size, if small { 8 } else { 24 }) }
            _ => { let th = [2, 4, 8][c.below(3) as usize]; threads(c, &w, &mut ck, th, if small { 10 } else { 30 }, false) }
        }
    }
    if !small && c.idx % 2 == 0 {
        let k = c.below(w.len() as u64) as usize;
        let mut ops: Vec<Op> = ck.one.keys().filter(|o| o.site == k).copied().collect();
        ops.sort_by_key(|o| (o.gate, o.ins));
        let start = c.below(ops.len().max(1) as u64) as usize;
        ops.rotate_left(start);
        ops.truncate(10);
        if !ops.is_empty() {
            if let Some(log) = twin(c, k, &births[k], &ops) { ck.take(c, log, "in a process of its own", ""); }
        }
    }
    c.sample(|| format!("{} key sets, {} distinct calls; {}", w.len(), ck.one.len(), ck.sites[0]));
}
/// very many calls on one key
fn long<C: LWEModulusType + 'static, Q: NTTField + 'static>(c: &mut Case, name: &str, calls: usize) {
    let mut s = None;
    for _ in 0..200 {
        s = Spec::pick::<C, Q>(&mut c.rng, 5, 8.5);
        if s.is_some_and(|s| s.n <= 4 && s.ring <= 32) { break; }
    }
    let Some(s) = s else { return };
    let tol = 8.5 * s.noise(V::<Q>::p()).sd() + 1.0;
    let w = vec![site::<C, Q>(c, s.params::<C, Q>(), format!("{name} {s:?}"), Some(tol), 6)];
    let menu = menu(c, &w, 10);
    let first: Vec<Vec<u64>> = menu.iter().map(|&op| w[0].call(op, Route { clone: 0, buffer: false }).0).collect();
    for k in 0..calls {
        let i = (k.wrapping_mul(7919) + k / 10) % menu.len();
        let (y, bad) = w[0].call(menu[i], Route { clone: k / 1000 % 3, buffer: k % 3 == 0 });
        let same = y == first[i];
        c.ok(same && bad.is_none(), "an answer changes after many calls", || format!("{:?} call {k}: {bad:?}; {}", menu[i], w[0].text()));
    }
    c.count("calls in long histories", calls as u64);
    c.seen((c.idx, name));
    c.sample(|| format!("{calls} calls on {}", w[0].text()));
}
fn shipped(c: &mut Case, per: usize) {
    let default = c.idx % 2 == 0;
    let w = if default {
        vec![site(c, *DEFAULT_TERNARY_128_BITS_PARAMETERS, "default set".into(), Some(60.0), 6)]
    } else {
        vec![site(c, *CUSTOM_TERNARY_128_BITS_PARAMETERS, "custom set".into(), None, 6)]
    };
    let mut ck = Checker::new(&w);
    let seed = c.rng.next_u64();
    let menu: Vec<Op> = (0..4).map(|k| { let mut o = draw(&mut c.rng, &w); o.gate = [1, 5, 8, 9][k]; o.ins = [k, k + 1, k + 2]; o }).collect();
    let clock = AtomicU64::new(0);
    let log = drive(seed, 0, &w, &menu, per, &clock, None);
    ck.take(c, log, "in turn", "one thread");
    let log: Vec<Event> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4).map(|t| { let (w, menu, clock) = (&w, &menu, &clock); s.spawn(move || drive(seed, t, w, menu, per, clock, None)) }).collect();
        hs.into_iter().flat_map(|h| h.join().expect("thread")).collect()
    });
    ck.take(c, log, "from threads", "4 threads");
    for size in [1, 3] { pool(c, &w, &mut ck, size, 2); }
    c.sample(|| format!("{}: {} distinct calls", ck.sites[0], ck.one.len()));
}

fn main() {
    let small = std::env::args().any(|a| a == "--small");
    let m = Mon::new("C03");
    if std::env::args().any(|a| a == "--twin") { be_twin(&m) }
    if small {
        for k in 0..m.n(80, 4000) { m.run(&format!("races {k}"), |c| { case(c, true) }); }
    } else {
        m.par("schedules", m.n(260, 20000), |c| case(c, false));
        m.par("long histories", 8, |c| {
            let n = if c.thorough() { 5_000_000 } else { 120_000 };
            match c.idx % 4 {
                0 => long::<u16, DefaultFieldU32>(c, "u16, default field", n),
                1 => long::<u8, B7681>(c, "u8, p=7681", n),
                2 => long::<u64, D62>(c, "u64, 62-bit p", n),
                _ => long::<u32, DefaultFieldU32>(c, "u32, default field", n),
            }
        });
        m.par("shipped sets", m.n(4, 60), |c| { let n = if c.thorough() { 12 } else { 5 }; shipped(c, n) });
    }
    m.finish(
        "one schedule (order of completed calls by thread, key set, operation and inputs) per distinct case; a verdict compares an output bit by bit with the first output of the same call",
        &["schedules come from the operating system, the pool's work stealing and injected yields, not from enumeration"],
    );
}
