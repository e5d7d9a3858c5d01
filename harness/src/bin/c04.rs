//! C04: the transform-table cache under concurrent, failing and repeated requests.
//!
//! The caches are process-wide, so every round runs in a child process with fresh ones; the child
//! logs each call and the parent judges the logs.
use algebra::transformation::{AbstractNTT, NTTTable};
use algebra::modulus::ShoupFactor;
use algebra::{Field, NTTField};
use mon::fields::V;
use mon::refs::*;
use mon::{catch, for_ntt_fields, Case, Mon, R};
use rand::{RngCore, SeedableRng};
use std::collections::{BTreeMap, HashMap};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};

/// a table with the address it lives at and a self-test
struct Held {
    at: usize,
    test: Box<dyn Fn(&mut R) -> Result<(), String> + Send>,
}
struct Ops {
    name: &'static str,
    /// largest supported log2 of the size
    top: u32,
    get: fn(u32) -> Result<Held, ()>,
    init: fn(&[u32]) -> bool,
    fresh: fn(u32) -> Result<Held, ()>,
}
fn held<F: 'static + NTTField<Table = NTTTable<F>, Root = ShoupFactor<<F as Field>::Value>>>(t: Arc<F::Table>, log_n: u32) -> Held {
    let at = Arc::as_ptr(&t) as usize;
    Held {
        at,
        test: Box::new(move |rng| {
            let p = V::<F>::p();
            let n = 1usize << log_n;
            if t.coeff_count() != n {
                return Err(format!("table of size {} for {n}", t.coeff_count()));
            }
            let w = V::<F>::get(t.root());
            if powm(w, n as u128, p) != p - 1 {
                return Err(format!("root {w} has the wrong order"));
            }
            let a: Vec<u128> = (0..n).map(|_| rng.next_u64() as u128 % p).collect();
            let mut x = V::<F>::vec(&a);
            t.transform_slice(&mut x);
            // one evaluation point, chosen at random
            let i = rng.next_u32() as usize % n;
            let e = 2 * if log_n == 0 { 0 } else { i.reverse_bits() >> (usize::BITS - log_n) } + 1;
            let pt = powm(w, e as u128, p);
            let want = a.iter().rev().fold(0, |s, &c| addm(mulm(s, pt, p), c, p));
            if V::<F>::get(x[i]) != want {
                return Err(format!("transform at point {i}"));
            }
            t.inverse_transform_slice(&mut x);
            if V::<F>::back(&x) != a {
                return Err("round trip".into());
            }
            Ok(())
        }),
    }
}
fn get<F: 'static + NTTField<Table = NTTTable<F>, Root = ShoupFactor<<F as Field>::Value>>>(k: u32) -> Result<Held, ()> {
    F::get_ntt_table(k).map(|t| held::<F>(t, k)).map_err(|_| ())
}
fn fresh<F: 'static + NTTField<Table = NTTTable<F>, Root = ShoupFactor<<F as Field>::Value>>>(k: u32) -> Result<Held, ()> {
    F::generate_ntt_table(k).map(|t| held::<F>(Arc::new(t), k)).map_err(|_| ())
}
fn init<F: 'static + NTTField<Table = NTTTable<F>, Root = ShoupFactor<<F as Field>::Value>>>(k: &[u32]) -> bool {
    F::init_ntt_table(k).is_ok()
}
fn all() -> Vec<Ops> {
    let mut v = vec![];
    macro_rules! add {
        ($F:ty, $name:expr) => {
            v.push(Ops { name: $name, top: V::<$F>::max_log_n(), get: get::<$F>, init: init::<$F>, fresh: fresh::<$F> });
        };
    }
    for_ntt_fields!(add);
    v
}

#[derive(Clone, Debug)]
struct Event {
    field: usize,
    thread: usize,
    /// g: get, i: init, f: generate outside the cache, t: test of a held table
    op: char,
    size: u32,
    /// address of the table, 0 when refused
    at: usize,
    from: u64,
    to: u64,
}

/// One round: threads issue requests; returns their log and what their self-tests found.
/// Nothing here orders the threads beyond the starting barrier, so races stay visible.
fn round(seed: u64, threads: usize, fields: &[usize], calls: usize, cap: u32) -> (Vec<Event>, Vec<String>) {
    let ops = all();
    let clock = AtomicU64::new(1);
    let start = Barrier::new(threads);
    let tick = || clock.fetch_add(1, Ordering::Relaxed);
    let out: Vec<(Vec<Event>, Vec<String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|thread| {
            let (ops, start, tick) = (&ops, &start, &tick);
            s.spawn(move || {
                let mut rng = R::seed_from_u64(seed ^ (thread as u64 + 1) * 0x9e37_79b9);
                let mut log = vec![];
                let mut bad = vec![];
                let mut keep: Vec<(usize, u32, Held)> = vec![];
                // half of the rounds: everyone asks for the same sizes in the same order
                let herd = seed % 2 == 0;
                let mut common = R::seed_from_u64(seed);
                start.wait();
                for _ in 0..calls {
                    let mut shared = if herd { R::seed_from_u64(common.next_u64()) } else { R::seed_from_u64(rng.next_u64()) };
                    let field = fields[shared.next_u32() as usize % fields.len()];
                    let o = &ops[field];
                    let top = o.top.min(cap);
                    let size = |r: &mut R| match r.next_u32() % 8 {
                        0 => o.top + 1 + r.next_u32() % 3,
                        1 => [31, 32, 33, 63, 64, 65, u32::MAX][r.next_u32() as usize % 7].max(o.top + 1),
                        _ => r.next_u32() % (top + 1),
                    };
                    // injected delays
                    match rng.next_u32() % 6 {
                        0 => std::thread::yield_now(),
                        1 => (0..rng.next_u32() % 300).for_each(|_| std::hint::spin_loop()),
                        _ => {}
                    }
                    let kind = shared.next_u32() % 10;
                    if kind == 0 {
                        let k: Vec<u32> = (0..1 + shared.next_u32() % 4).map(|_| size(&mut shared)).collect();
                        let from = tick();
                        let r = catch(|| (o.init)(&k));
                        let to = tick();
                        match r {
                            Ok(ok) => {
                                let want = k.iter().all(|&k| k <= o.top);
                                if ok != want { bad.push(format!("initialising {k:?} of {} answered {ok}", o.name)); }
                            }
                            Err(m) => bad.push(format!("initialising {k:?} of {} panicked: {m}", o.name)),
                        }
                        log.push(Event { field, thread, op: 'i', size: k[0], at: 0, from, to });
                    } else {
                        let k = size(&mut shared);
                        let cached = kind < 9;
                        let from = tick();
                        let r = catch(|| if cached { (o.get)(k) } else { (o.fresh)(k) });
                        let to = tick();
                        let op = if cached { 'g' } else { 'f' };
                        match r {
                            Err(m) => bad.push(format!("request for 2^{k} of {} panicked: {m}", o.name)),
                            Ok(Err(())) => log.push(Event { field, thread, op, size: k, at: 0, from, to }),
                            Ok(Ok(h)) => {
                                log.push(Event { field, thread, op, size: k, at: h.at, from, to });
                                if k <= o.top {
                                    if let Err(m) = (h.test)(&mut rng) { bad.push(format!("2^{k} of {}: {m}", o.name)); }
                                    keep.push((field, k, h));
                                }
                            }
                        }
                    }
                    if keep.len() > 3 && rng.next_u32() % 3 == 0 {
                        let i = rng.next_u32() as usize % keep.len();
                        let (f, k, h) = keep.swap_remove(i);
                        let from = tick();
                        if let Err(m) = (h.test)(&mut rng) { bad.push(format!("held 2^{k} of {}: {m}", ops[f].name)); }
                        log.push(Event { field: f, thread, op: 't', size: k, at: h.at, from, to: tick() });
                    }
                }
                for (f, k, h) in &keep {
                    if let Err(m) = (h.test)(&mut rng) { bad.push(format!("2^{k} of {} held to the end: {m}", ops[*f].name)); }
                }
                // tables asked for again are still the same ones
                for (f, k, h) in keep.iter().filter(|x| x.2.at != 0).take(4) {
                    let again = (ops[*f].get)(*k);
                    log.push(Event { field: *f, thread, op: 'g', size: *k, at: again.map(|h| h.at).unwrap_or(0), from: tick(), to: tick() });
                    let _ = h;
                }
                (log, bad)
            })
        }).collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    let mut log = vec![];
    let mut bad = vec![];
    for (l, b) in out { log.extend(l); bad.extend(b); }
    (log, bad)
}

/// One thread asks for every size twice, in some order, and again at the end.
fn sweep(seed: u64, cap: u32) -> (Vec<Event>, Vec<String>) {
    let ops = all();
    let field = seed as usize % ops.len();
    let o = &ops[field];
    let mut rng = R::seed_from_u64(seed);
    let (mut log, mut bad, mut clock) = (vec![], vec![], 0);
    let mut order: Vec<u32> = (0..=o.top.min(cap)).collect();
    match seed / ops.len() as u64 % 3 {
        0 => {}
        1 => order.reverse(),
        _ => for i in (1..order.len()).rev() { order.swap(i, rng.next_u32() as usize % (i + 1)); },
    }
    let mut keep = vec![];
    let mut twice: Vec<u32> = order.iter().flat_map(|&k| [k, k]).collect();
    twice.extend(&order);
    for k in twice {
        clock += 2;
        match catch(|| (o.get)(k)) {
            Err(m) => bad.push(format!("request for 2^{k} of {} panicked: {m}", o.name)),
            Ok(Err(())) => log.push(Event { field, thread: 0, op: 'g', size: k, at: 0, from: clock, to: clock + 1 }),
            Ok(Ok(h)) => {
                log.push(Event { field, thread: 0, op: 'g', size: k, at: h.at, from: clock, to: clock + 1 });
                if let Err(m) = (h.test)(&mut rng) { bad.push(format!("2^{k} of {}: {m}", o.name)); }
                keep.push(h);
            }
        }
    }
    (log, bad)
}

/// the offline checker
fn check(c: &mut Case, log: &[Event], bad: &[String], text: &str) {
    let ops = all();
    for b in bad {
        c.fail("table request", format!("{b}; {text}"));
    }
    let mut one: HashMap<(usize, u32), usize> = HashMap::new();
    let mut by: BTreeMap<(usize, u32), Vec<&Event>> = BTreeMap::new();
    for e in log {
        let o = &ops[e.field];
        match e.op {
            'g' | 'f' => {
                let want = e.size <= o.top;
                c.eq(e.at != 0, want, "request outcome", || format!("2^{} of {} by thread {}; {text}", e.size, o.name, e.thread));
                c.count(if want { "requests granted" } else { "requests refused" }, 1);
            }
            't' => c.count("held tables tested again", 1),
            _ => c.count("initialisation calls", 1),
        }
        if e.op == 'g' && e.at != 0 {
            let first = *one.entry((e.field, e.size)).or_insert(e.at);
            c.eq(e.at, first, "two tables for one size", || format!("2^{} of {}; {text}", e.size, o.name));
            by.entry((e.field, e.size)).or_default().push(e);
        }
    }
    // addresses of live cached tables differ between sizes
    let mut at: HashMap<usize, (usize, u32)> = HashMap::new();
    for (k, &a) in &one {
        let old = at.insert(a, *k);
        c.ok(old.is_none(), "one table for two sizes", || format!("{k:?} {old:?}; {text}"));
    }
    // how contended the initialisations were
    for v in by.values_mut() {
        v.sort_by_key(|e| e.from);
        let first = v[0];
        let others = v[1..].iter().filter(|e| e.from < first.to && e.thread != first.thread).count();
        c.count("sizes first requested by several threads at once", (others > 0) as u64);
        c.count("sizes requested", 1);
    }
    let mut order: Vec<(u64, usize, char, usize, u32)> = log.iter().map(|e| (e.to, e.thread, e.op, e.field, e.size)).collect();
    order.sort();
    c.seen(order.iter().map(|o| (o.1, o.2, o.3, o.4)).collect::<Vec<_>>());
    c.sample(|| format!("{text}: {} events, first {:?}", log.len(), order.iter().take(6).collect::<Vec<_>>()));
}

fn plan(seed: u64, tiny: bool) -> (usize, Vec<usize>, usize, u32) {
    let mut rng = R::seed_from_u64(seed.wrapping_mul(77));
    let n = all().len();
    if tiny {
        return (3, vec![rng.next_u32() as usize % 9, 9 + rng.next_u32() as usize % 14], 8, 3);
    }
    let threads = [2, 3, 4, 8, 8, 16, 32][rng.next_u32() as usize % 7];
    let fields = (0..1 + rng.next_u32() % 6).map(|_| rng.next_u32() as usize % n).collect();
    let calls = 12 + rng.next_u32() as usize % 60;
    match rng.next_u32() % 12 {
        // few but long constructions
        0 => (threads.min(8), fields, calls / 8 + 2, 16),
        1 => (threads.min(8), fields, calls / 4 + 2, 13),
        k => (threads, fields, calls, [3, 6, 9, 11][k as usize % 4]),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if let Some(i) = args.iter().position(|a| a == "--child") {
        let seed: u64 = args[i + 1].parse().unwrap();
        let small = args.iter().any(|a| a == "--small");
        let (log, bad) = if args.iter().any(|a| a == "--sweep") {
            sweep(seed, if small { 11 } else { 18 })
        } else {
            let (threads, fields, calls, cap) = plan(seed, false);
            round(seed, threads, &fields, calls, if small { cap.min(8) } else { cap })
        };
        let mut s = String::new();
        for e in log { s += &format!("E {} {} {} {} {} {} {}\n", e.field, e.thread, e.op, e.size, e.at, e.from, e.to); }
        for b in bad { s += &format!("B {}\n", b.replace('\n', " ")); }
        print!("{s}DONE\n");
        return;
    }
    let small = args.iter().any(|a| a == "--small");
    let tiny = args.iter().any(|a| a == "--tiny");
    let m = Mon::new("C04");
    if tiny {
        // one process, fresh field types; the interpreter explores few but fully checked schedules
        m.run("in process", |c| {
            for k in 0..4u64 {
                let seed = m.seed * 1000 + k;
                let (threads, fields, calls, cap) = plan(seed, true);
                let (log, bad) = round(seed, threads, &fields, calls, cap);
                check(c, &log, &bad, &format!("round {k}: {threads} threads, fields {fields:?}"));
            }
        });
    } else {
        let exe = std::env::current_exe().unwrap();
        let rounds = if small { m.n(600, 6000) } else { m.n(3000, 30000) };
        let sweeps = if small { all().len() } else { m.n(all().len() * 3, all().len() * 12) };
        m.par("sweeps", sweeps, |c| {
            let seed = (c.idx as u64) + m.seed.wrapping_mul(7 * all().len() as u64);
            one(c, &exe, small, seed, true, &format!("every size of {} in turn ({seed})", all()[c.idx % all().len()].name));
        });
        m.par("rounds", rounds, |c| {
            let seed = m.seed.wrapping_mul(1_000_003).wrapping_add(c.idx as u64);
            let (threads, fields, calls, _) = plan(seed, false);
            one(c, &exe, small, seed, false, &format!("round {seed}: {threads} threads, fields {fields:?}, {calls} calls each"));
        });
    }
    m.finish(
        "one interleaving (order of completed calls by thread, kind, field and size) per distinct case; verdicts cover every logged call",
        &["schedules come from the operating system, injected delays and contention, not from enumeration",
          "tables above size 2^18 are not built"],
    );
}

/// one child process and the judgement of its log
fn one(c: &mut Case, exe: &std::path::Path, small: bool, seed: u64, sweep: bool, text: &str) {
    let mut cmd = Command::new(exe);
    cmd.arg("--child").arg(seed.to_string());
    if small { cmd.arg("--small"); }
    if sweep { cmd.arg("--sweep"); }
    let mut child = cmd.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().expect("child");
    // a stuck round is a verdict, not a hang of the check
    let (mut so, mut se) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let to = std::thread::spawn(move || { let mut s = String::new(); let _ = std::io::Read::read_to_string(&mut so, &mut s); s });
    let te = std::thread::spawn(move || { let mut s = String::new(); let _ = std::io::Read::read_to_string(&mut se, &mut s); s });
    let t0 = std::time::Instant::now();
    let limit = if small { 300 } else { 120 };
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") { break Some(s); }
        if t0.elapsed().as_secs() > limit { let _ = child.kill(); let _ = child.wait(); break None; }
        std::thread::sleep(std::time::Duration::from_millis(3));
    };
    let (out, err) = (to.join().unwrap(), te.join().unwrap());
    let Some(status) = status else {
        c.fail("requests never finish", format!("{text}: no progress within {limit}s"));
        return;
    };
    if err.contains("ThreadSanitizer") {
        let what = err.lines().find(|l| l.contains("ThreadSanitizer")).unwrap_or("").to_string();
        c.fail("data race", format!("{what}; {text}; {}", err.chars().take(3000).collect::<String>()));
        return;
    }
    if !status.success() || !out.ends_with("DONE\n") {
        c.fail("the process died", format!("{status}; {text}; {}", err.chars().take(2000).collect::<String>()));
        return;
    }
    let mut log = vec![];
    let mut bad = vec![];
    for l in out.lines() {
        if let Some(r) = l.strip_prefix("E ") {
            let v: Vec<&str> = r.split(' ').collect();
            log.push(Event {
                field: v[0].parse().unwrap(), thread: v[1].parse().unwrap(), op: v[2].chars().next().unwrap(), size: v[3].parse().unwrap(),
                at: v[4].parse().unwrap(), from: v[5].parse().unwrap(), to: v[6].parse().unwrap(),
            });
        } else if let Some(b) = l.strip_prefix("B ") { bad.push(b.to_string()); }
    }
    c.count("processes with fresh caches", 1);
    check(c, &log, &bad, text);
}
