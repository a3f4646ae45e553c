//! Executes simulated runs in threads of their own and searches over seeds.

use crate::choice::{Choice, Tape, mix};
use crate::entropy;
use crate::knobs::P;
use crate::world::{self, Outcome, Stats, Viol};
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Where a run's decisions come from.
#[derive(Clone)]
pub enum Src {
    Seed(u64),
    Tape(Tape),
}

/// Simulated events of the run each worker is at: tells a hanging run from a slow one.
#[repr(align(128))]
pub struct Pulse(AtomicU64);
pub static PULSE: [Pulse; 65] = [const { Pulse(AtomicU64::new(0)) }; 65];
thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(64) };
}
pub fn pulse() {
    PULSE[SLOT.get()].0.fetch_add(1, Ordering::Relaxed);
}
/// The count of a worker, or of the runs outside the search.
pub fn pulses(worker: usize) -> u64 {
    PULSE[worker].0.load(Ordering::Relaxed)
}

/// One run in a fresh thread. `Err`: the harness itself failed.
pub fn run_in_thread(p: P, src: Src, hash: u64, verbose: bool) -> Result<Outcome, String> {
    let slot = SLOT.get();
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            SLOT.set(slot);
            entropy::set(hash);
            let choices = || match &src {
                Src::Seed(s) => Choice::seeded(*s),
                Src::Tape(t) => Choice::replay(t.clone()),
            };
            crate::clock::start(hash);
            let mut o = world::run(p, choices(), verbose);
            if o.viol.as_ref().is_some_and(|v| v.class.starts_with("memory")) {
                // a table that is built once and kept is no growth: what
                // counts is what a second run in the same process holds
                crate::clock::start(hash);
                o = world::run(p, choices(), verbose);
            }
            // hash keys are drawn at most once per thread
            debug_assert!(entropy::asked() <= 1);
            o
        })
        .map_err(|e| e.to_string())?;
    match h.join() {
        Ok(o) => match &o.viol {
            Some(v) if v.class == "harness-runaway" => Err(v.msg.clone()),
            _ => Ok(o),
        },
        Err(e) => Err(e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())),
    }
}

/// As `run_in_thread`, but gives up after `limit`; `None` then.
pub fn run_limited(p: P, src: Src, hash: u64, limit: Duration) -> Option<Outcome> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(run_in_thread(p, src, hash, false));
    });
    rx.recv_timeout(limit).ok()?.ok()
}

pub fn run_seed(p: P, seed: u64, i: u64) -> u64 {
    mix(mix(seed) ^ mix((p as u64 + 1) << 48 | i))
}
pub fn hash_seed(run_seed: u64, variant: u64) -> u64 {
    mix(run_seed ^ 0x4A5B ^ variant << 56)
}

#[derive(Default)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0 ^ u64::from(*x));
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
type Set = HashSet<u64, BuildHasherDefault<IdHash>>;

#[derive(Default)]
pub struct Totals {
    pub runs: u64,
    pub st: Stats,
    pub with_fault: u64,
    pub nontrivial: u64,
    pub orders: Set,
    pub nontrivial_orders: Set,
    pub rechecked: u64,
    pub recheck_diff: u64,
    pub samples: BTreeMap<u64, String>,
    pub harness_errors: Vec<String>,
    /// the run that took longest
    pub slowest: (Duration, u64),
}

impl Totals {
    fn add(&mut self, i: u64, seed: u64, o: &Outcome) {
        self.runs += 1;
        let (a, b) = (&mut self.st, &o.stats);
        let injected = b.injected();
        let nt = b.checks > 0 && injected > 0;
        for (x, y) in a.faults.iter_mut().zip(&b.faults) {
            *x += y;
        }
        for (x, y) in a.states.iter_mut().zip(&b.states) {
            *x |= y;
        }
        for (x, y) in a.kinds.iter_mut().zip(&b.kinds) {
            *x += y;
        }
        a.cycles += b.cycles;
        a.sessions += b.sessions;
        a.sim_us += b.sim_us;
        a.events += b.events;
        a.tx_segments += b.tx_segments;
        a.rx_segments += b.rx_segments;
        a.bytes_tx += b.bytes_tx;
        a.bytes_rx += b.bytes_rx;
        a.requests += b.requests;
        a.modules += b.modules;
        a.checks += b.checks;
        a.setups += b.setups;
        a.inconclusive += b.inconclusive;
        a.largest_image = a.largest_image.max(b.largest_image);
        a.longest_session = a.longest_session.max(b.longest_session);
        a.largest_backlog = a.largest_backlog.max(b.largest_backlog);
        a.most_held = a.most_held.max(b.most_held);
        a.clock_reads += b.clock_reads;
        self.with_fault += u64::from(injected > 0);
        self.orders.insert(b.order_hash);
        if nt {
            self.nontrivial += 1;
            self.nontrivial_orders.insert(b.order_hash);
        }
        if i < 6 {
            let f: Vec<String> = world::FAULT_NAMES
                .iter()
                .zip(&b.faults)
                .filter(|(_, n)| **n > 0)
                .map(|(k, n)| format!("{k} x{n}"))
                .collect();
            let mut h = o.head.clone();
            h.truncate(400);
            self.samples.insert(
                i,
                format!(
                    "run {i} seed {seed:#018x}: {h}; {} events, {} cycles, {} sessions, {} us simulated, {} checks; faults: {}",
                    b.events,
                    b.cycles,
                    b.sessions,
                    b.sim_us,
                    b.checks,
                    f.join(", ")
                ),
            );
        }
    }
}

pub struct Found {
    pub index: u64,
    pub seed: u64,
    pub viol: Viol,
    pub tape: Tape,
    /// C14: the outcome depends on something outside the run
    pub rerun: bool,
}

pub struct Search {
    pub tot: Totals,
    pub found: Option<Found>,
    pub known: BTreeMap<String, u64>,
    pub wall: Duration,
    pub planned: u64,
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub needle: String,
    pub what: String,
}

/// Progress of the workers, for the parent process in case this one dies.
pub struct Beacon {
    file: Option<std::fs::File>,
}
impl Beacon {
    pub fn new(path: Option<&str>) -> Beacon {
        Beacon { file: path.and_then(|p| std::fs::File::create(p).ok()) }
    }
    fn mark(&self, worker: usize, index: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.file {
            let _ = f.write_at(&index.to_le_bytes(), worker as u64 * 8);
        }
    }
}

/// Real time without a single simulated event after which a run counts as hanging.
pub const HANG_S: u64 = 90;

#[allow(clippy::too_many_arguments)]
pub fn search(
    p: P,
    seed: u64,
    n: u64,
    cap: Duration,
    workers: usize,
    recheck: u64,
    known: &[Known],
    beacon: &Beacon,
    on_hang: &(dyn Fn(u64) + Sync),
) -> Search {
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let done = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let tot: Mutex<Totals> = Mutex::new(Totals::default());
    let kn: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let t0 = Instant::now();
    // what each worker is doing
    let busy: Vec<AtomicU64> = (0..workers).map(|_| AtomicU64::new(u64::MAX)).collect();
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for w in 0..workers {
            let (next, best, found, tot, kn, busy) = (&next, &best, &found, &tot, &kn, &busy);
            hs.push(sc.spawn(move || {
                SLOT.set(w.min(63));
                let mut t = Totals::default();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || i > best.load(Ordering::Relaxed) || t0.elapsed() > cap {
                        break;
                    }
                    beacon.mark(w, i);
                    busy[w].store(i, Ordering::Relaxed);
                    let s = run_seed(p, seed, i);
                    let t1 = Instant::now();
                    let o = match run_in_thread(p, Src::Seed(s), hash_seed(s, 0), false) {
                        Ok(o) => o,
                        Err(e) => {
                            t.harness_errors.push(format!("run {i} seed {s:#x}: {e}"));
                            continue;
                        }
                    };
                    t.add(i, s, &o);
                    t.slowest = t.slowest.max((t1.elapsed(), s));
                    let mut f = o.viol.map(|viol| Found {
                        index: i,
                        seed: s,
                        viol,
                        tape: o.tape,
                        rerun: false,
                    });
                    if f.is_none() && i % recheck == 0 {
                        // the same run again: other thread, other hash keys for C14
                        let v = u64::from(p == P::C14);
                        t.rechecked += 1;
                        match run_in_thread(p, Src::Seed(s), hash_seed(s, v), false) {
                            Ok(b) if b.stats.log_hash == o.stats.log_hash && b.viol.is_none() => {}
                            Ok(b) => {
                                t.recheck_diff += 1;
                                if p == P::C14 {
                                    f = Some(Found {
                                        index: i,
                                        seed: s,
                                        viol: Viol {
                                            class: "rerun-differs",
                                            msg: format!(
                                                "the same calls gave other results when repeated ({:016x} and {:016x})",
                                                o.stats.log_hash, b.stats.log_hash
                                            ),
                                        },
                                        tape: b.tape,
                                        rerun: true,
                                    });
                                }
                            }
                            Err(e) => t.harness_errors.push(format!("rerun {i} seed {s:#x}: {e}")),
                        }
                    }
                    if let Some(f) = f {
                        let k = known.iter().find(|k| {
                            k.property == p.name()
                                && k.class == f.viol.class
                                && f.viol.msg.contains(&k.needle)
                        });
                        if let Some(k) = k {
                            *kn.lock().unwrap().entry(k.what.clone()).or_default() += 1;
                            continue;
                        }
                        best.fetch_min(i, Ordering::Relaxed);
                        let mut g = found.lock().unwrap();
                        if g.as_ref().is_none_or(|x| x.index > f.index) {
                            *g = Some(f);
                        }
                    }
                }
                busy[w].store(u64::MAX, Ordering::Relaxed);
                merge(&mut tot.lock().unwrap(), t);
            }));
        }
        let (done, busy) = (&done, &busy);
        sc.spawn(move || {
            let mut last = vec![(0, u64::MAX, Instant::now()); workers];
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                for (w, l) in last.iter_mut().enumerate() {
                    let (n, i) = (pulses(w.min(63)), busy[w].load(Ordering::Relaxed));
                    if (n, i) != (l.0, l.1) {
                        *l = (n, i, Instant::now());
                    } else if i != u64::MAX && l.2.elapsed() > Duration::from_secs(HANG_S) {
                        on_hang(i);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    Search {
        tot: tot.into_inner().unwrap(),
        found: found.into_inner().unwrap(),
        known: kn.into_inner().unwrap(),
        wall: t0.elapsed(),
        planned: n,
    }
}

fn merge(a: &mut Totals, b: Totals) {
    a.runs += b.runs;
    let (x, y) = (&mut a.st, &b.st);
    for (p, q) in x.faults.iter_mut().zip(&y.faults) {
        *p += q;
    }
    for (p, q) in x.states.iter_mut().zip(&y.states) {
        *p |= q;
    }
    for (p, q) in x.kinds.iter_mut().zip(&y.kinds) {
        *p += q;
    }
    x.cycles += y.cycles;
    x.sessions += y.sessions;
    x.sim_us += y.sim_us;
    x.events += y.events;
    x.tx_segments += y.tx_segments;
    x.rx_segments += y.rx_segments;
    x.bytes_tx += y.bytes_tx;
    x.bytes_rx += y.bytes_rx;
    x.requests += y.requests;
    x.modules += y.modules;
    x.checks += y.checks;
    x.setups += y.setups;
    x.inconclusive += y.inconclusive;
    x.largest_image = x.largest_image.max(y.largest_image);
    x.longest_session = x.longest_session.max(y.longest_session);
    x.largest_backlog = x.largest_backlog.max(y.largest_backlog);
    x.most_held = x.most_held.max(y.most_held);
    x.clock_reads += y.clock_reads;
    a.with_fault += b.with_fault;
    a.nontrivial += b.nontrivial;
    a.orders.extend(b.orders);
    a.nontrivial_orders.extend(b.nontrivial_orders);
    a.rechecked += b.rechecked;
    a.recheck_diff += b.recheck_diff;
    a.samples.extend(b.samples);
    a.harness_errors.extend(b.harness_errors);
    a.slowest = a.slowest.max(b.slowest);
}
