//! Deterministic simulation of a u-remote station around the real `ur20` coupler.
//!
//!   ur20sim check <PROPERTY>     search; tier and seed from VERIF_TIER / VERIF_SEED
//!   ur20sim replay <FILE>        execute a replay file again
//!   ur20sim selftest             every property: same seeds, other worker counts and processes
//!   ur20sim one <PROPERTY> <RUN SEED> [v]

mod choice;
mod clock;
mod codec;
mod entropy;
mod json;
mod knobs;
mod mem;
mod params;
mod runner;
mod shrink;
mod station;
mod world;

use choice::{STREAM_NAMES, Tape};
use json::{J, obj};
use knobs::{P, PROPS};
use runner::*;
use std::process::{Command, exit};
use std::time::{Duration, Instant};

/// Runs of the quick tier, and how many times as many the thorough tier has.
fn budget(p: P) -> u64 {
    match p {
        P::C01 => 40_000,
        P::C02 => 100_000,
        P::C03 => 100_000,
        P::C04 => 40_000,
        P::C05 => 60_000,
        P::C06 => 80_000,
        P::C07 => 100_000,
        P::C08 => 90_000,
        P::C09 => 60_000,
        P::C10 => 120_000,
        P::C11 => 400_000,
        P::C12 => 70_000,
        P::C13 => 40_000,
        P::C14 => 40_000,
        P::C17 => 60_000,
        P::C18 => 12_000,
    }
}
const THOROUGH: u64 = 25;

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok()
}
fn root() -> String {
    env("UR20SIM_ROOT").unwrap_or_else(|| "/verif".into())
}

fn known_findings() -> Vec<Known> {
    let mut v = vec![];
    let text =
        std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root())).unwrap_or_default();
    for l in text.lines() {
        // known: property=<id> class=<class> match="<text>" <what fails>
        let Some(r) = l.strip_prefix("known: property=") else {
            continue;
        };
        let Some((property, r)) = r.split_once(" class=") else {
            continue;
        };
        let Some((class, r)) = r.split_once(" match=\"") else {
            continue;
        };
        let Some((needle, what)) = r.split_once("\" ") else {
            continue;
        };
        v.push(Known {
            property: property.into(),
            class: class.into(),
            needle: needle.into(),
            what: what.into(),
        });
    }
    v
}

fn tape_json(t: &Tape) -> J {
    obj(STREAM_NAMES
        .iter()
        .zip(t)
        .map(|(n, s)| (*n, J::Arr(s.iter().map(|v| J::from(*v)).collect())))
        .collect())
}

fn write(path: &str, s: &str) {
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(path, s) {
        eprintln!("cannot write {path}: {e}");
        exit(2);
    }
}

fn replay_path(p: P, run_seed: u64) -> String {
    format!("{}/replays/{}-{run_seed:016x}.json", root(), p.name())
}

/// A violation that ends the process it happens in: replayed by seed.
fn report_fatal(p: P, i: u64, seed: u64, class: &str, msg: &str) -> ! {
    let s = run_seed(p, seed, i);
    let path = replay_path(p, s);
    let j = obj(vec![
        ("property", p.name().into()),
        ("kind", "fatal".into()),
        ("class", class.into()),
        ("message", msg.into()),
        ("run_index", i.into()),
        ("run_seed", s.into()),
    ]);
    write(&path, &j.render(0));
    println!("[{class}] run {i} seed {s:#018x}: {msg}");
    println!("VIOLATION property={} replay={path}", p.name());
    exit(1);
}

/// Outcome of the last of the runs `seeds`, executed one after another in a fresh process:
/// violation class ("" for none) and log hash.
fn last_of(p: P, seeds: &[u64], limit: Duration) -> Option<(String, u64)> {
    use std::io::{Read, Write};
    let exe = std::env::current_exe().ok()?;
    let mut ch = Command::new(exe)
        .args(["seq", p.name()])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let list: String = seeds.iter().map(|s| format!("{s}\n")).collect();
    let mut stdin = ch.stdin.take()?;
    let feed = std::thread::spawn(move || stdin.write_all(list.as_bytes()));
    let mut stdout = ch.stdout.take()?;
    let read = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = stdout.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(_)) => break,
            _ if t0.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                break;
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    }
    let _ = feed.join();
    let out = read.join().ok()?;
    if out.lines().count() != seeds.len() {
        return None;
    }
    let mut w = out.lines().last()?.split(' ');
    let h = u64::from_str_radix(w.next()?, 16).ok()?;
    Some((w.next().unwrap_or("").to_string(), h))
}

fn seq(p: P) -> i32 {
    for l in std::io::stdin().lines().map_while(Result::ok) {
        let Ok(s) = l.trim().parse::<u64>() else { return 2 };
        match run_in_thread(p, Src::Seed(s), hash_seed(s, 0), false) {
            Ok(o) => {
                println!("{:016x} {}", o.stats.log_hash, o.viol.map_or("", |v| v.class));
            }
            Err(_) => println!("{:016x} harness", 0),
        }
    }
    0
}

/// Shortens a list of runs while `bad` holds; the last one stays.
fn ddmin(mut list: Vec<u64>, until: Instant, bad: &dyn Fn(&[u64]) -> bool) -> Vec<u64> {
    let mut n = 2;
    while list.len() > 1 && Instant::now() < until {
        let len = list.len() - 1;
        let step = len.div_ceil(n);
        let mut cut = false;
        let mut i = 0;
        while i < len && Instant::now() < until {
            let keep: Vec<u64> = if n == 2 {
                // one part alone
                let mut k = list[i..(i + step).min(len)].to_vec();
                k.push(list[len]);
                k
            } else {
                let mut k = list.clone();
                k.drain(i..(i + step).min(len));
                k
            };
            if keep.len() < list.len() && bad(&keep) {
                list = keep;
                cut = true;
                break;
            }
            i += step;
        }
        if cut {
            n = n.saturating_sub(1).max(2);
        } else if step == 1 {
            // without the only run left before the last one?
            if list.len() == 2 && bad(&list[1..]) {
                list.remove(0);
            }
            break;
        } else {
            n = (2 * n).min(len);
        }
    }
    list
}

/// The violation needs what other runs left behind in the process.
fn report_sequence(p: P, class: &str, msg: &str, list: &[u64], all: usize) {
    let path = replay_path(p, *list.last().unwrap());
    let j = obj(vec![
        ("property", p.name().into()),
        ("kind", "sequence".into()),
        ("class", class.into()),
        ("message", msg.into()),
        ("minimisation", format!("{} of {all} runs kept", list.len()).into()),
        ("run_seeds", J::Arr(list.iter().map(|s| J::from(*s)).collect())),
    ]);
    write(&path, &j.render(0));
    println!("[{class}] {msg}");
    println!("{} of {all} runs in one process are needed", list.len());
    println!("VIOLATION property={} replay={path}", p.name());
}

/// C14: runs executed in another order in one process must not differ.
fn order_test(seed: u64, n: u64, limit: Duration) -> Option<(Vec<u64>, usize)> {
    let p = P::C14;
    let until = Instant::now() + limit;
    const LEN: u64 = 24;
    let next = std::sync::atomic::AtomicU64::new(0);
    let bad = std::sync::Mutex::new(None::<(u64, Vec<u64>)>);
    let long = Duration::from_secs(120);
    std::thread::scope(|sc| {
        for _ in 0..std::thread::available_parallelism().map_or(4, |x| x.get()) {
            sc.spawn(|| {
                loop {
                    let b = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if b >= n || Instant::now() > until || bad.lock().unwrap().is_some() {
                        break;
                    }
                    let fwd: Vec<u64> = (0..LEN).map(|i| run_seed(p, seed, b * LEN + i)).collect();
                    let last = *fwd.last().unwrap();
                    let (Some(a), Some(x)) = (last_of(p, &fwd, long), last_of(p, &[last], long))
                    else {
                        continue;
                    };
                    if a != x {
                        let mut g = bad.lock().unwrap();
                        if g.as_ref().is_none_or(|(i, _)| *i > b) {
                            *g = Some((b, fwd));
                        }
                    }
                }
            });
        }
    });
    let (_, list) = bad.into_inner().unwrap()?;
    let all = list.len();
    let alone = last_of(p, &list[all - 1..], long);
    let until = Instant::now() + Duration::from_secs(60);
    let list = ddmin(list, until, &|l| last_of(p, l, long).is_some_and(|x| Some(x) != alone));
    Some((list, all))
}

fn report(p: P, seed: u64, f: &Found) {
    let long = Duration::from_secs(60);
    let has = |l: &[u64]| last_of(p, l, long).is_some_and(|x| x.0 == f.viol.class);
    let differs = |t: &Tape| {
        let [a, b] =
            [0, 1].map(|v| run_in_thread(p, Src::Tape(t.clone()), hash_seed(f.seed, v), false));
        matches!((a, b), (Ok(a), Ok(b)) if a.stats.log_hash != b.stats.log_hash)
    };
    if f.rerun {
        if !differs(&f.tape) {
            // not the hash keys, then what the process has done before
            let alone = last_of(p, &[f.seed], long);
            let bad = |l: &[u64]| last_of(p, l, long).is_some_and(|x| Some(x) != alone);
            if sequence(p, seed, f, "process-history", &bad) {
                return;
            }
        }
    } else if !has(&[f.seed]) && sequence(p, seed, f, f.viol.class, &has) {
        return;
    }
    report_tape(p, f);
    if !f.rerun {
        let path = replay_path(p, f.seed);
        let exe = std::env::current_exe().unwrap();
        let st = Command::new(exe)
            .args(["replay", &path])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        if st.is_ok_and(|s| s.code() == Some(0)) && has(&[f.seed]) {
            // minimised with the help of what other runs left behind
            report_sequence(p, f.viol.class, &f.viol.msg, &[f.seed], 1);
        }
    }
}

/// Looks for runs that, executed before run `f`, make it fail.
fn sequence(p: P, seed: u64, f: &Found, class: &str, bad: &dyn Fn(&[u64]) -> bool) -> bool {
    for n in [64, 2048] {
        // the workers may have been ahead of it
        let i = (f.index + 64).saturating_sub(n);
        let mut l: Vec<u64> =
            (i..i + n).map(|i| run_seed(p, seed, i)).filter(|s| *s != f.seed).collect();
        l.push(f.seed);
        if bad(&l) {
            let all = l.len();
            let until = Instant::now() + Duration::from_secs(60);
            report_sequence(p, class, &f.viol.msg, &ddmin(l, until, bad), all);
            return true;
        }
    }
    false
}

fn report_tape(p: P, f: &Found) {
    let path = replay_path(p, f.seed);
    let hash = hash_seed(f.seed, 0);
    let events0;
    let (tape, tries, kept) = if f.rerun {
        events0 = run_in_thread(p, Src::Seed(f.seed), hash, false).map_or(0, |o| o.stats.events);
        let s = shrink::shrink_pair(
            p,
            [hash, hash_seed(f.seed, 1)],
            f.tape.clone(),
            Duration::from_secs(40),
            20_000,
        );
        (s.tape, s.tries, s.kept)
    } else {
        events0 = run_in_thread(p, Src::Seed(f.seed), hash, false).map_or(0, |o| o.stats.events);
        let s =
            shrink::shrink(p, hash, f.viol.class, f.tape.clone(), Duration::from_secs(40), 20_000);
        (s.tape, s.tries, s.kept)
    };
    let o = run_in_thread(p, Src::Tape(tape.clone()), hash, true);
    let (viol, log, events, loghash) = match o {
        Ok(o) => (o.viol.unwrap_or(f.viol.clone()), o.log, o.stats.events, o.stats.log_hash),
        Err(e) => (f.viol.clone(), vec![e], 0, 0),
    };
    let j = obj(vec![
        ("property", p.name().into()),
        ("kind", if f.rerun { "rerun" } else { "tape" }.into()),
        ("class", viol.class.into()),
        ("message", viol.msg.clone().into()),
        ("run_index", f.index.into()),
        ("run_seed", f.seed.into()),
        ("hash_seed", hash.into()),
        ("hash_seed_b", hash_seed(f.seed, 1).into()),
        ("original_message", f.viol.msg.clone().into()),
        ("original_events", events0.into()),
        ("events", events.into()),
        ("log_hash", loghash.into()),
        ("minimisation", format!("{kept} of {tries} attempts kept").into()),
        ("tape", tape_json(&tape)),
        ("trace", J::Arr(log.iter().map(|l| J::from(l.clone())).collect())),
    ]);
    write(&path, &j.render(0));
    println!("run {} seed {:#018x}: [{}] {}", f.index, f.seed, f.viol.class, f.viol.msg);
    println!("minimised from {events0} to {events} events: [{}] {}", viol.class, viol.msg);
    println!("VIOLATION property={} replay={path}", p.name());
}

fn evidence(p: P, tier: &str, seed: u64, s: &Search, violations: u64) {
    let t = &s.tot;
    let wall = s.wall.as_secs_f64().max(1e-6);
    let h = t.st.sim_us as f64 / 3.6e9;
    let faults = world::FAULT_NAMES
        .iter()
        .zip(&t.st.faults)
        .map(|(n, c)| (*n, J::from(*c)))
        .collect::<Vec<_>>();
    let kinds = codec::KINDS
        .iter()
        .zip(&t.st.kinds)
        .map(|(k, c)| (k.name(), J::from(*c)))
        .collect::<Vec<_>>();
    let states: u32 = t.st.states.iter().map(|x| x.count_ones()).sum();
    let cov = obj(vec![
        ("evaluations", t.runs.into()),
        ("distinct_nontrivial", t.nontrivial_orders.len().into()),
        (
            "rule",
            "one evaluation is one simulated run, decided entirely by its seed (station layout and \
             parameters, fault rates, every delay, schedule, operation and fault). Non-trivial: at \
             least one oracle of this property was evaluated and at least one fault was actually \
             injected in the run. Distinct: no other non-trivial run of this check had the same \
             sequence of event kinds (scan, poll, request arrival, response, application, line, \
             fault events)."
                .into(),
        ),
        ("samples", J::Arr(t.samples.values().map(|x| J::from(x.clone())).collect())),
        ("planned_runs", s.planned.into()),
        ("nontrivial_runs", t.nontrivial.into()),
        ("runs_with_injected_fault", t.with_fault.into()),
        ("fault_free_runs", (t.runs - t.with_fault).into()),
        ("distinct_interleavings", t.orders.len().into()),
        ("oracle_evaluations", t.st.checks.into()),
        ("runs_without_verdict", t.st.inconclusive.into()),
        ("runs_per_hour", (t.runs as f64 * 3600.0 / wall).into()),
        ("seeds_per_hour", (t.runs as f64 * 3600.0 / wall).into()),
        ("simulated_hours", h.into()),
        ("events", t.st.events.into()),
        ("coupler_cycles", t.st.cycles.into()),
        ("sessions", t.st.sessions.into()),
        ("largest_image_registers", t.st.largest_image.into()),
        ("longest_session_cycles", t.st.longest_session.into()),
        ("largest_transmit_backlog_bytes", t.st.largest_backlog.into()),
        ("most_bytes_held_by_the_library", t.st.most_held.into()),
        ("clock_readings_of_the_library", t.st.clock_reads.into()),
        ("commissionings", t.st.setups.into()),
        ("application_requests", t.st.requests.into()),
        ("segments_taken_by_modules", t.st.tx_segments.into()),
        ("segments_presented_by_modules", t.st.rx_segments.into()),
        ("serial_bytes_transmitted", t.st.bytes_tx.into()),
        ("serial_bytes_received", t.st.bytes_rx.into()),
        ("faults_injected", obj(faults)),
        ("modules_simulated", obj(kinds)),
        ("abstract_states_reached", u64::from(states).into()),
        (
            "abstract_state_measure",
            "per serial module: startup phase, sequence distance and position, receive state, \
             queue, position parity, driver mode; per other module: type, byte parity in both \
             images, phase, pending requests, driver mode"
                .into(),
        ),
        ("determinism_reruns", t.rechecked.into()),
        ("determinism_mismatches", t.recheck_diff.into()),
        (
            "components",
            obj(vec![
                ("real", "the whole ur20 crate (Coupler, every module driver, MessageProcessor, register parsing), compiled from /repo's working tree with overflow checks and debug assertions".into()),
                ("simulated", "u-remote station (register map, module hardware, internal bus, serial devices), Modbus TCP connection, polling driver around the coupler, application, clock, hash keys".into()),
            ]),
        ),
    ]);
    let j = obj(vec![
        ("property", p.name().into()),
        ("tier", tier.into()),
        ("seed", seed.into()),
        ("level", "exploration".into()),
        ("coverage", cov),
        (
            "assumptions",
            J::Arr(
                [
                    "the simulated station follows the flow control and register layout documented in the repository and the module data sheets",
                    "requests of one connection are executed in order, and never after a request of a later connection",
                    "each cycle is given the most recently returned image, or that image read back after it was written",
                ]
                .into_iter()
                .map(J::from)
                .collect(),
            ),
        ),
        ("wall_s", wall.into()),
        ("violations", violations.into()),
    ]);
    write(&format!("{}/evidence/{}.json", root(), p.name()), &(j.render(0) + "\n"));
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        if world::IN_LIB.with(|x| x.get()) {
            world::PANIC.with(|p| *p.borrow_mut() = Some(i.to_string()));
        } else {
            eprintln!("harness panic: {i}");
        }
    }));
}

/// The search itself, in a process of its own.
fn check_inner(p: P, beacon: &str) -> i32 {
    let tier = env("VERIF_TIER").filter(|t| t == "thorough").unwrap_or("quick".into());
    let seed: u64 = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut n = budget(p) * if tier == "thorough" { THOROUGH } else { 1 };
    if let Some(x) = env("UR20SIM_RUNS").and_then(|s| s.parse().ok()) {
        n = x;
    }
    let cap = Duration::from_secs(match (tier.as_str(), p) {
        ("thorough", _) => 3 * 3600,
        (_, P::C14) => 420,
        _ => 600,
    });
    let workers = std::thread::available_parallelism().map_or(4, |x| x.get()).clamp(1, 16);
    let known = known_findings();
    println!("{} {tier}: {n} runs, seed {seed}, {workers} workers", p.name());
    let hang = |i: u64| {
        let m = format!("a call into the library did not return within {HANG_S} s of real time");
        report_fatal(p, i, seed, "hang", &m);
    };
    let recheck = if p == P::C14 { 3 } else { 200 };
    let s = search(p, seed, n, cap, workers, recheck, &known, &Beacon::new(Some(beacon)), &hang);
    for (w, n) in &s.known {
        println!("KNOWN-FINDING: property={} {w} ({n} runs)", p.name());
    }
    evidence(p, &tier, seed, &s, u64::from(s.found.is_some()));
    let t = &s.tot;
    println!(
        "{} runs ({} with faults) in {:.1} s, {} cycles, {} oracle evaluations, {} distinct interleavings, {} reruns, {} without verdict",
        t.runs,
        t.with_fault,
        s.wall.as_secs_f64(),
        t.st.cycles,
        t.st.checks,
        t.orders.len(),
        t.rechecked,
        t.st.inconclusive
    );
    println!("slowest run: {:.1} s, seed {:#x}", t.slowest.0.as_secs_f64(), t.slowest.1);
    if let Some(f) = &s.found {
        report(p, seed, f);
        return 1;
    }
    if p == P::C14 {
        let (n, limit) = if tier == "thorough" { (800, 3600) } else { (40, 150) };
        if let Some((list, all)) = order_test(seed, n, Duration::from_secs(limit)) {
            evidence(p, &tier, seed, &s, 1);
            let m = "a run gives other results after other runs in the same process";
            report_sequence(p, "process-history", m, &list, all);
            return 1;
        }
        println!("{n} sequences of runs in fresh processes: each run as if alone");
    }
    if !t.harness_errors.is_empty() {
        for e in t.harness_errors.iter().take(5) {
            println!("HARNESS-ERROR {e}");
        }
        return 2;
    }
    if t.recheck_diff > 0 {
        println!("note: {} reruns of a seed differed", t.recheck_diff);
    }
    0
}

/// Runs the search in a child process, so that a library that takes the whole
/// process down (abort, stack overflow, memory) is reported as well.
fn check(p: P) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let beacon = format!("{}/replays/.beacon-{}-{}", root(), p.name(), std::process::id());
    let _ = std::fs::create_dir_all(format!("{}/replays", root()));
    let sh = |args: &[&str]| {
        // 20 GB of address space: a run-away allocation must not take the machine down
        Command::new("/bin/sh")
            .arg("-c")
            .arg("ulimit -v 20000000 2>/dev/null; exec \"$0\" \"$@\"")
            .arg(&exe)
            .args(args)
            .status()
    };
    let st = sh(&["check-inner", p.name(), &beacon]);
    let marks = std::fs::read(&beacon).unwrap_or_default();
    let _ = std::fs::remove_file(&beacon);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start the search: {e}");
            return 2;
        }
    };
    if let Some(c) = st.code().filter(|c| (0..=2).contains(c)) {
        return c;
    }
    // killed: which of the runs under way does it?
    let seed: u64 = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut idx: Vec<u64> =
        marks.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
    idx.sort_unstable();
    for i in idx {
        let s = run_seed(p, seed, i);
        let r = sh(&["one", p.name(), &s.to_string()]);
        if let Ok(r) = r {
            if r.code().is_none_or(|c| !(0..=2).contains(&c)) {
                report_fatal(p, i, seed, "abort", &format!("the process ended with {r}"));
            }
        }
    }
    eprintln!("the search ended with {st}");
    2
}

fn replay(path: &str) -> i32 {
    let Some(j) = std::fs::read_to_string(path).ok().and_then(|s| json::parse(&s)) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let s = |k: &str| j.get(k).and_then(|x| x.str()).unwrap_or("").to_string();
    let n = |k: &str| j.get(k).and_then(|x| x.u64()).unwrap_or(0);
    let Some(p) = P::parse(&s("property")) else {
        eprintln!("no property in {path}");
        return 2;
    };
    let kind = s("kind");
    if kind == "fatal" {
        let exe = std::env::current_exe().unwrap();
        let rs = n("run_seed").to_string();
        let Ok(mut ch) = Command::new(exe).args(["one", p.name(), &rs]).spawn() else {
            return 2;
        };
        let t0 = Instant::now();
        loop {
            match ch.try_wait() {
                Ok(Some(st)) if st.code().is_some_and(|c| (0..=1).contains(&c)) => {
                    println!("not reproduced");
                    return 0;
                }
                Ok(Some(_)) => break,
                _ if t0.elapsed() > Duration::from_secs(20 * HANG_S) => {
                    let _ = ch.kill();
                    break;
                }
                _ => std::thread::sleep(Duration::from_millis(50)),
            }
        }
        println!("[{}] {}", s("class"), s("message"));
        println!("VIOLATION property={} replay={path}", p.name());
        return 1;
    }
    if kind == "sequence" {
        let list: Vec<u64> = j
            .get("run_seeds")
            .and_then(|a| a.arr())
            .map(|a| a.iter().filter_map(|x| x.u64()).collect())
            .unwrap_or_default();
        let long = Duration::from_secs(600);
        let Some(x) = last_of(p, &list, long) else {
            eprintln!("cannot execute the runs");
            return 2;
        };
        let alone = last_of(p, &list[list.len() - 1..], long);
        let bad =
            if s("class") == "process-history" { Some(x) != alone } else { x.0 == s("class") };
        if !bad {
            println!("not reproduced");
            return 0;
        }
        println!("[{}] {}", s("class"), s("message"));
        println!("reproduced exactly");
        println!("VIOLATION property={} replay={path}", p.name());
        return 1;
    }
    let mut tape: Tape = Default::default();
    for (i, name) in STREAM_NAMES.iter().enumerate() {
        tape[i] = j
            .get("tape")
            .and_then(|t| t.get(name))
            .and_then(|a| a.arr())
            .map(|a| a.iter().filter_map(|x| x.u64()).collect())
            .unwrap_or_default();
    }
    if kind == "rerun" {
        let a = run_in_thread(p, Src::Tape(tape.clone()), n("hash_seed"), false);
        let b = run_in_thread(p, Src::Tape(tape), n("hash_seed_b"), false);
        if let (Ok(a), Ok(b)) = (a, b) {
            if a.stats.log_hash == b.stats.log_hash && a.viol.is_none() && b.viol.is_none() {
                println!("not reproduced");
                return 0;
            }
        }
        println!("[{}] {}", s("class"), s("message"));
        println!("VIOLATION property={} replay={path}", p.name());
        return 1;
    }
    let o = match run_in_thread(p, Src::Tape(tape), n("hash_seed"), true) {
        Ok(o) => o,
        Err(e) => {
            eprintln!("harness error: {e}");
            return 2;
        }
    };
    for l in &o.log {
        println!("{l}");
    }
    let Some(v) = o.viol else {
        println!("not reproduced");
        return 0;
    };
    let trace: Vec<&str> = j
        .get("trace")
        .and_then(|t| t.arr())
        .unwrap_or(&[])
        .iter()
        .filter_map(|x| x.str())
        .collect();
    let same = v.class == s("class")
        && v.msg == s("message")
        && o.stats.log_hash == n("log_hash")
        && o.log.iter().map(|l| l.as_str()).eq(trace.iter().copied());
    println!("{}", if same { "reproduced exactly" } else { "reproduced differently" });
    println!("VIOLATION property={} replay={path}", p.name());
    1
}

/// Log hashes of runs `0..n` of every property, one per line.
fn hashes(n: u64) {
    for p in PROPS {
        for i in 0..n {
            let s = run_seed(p, 12345, i);
            match run_in_thread(p, Src::Seed(s), hash_seed(s, 0), false) {
                Ok(o) => println!(
                    "{} {i} {:016x} {:016x} {} {}",
                    p.name(),
                    o.stats.log_hash,
                    o.stats.order_hash,
                    o.stats.events,
                    o.viol.map_or("", |v| v.class)
                ),
                Err(e) => println!("{} {i} {e}", p.name()),
            }
        }
    }
}

/// Which properties find something within `n` runs each (no minimisation, no files).
fn matrix(n: u64) -> i32 {
    let known = known_findings();
    let cap = Duration::from_secs(120);
    let workers = std::thread::available_parallelism().map_or(4, |x| x.get());
    let workers = env("UR20SIM_WORKERS").and_then(|s| s.parse().ok()).unwrap_or(workers);
    for p in PROPS {
        let hang = |i: u64| {
            println!("{} hang {i}", p.name());
            exit(1);
        };
        let recheck = if p == P::C14 { 3 } else { 200 };
        let s = search(p, 1, n, cap, workers, recheck, &known, &Beacon::new(None), &hang);
        let w = s.wall.as_secs_f64();
        match &s.found {
            Some(f) => println!("{} {} {} {w:.1} {}", p.name(), f.viol.class, f.index, f.viol.msg),
            None => {
                println!("{} - {} {w:.1} {}", p.name(), s.tot.runs, s.tot.harness_errors.join(";"))
            }
        }
    }
    0
}

fn selftest(procs: usize, n: u64) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let ns = n.to_string();
    let ch: Vec<_> = (0..procs)
        .map(|_| {
            Command::new(&exe)
                .args(["hashes", &ns])
                .stdout(std::process::Stdio::piped())
                .spawn()
                .unwrap()
        })
        .collect();
    let outs: Vec<Vec<u8>> = ch
        .into_iter()
        .map(|c| c.wait_with_output().map(|o| o.stdout).unwrap_or_default())
        .collect();
    let lines = outs[0].iter().filter(|b| **b == b'\n').count();
    let ok = outs.iter().all(|o| *o == outs[0]) && lines == n as usize * PROPS.len();
    println!(
        "{procs} processes, {lines} runs each: {}",
        if ok { "identical" } else { "DIFFERENT" }
    );
    if ok { 0 } else { 2 }
}

fn main() {
    hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map_or("", |s| s.as_str());
    let prop = || {
        P::parse(arg(2)).unwrap_or_else(|| {
            eprintln!("unknown property {:?}", arg(2));
            exit(2)
        })
    };
    let code = match arg(1) {
        "check" => check(prop()),
        "check-inner" => check_inner(prop(), arg(3)),
        "replay" => replay(arg(2)),
        "seq" => seq(prop()),
        "hashes" => {
            hashes(arg(2).parse().unwrap_or(50));
            0
        }
        "matrix" => matrix(arg(2).parse().unwrap_or(2000)),
        "selftest" => selftest(8, arg(2).parse().unwrap_or(200)),
        "one" => {
            let a = arg(3);
            let s = match a.strip_prefix("0x") {
                Some(h) => u64::from_str_radix(h, 16).unwrap_or(0),
                None => a.parse().unwrap_or(0),
            };
            std::thread::spawn(|| {
                let mut last = u64::MAX;
                loop {
                    if pulses(64) == last {
                        exit(3);
                    }
                    last = pulses(64);
                    std::thread::sleep(Duration::from_secs(HANG_S));
                }
            });
            match run_in_thread(prop(), Src::Seed(s), hash_seed(s, 0), arg(4) == "v") {
                Ok(o) => {
                    for l in &o.log {
                        println!("{l}");
                    }
                    if let Some(v) = &o.viol {
                        println!("[{}] {}", v.class, v.msg);
                    }
                    i32::from(o.viol.is_some())
                }
                Err(e) => {
                    println!("HARNESS-ERROR {e}");
                    2
                }
            }
        }
        _ => {
            eprintln!(
                "usage: ur20sim check <PROPERTY> | replay <FILE> | selftest [N] | one <PROPERTY> <SEED> [v]"
            );
            2
        }
    };
    exit(code);
}
