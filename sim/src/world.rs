//! One simulated run: station, network, driver and application around the real
//! coupler, with the checks of one property.

use crate::choice::{Choice, S, Tape, mix};
use crate::codec::*;
use crate::knobs::*;
use crate::params;
use crate::station::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::io::{IoSlice, IoSliceMut, Read, Write};
use std::rc::Rc;
use std::time::Duration;
use ur20::ur20_1com_232_485_422::{
    MessageProcessor, ProcessDataLength, ProcessInput as RsIn, ProcessOutput as RsOut,
};
use ur20::ur20_fbc_mod_tcp::*;
use ur20::{Address, ChannelValue as CV};

thread_local! {
    pub static IN_LIB: Cell<bool> = const { Cell::new(false) };
    pub static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Call into the library; a panic in there becomes an `Err`.
fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_LIB.with(|x| x.set(true));
    crate::mem::enter();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    crate::mem::leave();
    IN_LIB.with(|x| x.set(false));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// Moves a value to another thread while this one waits for it.
struct Carry<T>(T);
// Sound for what is carried here: plain data and couplers, one user at a time.
unsafe impl<T> Send for Carry<T> {}
impl<T> Carry<T> {
    fn open(self) -> T {
        self.0
    }
}

/// `lib`, in a thread of its own with hash keys of its own.
fn lib_elsewhere<T>(keys: u64, f: impl FnOnce() -> T) -> Result<T, String> {
    let f = Carry(f);
    let clocks = crate::clock::get();
    let r = std::thread::scope(|s| {
        s.spawn(move || {
            crate::entropy::set(keys);
            crate::clock::put(clocks);
            Carry(lib(f.open()))
        })
        .join()
    });
    r.map_err(|_| "panic".to_string())?.open()
}

#[derive(Clone, Debug)]
pub struct Viol {
    /// what kind of breakage, stable under minimisation
    pub class: &'static str,
    pub msg: String,
}
type V<T> = Result<T, Viol>;
fn viol<T>(class: &'static str, msg: String) -> V<T> {
    Err(Viol { class, msg })
}

macro_rules! faults {
    ($($n:ident = $t:expr,)*) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy)]
        pub enum F { $($n,)* }
        pub const FAULT_NAMES: &[&str] = &[$($t,)*];
    };
}
faults! {
    LostReq = "request_lost",
    LostResp = "response_lost",
    Late = "exchange_delayed_beyond_timeout",
    LateExec = "late_request_executed_after_timeout",
    LateResp = "late_response_discarded",
    Exception = "exception_response",
    Reset = "connection_reset",
    ResetDrop = "in_flight_requests_dropped",
    ShortIn = "short_input_image",
    Series = "series_of_short_images",
    ShortOut = "short_output_image",
    Extend = "image_with_extra_registers",
    WriteRetry = "write_retried",
    WriteTwice = "write_executed_twice",
    Crash = "driver_crash_restart",
    CrashWrite = "driver_crash_with_write_in_flight",
    Power = "station_power_cycle",
    Stall = "station_scan_stalled",
    Pause = "driver_paused",
    Foreign = "outputs_changed_by_other_master",
    Repeat = "cycle_repeated_with_same_input",
    Malformed = "malformed_serial_length",
    Unencodable = "unencodable_output_state",
    Corrupt = "image_corrupted",
    Setup = "commissioning_block_faulty",
    SetupRefused = "setup_refused",
    Refused = "request_refused",
    FailedCycle = "cycle_failed",
    Xoff = "serial_line_held_by_flow_control",
    AckDelay = "acknowledgement_delayed",
    Flushed = "segment_flushed_in_startup",
    Clock = "clock_jump",
    Skew = "call_with_skewed_clock",
    Moved = "call_made_by_another_thread",
}
const NF: usize = F::Moved as usize + 1;

#[derive(Clone)]
pub struct Stats {
    pub faults: [u64; NF],
    pub cycles: u64,
    pub sessions: u64,
    pub sim_us: u64,
    pub events: u64,
    pub tx_segments: u64,
    pub rx_segments: u64,
    pub bytes_tx: u64,
    pub bytes_rx: u64,
    pub requests: u64,
    pub modules: u64,
    pub order_hash: u64,
    pub log_hash: u64,
    /// checks of the property that were actually evaluated
    pub checks: u64,
    /// bit set of abstract states reached
    pub states: Vec<u64>,
    pub kinds: [u64; 18],
    pub setups: u64,
    /// the library could not be driven any further although this property is not concerned
    pub inconclusive: u64,
    pub longest_session: u64,
    pub largest_image: u64,
    pub largest_backlog: u64,
    /// bytes the library held at most
    pub most_held: u64,
    /// clock readings of the library
    pub clock_reads: u64,
}
impl Stats {
    /// Faults injected from outside (not their consequences).
    pub fn injected(&self) -> u64 {
        [
            F::LostReq,
            F::LostResp,
            F::Late,
            F::Exception,
            F::Reset,
            F::ShortIn,
            F::ShortOut,
            F::Extend,
            F::Crash,
            F::Power,
            F::Stall,
            F::Xoff,
            F::Pause,
            F::Foreign,
            F::Repeat,
            F::Malformed,
            F::Unencodable,
            F::Corrupt,
            F::Setup,
        ]
        .iter()
        .map(|f| self.faults[*f as usize])
        .sum()
    }
}
impl Default for Stats {
    fn default() -> Self {
        Stats {
            faults: [0; NF],
            cycles: 0,
            sessions: 0,
            sim_us: 0,
            events: 0,
            tx_segments: 0,
            rx_segments: 0,
            bytes_tx: 0,
            bytes_rx: 0,
            requests: 0,
            modules: 0,
            order_hash: 0,
            log_hash: 0,
            checks: 0,
            states: vec![0; 1024],
            kinds: [0; 18],
            setups: 0,
            inconclusive: 0,
            longest_session: 0,
            largest_image: 0,
            largest_backlog: 0,
            most_held: 0,
            clock_reads: 0,
        }
    }
}

pub struct Outcome {
    pub viol: Option<Viol>,
    pub tape: Tape,
    pub stats: Stats,
    pub log: Vec<String>,
    pub head: String,
}

#[derive(Clone, Debug)]
struct InImg {
    regs: Vec<u16>,
    shown: Vec<Option<u64>>,
}

#[derive(Clone, Debug)]
enum Op {
    ReadIn,
    ReadOut,
    Write(Vec<u16>, Tag),
}
#[derive(Clone, Debug)]
enum Pay {
    In(InImg),
    Out(Vec<u16>),
    Written,
    Exception,
}
#[derive(Clone, Debug)]
enum Ev {
    Scan,
    Poll,
    Arrive { id: u64, conn: u32, op: Op },
    Resp { id: u64, conn: u32, pay: Pay },
    Timeout { id: u64 },
    App,
    Line,
    Foreign,
    Crash,
    Power,
    PowerBack,
    Restart,
}

enum Ph {
    Idle,
    Reading { inp: Option<InImg>, out: Option<Vec<u16>>, id: u64 },
    Writing { id: u64, img: Vec<u16>, tag: Tag, tries: u32 },
    Down,
}

/// Everything one application session queued for and got from its modules.
struct Ledger {
    queued: Vec<Vec<u8>>,
    accepted: Vec<usize>,
}

struct Sess {
    id: u32,
    coupler: Coupler,
    /// commissioned from undamaged registers
    intact: bool,
    /// successful cycles so far
    k: u64,
    /// the image the driver keeps
    echo: Option<Vec<u16>>,
    need_out: bool,
    pend: BTreeMap<(usize, usize), Req>,
    last_t: Vec<u8>,
    seen: Vec<u64>,
    avail: Vec<VecDeque<u8>>,
    /// C09: does not see failing cycles
    twin: Option<Coupler>,
    /// C14
    reps: Vec<Coupler>,
    rep_reqs: Vec<(Address, CV, bool)>,
    /// C14: an unrelated coupler with a history of its own, running in between
    noise: Option<(Rc<Layout>, Coupler, Choice)>,
    /// C05
    singles: Vec<Coupler>,
    /// C17
    hand: Option<Hand>,
    last_in: Option<InImg>,
    /// most bytes the coupler had to keep at a time
    most_unsent: usize,
    most_unread: usize,
    /// bytes the library held in the first cycles
    held_first: i64,
    calls: u32,
}

pub struct World {
    p: P,
    c: Choice,
    k: Knobs,
    lay: Rc<Layout>,
    st: Station,
    heap: BTreeMap<(u64, u64), Ev>,
    seq: u64,
    now: u64,
    ph: Ph,
    conn: u32,
    dead_conn: u32,
    last_arrival: u64,
    next_id: u64,
    sess: Option<Sess>,
    ledgers: Vec<Ledger>,
    next_seg: u64,
    attempts: u64,
    /// truncated images still to come
    series: u64,
    calm: bool,
    calm_cycles: u64,
    bound: u64,
    /// calm cycles without any segment moving that are too many
    stall: u64,
    /// what has moved, and in which calm cycle it last did
    moved: (u64, u64, u64),
    /// the same in simulated time: the end of the bound, and the stall
    bound_us: u64,
    stall_us: u64,
    settled: u64,
    end: bool,
    setups: u32,
    out_mods: Vec<usize>,
    foreign_mods: Vec<usize>,
    coms: Vec<usize>,
    stats: Stats,
    verbose: bool,
    log: Vec<String>,
}

macro_rules! ev {
    ($w:expr, $($a:tt)*) => {
        if $w.verbose {
            let s = format!($($a)*);
            let t = $w.now;
            $w.log.push(format!("{:>9} us  {s}", t));
        }
    };
}

/// Long data is shown by its start, length and a checksum.
fn hex(b: &[u8]) -> String {
    let h: String = b.iter().take(64).map(|x| format!("{x:02x}")).collect();
    if b.len() <= 64 {
        return h;
    }
    let sum = b
        .iter()
        .fold(0xcbf2_9ce4_8422_2325u64, |a, x| (a ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3));
    format!("{h}.. ({} bytes, checksum {sum:016x})", b.len())
}
fn read_text(r: &Result<Vec<u8>, String>) -> String {
    match r {
        Ok(b) => format!("Ok({})", hex(b)),
        Err(e) => format!("Err({e})"),
    }
}
fn words(w: &[u16]) -> String {
    w.iter().map(|x| format!("{x:04x}")).collect::<Vec<_>>().join(" ")
}

pub fn run(p: P, mut c: Choice, verbose: bool) -> Outcome {
    if p == P::C18 {
        crate::mem::start();
    }
    let su = setup(p, &mut c);
    let lay = Layout::build(&mut c, su.specs, su.align, su.wild_inputs);
    let mut st = Station::new(lay, &mut c, su.leftover);
    st.ack_delay = su.ack_delay;
    st.slow = su.slow;
    st.xoff = su.xoff;
    st.noisy = su.noisy;
    st.change = su.change;
    let lay = &st.lay;
    let coms = lay.coms();
    let out_mods: Vec<usize> =
        (0..lay.specs.len()).filter(|&m| lay.specs[m].kind.has_out()).collect();
    let foreign_mods =
        out_mods.iter().copied().filter(|&m| lay.specs[m].kind != Kind::Com).collect();
    let head = format!(
        "{} mode, modules: {}; cycles {}, scan {}us, poll {}us, net {}us",
        if su.k.readback { "read-back" } else { "echo" },
        lay.specs
            .iter()
            .zip(&lay.lay)
            .map(|(s, l)| format!(
                "{}{:?}@in:{}/out:{}",
                s.kind.name(),
                s.params,
                l.inp.map_or("-".into(), |x| x.to_string()),
                l.out.map_or("-".into(), |x| x.to_string())
            ))
            .collect::<Vec<_>>()
            .join(", "),
        su.k.cycles,
        su.k.scan_us,
        su.k.poll_us,
        su.k.net_us,
    );
    let mut w = World {
        p,
        c,
        k: su.k,
        lay: st.lay.clone(),
        st,
        heap: BTreeMap::new(),
        seq: 0,
        now: 0,
        ph: Ph::Down,
        conn: 1,
        dead_conn: 0,
        last_arrival: 0,
        next_id: 1,
        sess: None,
        ledgers: vec![],
        next_seg: 1,
        attempts: 0,
        series: 0,
        calm: false,
        calm_cycles: 0,
        bound: 0,
        stall: 0,
        moved: (u64::MAX, 0, 0),
        bound_us: 0,
        stall_us: 0,
        settled: 0,
        end: false,
        setups: 0,
        out_mods,
        foreign_mods,
        coms,
        stats: Stats { modules: 0, ..Default::default() },
        verbose,
        log: vec![],
    };
    // ledger 0: whatever was before the simulation
    w.push_ledger();
    w.stats.largest_image = w.st.in_regs.len().max(w.st.out_regs.len()) as u64;
    w.stats.modules = w.st.lay.specs.len() as u64;
    for s in &w.st.lay.specs {
        w.stats.kinds[KINDS.iter().position(|k| *k == s.kind).unwrap()] += 1;
    }
    if verbose {
        w.log.push(head.clone());
    }
    let viol = w.main().err();
    if let Some(v) = &viol {
        if verbose {
            w.log.push(format!("{:>9} us  VIOLATION [{}] {}", w.now, v.class, v.msg));
        }
    }
    w.stats.sim_us = w.now;
    w.stats.clock_reads = crate::clock::reads();
    Outcome { viol, tape: w.c.log, stats: w.stats, log: w.log, head }
}

fn rx_bytes(seed: u64, n: usize) -> Vec<u8> {
    (0..n).map(|i| (mix(seed ^ mix(i as u64)) >> 24) as u8).collect()
}

impl World {
    fn push_ledger(&mut self) {
        let n = self.st.lay.specs.len();
        self.ledgers.push(Ledger { queued: vec![vec![]; n], accepted: vec![0; n] });
    }
    fn at(&mut self, dt: u64, e: Ev) {
        self.seq += 1;
        self.heap.insert((self.now + dt, self.seq), e);
    }
    fn h(&mut self, v: u64) {
        self.stats.log_hash = mix(self.stats.log_hash ^ v).rotate_left(7);
    }
    fn fault(&mut self, f: F) {
        self.stats.faults[f as usize] += 1;
    }
    fn chance(&mut self, s: S, pm: u32) -> bool {
        !self.calm && self.c.chance(s, pm)
    }
    fn jit(&mut self, s: S, base: u64, j: u64) -> u64 {
        base + if j > 0 { self.c.below(s, j + 1) } else { 0 }
    }

    /// A breakage that only some properties are about: for the others the run
    /// ends without a verdict.
    fn breaks(&mut self, ps: &[P], class: &'static str, msg: String) -> V<()> {
        if ps.contains(&self.p) {
            return viol(class, msg);
        }
        ev!(self, "no verdict: [{class}] {msg}");
        self.stats.inconclusive += 1;
        self.end = true;
        Ok(())
    }

    fn main(&mut self) -> V<()> {
        self.at(1, Ev::Restart);
        let d = self.jit(S::Proc, 1, self.k.scan_us);
        self.at(d, Ev::Scan);
        if !self.out_mods.is_empty() || !self.coms.is_empty() || self.p == P::C10 {
            self.at(self.k.app_us, Ev::App);
        }
        if !self.coms.is_empty() && !self.k.silent {
            self.at(self.k.line_us, Ev::Line);
        }
        while !self.end {
            let Some(((t, _), e)) = self.heap.pop_first() else {
                break;
            };
            crate::clock::advance(t - self.now);
            self.now = t;
            self.stats.events += 1;
            crate::runner::pulse();
            if self.stats.events > if self.k.mara { 20_000_000 } else { 3_000_000 } {
                return viol("harness-runaway", "simulation does not end".into());
            }
            self.step(e)?;
        }
        self.ph = Ph::Down;
        self.drop_session()
    }

    fn step(&mut self, e: Ev) -> V<()> {
        let tag = match &e {
            Ev::Scan => 1,
            Ev::Poll => 2,
            Ev::Arrive { op: Op::ReadIn, .. } => 3,
            Ev::Arrive { op: Op::ReadOut, .. } => 4,
            Ev::Arrive { op: Op::Write(..), .. } => 5,
            Ev::Resp { .. } => 6,
            Ev::Timeout { .. } => 7,
            Ev::App => 8,
            Ev::Line => 9,
            Ev::Foreign => 10,
            Ev::Crash => 11,
            Ev::Power => 12,
            Ev::PowerBack => 13,
            Ev::Restart => 14,
        };
        // timeouts of answered requests are no part of the interleaving
        if tag != 7 {
            self.stats.order_hash = mix(self.stats.order_hash ^ tag).rotate_left(5);
        }
        self.h(self.now ^ (tag << 56));
        match e {
            Ev::Scan => self.ev_scan(),
            Ev::Poll => self.ev_poll(),
            Ev::Arrive { id, conn, op } => {
                self.ev_arrive(id, conn, op);
                Ok(())
            }
            Ev::Resp { id, conn, pay } => self.ev_resp(id, conn, pay),
            Ev::Timeout { id } => self.ev_timeout(id),
            Ev::App => self.ev_app(),
            Ev::Line => {
                self.ev_line();
                Ok(())
            }
            Ev::Foreign => {
                self.ev_foreign();
                Ok(())
            }
            Ev::Crash => {
                if !self.calm && self.sess.is_some() {
                    self.crash(F::Crash)?;
                    let d = 1 + self.c.below(S::Net, 4 * self.k.poll_us);
                    self.at(d, Ev::Restart);
                }
                Ok(())
            }
            Ev::Power => {
                if !self.calm && self.st.up && self.sess.is_some() {
                    self.fault(F::Power);
                    ev!(self, "station loses power");
                    self.dead_conn = self.conn;
                    self.crash(F::Power)?;
                    self.st.power_cycle();
                    self.st.up = false;
                    let d = 1 + self.c.below(S::Net, 4 * self.k.scan_us);
                    self.at(d, Ev::PowerBack);
                }
                Ok(())
            }
            Ev::PowerBack => {
                ev!(self, "station is back");
                self.st.up = true;
                let d = 1 + self.c.below(S::Net, 2 * self.k.scan_us);
                self.at(d, Ev::Restart);
                Ok(())
            }
            Ev::Restart => self.start_session(),
        }
    }

    // ---- station ---------------------------------------------------------

    fn ev_scan(&mut self) -> V<()> {
        let mut d = self.jit(S::Proc, self.k.scan_us, self.k.scan_jit).max(1);
        if self.chance(S::Fault, self.k.stall / 4) {
            self.fault(F::Stall);
            ev!(self, "station stalls");
            d += self.k.scan_us * (1 + self.c.below(S::Fault, 12));
        }
        self.at(d, Ev::Scan);
        if !self.st.up {
            return Ok(());
        }
        let (slow, xoff) = (self.st.slow, self.st.xoff);
        if self.calm {
            self.st.slow = 0;
            self.st.xoff = 0;
        }
        let r = self.st.scan(&mut self.c);
        self.st.slow = slow;
        self.st.xoff = xoff;
        self.stats.faults[F::Flushed as usize] += r.flushed;
        self.stats.rx_segments += r.presents;
        for a in r.accepts {
            self.stats.tx_segments += 1;
            self.h(a.data.len() as u64 ^ (a.module as u64) << 8);
            ev!(
                self,
                "module {} takes segment {} (image of session {} cycle {})",
                a.module,
                hex(&a.data),
                a.tag.session,
                a.tag.k
            );
            if let Some((_, n)) = self.st.coms[&a.module].pending {
                if n >= 49 {
                    self.fault(F::Xoff);
                }
                self.stats.faults[F::AckDelay as usize] += 1;
            }
            if a.tag.session > 0 {
                self.accept(a)?;
            }
        }
        Ok(())
    }

    fn accept(&mut self, a: Accept) -> V<()> {
        let m = a.module;
        let l = &mut self.ledgers[a.tag.session as usize];
        let at = l.accepted[m];
        self.stats.bytes_tx += a.data.len() as u64;
        let rest = &l.queued[m][at..];
        let ok = rest.len() >= a.data.len() && rest[..a.data.len()] == a.data[..];
        l.accepted[m] += a.data.len().min(rest.len());
        if matches!(self.p, P::C01 | P::C04 | P::C06) {
            self.stats.checks += 1;
            if !ok {
                let l = &self.ledgers[a.tag.session as usize];
                let rest = &l.queued[m][at..];
                return viol(
                    "tx-stream",
                    format!(
                        "serial module {m} took {} at byte {at} of session {}, queued next: {}{}",
                        hex(&a.data),
                        a.tag.session,
                        hex(&rest[..rest.len().min(a.data.len() + 8)]),
                        if rest.is_empty() { "nothing" } else { "" }
                    ),
                );
            }
        }
        Ok(())
    }

    fn ev_line(&mut self) {
        if self.calm {
            return;
        }
        let d = 2 * self.k.line_us - self.c.below(S::Proc, 2 * self.k.line_us);
        self.at(d, Ev::Line);
        if !self.st.up {
            return;
        }
        let m = self.coms[self.c.usize(S::Proc, self.coms.len())];
        let cap = self.st.lay.specs[m].com_cap();
        let n = match self.c.below(S::Proc, 20) {
            0 => 0,
            1..=4 => cap,
            _ => 1 + self.c.usize(S::Proc, cap),
        };
        let burst = if self.c.chance(S::Proc, 100) { self.k.line_cap } else { 1 };
        for _ in 0..burst {
            if self.st.coms[&m].rxq.len() >= self.k.line_cap {
                break;
            }
            let id = self.next_seg;
            self.next_seg += 1;
            // devices repeat themselves: the same telegram again and again
            let data = match self.k.line_rep > 0 && self.chance(S::Proc, self.k.line_rep) {
                false => rx_bytes(id, n),
                true => rx_bytes(m as u64, n),
            };
            ev!(self, "line of module {m} delivers segment #{id} {}", hex(&data));
            self.st.coms.get_mut(&m).unwrap().rxq.push_back((id, data));
        }
    }

    fn ev_foreign(&mut self) {
        if self.calm || !self.st.up {
            return;
        }
        if self.p == P::C03 && !self.coms.is_empty() && self.c.chance(S::Fault, 500) {
            // somebody else sets or clears control flags of a serial module
            self.fault(F::Foreign);
            let m = self.coms[self.c.usize(S::Fault, self.coms.len())];
            let pos = self.st.lay.lay[m].out.unwrap();
            let mut b = get(&self.st.out_regs, pos, 2);
            let flags = self.c.below(S::Fault, 16) as u8;
            b[0] = b[0] & 0x78 | flags & 7 | flags >> 3 << 7;
            ev!(self, "another master sets control flags of module {m}: {:02x}", b[0]);
            put(&mut self.st.out_regs, pos, &b);
            return;
        }
        if self.foreign_mods.is_empty() {
            return;
        }
        self.fault(F::Foreign);
        let n = 1 + self.c.usize(S::Fault, self.foreign_mods.len().min(8));
        for _ in 0..n {
            let m = self.foreign_mods[self.c.usize(S::Fault, self.foreign_mods.len())];
            let s = self.st.lay.specs[m].clone();
            let mut b = s.gen_out(&mut self.c, S::Fault);
            if s.kind == Kind::Fcnt
                && matches!(self.p, P::C09 | P::C10)
                && self.c.chance(S::Fault, 200)
            {
                b[0] = 0xFF; // a period the library cannot encode
            }
            ev!(self, "another master sets outputs of module {m} to {}", hex(&b));
            put(&mut self.st.out_regs, self.st.lay.lay[m].out.unwrap(), &b);
        }
    }

    // ---- network ---------------------------------------------------------

    fn send(&mut self, op: Op) -> u64 {
        let id = self.next_id;
        self.next_id += 1;
        let conn = self.conn;
        let mut d = self.jit(S::Net, self.k.net_us, self.k.net_jit).max(1);
        if self.chance(S::Fault, self.k.late) {
            self.fault(F::Late);
            d += self.c.below(S::Fault, 3 * self.k.timeout_us);
        }
        if self.chance(S::Fault, self.k.lost_req) {
            self.fault(F::LostReq);
            ev!(self, "request {id} is lost");
        } else {
            // one connection delivers in order, and a new one never overtakes an old one
            let t = (self.now + d).max(self.last_arrival + 1);
            self.last_arrival = t;
            self.at(t - self.now, Ev::Arrive { id, conn, op });
        }
        self.at(self.k.timeout_us, Ev::Timeout { id });
        id
    }

    fn waiting(&self) -> Option<u64> {
        match &self.ph {
            Ph::Reading { id, .. } | Ph::Writing { id, .. } => Some(*id),
            _ => None,
        }
    }

    fn ev_arrive(&mut self, id: u64, conn: u32, op: Op) {
        if conn <= self.dead_conn || !self.st.up {
            ev!(self, "request {id} is dropped with its connection");
            self.fault(F::ResetDrop);
            return;
        }
        if self.waiting() != Some(id) {
            self.fault(F::LateExec);
        }
        let pay = if self.chance(S::Fault, self.k.exception) {
            self.fault(F::Exception);
            ev!(self, "station answers request {id} with an exception");
            Pay::Exception
        } else {
            match op {
                Op::ReadIn => {
                    Pay::In(InImg { regs: self.st.in_regs.clone(), shown: self.st.shown.clone() })
                }
                Op::ReadOut => Pay::Out(self.st.out_regs.clone()),
                Op::Write(img, tag) => {
                    ev!(self, "station executes write of session {} cycle {}", tag.session, tag.k);
                    if self.st.tag == tag {
                        self.fault(F::WriteTwice);
                    }
                    self.st.out_regs.copy_from_slice(&img);
                    self.st.tag = tag;
                    Pay::Written
                }
            }
        };
        let mut d = self.jit(S::Net, self.k.net_us, self.k.net_jit).max(1);
        if self.chance(S::Fault, self.k.late) {
            self.fault(F::Late);
            d += self.c.below(S::Fault, 3 * self.k.timeout_us);
        }
        if self.chance(S::Fault, self.k.lost_resp) {
            self.fault(F::LostResp);
            ev!(self, "response {id} is lost");
        } else {
            self.at(d, Ev::Resp { id, conn, pay });
        }
    }

    // ---- driver ----------------------------------------------------------

    fn crash(&mut self, why: F) -> V<()> {
        if matches!(why, F::Crash) {
            self.fault(F::Crash);
            ev!(self, "driver crashes");
            if matches!(self.ph, Ph::Writing { .. }) {
                self.fault(F::CrashWrite);
            }
            if self.c.chance(S::Fault, 500) {
                self.dead_conn = self.conn;
            }
        }
        self.conn += 1;
        self.ph = Ph::Down;
        self.drop_session()
    }

    fn drop_session(&mut self) -> V<()> {
        if self.sess.take().is_some() {
            self.nothing_held()?;
        }
        Ok(())
    }

    fn start_session(&mut self) -> V<()> {
        if self.sess.is_some() || !self.st.up {
            return Ok(());
        }
        let damaged = self.stats.faults[F::Setup as usize];
        let Some((coupler, cfg, intact)) = self.commission()? else {
            if !self.end && self.stats.faults[F::Setup as usize] == damaged {
                // everything arrived as the station holds it
                let m = "no coupler from the registers of a working station".into();
                return self.breaks(&[P::C11], "setup-refused", m);
            }
            self.fault(F::SetupRefused);
            self.at(self.k.poll_us, Ev::Restart);
            return Ok(());
        };
        if self.p == P::C11 && !intact {
            // its own checks are done
            self.at(self.k.poll_us, Ev::Restart);
            return Ok(());
        }
        self.push_ledger();
        let n = self.st.lay.specs.len();
        let id = self.ledgers.len() as u32 - 1;
        self.stats.sessions += 1;
        ev!(self, "session {id} starts");
        // the same configuration has been accepted once already
        let mk = |x: &CouplerConfig| {
            lib(|| Coupler::new(x))
                .map_err(|m| Viol { class: "panic", msg: format!("Coupler::new: {m}") })?
                .map_err(|e| Viol { class: "setup-differs", msg: format!("Coupler::new: {e:?}") })
        };
        let mut s = Sess {
            id,
            coupler,
            intact,
            k: 0,
            echo: None,
            need_out: true,
            pend: BTreeMap::new(),
            last_t: vec![0; n],
            seen: vec![0; n],
            avail: vec![VecDeque::new(); n],
            twin: None,
            reps: vec![],
            rep_reqs: vec![],
            noise: None,
            singles: vec![],
            hand: None,
            last_in: None,
            most_unsent: 0,
            most_unread: 0,
            held_first: 0,
            calls: 0,
        };
        match self.p {
            P::C09 => s.twin = Some(mk(&cfg)?),
            P::C14 => {
                let seed = self.c.below(S::App, 1 << 32);
                let mut rng = Choice::seeded(seed);
                s.reps.push(mk(&cfg)?);
                // of the same or of another station, created between the replicas
                if rng.chance(S::Cfg, 500) {
                    let n = 1 + rng.usize(S::Cfg, 4);
                    let specs = (0..n)
                        .map(|_| {
                            let kind = rng.pick(S::Cfg, &KINDS);
                            Spec { kind, params: kind.gen_params(&mut rng) }
                        })
                        .collect();
                    let l = Layout::build(&mut rng, specs, false, false);
                    let u = mk(&l.config())?;
                    s.noise = Some((Rc::new(l), u, rng));
                } else {
                    s.noise = Some((self.lay.clone(), mk(&cfg)?, rng));
                }
                s.reps.push(mk(&cfg)?);
            }
            P::C17 if intact => {
                // modules whose parameters do not matter here may be built without them
                let bare: Vec<bool> = (0..n).map(|_| self.c.chance(S::App, 300)).collect();
                let h = lib(|| Hand::new(&self.st.lay, &cfg, &bare))
                    .map_err(|m| Viol { class: "panic", msg: format!("parameters: {m}") })?
                    .map_err(|e| Viol { class: "setup-differs", msg: format!("by hand: {e:?}") })?;
                s.hand = Some(h);
            }
            P::C05 => {
                for m in 0..n {
                    let l = &self.st.lay.lay[m];
                    s.singles.push(mk(&CouplerConfig {
                        modules: vec![cfg.modules[m].clone()],
                        offsets: vec![
                            Layout::bit_addr(OUT_BASE, l.out.map(|_| 0)),
                            Layout::bit_addr(IN_BASE, l.inp.map(|_| 0)),
                        ],
                        params: vec![cfg.params[m].clone()],
                    })?);
                }
            }
            _ => {}
        }
        self.sess = Some(s);
        self.ph = Ph::Idle;
        self.schedule_poll();
        Ok(())
    }

    fn schedule_poll(&mut self) {
        let mut d = self.jit(S::Net, self.k.poll_us, self.k.poll_jit).max(1);
        if self.chance(S::Fault, self.k.pause / 2) {
            self.fault(F::Pause);
            d += self.c.below(S::Fault, 20 * self.k.poll_us);
        }
        if self.chance(S::Fault, self.k.clock) {
            // suspended for a long time, or the wall clock was set
            self.fault(F::Clock);
            crate::clock::jump(self.c.below(S::Fault, 20));
        }
        self.at(d, Ev::Poll);
    }

    fn ev_poll(&mut self) -> V<()> {
        if !matches!(self.ph, Ph::Idle) || self.sess.is_none() {
            return Ok(());
        }
        let cyc = self.k.poll_us + 2 * self.k.net_us;
        if self.chance(S::Fault, self.k.crash / 2) {
            let d = self.c.below(S::Fault, 2 * cyc);
            self.at(d, Ev::Crash);
        }
        if self.chance(S::Fault, self.k.power / 4) {
            let d = self.c.below(S::Fault, 2 * cyc);
            self.at(d, Ev::Power);
        }
        if self.k.readback && self.chance(S::Fault, self.k.foreign / 2) {
            let d = self.c.below(S::Fault, 2 * cyc);
            self.at(d, Ev::Foreign);
        }
        let need_out = {
            let s = self.sess.as_ref().unwrap();
            self.k.readback || s.need_out || s.echo.is_none()
        };
        if !need_out && self.chance(S::Fault, self.k.repeat / 2) {
            let s = self.sess.as_ref().unwrap();
            if let Some(i) = s.last_in.clone() {
                let o = s.echo.clone().unwrap();
                self.fault(F::Repeat);
                return self.cycle(i, o);
            }
        }
        let out = if need_out { None } else { self.sess.as_ref().unwrap().echo.clone() };
        let first_out = need_out && self.c.chance(S::Net, 300);
        let id = self.send(if first_out { Op::ReadOut } else { Op::ReadIn });
        self.ph = Ph::Reading { inp: None, out, id };
        Ok(())
    }

    fn ev_timeout(&mut self, id: u64) -> V<()> {
        if self.waiting() != Some(id) {
            return Ok(());
        }
        ev!(self, "request {id} times out");
        if self.chance(S::Fault, self.k.reset) {
            self.fault(F::Reset);
            if self.c.chance(S::Fault, 500) {
                self.dead_conn = self.conn;
            }
            self.conn += 1;
        }
        self.retry_or_abandon();
        Ok(())
    }

    fn retry_or_abandon(&mut self) {
        if let Ph::Writing { img, tag, tries, .. } = &self.ph {
            let (img, tag, tries) = (img.clone(), *tag, *tries);
            // a driver that reads the image back has to get its own image out first
            if self.k.readback || (tries < 2 && self.c.chance(S::Net, 300)) {
                self.fault(F::WriteRetry);
                let id = self.send(Op::Write(img.clone(), tag));
                self.ph = Ph::Writing { id, img, tag, tries: tries + 1 };
                return;
            }
        }
        self.attempts += u64::from(matches!(self.ph, Ph::Reading { .. }));
        self.ph = Ph::Idle;
        self.check_phase();
        self.schedule_poll();
    }

    fn ev_resp(&mut self, id: u64, conn: u32, pay: Pay) -> V<()> {
        if self.waiting() != Some(id) || conn != self.conn {
            self.fault(F::LateResp);
            return Ok(());
        }
        match pay {
            Pay::Exception => {
                self.retry_or_abandon();
                Ok(())
            }
            Pay::Written => {
                self.ph = Ph::Idle;
                self.check_phase();
                self.schedule_poll();
                Ok(())
            }
            Pay::In(i) => {
                let Ph::Reading { inp, out, .. } = &mut self.ph else { unreachable!() };
                *inp = Some(i);
                let more = out.is_none();
                self.reading_done(more, Op::ReadOut)
            }
            Pay::Out(o) => {
                let Ph::Reading { inp, out, .. } = &mut self.ph else { unreachable!() };
                *out = Some(o);
                let more = inp.is_none();
                self.reading_done(more, Op::ReadIn)
            }
        }
    }

    fn reading_done(&mut self, more: bool, op: Op) -> V<()> {
        if more {
            let n = self.send(op);
            if let Ph::Reading { id, .. } = &mut self.ph {
                *id = n;
            }
            return Ok(());
        }
        let Ph::Reading { inp, out, .. } = std::mem::replace(&mut self.ph, Ph::Idle) else {
            unreachable!()
        };
        self.cycle(inp.unwrap(), out.unwrap())
    }

    /// Start the fault-free phase when enough has happened; end the run when it is over.
    fn check_phase(&mut self) {
        if self.calm || self.attempts < self.k.cycles {
            return;
        }
        self.calm = true;
        ev!(self, "faults stop");
        // whatever else wrote illegal outputs has put them right
        for i in 0..self.out_mods.len() {
            let m = self.out_mods[i];
            if self.st.lay.specs[m].kind == Kind::Fcnt {
                let p = self.st.lay.lay[m].out.unwrap();
                let mut b = get(&self.st.out_regs, p, 12);
                if over_period(&b) {
                    b[..8].fill(0);
                    put(&mut self.st.out_regs, p, &b);
                }
            }
        }
        let ack = u64::from(self.st.ack_delay) + 3;
        let scan = self.k.scan_us + self.k.scan_jit;
        let per = scan * ack / self.k.poll_us + 5;
        let mut segs = 4;
        for m in self.coms.clone() {
            let d = &self.st.coms[&m];
            let l = self.ledgers.last().unwrap();
            let left = (l.queued[m].len() - l.accepted[m]) as u64;
            // a segment may be as short as one byte
            segs += d.rxq.len() as u64 + 2 + left;
        }
        for ((m, _), r) in self.sess.iter().flat_map(|s| s.pend.iter()) {
            if let (Kind::Com, Req::Bytes(b)) = (self.st.lay.specs[*m].kind, r) {
                segs += b.len() as u64;
            }
        }
        let held =
            self.st.coms.values().map(|d| d.pending.map_or(0, |p| u64::from(p.1))).sum::<u64>();
        // polls may follow each other faster than planned: what counts is
        // enough cycles and enough time
        self.bound_us = self.now + 2 * scan * (segs * ack + held + 10);
        self.stall_us = 2 * scan * (10 * ack + held + 10);
        let held = 2 * held * scan / self.k.poll_us;
        self.bound = 60 + 2 * segs * per + held;
        self.stall = 100 + 20 * per + held;
    }

    // ---- commissioning ----------------------------------------------------

    fn commission(&mut self) -> V<Option<(Coupler, CouplerConfig, bool)>> {
        self.setups += 1;
        self.stats.setups += 1;
        let faulty = self.p == P::C11 || self.p == P::C10;
        let rate = if faulty && self.setups < 6 { self.k.setup } else { 0 };
        let n = self.st.lay.specs.len();
        let mut intact = true;
        let cnt = self.st.read(ADDR_CURRENT_MODULE_COUNT, 1)[0];
        let mut list = self.st.read(ADDR_CURRENT_MODULE_LIST, cnt * 2);
        intact &= !self.damage(rate, &mut list, 0);
        let pan = |what: &str, m: String| Viol { class: "panic", msg: format!("{what}: {m}") };
        let types = lib(|| module_list_from_registers(&list))
            .map_err(|m| pan("module_list_from_registers", m))?;
        // reference reading of the module list
        let want: Option<Vec<Option<Kind>>> =
            (!list.is_empty() && list.len() % 2 == 0).then(|| {
                list.chunks(2)
                    .map(|w| {
                        let id = u32::from(w[0]) << 16 | u32::from(w[1]);
                        KINDS.into_iter().find(|k| k.id() == id)
                    })
                    .collect()
            });
        let c11 = self.p == P::C11;
        let types = match (types, &want) {
            (Ok(t), None) => {
                if c11 {
                    return viol(
                        "list-accepted",
                        format!("incomplete module list {} read as {t:?}", words(&list)),
                    );
                }
                return Ok(None);
            }
            (Ok(t), Some(k)) => {
                if c11 {
                    self.stats.checks += 1;
                    if t.len() != k.len() {
                        return viol("list", format!("{} modules read as {}", k.len(), t.len()));
                    }
                    for (i, (t, k)) in t.iter().zip(k).enumerate() {
                        let ok = match k {
                            Some(k) => *t == k.mt(),
                            None => KINDS.iter().all(|k| k.mt() != *t),
                        };
                        if !ok {
                            return viol("list", format!("module {i} read as {t:?}, is {k:?}"));
                        }
                    }
                }
                t
            }
            (Err(e), Some(k)) if k.iter().all(|k| k.is_some()) => {
                let m = format!("module list {}: {e:?}", words(&list));
                self.breaks(&[P::C11], "setup-refused", m)?;
                return Ok(None);
            }
            (Err(_), _) => return Ok(None),
        };
        let mut offsets = self.st.read(ADDR_MODULE_OFFSETS, cnt * 2);
        intact &= !self.damage(rate, &mut offsets, 1);
        let kinds = want.unwrap();
        let supported = kinds.iter().all(|k| k.is_some());
        if !supported {
            if c11 {
                // documented to panic; it must not produce a coupler in any case
                let fake = CouplerConfig {
                    modules: types.clone(),
                    offsets: vec![0xFFFF; types.len() * 2],
                    params: kinds
                        .iter()
                        .map(|k| k.map_or(vec![], |k| vec![0; k.param_len()]))
                        .collect(),
                };
                self.stats.checks += 1;
                if let Ok(Ok(_)) = lib(|| Coupler::new(&fake)) {
                    return viol("unsupported-accepted", format!("coupler for {types:?}"));
                }
            }
            return Ok(None);
        }
        let kinds: Vec<Kind> = kinds.into_iter().map(|k| k.unwrap()).collect();
        let areas = lib(|| param_addresses_and_register_counts(&types))
            .map_err(|m| pan("param_addresses_and_register_counts", m))?;
        if c11 {
            self.areas()?;
            self.stats.checks += 1;
            let want: Vec<(u16, u16)> = kinds
                .iter()
                .enumerate()
                .map(|(i, k)| ((0xC000 + 256 * i) as u16, k.param_len() as u16))
                .collect();
            if areas != want {
                return viol(
                    "param-areas",
                    format!("parameter areas {areas:04x?}, not {want:04x?}"),
                );
            }
            let o = lib(|| offsets_of_process_data(&offsets))
                .map_err(|m| pan("offsets_of_process_data", m))?;
            let opt = |w: u16| (w != 0xFFFF).then_some(w);
            for (i, w) in offsets.chunks_exact(2).enumerate() {
                let ok = o.get(i).is_some_and(|x| x.output == opt(w[0]) && x.input == opt(w[1]));
                if !ok {
                    return viol("offsets", format!("offsets {} read as {o:x?}", words(&offsets)));
                }
            }
        }
        let mut params = vec![];
        for &(a, l) in &areas {
            let mut w = if l == 0 { vec![] } else { self.st.read(a, l) };
            let r = if areas.len() > 8 { rate / 8 } else { rate };
            intact &= !self.damage(r, &mut w, 2);
            params.push(w);
        }
        if self.chance(S::Fault, rate / 8) {
            self.fault(F::Setup);
            intact = false;
            params.pop();
        }
        let mut must_fail = params.len() != kinds.len() || offsets.len() != 2 * kinds.len();
        let mut may_fail = must_fail;
        for (i, (k, w)) in kinds.iter().zip(&params).enumerate() {
            let valid = k.params_valid(w);
            match valid {
                Some(false) => {
                    must_fail = true;
                    may_fail = true;
                }
                None => may_fail = true,
                _ => {}
            }
            if !c11 {
                continue;
            }
            self.stats.checks += 1;
            let o = lib(|| params::observe(*k, w))
                .map_err(|m| pan(&format!("{} parameters", k.name()), m))?;
            match (valid, o) {
                (Some(true), Ok(o)) => {
                    if let Some(e) = params::check(*k, w, &o) {
                        return viol("params", format!("module {i}: {e}"));
                    }
                }
                (Some(true), Err(e)) => {
                    return viol("setup-refused", format!("{} {w:?}: {e:?}", k.name()));
                }
                (Some(false), Ok(_)) => {
                    return viol("params-accepted", format!("{} accepts {w:?}", k.name()));
                }
                _ => {}
            }
        }
        let cfg = CouplerConfig { modules: types, offsets, params };
        let r = lib(|| Coupler::new(&cfg)).map_err(|m| pan("Coupler::new", m))?;
        match r {
            Ok(_) if must_fail => {
                if c11 {
                    return viol(
                        "setup-accepted",
                        format!("coupler built from incomplete or invalid data {cfg:?}"),
                    );
                }
                Ok(None)
            }
            Ok(c) => {
                let intact = intact && cfg.modules.len() == n;
                Ok(Some((c, cfg, intact)))
            }
            Err(e) => {
                if !may_fail {
                    let m = format!("Coupler::new({cfg:?}): {e:?}");
                    self.breaks(&[P::C11], "setup-refused", m)?;
                }
                Ok(None)
            }
        }
    }

    /// The register areas the library names, and its bit addresses.
    fn areas(&mut self) -> V<()> {
        let lay = self.lay.clone();
        self.stats.checks += 1;
        let bits = |a: u16| usize::from(self.st.read(a, 1)[0]).div_ceil(16);
        for (what, len, addr, want, regs) in [
            (
                "input",
                bits(ADDR_PROCESS_INPUT_LEN),
                ADDR_PACKED_PROCESS_INPUT_DATA,
                lay.in_words,
                &self.st.in_regs,
            ),
            (
                "output",
                bits(ADDR_PROCESS_OUTPUT_LEN),
                ADDR_PACKED_PROCESS_OUTPUT_DATA,
                lay.out_words,
                &self.st.out_regs,
            ),
        ] {
            let got = self.st.read(addr, len as u16);
            if len != want || got != *regs {
                return viol(
                    "areas",
                    format!(
                        "{what} image at the named addresses: {len} registers [{}], station has \
                         {want} [{}]",
                        words(&got),
                        words(regs)
                    ),
                );
            }
        }
        let id = self.st.read(ADDR_COUPLER_ID, 2);
        let status = self.st.read(ADDR_COUPLER_STATUS, 1);
        if id != [0x5552, 0x3230] || status != [0x0A55] {
            return viol("areas", format!("coupler id {id:04x?} and status {status:04x?}"));
        }
        let mut addrs = vec![self.c.raw16(S::Proc), self.c.raw16(S::Proc)];
        for l in &lay.lay {
            addrs.extend([Layout::bit_addr(OUT_BASE, l.out), Layout::bit_addr(IN_BASE, l.inp)]);
        }
        for a in addrs {
            let (reg, bit) = lib(|| to_register_address(a))
                .map_err(|m| Viol { class: "panic", msg: format!("to_register_address: {m}") })?;
            let back = lib(|| to_bit_address(reg, bit))
                .map_err(|m| Viol { class: "panic", msg: format!("to_bit_address: {m}") })?;
            if (reg, bit) != (a / 16, usize::from(a % 16)) || back != a {
                return viol(
                    "areas",
                    format!("bit address {a:04x} is {reg:04x}.{bit}, {back:04x}"),
                );
            }
        }
        Ok(())
    }

    /// Damage a block read during commissioning. `what`: 0 list, 1 offsets, 2 parameters.
    fn damage(&mut self, rate: u32, w: &mut Vec<u16>, what: u8) -> bool {
        if rate == 0 || !self.chance(S::Fault, rate / 2) {
            return false;
        }
        self.fault(F::Setup);
        let before = w.clone();
        let f = S::Fault;
        match self.c.below(f, 7) {
            5 if !w.is_empty() => {
                // a single bit
                let i = self.c.usize(f, w.len());
                w[i] ^= 1 << self.c.below(f, 16);
            }
            0 => {
                let keep = self.c.usize(f, w.len() + 1);
                w.truncate(keep);
            }
            1 => w.truncate(w.len().saturating_sub(1)),
            2 => {
                let n = match self.c.below(f, 4) {
                    0 => 1 + self.c.usize(f, 40),
                    _ => 1 + self.c.usize(f, 8),
                };
                for _ in 0..n {
                    let v = self.c.below(f, 20) as u16;
                    w.push(v);
                }
            }
            3 if what == 0 && !w.is_empty() => {
                let i = self.c.usize(f, w.len() / 2);
                let id = self.c.pick(f, &UNSUPPORTED_IDS);
                w[2 * i] = (id >> 16) as u16;
                w[2 * i + 1] = id as u16;
            }
            4 if what == 0 && !w.is_empty() => {
                let i = self.c.usize(f, w.len() / 2);
                let id = self.c.pick(f, &KINDS).id();
                w[2 * i] = (id >> 16) as u16;
                w[2 * i + 1] = id as u16;
            }
            3 | 4 if !w.is_empty() => {
                // a value just outside (or inside) what is defined
                let i = self.c.usize(f, w.len());
                w[i] = if what == 1 {
                    self.c.pick(
                        f,
                        &[
                            0xFFFF, 0, 0x7FF8, 0x8001, 0xFFFE, 0x0008, 0x8008, 0x7FF0, 0xFFF8,
                            0x8000,
                        ],
                    )
                } else {
                    self.c.below(f, 24) as u16
                };
            }
            _ => {
                if !w.is_empty() {
                    let n = 1 + self.c.usize(f, w.len().min(4));
                    for _ in 0..n {
                        let i = self.c.usize(f, w.len());
                        w[i] = self.c.raw16(f);
                    }
                }
            }
        }
        ev!(self, "commissioning block {what} read as {} (is {})", words(w), words(&before));
        *w != before
    }
}

pub fn over_period(b: &[u8]) -> bool {
    (0..2).any(|i| {
        let w = |j: usize| u64::from(u16::from_le_bytes([b[2 * j], b[2 * j + 1]]));
        w(2 * i) << 16 | w(2 * i + 1) > FCNT_MAX_US
    })
}

include!("cycle.rs");
include!("hand.rs");
include!("app.rs");
