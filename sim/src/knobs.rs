//! Per-run configuration ("swarm" style: every run enables its own subset of
//! faults at its own rates), drawn from the cfg stream.

use crate::choice::{Choice, S};
use crate::codec::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum P {
    C01,
    C02,
    C03,
    C04,
    C05,
    C06,
    C07,
    C08,
    C09,
    C10,
    C11,
    C12,
    C13,
    C14,
    C17,
    C18,
}
pub const PROPS: [P; 16] = [
    P::C01,
    P::C02,
    P::C03,
    P::C04,
    P::C05,
    P::C06,
    P::C07,
    P::C08,
    P::C09,
    P::C10,
    P::C11,
    P::C12,
    P::C13,
    P::C14,
    P::C17,
    P::C18,
];
impl P {
    pub fn name(self) -> &'static str {
        [
            "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12",
            "C13", "C14", "C17", "C18",
        ][self as usize]
    }
    pub fn parse(s: &str) -> Option<P> {
        PROPS.into_iter().find(|p| p.name() == s)
    }
    pub fn serial(self) -> bool {
        matches!(self, P::C01 | P::C02 | P::C03 | P::C04 | P::C12 | P::C13)
    }
}

#[derive(Clone, Debug)]
pub struct Knobs {
    /// output image: read back each cycle (true) or kept by the driver (false)
    pub readback: bool,
    pub scan_us: u64,
    pub scan_jit: u64,
    pub poll_us: u64,
    pub poll_jit: u64,
    pub net_us: u64,
    pub net_jit: u64,
    pub timeout_us: u64,
    pub cycles: u64,
    pub app_us: u64,
    pub line_us: u64,
    pub line_cap: usize,
    pub line_rep: u32,
    /// the device on the serial line never sends
    pub silent: bool,
    /// bytes the application always leaves unread
    pub leave: usize,
    pub wmax: u64,
    /// the application stops writing at this backlog
    pub qcap: usize,
    pub mara: bool,
    pub rmax: u64,
    /// weights of application operations
    pub w_set: u32,
    pub w_bad: u32,
    pub w_write: u32,
    pub w_bytes: u32,
    pub w_read: u32,
    // fault rates, permille
    pub lost_req: u32,
    pub lost_resp: u32,
    pub late: u32,
    pub exception: u32,
    pub reset: u32,
    pub short: u32,
    pub extend: u32,
    pub crash: u32,
    pub power: u32,
    pub stall: u32,
    pub pause: u32,
    pub clock: u32,
    pub foreign: u32,
    pub repeat: u32,
    pub malform: u32,
    pub series: u32,
    pub corrupt: u32,
    pub setup: u32,
}

pub struct Setup {
    pub k: Knobs,
    pub specs: Vec<Spec>,
    pub align: bool,
    pub wild_inputs: bool,
    pub leftover: bool,
    pub ack_delay: u32,
    pub slow: u32,
    pub xoff: u32,
    pub noisy: bool,
    pub change: u32,
}

const OUT_KINDS: [Kind; 8] =
    [Kind::Do4, Kind::Do8, Kind::Do16, Kind::Do4A2, Kind::Ro4, Kind::Ao, Kind::AoDiag, Kind::Fcnt];
const IN_KINDS: [Kind; 10] = [
    Kind::Di4,
    Kind::Di8,
    Kind::Rtd,
    Kind::AiUiDiag,
    Kind::AiUi12,
    Kind::AiUi16,
    Kind::Ai8I,
    Kind::Tc,
    Kind::Fcnt,
    Kind::Sil,
];

fn pick_kind(p: P, c: &mut Choice) -> Kind {
    // permille for: serial, output, input module; the rest is anything
    let (com, out, inp) = match p {
        P::C01 | P::C02 | P::C03 | P::C04 | P::C13 => (600, 200, 100),
        P::C12 => (450, 350, 50),
        P::C06 | P::C07 => (80, 850, 20),
        P::C08 => (150, 50, 750),
        P::C09 => (300, 350, 150),
        P::C14 => (300, 450, 50),
        P::C05 => (250, 300, 250),
        P::C17 => (300, 300, 250),
        P::C18 => (400, 300, 150),
        P::C10 => (200, 250, 250),
        P::C11 => (100, 0, 0),
    };
    let x = c.below(S::Cfg, 1000);
    if x < com {
        Kind::Com
    } else if x < com + out {
        c.pick(S::Cfg, &OUT_KINDS)
    } else if x < com + out + inp {
        c.pick(S::Cfg, &IN_KINDS)
    } else {
        c.pick(S::Cfg, &KINDS)
    }
}

pub fn setup(p: P, c: &mut Choice) -> Setup {
    let s = S::Cfg;
    // now and then a run long enough for 16 bit counters to wrap, or with a huge backlog
    let rare = match p {
        P::C18 => 200,
        P::C01 | P::C02 => 1200,
        _ => 3000,
    };
    let mara = !matches!(p, P::C11) && c.below(s, rare) == rare - 1;
    let n = match p {
        _ if mara => c.range(s, 1, 2),
        P::C11 => match c.below(s, 10) {
            0..=5 => c.range(s, 1, 8),
            6..=7 => c.range(s, 9, 32),
            8 => c.range(s, 33, 63),
            _ => 64,
        },
        P::C01 | P::C02 | P::C03 | P::C04 | P::C13 => match c.below(s, 100) {
            0..=59 => c.range(s, 1, 2),
            60..=94 => c.range(s, 3, 6),
            95..=98 => c.range(s, 7, 16),
            _ => c.range(s, 17, 64),
        },
        _ => match c.below(s, 20) {
            0..=5 => c.range(s, 1, 2),
            6..=15 => c.range(s, 3, 8),
            16..=18 => c.range(s, 9, 20),
            _ => c.range(s, 21, 64),
        },
    } as usize;
    let mut specs = vec![];
    // images of several hundred registers
    let heavy = n > 16 && c.chance(s, 500);
    for i in 0..n {
        let k = if i == 0 && p.serial() {
            Kind::Com
        } else if heavy && c.chance(s, 850) {
            c.pick(s, &[Kind::Com, Kind::Fcnt, Kind::Com, Kind::Ao, Kind::Ai8I])
        } else {
            pick_kind(p, c)
        };
        specs.push(Spec { kind: k, params: k.gen_params(c) });
    }
    // longer histories for smaller stations
    let scale = if n > 20 { 4 } else { 1 };
    let cycles = match (p, c.below(s, 20)) {
        (_, 0..=13) if mara => c.range(s, 66_000, 72_000),
        _ if mara => c.range(s, 2000, 20_000),
        (P::C11, _) => c.range(s, 1, 3),
        (P::C18, 8..) => c.range(s, 250, 3000) / scale,
        (_, 0..=13) => c.range(s, 5, 60),
        (_, 14..=18) => c.range(s, 60, 250) / scale,
        _ => c.range(s, 250, 1500) / scale,
    };
    // fault intensities: off, rare, frequent
    let mut f = |hi: u32| -> u32 {
        match c.below(s, 4) {
            0 | 1 => 0,
            2 if hi > 0 => (hi / 8).max(1),
            _ => hi,
        }
    };
    let long = cycles > 250;
    let cr = if mara {
        0
    } else if long {
        8
    } else {
        40
    };
    let k = Knobs {
        readback: false,
        scan_us: 0,
        scan_jit: 0,
        poll_us: 0,
        poll_jit: 0,
        net_us: 0,
        net_jit: 0,
        timeout_us: 0,
        cycles,
        app_us: 0,
        line_us: 0,
        line_cap: 0,
        line_rep: 0,
        silent: false,
        leave: 0,
        wmax: 0,
        qcap: 0,
        mara: false,
        rmax: 0,
        w_set: 0,
        w_bad: 0,
        w_write: 0,
        w_bytes: 0,
        w_read: 0,
        lost_req: f(120),
        lost_resp: f(120),
        late: f(120),
        exception: f(80),
        reset: f(300),
        short: f(150),
        extend: f(200),
        crash: f(match p {
            P::C04 | P::C13 => 2 * cr,
            P::C11 => 0,
            _ => cr,
        }),
        power: f(match p {
            P::C04 | P::C13 => cr,
            P::C11 => 0,
            _ => cr / 4,
        }),
        stall: f(100),
        pause: f(100),
        clock: 0,
        foreign: f(match p {
            P::C05 | P::C06 | P::C07 | P::C12 | P::C09 | P::C17 => 600,
            _ => 150,
        }),
        repeat: f(150),
        series: 0,
        malform: f(match p {
            P::C09 | P::C17 | P::C18 => 200,
            P::C10 => 150,
            _ => 0,
        }),
        corrupt: f(match p {
            P::C10 => 300,
            _ => 0,
        }),
        setup: match p {
            P::C11 => f(500),
            P::C10 => f(600),
            _ => 0,
        },
    };
    let mut k = k;
    k.readback = c.chance(s, 500);
    k.clock = c.pick(s, &[0u32, 0, 5, 60]);
    k.series = c.pick(s, &[0u32, 0, 10, 60]);
    let base = c.pick(s, &[1000u64, 300, 3000, 10_000]);
    k.scan_us = c.pick(s, &[base, base / 5, base / 2, base * 2, base * 3]);
    k.scan_jit = c.pick(s, &[0, k.scan_us / 2, k.scan_us]);
    k.poll_us = base;
    k.poll_jit = c.pick(s, &[0, base / 4, base]);
    k.net_us = c.pick(s, &[100u64, 20, 1000]);
    k.net_jit = c.pick(s, &[0, k.net_us / 2, k.net_us * 3]);
    k.timeout_us = (k.net_us + k.net_jit) * 2 + c.pick(s, &[200u64, 2000]);
    let cyc = k.poll_us + 6 * k.net_us;
    k.app_us = c.pick(s, &[cyc, cyc / 3, cyc * 4, cyc / 10]).max(50);
    k.line_us = c.pick(s, &[cyc * 2, cyc / 2, cyc * 10, cyc]);
    k.line_cap = c.pick(s, &[4usize, 1, 20, 60]);
    k.line_rep = c.pick(s, &[0u32, 0, 200, 900]);
    k.wmax = c.pick(s, &[20u64, 1, 6, 14, 60, 300]);
    if c.chance(s, 30) {
        k.wmax = 5000;
    }
    k.rmax = c.pick(s, &[20u64, 1, 3, 300]);
    k.w_set = 4;
    k.w_bad = c.pick(s, &[0u32, 1]);
    k.w_write = c.pick(s, &[3u32, 0, 1, 8]);
    k.w_bytes = c.pick(s, &[1u32, 0, 4]);
    k.w_read = c.pick(s, &[3u32, 0, 1, 8]);
    match p {
        P::C06 => {
            k.w_set = 10;
            k.w_bad = 3;
        }
        P::C10 => k.w_bad = 4,
        P::C17 | P::C18 => k.w_bad = 6,
        P::C14 => k.w_set = 12,
        P::C07 => k.w_set = c.pick(s, &[0u32, 1, 4]),
        _ => {}
    }
    k.qcap = 3000;
    if mara && cycles < 66_000 {
        k.wmax = c.pick(s, &[70_000, 20_000]);
        k.qcap = 150_000;
        k.rmax = c.pick(s, &[20u64, 300, 70_000]);
        if p == P::C01 && c.chance(s, 650) {
            // more segments than a 16 bit counter can tell
            k.wmax = 420_000;
            k.qcap = 30_000;
        }
    }
    k.silent = c.chance(s, if p == P::C18 { 120 } else { 40 });
    k.leave = c.pick(s, &[0usize, 0, 0, 1, 30]);
    if p == P::C18 && c.chance(s, 700) {
        // small backlogs over a long time
        k.qcap = c.pick(s, &[40usize, 150]);
        k.wmax = k.wmax.min(60);
        k.rmax = 300;
        k.w_read = 8;
        k.w_write = 8;
        k.leave = c.pick(s, &[0usize, 1, 30]);
    }
    if mara && matches!(p, P::C09 | P::C10) && c.chance(s, 500) {
        // hardly any cycle succeeds
        k.short = 998;
    }
    k.mara = mara;
    if matches!(p, P::C06 | P::C14 | P::C09 | P::C17) {
        k.app_us = (k.app_us / 3).max(30);
    }
    Setup {
        align: c.chance(s, 400),
        wild_inputs: c.chance(s, 250),
        leftover: c.chance(s, 750),
        ack_delay: c.pick(s, &[0u32, 1, 3, 10]),
        slow: c.pick(s, &[0u32, 200, 600]),
        xoff: if mara { 0 } else { c.pick(s, &[0u32, 0, 5, 40]) },
        noisy: c.chance(s, 500),
        change: c.pick(s, &[if p == P::C08 { 900 } else { 150 }, 600, 20]),
        k,
        specs,
    }
}
