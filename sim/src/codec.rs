//! Independent reference of the u-remote module catalogue: identification,
//! parameter layout, process data layout and value interpretation.  Written
//! from the data sheets' layout (as documented in the repository), sharing no
//! code with the library under test.

use crate::choice::{Choice, S};
use ur20::ChannelValue as CV;
use ur20::ModuleType as MT;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Di4,
    Di8,
    Do4,
    Do4A2,
    Do8,
    Do16,
    Ro4,
    Ao,
    AoDiag,
    Rtd,
    AiUiDiag,
    AiUi12,
    AiUi16,
    Ai8I,
    Tc,
    Fcnt,
    Com,
    Sil,
}
use Kind::*;

pub const KINDS: [Kind; 18] = [
    Di4, Do4, Com, Ao, Di8, Do4A2, Do8, Do16, Ro4, AoDiag, Rtd, AiUiDiag, AiUi12, AiUi16, Ai8I, Tc,
    Fcnt, Sil,
];

/// Identification numbers of types that exist but have no driver here, and of nothing at all.
pub const UNSUPPORTED_IDS: [u32; 10] = [
    0x001B_1F84,
    0x0004_9FC2,
    0x0119_2FC8,
    0x0908_4880,
    0x0505_2560,
    0x08C1_3800,
    0x0E81_276D,
    0x1803_9F43,
    0x0123_4567,
    0x0000_0000,
];

pub const FCNT_MAX_US: u64 = 8_388_607;

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Di4 => "UR20_4DI_P",
            Di8 => "UR20_8DI_P_2W",
            Do4 => "UR20_4DO_P",
            Do4A2 => "UR20_4DO_P_2A",
            Do8 => "UR20_8DO_P",
            Do16 => "UR20_16DO_P",
            Ro4 => "UR20_4RO_CO_255",
            Ao => "UR20_4AO_UI_16",
            AoDiag => "UR20_4AO_UI_16_DIAG",
            Rtd => "UR20_4AI_RTD_DIAG",
            AiUiDiag => "UR20_4AI_UI_16_DIAG",
            AiUi12 => "UR20_4AI_UI_12",
            AiUi16 => "UR20_4AI_UI_16",
            Ai8I => "UR20_8AI_I_16_DIAG_HD",
            Tc => "UR20_4AI_TC_DIAG",
            Fcnt => "UR20_2FCNT_100",
            Com => "UR20_1COM_232_485_422",
            Sil => "UR20_PF_O_1DI_SIL",
        }
    }
    pub fn mt(self) -> MT {
        match self {
            Di4 => MT::UR20_4DI_P,
            Di8 => MT::UR20_8DI_P_2W,
            Do4 => MT::UR20_4DO_P,
            Do4A2 => MT::UR20_4DO_P_2A,
            Do8 => MT::UR20_8DO_P,
            Do16 => MT::UR20_16DO_P,
            Ro4 => MT::UR20_4RO_CO_255,
            Ao => MT::UR20_4AO_UI_16,
            AoDiag => MT::UR20_4AO_UI_16_DIAG,
            Rtd => MT::UR20_4AI_RTD_DIAG,
            AiUiDiag => MT::UR20_4AI_UI_16_DIAG,
            AiUi12 => MT::UR20_4AI_UI_12,
            AiUi16 => MT::UR20_4AI_UI_16,
            Ai8I => MT::UR20_8AI_I_16_DIAG_HD,
            Tc => MT::UR20_4AI_TC_DIAG,
            Fcnt => MT::UR20_2FCNT_100,
            Com => MT::UR20_1COM_232_485_422,
            Sil => MT::UR20_PF_O_1DI_SIL,
        }
    }
    pub fn id(self) -> u32 {
        match self {
            Di4 => 0x0009_1F84,
            Di8 => 0x0013_1FC1,
            Do4 => 0x0101_2FA0,
            Do4A2 => 0x0105_2FA0,
            Do8 => 0x0102_2FC8,
            Do16 => 0x0103_AFD0,
            Ro4 => 0x0106_2FA0,
            Ao => 0x0502_25E0,
            AoDiag => 0x0501_2560,
            Rtd => 0x0406_1544,
            AiUiDiag => 0x0402_1544,
            AiUi12 => 0x0411_15C4,
            AiUi16 => 0x0401_15C4,
            Ai8I => 0x0405_1545,
            Tc => 0x0407_1544,
            Fcnt => 0x0881_28EE,
            Com => 0x0E41_3FED,
            Sil => 0x1801_9F43,
        }
    }
    pub fn channels(self) -> usize {
        match self {
            Sil => 0,
            Com => 1,
            Fcnt => 2,
            Di8 | Do8 | Ai8I => 8,
            Do16 => 16,
            _ => 4,
        }
    }
    /// Number of parameter registers.
    pub fn param_len(self) -> usize {
        match self {
            Di4 | Do4 | Do4A2 | Ro4 => 4,
            Di8 | Do8 => 8,
            Do16 | Sil => 0,
            Ao => 12,
            AoDiag => 16,
            Rtd | Tc => 29,
            AiUiDiag => 21,
            AiUi12 | AiUi16 => 9,
            Ai8I => 33,
            Fcnt => 2,
            Com => 10,
        }
    }
    pub fn has_out(self) -> bool {
        matches!(self, Do4 | Do4A2 | Do8 | Do16 | Ro4 | Ao | AoDiag | Fcnt | Com)
    }
    pub fn is_bits_out(self) -> bool {
        matches!(self, Do4 | Do4A2 | Do8 | Do16 | Ro4)
    }
    /// Largest legal value of parameter register `i`; None: any 16 bit value.
    pub fn param_max(self, i: usize) -> Option<u16> {
        match self {
            Di4 | Di8 => Some(5),
            Do4 | Do4A2 | Do8 | Ro4 => Some(1),
            Do16 | Sil => Some(0),
            Ao => [Some(1), Some(8), None][i % 3],
            AoDiag => [Some(1), Some(8), None, Some(1)][i % 4],
            Rtd if i == 0 => Some(2),
            Rtd => [Some(18), Some(2), Some(5), Some(1), Some(1), None, None][(i - 1) % 7],
            Tc if i == 0 => Some(2),
            Tc => [Some(19), Some(4), Some(5), Some(1), Some(1), None, None][(i - 1) % 7],
            AiUiDiag if i == 0 => Some(3),
            AiUiDiag => [Some(1), Some(1), Some(1), Some(1), Some(8)][(i - 1) % 5],
            AiUi12 | AiUi16 if i == 0 => Some(3),
            AiUi12 | AiUi16 => [Some(1), Some(8)][(i - 1) % 2],
            Ai8I if i == 0 => Some(3),
            Ai8I => [Some(1), Some(1), Some(1), Some(2)][(i - 1) % 4],
            Fcnt => Some(16),
            Com => Some([1, 3, 11, 1, 2, 2, 1, 1, 255, 255][i % 10]),
        }
    }
    pub fn gen_params(self, c: &mut Choice) -> Vec<u16> {
        (0..self.param_len())
            .map(|i| match self.param_max(i) {
                Some(m) => c.below(S::Cfg, u64::from(m) + 1) as u16,
                None => c.raw16(S::Cfg),
            })
            .collect()
    }
    /// Is this parameter block acceptable? None: unspecified (block too long for a
    /// module without parameters).
    pub fn params_valid(self, w: &[u16]) -> Option<bool> {
        let n = self.param_len();
        if n == 0 && !w.is_empty() {
            return None;
        }
        if w.len() < n {
            return Some(false);
        }
        Some((0..n).all(|i| self.param_max(i).is_none_or(|m| w[i] <= m)))
    }
}

/// A module with its parameter registers.
#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub kind: Kind,
    pub params: Vec<u16>,
}

#[derive(Clone, Debug)]
pub enum RV {
    Bit(bool),
    /// value and tolerance
    Dec(f64, f64),
    /// duration in ns, count, active
    FIn(Option<u64>, u32, bool),
    /// period in us, 0: no command 1: start 2: stop
    FOut(u64, u8),
    Sil([bool; 7]),
    Bytes(Vec<u8>),
    Disabled,
    None,
}

impl RV {
    pub fn matches(&self, v: &CV) -> bool {
        use std::time::Duration;
        match (self, v) {
            (RV::Bit(a), CV::Bit(b)) => a == b,
            (RV::Dec(a, t), CV::Decimal32(b)) => (a - f64::from(*b)).abs() <= *t,
            (RV::FIn(d, n, act), CV::FcntIn(x)) => {
                if x.duration != d.map(Duration::from_nanos) || x.count != *n || x.active != *act {
                    return false;
                }
                match (d, x.hertz()) {
                    (None, None) => true,
                    (Some(ns), Some(h)) => {
                        if *ns == 0 {
                            !h.is_finite()
                        } else {
                            let e = f64::from(*n) * 1e9 / (*ns as f64);
                            (e - f64::from(h)).abs() <= e * 1e-5
                        }
                    }
                    _ => false,
                }
            }
            (RV::FOut(us, c), CV::FcntOut(x)) => {
                use ur20::ur20_2fcnt_100::Command;
                x.duration == Duration::from_micros(*us)
                    && match x.command {
                        None => *c == 0,
                        Some(Command::Start) => *c == 1,
                        Some(Command::Stop) => *c == 2,
                    }
            }
            (RV::Sil(b), CV::SilPFIn(x)) => {
                *b == [
                    x.safety_input,
                    x.autostart,
                    x.manual_start,
                    x.safety_input_channel_1,
                    x.safety_input_channel_2,
                    x.volt_24_safe_output,
                    x.volt_24_dc,
                ]
            }
            (RV::Bytes(a), CV::Bytes(b)) => a == b,
            (RV::Disabled, CV::Disabled) => true,
            (RV::None, CV::None) => true,
            _ => false,
        }
    }
}

/// (low end, span) of a voltage/current range.
fn ui_range(r: u16) -> Option<(f64, f64)> {
    match r {
        0 => Some((0.0, 20.0)),
        1 => Some((4.0, 16.0)),
        2 | 3 => Some((0.0, 10.0)),
        4 | 5 => Some((0.0, 5.0)),
        6 => Some((1.0, 4.0)),
        7 => Some((2.0, 8.0)),
        _ => None,
    }
}
fn full_scale(format: u16) -> f64 {
    if format == 0 { 16384.0 } else { 27648.0 }
}
fn dec(raw: f64, lo: f64, lsb: f64) -> RV {
    RV::Dec(raw * lsb + lo, lsb * 0.05 + 1e-6 * lo.abs())
}
pub fn ui_val(raw: u16, range: u16, format: u16) -> RV {
    match ui_range(range) {
        None => RV::Disabled,
        Some((lo, span)) => dec(f64::from(raw as i16), lo, span / full_scale(format)),
    }
}

fn le(b: &[u8], i: usize) -> u16 {
    u16::from_le_bytes([b[2 * i], b[2 * i + 1]])
}
fn be32(b: &[u8], i: usize) -> u32 {
    (u32::from(le(b, i)) << 16) | u32::from(le(b, i + 1))
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct ComIn {
    pub da: bool,
    pub rx_cnt: u8,
    pub tx_ack: u8,
    pub len: u8,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct ComOut {
    pub rx_flush: bool,
    pub tx_flush: bool,
    pub hold: bool,
    pub tx_cnt: u8,
    pub rx_ack: u8,
    pub reset: bool,
    pub len: u8,
    pub data: Vec<u8>,
}
pub fn com_in(b: &[u8]) -> ComIn {
    let n = (b[1] as usize).min(b.len() - 2);
    ComIn {
        da: b[0] & 1 != 0,
        rx_cnt: (b[0] >> 3) & 3,
        tx_ack: (b[0] >> 5) & 3,
        len: b[1],
        data: b[2..2 + n].to_vec(),
    }
}
pub fn com_out(b: &[u8]) -> ComOut {
    let n = (b[1] as usize).min(b.len() - 2);
    ComOut {
        rx_flush: b[0] & 1 != 0,
        tx_flush: b[0] & 2 != 0,
        hold: b[0] & 4 != 0,
        tx_cnt: (b[0] >> 3) & 3,
        rx_ack: (b[0] >> 5) & 3,
        reset: b[0] & 0x80 != 0,
        len: b[1],
        data: b[2..2 + n].to_vec(),
    }
}

impl Spec {
    pub fn in_bytes(&self) -> usize {
        match self.kind {
            Di4 | Di8 => 1,
            Rtd | AiUiDiag | AiUi12 | AiUi16 | Tc => 8,
            Ai8I => 16,
            Fcnt => 20,
            Sil => 4,
            Com => self.com_cap() + 2,
            _ => 0,
        }
    }
    pub fn out_bytes(&self) -> usize {
        match self.kind {
            Do4 | Do4A2 | Do8 | Ro4 => 1,
            Do16 => 2,
            Ao | AoDiag => 8,
            Fcnt => 12,
            Com => self.com_cap() + 2,
            _ => 0,
        }
    }
    pub fn com_cap(&self) -> usize {
        if self.params[0] == 0 { 6 } else { 14 }
    }
    /// Reference reading of the module's input bytes (not for serial modules).
    pub fn inputs(&self, b: &[u8]) -> Vec<RV> {
        let p = &self.params;
        match self.kind {
            Di4 => (0..4).map(|i| RV::Bit(b[0] >> i & 1 != 0)).collect(),
            Di8 => (0..8).map(|i| RV::Bit(b[0] >> i & 1 != 0)).collect(),
            AiUiDiag => (0..4).map(|i| ui_val(le(b, i), p[i * 5 + 5], p[i * 5 + 4])).collect(),
            AiUi12 | AiUi16 => {
                (0..4).map(|i| ui_val(le(b, i), p[i * 2 + 2], p[i * 2 + 1])).collect()
            }
            Ai8I => (0..8)
                .map(|i| match p[i * 4 + 4] {
                    r @ 0..=1 => ui_val(le(b, i), r, p[i * 4 + 3]),
                    _ => RV::Disabled,
                })
                .collect(),
            Rtd => (0..4)
                .map(|i| {
                    let raw = le(b, i);
                    match p[i * 7 + 1] {
                        0..=9 => dec(f64::from(raw as i16), 0.0, 0.1),
                        r @ 10..=17 => {
                            let n = [40., 80., 150., 300., 500., 1000., 2000., 4000.];
                            dec(f64::from(raw), 0.0, n[usize::from(r) - 10] / 27648.0)
                        }
                        _ => RV::Disabled,
                    }
                })
                .collect(),
            Tc => (0..4)
                .map(|i| {
                    let raw = le(b, i);
                    match p[i * 7 + 1] {
                        0..=10 if raw == 32767 => RV::None,
                        0..=10 => dec(f64::from(raw as i16), 0.0, 0.1),
                        r @ 11..=18 => {
                            let fs = [0.015625, 0.03125, 0.0625, 0.125, 0.25, 0.5, 1.0, 2.0];
                            dec(f64::from(raw as i16), 0.0, fs[usize::from(r) - 11] / 32767.0)
                        }
                        _ => RV::Disabled,
                    }
                })
                .collect(),
            Fcnt => (0..2)
                .map(|i| {
                    let d = be32(b, i * 4);
                    let d = if d >= 0x07FF_FFFF { None } else { Some(u64::from(d) * 125) };
                    RV::FIn(d, be32(b, i * 4 + 2), le(b, 8 + i) & 0x100 != 0)
                })
                .collect(),
            Sil => vec![RV::Sil([
                b[0] & 0x01 != 0,
                b[0] & 0x04 != 0,
                b[0] & 0x08 != 0,
                b[0] & 0x10 != 0,
                b[0] & 0x20 != 0,
                b[1] & 0x01 != 0,
                b[1] & 0x04 != 0,
            ])],
            Com => {
                let c = com_in(b);
                if c.da && !c.data.is_empty() { vec![RV::Bytes(c.data)] } else { vec![RV::None] }
            }
            _ => vec![RV::None; self.kind.channels()],
        }
    }
    pub fn out_range(&self, ch: usize) -> (u16, u16) {
        match self.kind {
            Ao => (self.params[ch * 3 + 1], self.params[ch * 3]),
            AoDiag => (self.params[ch * 4 + 1], self.params[ch * 4]),
            _ => (8, 0),
        }
    }
    /// Reference reading of the module's output bytes (not for serial modules).
    pub fn outputs(&self, b: &[u8]) -> Vec<RV> {
        match self.kind {
            Do4 | Do4A2 | Ro4 | Do8 => {
                (0..self.kind.channels()).map(|i| RV::Bit(b[0] >> i & 1 != 0)).collect()
            }
            Do16 => (0..16).map(|i| RV::Bit(le(b, 0) >> i & 1 != 0)).collect(),
            Ao | AoDiag => (0..4)
                .map(|i| {
                    let (r, f) = self.out_range(i);
                    ui_val(le(b, i), r, f)
                })
                .collect(),
            Fcnt => (0..2)
                .map(|i| {
                    let c = le(b, 4 + i);
                    let cmd = if c & 0x100 != 0 {
                        1
                    } else if c & 0x200 != 0 {
                        2
                    } else {
                        0
                    };
                    RV::FOut(u64::from(be32(b, i * 2)), cmd)
                })
                .collect(),
            _ => vec![RV::None; self.kind.channels()],
        }
    }
    /// Random legal contents of the module's output registers.
    pub fn gen_out(&self, c: &mut Choice, s: S) -> Vec<u8> {
        let mut b = vec![0u8; self.out_bytes()];
        match self.kind {
            Do4 | Do4A2 | Ro4 | Do8 => {
                let all = if self.kind == Do8 { 0xFF } else { 0x0F };
                // often all channels are the same
                b[0] = match c.below(s, 8) {
                    6 => 0,
                    7 => all,
                    _ => c.below(s, u64::from(all) + 1) as u8,
                };
            }
            Do16 | Ao | AoDiag => {
                let mut w = c.raw16(s);
                let same = c.chance(s, 120);
                for i in 0..b.len() / 2 {
                    if i > 0 && !same {
                        w = c.raw16(s);
                    }
                    b[2 * i..2 * i + 2].copy_from_slice(&w.to_le_bytes());
                }
            }
            Fcnt => {
                for i in 0..2 {
                    let us = gen_us(c, s);
                    put_be32(&mut b, i * 2, us as u32);
                    let w: u16 = c.pick(s, &[0, 0x100, 0x200]);
                    b[8 + 2 * i..10 + 2 * i].copy_from_slice(&w.to_le_bytes());
                }
            }
            _ => {}
        }
        b
    }
    /// Random input register contents of a non-serial module.
    pub fn gen_in(&self, c: &mut Choice, s: S) -> Vec<u8> {
        let mut b = vec![0u8; self.in_bytes()];
        if self.kind == Fcnt {
            for i in 0..2 {
                let d = match c.below(s, 4) {
                    0 => c.pick(
                        s,
                        &[
                            0u64,
                            1,
                            0x07FF_FFFE,
                            0x07FF_FFFF,
                            0x0800_0000,
                            0xFFFF_FFFF,
                            0xFFFF,
                            0x1_0000,
                        ],
                    ),
                    1 => c.below(s, 1 << 32),
                    _ => c.below(s, 0x07FF_FFFF),
                };
                put_be32(&mut b, i * 4, d as u32);
                let n = match c.below(s, 3) {
                    0 => c.pick(s, &[0u64, 1, 0xFFFF, 0x1_0000, 0xFFFF_FFFF, 0x8000_0000]),
                    1 => c.below(s, 1 << 32),
                    _ => c.below(s, 100_000),
                };
                put_be32(&mut b, i * 4 + 2, n as u32);
                let w = match c.below(s, 3) {
                    0 => 0,
                    1 => 0x100,
                    _ => c.raw16(s),
                };
                b[16 + 2 * i..18 + 2 * i].copy_from_slice(&w.to_le_bytes());
            }
        } else if b.len() == 1 {
            b[0] = c.below(s, 256) as u8;
        } else {
            let mut w = c.raw16(s);
            let same = c.chance(s, 120);
            for i in 0..b.len() / 2 {
                if i > 0 && !same {
                    w = c.raw16(s);
                }
                b[2 * i..2 * i + 2].copy_from_slice(&w.to_le_bytes());
            }
        }
        b
    }
}

pub fn gen_us(c: &mut Choice, s: S) -> u64 {
    match c.below(s, 3) {
        0 => c.pick(s, &[0, 1, 0xFFFF, 0x1_0000, FCNT_MAX_US, FCNT_MAX_US - 1, 1_000_000, 999_999]),
        _ => c.below(s, FCNT_MAX_US + 1),
    }
}

/// Nanoseconds requested beyond a whole number of microseconds.
fn beyond_us(us: u64) -> u64 {
    match us % 5 {
        1 if us < FCNT_MAX_US => 500,
        2 if us < FCNT_MAX_US => 999,
        _ => 0,
    }
}

fn put_be32(b: &mut [u8], word: usize, v: u32) {
    b[2 * word..2 * word + 2].copy_from_slice(&((v >> 16) as u16).to_le_bytes());
    b[2 * word + 2..2 * word + 4].copy_from_slice(&(v as u16).to_le_bytes());
}

/// What a request asks of an output channel.
#[derive(Clone, Debug)]
pub enum Req {
    Bit(bool),
    Dec(f32),
    /// period in us (and extra nanoseconds, dropped by the module), command
    F(u64, u8),
    Bytes(Vec<u8>),
    Disabled,
}

impl Req {
    pub fn value(&self) -> CV {
        use ur20::ur20_2fcnt_100::{Command, ProcessOutput};
        match self {
            Req::Bit(b) => CV::Bit(*b),
            Req::Dec(v) => CV::Decimal32(*v),
            Req::F(us, c) => CV::FcntOut(ProcessOutput {
                // finer than the counter can tell, now and then
                duration: std::time::Duration::from_micros(*us)
                    + std::time::Duration::from_nanos(beyond_us(*us)),
                command: match c {
                    0 => None,
                    1 => Some(Command::Start),
                    _ => Some(Command::Stop),
                },
            }),
            Req::Bytes(b) => CV::Bytes(b.clone()),
            Req::Disabled => CV::Disabled,
        }
    }
}

/// Check channel `ch` of the module's returned output bytes against the given
/// bytes and an optional request.  Returns an explanation if it is wrong.
pub fn check_out_channel(
    m: &Spec,
    ch: usize,
    given: &[u8],
    got: &[u8],
    req: Option<&Req>,
) -> Option<String> {
    match m.kind {
        k if k.is_bits_out() => {
            let bit = |b: &[u8]| b[ch / 8] >> (ch % 8) & 1 != 0;
            let want = match req {
                None => bit(given),
                Some(Req::Bit(v)) => *v,
                _ => false,
            };
            (bit(got) != want).then(|| format!("bit is {} instead of {want}", bit(got)))
        }
        Ao | AoDiag => {
            let (r, f) = m.out_range(ch);
            let raw = le(got, ch);
            let Some((lo, span)) = ui_range(r) else {
                // a disabled channel has no value to hold; a request must not make one up
                return (req.is_some() && raw != 0)
                    .then(|| format!("disabled channel written as {raw:#06x}"));
            };
            match req {
                None => {
                    let w = le(given, ch);
                    (raw != w).then(|| format!("raw value {w:#06x} became {raw:#06x}"))
                }
                Some(Req::Dec(v)) if v.is_nan() => None,
                Some(Req::Dec(v)) => {
                    let ideal = full_scale(f) * (f64::from(*v) - lo) / span;
                    let ideal = ideal.clamp(-32768.0, 32767.0);
                    let d = (f64::from(raw as i16) - ideal).abs();
                    (d > 1.0 + 0.01)
                        .then(|| format!("{v} written as raw {} (ideal {ideal})", raw as i16))
                }
                _ => (raw != 0).then(|| format!("cleared channel written as {raw:#06x}")),
            }
        }
        Fcnt => {
            let us = be32(got, ch * 2);
            let ctl = le(got, 4 + ch) & 0x300;
            let (wu, wc) = match req {
                None => (be32(given, ch * 2), le(given, 4 + ch) & 0x300),
                Some(Req::F(us, c)) => (*us as u32, [0u16, 0x100, 0x200][usize::from(*c)]),
                _ => (0, 0),
            };
            let fine = matches!(req, Some(Req::F(x, _)) if beyond_us(*x) > 0);
            ((us != wu && !(fine && us == wu + 1)) || ctl != wc)
                .then(|| format!("period/command {us}/{ctl:#x} instead of {wu}/{wc:#x}"))
        }
        _ => None,
    }
}
