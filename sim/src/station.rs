//! The simulated u-remote station: register map, module hardware, serial devices.

use crate::choice::{Choice, S};
use crate::codec::*;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use ur20::ur20_fbc_mod_tcp::CouplerConfig;

/// Byte positions of a module's data in the packed process images.
#[derive(Clone, Debug, PartialEq)]
pub struct Lay {
    pub inp: Option<usize>,
    pub out: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub specs: Vec<Spec>,
    pub lay: Vec<Lay>,
    pub in_words: usize,
    pub out_words: usize,
}

pub fn get(img: &[u16], pos: usize, n: usize) -> Vec<u8> {
    (pos..pos + n).map(|i| (img[i / 2] >> (8 * (i % 2))) as u8).collect()
}
pub fn put(img: &mut [u16], pos: usize, b: &[u8]) {
    for (j, v) in b.iter().enumerate() {
        let i = pos + j;
        let sh = 8 * (i % 2);
        img[i / 2] = (img[i / 2] & !(0xFF << sh)) | (u16::from(*v) << sh);
    }
}

pub const IN_BASE: u16 = 0x0000;
pub const OUT_BASE: u16 = 0x0800;

impl Layout {
    pub fn bit_addr(base: u16, pos: Option<usize>) -> u16 {
        match pos {
            None => 0xFFFF,
            Some(p) => ((base + (p / 2) as u16) << 4) | if p % 2 == 1 { 8 } else { 0 },
        }
    }
    pub fn in_b(&self, m: usize, img: &[u16]) -> Option<Vec<u8>> {
        self.lay[m].inp.map(|p| get(img, p, self.specs[m].in_bytes()))
    }
    pub fn out_b(&self, m: usize, img: &[u16]) -> Option<Vec<u8>> {
        self.lay[m].out.map(|p| get(img, p, self.specs[m].out_bytes()))
    }
    pub fn config(&self) -> CouplerConfig {
        CouplerConfig {
            modules: self.specs.iter().map(|s| s.kind.mt()).collect(),
            offsets: self
                .lay
                .iter()
                .flat_map(|l| [Layout::bit_addr(OUT_BASE, l.out), Layout::bit_addr(IN_BASE, l.inp)])
                .collect(),
            params: self.specs.iter().map(|s| s.params.clone()).collect(),
        }
    }
    pub fn coms(&self) -> Vec<usize> {
        (0..self.specs.len()).filter(|&m| self.specs[m].kind == Kind::Com).collect()
    }
    /// Lay the modules out.  `align`: multi-byte modules start at a register;
    /// otherwise bytes are packed without gaps.  Inputs may have gaps.
    pub fn build(c: &mut Choice, specs: Vec<Spec>, align: bool, wild_inputs: bool) -> Layout {
        let n = specs.len();
        let mut lay = vec![Lay { inp: None, out: None }; n];
        let mut out = 0usize;
        for (m, s) in specs.iter().enumerate() {
            let b = s.out_bytes();
            if b > 0 {
                if align && b > 1 {
                    out += out % 2;
                }
                lay[m].out = Some(out);
                out += b;
            }
        }
        let mut order: Vec<usize> = (0..n).collect();
        if wild_inputs {
            for i in (1..n).rev() {
                let j = i - c.usize(S::Cfg, i + 1);
                order.swap(i, j);
            }
        }
        let mut inp = 0usize;
        for m in order {
            let b = specs[m].in_bytes();
            if b == 0 {
                continue;
            }
            if wild_inputs {
                if specs[m].kind != Kind::Com && c.chance(S::Cfg, 40) {
                    continue; // data not mapped
                }
                inp += c.usize(S::Cfg, 4);
            }
            if align && b > 1 {
                inp += inp % 2;
            }
            lay[m].inp = Some(inp);
            inp += b;
        }
        Layout { specs, lay, in_words: inp.div_ceil(2), out_words: out.div_ceil(2) }
    }
}

/// The far side of a serial module.
#[derive(Clone, Debug)]
pub struct Com {
    pub rxq: VecDeque<(u64, Vec<u8>)>,
    pub presented: Option<(u64, Vec<u8>)>,
    pub rx_cnt: u8,
    pub tx_ack: u8,
    /// accepted sequence number and scans until it is acknowledged
    pub pending: Option<(u8, u32)>,
    pub noise: u8,
    stale: Vec<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tag {
    pub session: u32,
    pub k: u64,
}

#[derive(Clone, Debug)]
pub struct Accept {
    pub module: usize,
    pub tag: Tag,
    pub data: Vec<u8>,
}

pub struct Station {
    pub lay: Rc<Layout>,
    pub in_regs: Vec<u16>,
    pub out_regs: Vec<u16>,
    pub tag: Tag,
    pub coms: BTreeMap<usize, Com>,
    /// id of the segment each serial module shows in `in_regs`
    pub shown: Vec<Option<u64>>,
    pub up: bool,
    /// most scans an acknowledgement may take
    pub ack_delay: u32,
    /// permille a scan skips a serial module (slow module)
    pub slow: u32,
    /// permille of segments held back for very long (flow control of the serial line)
    pub xoff: u32,
    pub noisy: bool,
    pub change: u32,
    inputs: Vec<usize>,
}

pub struct ScanReport {
    pub accepts: Vec<Accept>,
    pub presents: u64,
    pub flushed: u64,
}

impl Station {
    pub fn new(lay: Layout, c: &mut Choice, leftover: bool) -> Station {
        let n = lay.specs.len();
        let mut st = Station {
            in_regs: vec![0; lay.in_words],
            out_regs: vec![0; lay.out_words],
            tag: Tag { session: 0, k: 0 },
            coms: BTreeMap::new(),
            shown: vec![None; n],
            up: true,
            ack_delay: 0,
            slow: 0,
            xoff: 0,
            noisy: false,
            change: 0,
            inputs: (0..n)
                .filter(|&m| lay.lay[m].inp.is_some() && lay.specs[m].kind != Kind::Com)
                .collect(),
            lay: Rc::new(lay),
        };
        for m in st.lay.coms() {
            st.coms.insert(
                m,
                Com {
                    rxq: VecDeque::new(),
                    presented: None,
                    rx_cnt: 0,
                    tx_ack: 0,
                    pending: None,
                    noise: 0,
                    stale: vec![],
                },
            );
        }
        if leftover {
            st.leftover(c);
        }
        for i in 0..st.inputs.len() {
            st.refresh_input(st.inputs[i], c);
        }
        // the master only sees a station that has completed a bus scan
        for (&m, d) in &st.coms {
            let mut b = vec![0u8; st.lay.specs[m].in_bytes()];
            b[0] = d.rx_cnt << 3 | d.tx_ack << 5;
            put(&mut st.in_regs, st.lay.lay[m].inp.unwrap(), &b);
        }
        st
    }

    /// Registers as some earlier bus master left them.
    fn leftover(&mut self, c: &mut Choice) {
        for m in 0..self.lay.specs.len() {
            let Some(p) = self.lay.lay[m].out else {
                continue;
            };
            let s = self.lay.specs[m].clone();
            if let Some(d) = self.coms.get_mut(&m) {
                let t = c.below(S::Proc, 4) as u8;
                d.rx_cnt = c.below(S::Proc, 4) as u8;
                let len = c.usize(S::Proc, s.com_cap() + 1);
                let mut b = vec![0u8; s.out_bytes()];
                // a flush, a lock or a reset may have been left on
                let flags = c.below(S::Proc, 16) as u8;
                b[0] = (flags & 7)
                    | ((flags & 8) << 4)
                    | t << 3
                    | (d.rx_cnt.wrapping_sub(c.below(S::Proc, 2) as u8) & 3) << 5;
                b[1] = len as u8;
                for x in b[2..2 + len].iter_mut() {
                    *x = c.below(S::Proc, 256) as u8;
                }
                // the last segment may not have been taken yet
                d.tx_ack = t.wrapping_sub(c.below(S::Proc, 2) as u8) & 3;
                put(&mut self.out_regs, p, &b);
            } else {
                let b = s.gen_out(c, S::Proc);
                put(&mut self.out_regs, p, &b);
            }
        }
    }

    fn refresh_input(&mut self, m: usize, c: &mut Choice) {
        let b = self.lay.specs[m].gen_in(c, S::Proc);
        put(&mut self.in_regs, self.lay.lay[m].inp.unwrap(), &b);
    }

    /// Power lost and back: all volatile state is gone.
    pub fn power_cycle(&mut self) {
        self.in_regs.iter_mut().for_each(|w| *w = 0);
        self.out_regs.iter_mut().for_each(|w| *w = 0);
        self.tag = Tag { session: 0, k: 0 };
        self.shown.iter_mut().for_each(|s| *s = None);
        for d in self.coms.values_mut() {
            d.rxq.clear();
            d.presented = None;
            d.rx_cnt = 0;
            d.tx_ack = 0;
            d.pending = None;
            d.noise = 0;
            d.stale.clear();
        }
    }

    /// One internal bus scan.
    pub fn scan(&mut self, c: &mut Choice) -> ScanReport {
        let mut r = ScanReport { accepts: vec![], presents: 0, flushed: 0 };
        if !self.inputs.is_empty() && c.chance(S::Proc, self.change) {
            let n = 1 + c.usize(S::Proc, self.inputs.len().min(4));
            for _ in 0..n {
                let m = self.inputs[c.usize(S::Proc, self.inputs.len())];
                self.refresh_input(m, c);
            }
        }
        for (&m, d) in &mut self.coms {
            if c.chance(S::Proc, self.slow) {
                continue;
            }
            let cap = self.lay.specs[m].com_cap();
            let o = com_out(&get(&self.out_regs, self.lay.lay[m].out.unwrap(), cap + 2));
            if o.rx_flush {
                r.flushed += d.rxq.len() as u64 + u64::from(d.presented.is_some());
                d.rxq.clear();
                d.presented = None;
            }
            if d.presented.is_some() && o.rx_ack == d.rx_cnt {
                d.stale = d.presented.take().unwrap().1;
            }
            if d.presented.is_none() && !o.rx_flush && o.rx_ack == d.rx_cnt {
                if let Some(s) = d.rxq.pop_front() {
                    d.rx_cnt = (d.rx_cnt + 1) & 3;
                    d.presented = Some(s);
                    r.presents += 1;
                }
            }
            match d.pending {
                None if o.tx_cnt != d.tx_ack => {
                    let mut delay = c.below(S::Proc, u64::from(self.ack_delay) + 1) as u32;
                    if self.xoff > 0 && c.chance(S::Proc, self.xoff) {
                        delay += 50 + c.below(S::Proc, 450) as u32;
                    }
                    r.accepts.push(Accept { module: m, tag: self.tag, data: o.data.clone() });
                    if delay == 0 {
                        d.tx_ack = o.tx_cnt;
                    } else {
                        d.pending = Some((o.tx_cnt, delay - 1));
                    }
                }
                Some((t, 0)) => {
                    d.tx_ack = t;
                    d.pending = None;
                }
                Some((t, n)) => d.pending = Some((t, n - 1)),
                None => {}
            }
            if self.noisy && c.chance(S::Proc, 100) {
                d.noise = c.below(S::Proc, 16) as u8;
            }
            // bit 0: nearly full, bit 1: STAT, bit 2: stale bytes, bit 3: stale length
            let mut b = vec![0u8; cap + 2];
            if d.noise & 4 != 0 {
                for (i, x) in b[2..].iter_mut().enumerate() {
                    *x = 0xA0 | i as u8;
                }
            }
            b[0] = (d.noise & 1) << 1 | (d.noise & 2) << 6 | d.rx_cnt << 3 | d.tx_ack << 5;
            if let Some((id, data)) = &d.presented {
                b[0] |= 1;
                b[1] = data.len() as u8;
                b[2..2 + data.len()].copy_from_slice(data);
                self.shown[m] = Some(*id);
            } else {
                self.shown[m] = None;
                if d.noise & 8 != 0 {
                    b[1] = d.stale.len() as u8;
                    b[2..2 + d.stale.len()].copy_from_slice(&d.stale);
                }
            }
            put(&mut self.in_regs, self.lay.lay[m].inp.unwrap(), &b);
        }
        r
    }

    /// Register access as the fieldbus coupler offers it (commissioning area).
    pub fn read(&self, addr: u16, count: u16) -> Vec<u16> {
        (0..count).map(|i| self.reg(addr.wrapping_add(i))).collect()
    }
    fn reg(&self, a: u16) -> u16 {
        let n = self.lay.specs.len();
        let bits = |b: usize| (8 * b) as u16;
        let end = |v: Vec<Option<usize>>| v.into_iter().flatten().max().unwrap_or(0);
        match a {
            0x0000..=0x07FF => self.in_regs.get(usize::from(a)).copied().unwrap_or(0),
            0x0800..=0x0FFF => self.out_regs.get(usize::from(a - OUT_BASE)).copied().unwrap_or(0),
            0x1000 => 0x5552,
            0x1001 => 0x3230,
            0x100C => 0x0A55,
            0x1010 => bits(end((0..n)
                .map(|m| self.lay.lay[m].out.map(|p| p + self.lay.specs[m].out_bytes()))
                .collect())),
            0x1011 => bits(end((0..n)
                .map(|m| self.lay.lay[m].inp.map(|p| p + self.lay.specs[m].in_bytes()))
                .collect())),
            0x27FE => n as u16,
            0x2A00..=0x2AFF => {
                let i = usize::from(a - 0x2A00);
                self.lay.specs.get(i / 2).map_or(0, |s| {
                    let id = s.kind.id();
                    if i % 2 == 0 { (id >> 16) as u16 } else { id as u16 }
                })
            }
            0x2B00..=0x2BFF => {
                let i = usize::from(a - 0x2B00);
                if i / 2 >= n {
                    return 0xFFFF;
                }
                let l = &self.lay.lay[i / 2];
                if i % 2 == 0 {
                    Layout::bit_addr(OUT_BASE, l.out)
                } else {
                    Layout::bit_addr(IN_BASE, l.inp)
                }
            }
            0xC000.. => {
                let i = usize::from(a - 0xC000);
                self.lay
                    .specs
                    .get(i / 256)
                    .and_then(|s| s.params.get(i % 256).copied())
                    .unwrap_or(0)
            }
            _ => 0,
        }
    }
}
