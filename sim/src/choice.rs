//! The single source of nondeterminism of a simulated run.
//!
//! A run draws every decision from one of a few named streams.  In search mode
//! each stream is a PRNG derived from the run seed; in replay mode it is a list
//! of recorded values (exhausted list => 0, the simplest choice).  Separate
//! streams keep a deletion in one of them from re-interpreting all the others,
//! which is what makes minimisation effective.

#[derive(Clone, Copy)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(usize)]
pub enum S {
    /// station layout, parameters, rates
    Cfg = 0,
    /// physical process, station scans, serial line
    Proc = 1,
    /// network and driver timing
    Net = 2,
    /// application operations
    App = 3,
    /// fault decisions
    Fault = 4,
}
pub const STREAMS: usize = 5;
pub const STREAM_NAMES: [&str; STREAMS] = ["cfg", "process", "net", "app", "fault"];

pub type Tape = [Vec<u64>; STREAMS];

pub struct Choice {
    rng: [Rng; STREAMS],
    replay: Option<Tape>,
    pos: [usize; STREAMS],
    pub log: Tape,
}

impl Choice {
    pub fn seeded(seed: u64) -> Self {
        let rng = std::array::from_fn(|i| Rng::new(mix(seed) ^ mix(i as u64 + 77)));
        Choice { rng, replay: None, pos: [0; STREAMS], log: Default::default() }
    }
    pub fn replay(tape: Tape) -> Self {
        let mut c = Choice::seeded(0);
        c.replay = Some(tape);
        c
    }
    /// A value in `0..n`; 0 is always the simplest alternative.
    pub fn below(&mut self, s: S, n: u64) -> u64 {
        let i = s as usize;
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(t) => t[i].get(self.pos[i]).copied().unwrap_or(0) % n,
            None => ((self.rng[i].next() as u128 * n as u128) >> 64) as u64,
        };
        self.pos[i] += 1;
        self.log[i].push(v);
        v
    }
    pub fn usize(&mut self, s: S, n: usize) -> usize {
        self.below(s, n as u64) as usize
    }
    /// True with probability `permille`/1000; replayed 0 means false.
    pub fn chance(&mut self, s: S, permille: u32) -> bool {
        if permille == 0 {
            return false;
        }
        self.below(s, 1000) >= 1000 - u64::from(permille.min(1000))
    }
    pub fn range(&mut self, s: S, lo: u64, hi: u64) -> u64 {
        lo + self.below(s, hi - lo + 1)
    }
    pub fn pick<T: Copy>(&mut self, s: S, xs: &[T]) -> T {
        xs[self.usize(s, xs.len())]
    }
    /// A raw 16 bit register value, biased towards boundary values.
    pub fn raw16(&mut self, s: S) -> u16 {
        match self.below(s, 4) {
            0 => self.pick(
                s,
                &[
                    0, 1, 0xFFFF, 0x7FFF, 0x8000, 0x8001, 0x7FFE, 0x6C00, 0x6BFF, 0x4000, 0x00FF,
                    0x0100, 0xFF00, 0x3600, 0x9400, 0xC000, 0x5555, 0xAAAA, 0x6C01, 0x93FF,
                ],
            ),
            1 => self.below(s, 256) as u16,
            _ => self.below(s, 65536) as u16,
        }
    }
}
