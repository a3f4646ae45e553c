//! Minimises the decision tape of a failing run while the violation class stays.

use crate::choice::{STREAMS, Tape};
use crate::knobs::P;
use crate::runner::{Src, run_limited};
use std::time::{Duration, Instant};

pub struct Shrunk {
    pub tape: Tape,
    pub tries: u64,
    pub kept: u64,
}

/// Executes a tape; its decisions and number of events if it still fails.
type Fails<'a> = &'a dyn Fn(Tape) -> Option<(Tape, u64)>;

struct Sh<'a> {
    fails: Fails<'a>,
    best: Tape,
    best_events: u64,
    tries: u64,
    kept: u64,
    until: Instant,
    max: u64,
}

fn size(t: &Tape) -> (usize, u64) {
    let n = t.iter().map(|s| s.iter().filter(|v| **v != 0).count()).sum();
    let m = t.iter().flatten().fold(0u64, |a, v| a.saturating_add(*v));
    (n, m)
}
fn trim(t: &mut Tape) {
    for s in t.iter_mut() {
        while s.last() == Some(&0) {
            s.pop();
        }
    }
}

impl Sh<'_> {
    fn over(&self) -> bool {
        self.tries >= self.max || Instant::now() > self.until
    }
    fn attempt(&mut self, t: Tape) -> bool {
        if self.over() {
            return false;
        }
        self.tries += 1;
        let Some((mut tape, events)) = (self.fails)(t) else {
            return false;
        };
        trim(&mut tape);
        let better = (events, size(&tape)) < (self.best_events, size(&self.best))
            || (events <= self.best_events + self.best_events / 10
                && size(&tape) < size(&self.best));
        if better {
            self.best = tape;
            self.best_events = events;
            self.kept += 1;
        }
        better
    }

    fn streams(&mut self) {
        // whole streams, the fault stream first
        for s in [4, 3, 1, 2] {
            let mut t = self.best.clone();
            t[s].clear();
            self.attempt(t);
        }
        for s in 0..STREAMS {
            let mut keep = self.best[s].len() / 2;
            while keep > 0 && self.best[s].len() > keep && !self.over() {
                let mut t = self.best.clone();
                t[s].truncate(keep);
                if self.attempt(t) {
                    keep = self.best[s].len() / 2;
                } else {
                    let k = self.best[s].len() - (self.best[s].len() - keep) / 2;
                    if k == keep || k >= self.best[s].len() {
                        break;
                    }
                    keep = k;
                }
            }
        }
    }

    /// Delete or zero chunks.
    fn chunks(&mut self, zero: bool) -> bool {
        let mut any = false;
        for s in [4, 3, 1, 2, 0] {
            let mut n = (self.best[s].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < self.best[s].len() && !self.over() {
                    let e = (i + n).min(self.best[s].len());
                    let mut t = self.best.clone();
                    if zero {
                        if t[s][i..e].iter().all(|v| *v == 0) {
                            i = e;
                            continue;
                        }
                        t[s][i..e].fill(0);
                    } else {
                        t[s].drain(i..e);
                    }
                    if self.attempt(t) {
                        any = true;
                        if zero {
                            i = e;
                        }
                    } else {
                        i = e;
                    }
                }
                if n == 1 || self.over() {
                    break;
                }
                n /= 2;
            }
        }
        any
    }

    fn values(&mut self) -> bool {
        let mut any = false;
        for s in [0, 4, 3, 1, 2] {
            let mut i = 0;
            while i < self.best[s].len() && !self.over() {
                let mut v = self.best[s][i];
                for f in [|v: u64| v / 16, |v: u64| v / 2, |v: u64| v.saturating_sub(1)] {
                    while i < self.best[s].len() && v > 0 {
                        let mut t = self.best.clone();
                        t[s][i] = f(v);
                        if t[s][i] == v || !self.attempt(t) {
                            break;
                        }
                        any = true;
                        v = self.best[s].get(i).copied().unwrap_or(0);
                    }
                }
                i += 1;
            }
        }
        any
    }
}

/// The violation class stays.
pub fn shrink(
    p: P,
    hash: u64,
    class: &'static str,
    tape: Tape,
    wall: Duration,
    max: u64,
) -> Shrunk {
    let limit = Duration::from_secs(10);
    let fails = |t: Tape| {
        let o = run_limited(p, Src::Tape(t), hash, limit)?;
        o.viol.is_some_and(|v| v.class == class).then_some((o.tape, o.stats.events))
    };
    search(&fails, tape, wall, max)
}

/// Two executions with different hash keys stay different.
pub fn shrink_pair(p: P, hash: [u64; 2], tape: Tape, wall: Duration, max: u64) -> Shrunk {
    let limit = Duration::from_secs(10);
    let fails = |t: Tape| {
        let a = run_limited(p, Src::Tape(t), hash[0], limit)?;
        let b = run_limited(p, Src::Tape(a.tape.clone()), hash[1], limit)?;
        (a.stats.log_hash != b.stats.log_hash).then_some((a.tape, a.stats.events))
    };
    search(&fails, tape, wall, max)
}

fn search(fails: Fails, tape: Tape, wall: Duration, max: u64) -> Shrunk {
    let mut s = Sh {
        fails,
        best_events: u64::MAX,
        best: tape,
        tries: 0,
        kept: 0,
        until: Instant::now() + wall,
        max,
    };
    trim(&mut s.best);
    let first = s.best.clone();
    s.attempt(first);
    loop {
        let k = s.kept;
        s.streams();
        s.chunks(false);
        s.chunks(true);
        s.values();
        if s.kept == k || s.over() {
            break;
        }
    }
    Shrunk { tape: s.best, tries: s.tries, kept: s.kept }
}
