//! Seam for the clocks: inside the library every clock shows simulated time.
//! The library under test reads no clock today; a change that lets it depend
//! on one meets pauses, jumps and skewed clocks here, and stays repeatable.

use crate::choice::mix;
use std::cell::Cell;

thread_local! {
    /// monotonic and real time of the run, nanoseconds
    static MONO: Cell<u64> = const { Cell::new(0) };
    static REAL: Cell<u64> = const { Cell::new(0) };
    /// offset of the instance that is called
    static SKEW: Cell<u64> = const { Cell::new(0) };
    static READS: Cell<u64> = const { Cell::new(0) };
}

const S: u64 = 1_000_000_000;
const DAY: u64 = 86_400 * S;

/// The clocks at the start of a run.
pub fn start(seed: u64) {
    let x = mix(seed ^ 0xC10C);
    MONO.set(S + x % (100 * DAY));
    REAL.set((18_000 + (x >> 20) % 8000) * DAY + (x >> 40) * 1000);
    SKEW.set(0);
    READS.set(0);
}
/// Simulated time goes on.
pub fn advance(us: u64) {
    MONO.set(MONO.get() + us * 1000);
    REAL.set(REAL.get() + us * 1000);
}
/// Time nobody saw: the process was suspended, or the wall clock was set.
pub fn jump(kind: u64) {
    let long = [2, 61, 3601, 86_401, 50 * 86_400][(kind / 4 % 5) as usize] * S;
    match kind % 4 {
        0 => {
            MONO.set(MONO.get() + long);
            REAL.set(REAL.get() + long);
        }
        1 => REAL.set(REAL.get() + long),
        2 => REAL.set(REAL.get().saturating_sub(long)),
        // the clock was never set
        _ => REAL.set(long),
    }
}
pub fn skew(seconds: u64) {
    SKEW.set(seconds * S);
}
/// Clocks as they are, to be shown in another thread.
pub fn get() -> [u64; 3] {
    [MONO.get(), REAL.get(), SKEW.get()]
}
pub fn put(x: [u64; 3]) {
    MONO.set(x[0]);
    REAL.set(x[1]);
    SKEW.set(x[2]);
}
/// How often the library looked at a clock in this thread.
pub fn reads() -> u64 {
    READS.get()
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
unsafe extern "C" {
    fn syscall(nr: i64, ...) -> i64;
}
const SYS_CLOCK_GETTIME: i64 = if cfg!(target_arch = "x86_64") { 228 } else { 113 };

/// # Safety
/// `t` points to a writable `timespec`, as `clock_gettime(2)` requires.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    // no thread local is touched while the thread goes down
    let inside = crate::world::IN_LIB.try_with(|x| x.get()).unwrap_or(false);
    if !inside {
        return unsafe { syscall(SYS_CLOCK_GETTIME, i64::from(id), t) as i32 };
    }
    READS.set(READS.get() + 1);
    // whoever waits for the clock gets somewhere
    advance(1);
    // CLOCK_REALTIME, its coarse form and TAI; every other clock is monotonic
    let x = if matches!(id, 0 | 5 | 11) { &REAL } else { &MONO };
    let x = x.get() + SKEW.get();
    unsafe { t.write(Timespec { sec: (x / S) as i64, nsec: (x % S) as i64 }) };
    0
}
