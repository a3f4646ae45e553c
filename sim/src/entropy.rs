//! Seam for the only ambient randomness the library can see: the hash keys of
//! the standard library.  `std` asks the weakly linked `getrandom` for them
//! once per thread; every simulated run has a thread of its own, and gets its
//! keys from the run's seed.

use crate::choice::mix;
use std::cell::Cell;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
}

pub fn set(seed: u64) {
    SEED.with(|s| s.set(seed));
}
/// How often this thread asked for randomness.
pub fn asked() -> u64 {
    ASKED.with(|s| s.get())
}

/// # Safety
/// `buf` points to `len` writable bytes, as `getrandom(2)` requires.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let seed = SEED.with(|s| s.get());
    let n = ASKED.with(|a| {
        a.set(a.get() + 1);
        a.get()
    });
    for i in 0..len {
        let v = mix(seed ^ mix(n << 32 | i as u64));
        unsafe { buf.add(i).write((v >> 20) as u8) };
    }
    len as isize
}
