//! Counts the memory the library holds: every allocation made inside a call
//! into the library carries the counter of the simulated run it belongs to, so
//! that it is recognised when it is released, wherever that happens.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Counting;

#[global_allocator]
static ALLOC: Counting = Counting;

type Counter = &'static AtomicI64;

thread_local! {
    /// counter of the run this thread executes
    static RUN: Cell<Option<Counter>> = const { Cell::new(None) };
    /// set inside the library
    static NOW: Cell<Option<Counter>> = const { Cell::new(None) };
}

/// Starts counting for the run of this thread.
pub fn start() {
    RUN.set(Some(Box::leak(Box::new(AtomicI64::new(0)))));
}
/// Bytes the library holds in this run.
pub fn held() -> i64 {
    RUN.get().map_or(0, |c| c.load(Ordering::Relaxed))
}
pub fn enter() {
    NOW.set(RUN.get());
}
pub fn leave() {
    NOW.set(None);
}

/// Room in front of a block for the counter it belongs to.
fn room(l: &Layout) -> usize {
    l.align().max(16)
}
fn outer(l: &Layout) -> Option<Layout> {
    Layout::from_size_align(l.size().checked_add(room(l))?, l.align().max(16)).ok()
}
fn add(c: Option<Counter>, n: i64) {
    if let Some(c) = c {
        c.fetch_add(n, Ordering::Relaxed);
    }
}

// Each block is preceded by `room` bytes, the last eight of them are the
// counter (or null); otherwise the system allocator does the work.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(o) = outer(&l) else { return std::ptr::null_mut() };
        let p = unsafe { System.alloc(o) };
        unsafe { tag(p, &l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let Some(o) = outer(&l) else { return std::ptr::null_mut() };
        let p = unsafe { System.alloc_zeroed(o) };
        unsafe { tag(p, &l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            add(p.sub(8).cast::<Option<Counter>>().read(), -(l.size() as i64));
            // the layout was valid when the block was made
            let o = Layout::from_size_align_unchecked(l.size() + room(&l), l.align().max(16));
            System.dealloc(p.sub(room(&l)), o);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe {
            let o = Layout::from_size_align_unchecked(l.size() + room(&l), l.align().max(16));
            let Some(total) = n.checked_add(room(&l)) else { return std::ptr::null_mut() };
            let c = p.sub(8).cast::<Option<Counter>>().read();
            let q = System.realloc(p.sub(room(&l)), o, total);
            if q.is_null() {
                return q;
            }
            add(c, n as i64 - l.size() as i64);
            q.add(room(&l))
        }
    }
}

unsafe fn tag(p: *mut u8, l: &Layout) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let c = NOW.get();
    add(c, l.size() as i64);
    unsafe {
        let q = p.add(room(l));
        q.sub(8).cast::<Option<Counter>>().write(c);
        q
    }
}
