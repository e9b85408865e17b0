//! A global allocator that knows how many bytes are live, per process and per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
thread_local! {
    static MINE: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
/// Bytes allocated minus bytes freed by this thread.
pub fn mine() -> i64 { MINE.with(|m| m.get()) }
pub fn calls() -> u64 { CALLS.with(|m| m.get()) }

extern "C" { pub fn _exit(code: i32) -> !; }
pub const EXIT_MEMORY: i32 = 12;

pub struct Counting;
fn note(d: i64) {
    let l = LIVE.fetch_add(d, Relaxed) + d;
    if d > 0 {
        if l > PEAK.load(Relaxed) { PEAK.store(l, Relaxed); }
        if l > LIMIT.load(Relaxed) { unsafe { _exit(EXIT_MEMORY) } }
    }
    let _ = MINE.try_with(|m| m.set(m.get() + d));
    let _ = CALLS.try_with(|m| m.set(m.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); if !p.is_null() { note(l.size() as i64); } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l); note(-(l.size() as i64)); }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { let p = System.alloc_zeroed(l); if !p.is_null() { note(l.size() as i64); } p }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // note first: a runaway vector must hit the limit before it is copied
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
