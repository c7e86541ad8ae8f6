//! Allocator that counts what the current thread allocates and refuses absurd amounts.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FILL: Cell<i16> = const { Cell::new(-1) };
}

/// Fills what is allocated and freed on this thread with the byte until told otherwise.
pub fn fill(b: Option<u8>) {
    FILL.with(|f| f.set(b.map(|b| b as i16).unwrap_or(-1)));
}

/// Bytes allocated and not freed by this thread.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

unsafe fn paint(p: *mut u8, n: usize) -> *mut u8 {
    let f = FILL.with(|f| f.get());
    if f >= 0 && !p.is_null() {
        std::ptr::write_bytes(p, f as u8, n);
    }
    p
}

/// A thread that has more than this live is refused more memory, which aborts the process.
const LIMIT: i64 = 3 << 30;

fn add(n: usize) -> bool {
    let ok = LIVE.with(|l| {
        let v = l.get() + n as i64;
        if v > LIMIT {
            return false;
        }
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    });
    if ok {
        TOTAL.with(|t| t.set(t.get() + n as u64));
        COUNT.with(|t| t.set(t.get() + 1));
    }
    ok
}

fn sub(n: usize) {
    LIVE.with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        paint(System.alloc(l), l.size())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        paint(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n) {
            return std::ptr::null_mut();
        }
        sub(l.size());
        let q = System.realloc(p, l, n);
        if n > l.size() && !q.is_null() {
            paint(q.add(l.size()), n - l.size());
        }
        q
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Usage {
    /// Largest amount live at once, above what was live before.
    pub peak: u64,
    /// Sum of the sizes of all allocations.
    pub total: u64,
    pub count: u64,
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let live0 = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live0));
    let t0 = TOTAL.with(|t| t.get());
    let c0 = COUNT.with(|t| t.get());
    let r = f();
    (
        r,
        Usage {
            peak: (PEAK.with(|p| p.get()) - live0).max(0) as u64,
            total: TOTAL.with(|t| t.get()) - t0,
            count: COUNT.with(|t| t.get()) - c0,
        },
    )
}
