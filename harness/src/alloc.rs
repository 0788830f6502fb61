//! Counting allocator: per-thread live/peak byte counters, and a cap that turns a run-away allocation
//! into an abort the supervisor can attribute to a case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
}

const SINGLE_CAP: usize = 6 << 30;

fn add(n: isize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let _ = LIVE.try_with(|l| {
                let v = l.get() + n;
                l.set(v);
                let _ = PEAK.try_with(|p| {
                    if v > p.get() {
                        p.set(v)
                    }
                });
            });
            if n > 0 {
                let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > SINGLE_CAP {
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > SINGLE_CAP {
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > SINGLE_CAP {
            return std::ptr::null_mut();
        }
        add(n as isize - l.size() as isize);
        if n < l.size() {
            // shrinking still counts as work done
        }
        System.realloc(p, l, n)
    }
}

/// start counting on this thread
pub fn start() {
    ON.with(|o| o.set(true));
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    TOTAL.with(|l| l.set(0));
}
/// bytes held now
pub fn live() -> i64 {
    LIVE.with(|l| l.get()) as i64
}
/// start a new peak; returns the bytes held now
pub fn mark() -> i64 {
    PEAK.with(|p| p.set(LIVE.with(|l| l.get())));
    live()
}
/// the largest amount held since the mark
pub fn peak() -> i64 {
    PEAK.with(|p| p.get()) as i64
}
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    let was = ON.with(|o| o.replace(false));
    let r = f();
    ON.with(|o| o.set(was));
    r
}
/// stop counting; (peak live bytes, total bytes requested)
pub fn stop() -> (u64, u64) {
    ON.with(|o| o.set(false));
    (
        PEAK.with(|l| l.get()).max(0) as u64,
        TOTAL.with(|l| l.get()),
    )
}
