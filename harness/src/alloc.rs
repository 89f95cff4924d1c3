//! Tracking allocator: per-thread live and peak byte counts while a measurement is active, and a hard ceiling on single
//! requests, so that an absurd request fails (the process aborts, which the supervisor reports) instead of taking the
//! machine down.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Tracking;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

/// Requests above this size are refused.
pub static CEILING: AtomicUsize = AtomicUsize::new(6 << 30);

fn note(delta: isize, request: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let live = LIVE.with(|l| {
                l.set(l.get() + delta);
                l.get()
            });
            PEAK.with(|p| p.set(p.get().max(live)));
            if request > 0 {
                LARGEST.with(|p| p.set(p.get().max(request)));
                COUNT.with(|c| c.set(c.get() + 1));
            }
        }
    });
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > CEILING.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        note(l.size() as isize, l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > CEILING.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        note(l.size() as isize, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > CEILING.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        note(n as isize - l.size() as isize, n);
        System.realloc(p, l, n)
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Usage {
    /// Peak of live bytes allocated by this thread since the measurement began.
    pub peak: u64,
    pub largest: u64,
    pub allocations: u64,
    /// Bytes this thread allocated during the measurement and has not released, or (negative) the other way round.
    pub kept: i64,
}

/// Measures the allocations of this thread during `f`.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    LIVE.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    LARGEST.with(|c| c.set(0));
    COUNT.with(|c| c.set(0));
    ON.with(|o| o.set(true));
    let off = Off;
    let v = f();
    drop(off);
    let u = Usage {
        peak: PEAK.with(|c| c.get()).max(0) as u64,
        largest: LARGEST.with(|c| c.get()) as u64,
        allocations: COUNT.with(|c| c.get()),
        kept: LIVE.with(|c| c.get()) as i64,
    };
    (v, u)
}

/// Live bytes of the measurement in progress.
pub fn live() -> i64 {
    LIVE.with(|c| c.get()) as i64
}
