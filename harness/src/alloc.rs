//! Counting allocator: live bytes, peak and largest request per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

/// A single request above this is refused: the process then aborts, which the
/// driver reports as a violation with the case in flight.
const HARD_CAP: usize = 1 << 30;

fn grow(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        LARGEST.with(|x| {
            if n > x.get() {
                x.set(n)
            }
        });
        COUNT.with(|c| c.set(c.get() + 1));
        TOTAL.with(|t| t.set(t.get() + n as u64));
    });
}
fn shrink(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
    let _ = COUNT.try_with(|c| c.set(c.get() - 1));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD_CAP {
            return std::ptr::null_mut();
        }
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD_CAP {
            return std::ptr::null_mut();
        }
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > HARD_CAP {
            return std::ptr::null_mut();
        }
        // both blocks may be live while growing
        grow(n);
        let r = System.realloc(p, l, n);
        shrink(l.size());
        r
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Usage {
    /// peak above the level at the start, in bytes
    pub peak: i64,
    pub largest: usize,
    /// net change
    pub live: i64,
    pub blocks: i64,
}

/// Measure the allocations of `f` on this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let m = Meter::start();
    let r = f();
    let u = m.read();
    (r, u)
}

pub struct Meter {
    live: i64,
    blocks: i64,
    total: u64,
}

impl Meter {
    pub fn start() -> Self {
        let live = LIVE.with(|l| l.get());
        PEAK.with(|p| p.set(live));
        LARGEST.with(|x| x.set(0));
        Meter { live, blocks: COUNT.with(|c| c.get()), total: TOTAL.with(|t| t.get()) }
    }
    /// All memory requested since the start, released or not.
    pub fn total(&self) -> u64 {
        TOTAL.with(|t| t.get()) - self.total
    }
    pub fn read(&self) -> Usage {
        Usage {
            peak: PEAK.with(|p| p.get()) - self.live,
            largest: LARGEST.with(|x| x.get()),
            live: LIVE.with(|l| l.get()) - self.live,
            blocks: COUNT.with(|c| c.get()) - self.blocks,
        }
    }
}
