//! The allocator seam: counts what is live, and offers the scheduler a point
//! inside the engine where control may change hands.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

pub struct SimAlloc;

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    /// nesting of "the engine is running" on this thread
    static IN_UPON: Cell<u32> = const { Cell::new(0) };
    /// allocations left before the next preemption; 0 is never
    static GAP: Cell<u32> = const { Cell::new(0) };
    static HOOK: Cell<Option<fn() -> u32>> = const { Cell::new(None) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static SITES: Cell<u64> = const { Cell::new(0) };
}

/// More than any scenario needs: an engine that gets here has run away.
const LIMIT: i64 = 1 << 31;

fn account(d: i64) {
    let v = LIVE.fetch_add(d, Ordering::Relaxed) + d;
    if d > 0 && v > LIMIT {
        use std::io::Write;
        let _ = std::io::stderr().write_all(b"UPSIM-MEMORY-LIMIT\n");
        std::process::abort();
    }
    if d > 0 && v > PEAK.load(Ordering::Relaxed) {
        PEAK.fetch_max(v, Ordering::Relaxed);
    }
}

pub fn point() {
    let _ = IN_UPON.try_with(|x| {
        if x.get() == 0 {
            return;
        }
        if crate::sched::CAREFUL.load(Ordering::Relaxed) && !BUSY.with(Cell::get) && !std::thread::panicking() {
            BUSY.with(|b| b.set(true));
            crate::real::careful_step();
            BUSY.with(|b| b.set(false));
        }
        let gap = GAP.with(Cell::get);
        if gap == 0 {
            return;
        }
        GAP.with(|g| g.set(gap - 1));
        if gap > 1 || BUSY.with(Cell::get) || std::thread::panicking() {
            return;
        }
        if let Some(h) = HOOK.with(Cell::get) {
            BUSY.with(|b| b.set(true));
            SITES.with(|s| s.set(s.get() + 1));
            let next = h();
            GAP.with(|g| g.set(next));
            BUSY.with(|b| b.set(false));
        }
    });
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        ALLOCS.fetch_add(1, Ordering::Relaxed);
        account(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        account(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Marks a stretch of execution as engine code (or, inside a callback, as not).
pub struct Zone(u32);

impl Zone {
    pub fn engine() -> Zone {
        crate::cover::event();
        Zone(IN_UPON.with(|x| x.replace(1)))
    }
    pub fn harness() -> Zone {
        Zone(IN_UPON.with(|x| x.replace(0)))
    }
}

impl Drop for Zone {
    fn drop(&mut self) {
        IN_UPON.with(|x| x.set(self.0));
    }
}

pub fn set_hook(h: Option<fn() -> u32>, gap: u32) {
    HOOK.with(|x| x.set(h));
    GAP.with(|x| x.set(gap));
}

pub fn set_gap(gap: u32) {
    GAP.with(|x| x.set(gap));
}

pub fn live() -> i64 {
    LIVE.load(Ordering::SeqCst)
}

pub fn reset_peak() -> i64 {
    let l = live();
    PEAK.store(l, Ordering::SeqCst);
    l
}

pub fn peak() -> i64 {
    PEAK.load(Ordering::SeqCst)
}
