//! The instrumentation seam: the crate under test is compiled with a call at
//! every edge of its control flow (see rustc-wrap.sh). The calls count steps,
//! give the scheduler points inside the engine, and say which edges were
//! reached. Without the instrumentation everything works, with fewer points.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering};

const MAX: usize = 1 << 17;
static HIT: [AtomicU8; MAX] = [const { AtomicU8::new(0) }; MAX];
static TOTAL: AtomicU32 = AtomicU32::new(0);
static PCS: AtomicUsize = AtomicUsize::new(0);
static PCS_END: AtomicUsize = AtomicUsize::new(0);
static MOST: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<u64> = const { Cell::new(SPIN) };
    /// processor time when the silence was first noticed
    static FROM: Cell<f64> = const { Cell::new(-1.0) };
}

/// Steps without any event after which other threads get a turn.
const SPIN: u64 = 1 << 18;
/// Steps without any event after which a thread is considered to be getting
/// nowhere. Far beyond what any generated operation needs (see `most_steps`).
pub const STUCK: u64 = 1 << 30;

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = TOTAL.fetch_add(1, Ordering::Relaxed) + 1;
        }
        p = p.add(1);
    }
}

#[no_mangle]
extern "C" fn __sanitizer_cov_pcs_init(start: usize, stop: usize) {
    PCS.store(start, Ordering::Relaxed);
    PCS_END.store(stop, Ordering::Relaxed);
}

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let i = *g as usize;
    if i < MAX {
        let h = &HIT[i];
        if h.load(Ordering::Relaxed) == 0 {
            h.store(1, Ordering::Relaxed);
        }
    }
    let n = STEPS.with(|s| {
        let n = s.get() + 1;
        s.set(n);
        n
    });
    if n >= NEXT.with(Cell::get) {
        NEXT.with(|l| l.set(n + SPIN));
        if RUNS.load(Ordering::Relaxed) > 0 {
            crate::real::long_silence(n >= STUCK || long_time());
        }
    }
    crate::alloc::point();
}

/// The same in processor time of this thread, for those that wait by asking
/// the system again and again.
fn long_time() -> bool {
    let now = cpu_seconds();
    FROM.with(|f| match f.get() {
        t if t < 0.0 => {
            f.set(now);
            false
        }
        t => now - t > 6.0,
    })
}

fn cpu_seconds() -> f64 {
    let s = std::fs::read_to_string("/proc/thread-self/stat").unwrap_or_default();
    let Some(i) = s.rfind(')') else { return 0.0 };
    let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
    let t = |k: usize| f.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

/// Runs under way in this process. The code that counts steps is shared with
/// what minimises and writes scenarios, which may take long.
static RUNS: AtomicU32 = AtomicU32::new(0);

pub struct Watch;

impl Watch {
    pub fn new() -> Watch {
        reset();
        RUNS.fetch_add(1, Ordering::SeqCst);
        Watch
    }
}

impl Drop for Watch {
    fn drop(&mut self) {
        RUNS.fetch_sub(1, Ordering::SeqCst);
        reset();
    }
}

/// Something was observed: start counting again.
pub fn event() {
    let n = reset();
    if n > MOST.load(Ordering::Relaxed) {
        MOST.fetch_max(n, Ordering::Relaxed);
    }
}

fn reset() -> u64 {
    NEXT.with(|l| l.set(SPIN));
    FROM.with(|f| f.set(-1.0));
    STEPS.with(|s| s.replace(0))
}

pub fn most_steps() -> u64 {
    MOST.load(Ordering::Relaxed)
}

pub fn total() -> u32 {
    TOTAL.load(Ordering::Relaxed)
}

/// Numbers of the edges that were reached.
pub fn hit() -> Vec<u32> {
    (1..=total().min(MAX as u32 - 1)).filter(|i| HIT[*i as usize].load(Ordering::Relaxed) != 0).collect()
}

/// File offsets of the edges, by number, for `addr2line`.
pub fn addresses() -> Vec<(u32, usize)> {
    let base = std::fs::read_to_string("/proc/self/maps")
        .ok()
        .and_then(|s| usize::from_str_radix(s.split('-').next()?, 16).ok())
        .unwrap_or(0);
    let (a, b) = (PCS.load(Ordering::Relaxed), PCS_END.load(Ordering::Relaxed));
    let mut out = Vec::new();
    if a != 0 {
        let n = (b - a) / 16;
        for i in 0..n {
            let pc = unsafe { *((a + i * 16) as *const usize) };
            out.push((i as u32 + 1, pc.wrapping_sub(base)));
        }
    }
    out
}
