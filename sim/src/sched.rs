//! The scheduler: real threads, of which exactly one runs at a time. Every
//! switch is a decision drawn from the seed (or replayed from a file).
//!
//! Threads give up control when a callback or sink is entered or left, between
//! operations, and (when the scenario asks for it) inside the engine itself,
//! at an allocation.

use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

use crate::rng::{mix, Fnv, Rng};
use crate::scen::SchedSpec;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Point {
    Start,
    Op,
    Callback,
    Alloc,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready(Point),
    Stalled,
    /// waits on a lock of the code under test
    Blocked,
    Done,
}

enum Source {
    Draw(Rng),
    Replay(std::vec::IntoIter<u32>),
}

struct Inner {
    cur: usize,
    st: Vec<St>,
    /// thread is inside our own wait loop
    waiting: Vec<bool>,
    src: Source,
    preempt: u32,
    log: Vec<u32>,
    switches: u64,
    alloc_switches: u64,
    hash: Fnv,
    free: bool,
    blocked_in_callback: Option<(usize, usize)>,
    rescued: u64,
    deadlock: bool,
    tids: Vec<u64>,
    panics: u32,
    stalls: u64,
}

/// Threads per run, at most.
pub const MAX_THREADS: usize = 64;

/// Decisions per run; after that everybody runs to the end of their turn.
const MAX_CHOICES: usize = 150_000;

/// Some thread waits on a lock of the code under test: threads report at
/// every step, so that who gets the lock next does not depend on timing.
pub static CAREFUL: AtomicBool = AtomicBool::new(false);

pub struct Sched {
    m: Mutex<Inner>,
    careful_steps: AtomicUsize,
    cv: Vec<Condvar>,
    main_cv: Condvar,
    progress: AtomicU64,
}

pub struct SchedReport {
    pub choices: Vec<u32>,
    pub switches: u64,
    pub alloc_switches: u64,
    pub hash: u64,
    /// (blocked thread, thread paused in a callback)
    pub blocked: Option<(usize, usize)>,
    pub rescued: u64,
    pub deadlock: bool,
    pub stalls: u64,
}

impl Inner {
    /// A decision in `0..n`; 0 is "carry on as you are".
    fn decide(&mut self, n: u32) -> u32 {
        if n <= 1 || self.log.len() >= MAX_CHOICES {
            return 0;
        }
        let v = match &mut self.src {
            Source::Draw(r) => r.below(n as usize) as u32,
            Source::Replay(it) => it.next().unwrap_or(0) % n,
        };
        self.log.push(v);
        v
    }

    /// How many allocations until the next preemption; 0 means never.
    fn gap(&mut self) -> u32 {
        if self.preempt == 0 || self.log.len() > MAX_CHOICES / 3 {
            return 0;
        }
        let max = self.preempt * 2 + 2;
        self.decide(max)
    }
}

impl Sched {
    pub fn new(n: usize, spec: &SchedSpec) -> Sched {
        let src = match &spec.choices {
            Some(c) => Source::Replay(c.clone().into_iter()),
            None => Source::Draw(Rng::new(mix(spec.seed))),
        };
        CAREFUL.store(false, Ordering::SeqCst);
        Sched {
            careful_steps: AtomicUsize::new(0),
            m: Mutex::new(Inner {
                cur: usize::MAX,
                st: vec![St::Ready(Point::Start); n],
                waiting: vec![true; n],
                src,
                preempt: spec.preempt,
                log: Vec::with_capacity(MAX_CHOICES),
                switches: 0,
                alloc_switches: 0,
                hash: Fnv::new(),
                free: false,
                blocked_in_callback: None,
                rescued: 0,
                deadlock: false,
                tids: vec![0; n],
                panics: 0,
                stalls: 0,
            }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
            main_cv: Condvar::new(),
            progress: AtomicU64::new(0),
        }
    }

    fn pick(&self, g: &mut Inner, me: usize, at: Point) -> usize {
        // Candidates: me first (if ready), then the others by number.
        let n = g.st.len();
        let mut cands = [0usize; MAX_THREADS];
        let mut k = 0;
        for j in 0..n {
            let i = (me + j) % n;
            if matches!(g.st[i], St::Ready(_)) {
                cands[k] = i;
                k += 1;
            }
        }
        if k == 0 {
            return usize::MAX;
        }
        let d = g.decide(k as u32) as usize;
        let next = cands[d % k];
        g.hash.add(&[next as u8, at as u8]);
        if next != me {
            g.switches += 1;
            if at == Point::Alloc {
                g.alloc_switches += 1;
            }
        }
        next
    }

    fn wait_turn<'a>(
        &'a self,
        mut g: std::sync::MutexGuard<'a, Inner>,
        me: usize,
    ) -> std::sync::MutexGuard<'a, Inner> {
        g.waiting[me] = true;
        while g.cur != me && !g.free {
            g = self.cv[me].wait(g).unwrap();
        }
        g.waiting[me] = false;
        self.progress.fetch_add(1, Ordering::SeqCst);
        g
    }

    /// First thing a simulated thread does.
    pub fn begin(&self, me: usize) -> u32 {
        let mut g = self.m.lock().unwrap();
        g.tids[me] = own_tid();
        g = self.wait_turn(g, me);
        g.gap()
    }

    /// Hand over the first turn (called once by the controlling thread).
    pub fn kick(&self) {
        let mut g = self.m.lock().unwrap();
        let first = self.pick(&mut g, 0, Point::Start);
        g.cur = first;
        self.cv[first].notify_all();
    }

    /// A point where control may change hands. Returns the next allocation gap.
    pub fn yield_point(&self, me: usize, at: Point) -> u32 {
        let mut g = self.m.lock().unwrap();
        self.progress.fetch_add(1, Ordering::SeqCst);
        if g.free {
            return 0;
        }
        if g.st[me] == St::Blocked {
            // We were stuck on a foreign lock and somebody else was given the
            // turn meanwhile: line up again.
            g.st[me] = St::Ready(at);
            careful(&g);
            if g.cur == usize::MAX {
                g.cur = me;
            }
            let mut g = self.wait_turn(g, me);
            return g.gap();
        }
        g.st[me] = St::Ready(at);
        let next = self.pick(&mut g, me, at);
        if next != me {
            g.cur = next;
            self.cv[next].notify_all();
            g = self.wait_turn(g, me);
        }
        g.gap()
    }

    /// Called at every step while some thread waits on a lock. A thread that
    /// has just got its lock lines up (`true`); the one that has the turn lets
    /// those that were woken get that far.
    pub fn careful_step(&self, me: usize) -> bool {
        if self.careful_steps.fetch_add(1, Ordering::Relaxed) > 200_000 {
            return false;
        }
        let g = self.m.lock().unwrap();
        if g.free {
            return false;
        }
        if g.st[me] == St::Blocked {
            return true;
        }
        let tids: Vec<u64> = (0..g.st.len()).filter(|i| g.st[*i] == St::Blocked).map(|i| g.tids[i]).collect();
        drop(g);
        for _ in 0..10_000 {
            if tids.iter().all(|t| thread_asleep(*t)) {
                break;
            }
            std::thread::yield_now();
        }
        false
    }

    /// A thread has been running for long: let the others run, in case it is
    /// waiting for them. When that has not helped for very long, those that
    /// are stalled may be what it waits for. `false`: there is nobody else.
    pub fn spinning(&self, me: usize, stuck: bool) -> bool {
        let mut g = self.m.lock().unwrap();
        self.progress.fetch_add(1, Ordering::SeqCst);
        if g.free || g.cur != me {
            return false;
        }
        let n = g.st.len();
        let find = |g: &Inner, f: &dyn Fn(St) -> bool| (1..n).map(|j| (me + j) % n).find(|i| f(g.st[*i]));
        let next = if stuck {
            find(&g, &|s| s == St::Stalled)
        } else {
            find(&g, &|s| matches!(s, St::Ready(_)))
        };
        let Some(i) = next else { return false };
        if stuck {
            if g.blocked_in_callback.is_none() {
                g.blocked_in_callback = Some((me, i));
            }
            g.st[i] = St::Ready(Point::Callback);
        }
        g.st[me] = St::Ready(Point::Alloc);
        g.hash.add(&[i as u8, 77]);
        g.cur = i;
        self.cv[i].notify_all();
        let _g = self.wait_turn(g, me);
        true
    }

    /// Do not come back before everybody else has finished.
    pub fn stall(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        if g.free {
            return;
        }
        g.stalls += 1;
        g.st[me] = St::Stalled;
        self.next_after(&mut g, me);
        let _g = self.wait_turn(g, me);
    }

    fn next_after(&self, g: &mut Inner, me: usize) {
        let next = self.pick(g, me, Point::Op);
        if next != usize::MAX {
            g.cur = next;
            self.cv[next].notify_all();
            return;
        }
        // Nobody is ready. Blocked threads may still make progress by
        // themselves; otherwise the stalled ones are released.
        if g.st.iter().any(|s| *s == St::Blocked) {
            g.cur = usize::MAX;
            return;
        }
        let mut first = usize::MAX;
        for i in 0..g.st.len() {
            if g.st[i] == St::Stalled {
                g.st[i] = St::Ready(Point::Callback);
                if first == usize::MAX {
                    first = i;
                }
            }
        }
        if first != usize::MAX {
            g.cur = first;
            self.cv[first].notify_all();
        } else {
            self.main_cv.notify_all();
        }
    }

    pub fn finish(&self, me: usize, panicked: bool) {
        let mut g = self.m.lock().unwrap();
        self.progress.fetch_add(1, Ordering::SeqCst);
        let had_turn = g.cur == me;
        g.st[me] = St::Done;
        careful(&g);
        if panicked {
            g.panics += 1;
        }
        if had_turn || g.cur == usize::MAX {
            self.next_after(&mut g, me);
        }
        if g.st.iter().all(|s| *s == St::Done) {
            self.main_cv.notify_all();
        }
    }

    /// Wait for all threads, watching for one that is stuck on a lock of the
    /// code under test.
    pub fn supervise(&self) {
        let mut last = 0;
        let mut quiet = 0;
        let mut g = self.m.lock().unwrap();
        loop {
            if g.st.iter().all(|s| *s == St::Done) {
                return;
            }
            let (g2, _) = self.main_cv.wait_timeout(g, Duration::from_millis(20)).unwrap();
            g = g2;
            if g.st.iter().all(|s| *s == St::Done) {
                return;
            }
            let p = self.progress.load(Ordering::SeqCst);
            if p != last {
                last = p;
                quiet = 0;
                continue;
            }
            let cur = g.cur;
            let asleep = if cur == usize::MAX {
                true
            } else {
                !g.waiting[cur] && thread_asleep(g.tids[cur])
            };
            if !asleep {
                quiet = 0;
                continue;
            }
            quiet += 1;
            if quiet < 6 {
                continue;
            }
            quiet = 0;
            if cur != usize::MAX {
                g.st[cur] = St::Blocked;
                careful(&g);
            }
            // Prefer threads paused inside the engine: they may simply be in
            // a short critical section.
            let find = |g: &Inner, f: &dyn Fn(St) -> bool| (0..g.st.len()).find(|i| f(g.st[*i]));
            if let Some(i) = find(&g, &|s| s == St::Ready(Point::Alloc)) {
                g.rescued += 1;
                g.cur = i;
                self.cv[i].notify_all();
                continue;
            }
            let paused = find(&g, &|s| matches!(s, St::Ready(Point::Callback)))
                .or_else(|| find(&g, &|s| s == St::Stalled));
            if let Some(i) = paused {
                if g.blocked_in_callback.is_none() {
                    let b = find(&g, &|s| s == St::Blocked).unwrap_or(usize::MAX);
                    g.blocked_in_callback = Some((b, i));
                }
                g.st[i] = St::Ready(Point::Callback);
                g.cur = i;
                self.cv[i].notify_all();
                continue;
            }
            if let Some(i) = find(&g, &|s| matches!(s, St::Ready(_))) {
                g.cur = i;
                self.cv[i].notify_all();
                continue;
            }
            g.deadlock = true;
            g.free = true;
            return;
        }
    }

    pub fn report(&self) -> SchedReport {
        let g = self.m.lock().unwrap();
        SchedReport {
            choices: g.log.clone(),
            switches: g.switches,
            alloc_switches: g.alloc_switches,
            hash: g.hash.0,
            blocked: g.blocked_in_callback,
            rescued: g.rescued,
            deadlock: g.deadlock,
            stalls: g.stalls,
        }
    }
}

fn careful(g: &Inner) {
    CAREFUL.store(g.st.iter().any(|s| *s == St::Blocked), Ordering::SeqCst);
}

fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

/// Whether a thread of this process is sleeping (state `S`).
fn thread_asleep(tid: u64) -> bool {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else {
        return false;
    };
    match s.rfind(')') {
        Some(i) => s[i + 1..].trim_start().starts_with('S'),
        None => false,
    }
}
