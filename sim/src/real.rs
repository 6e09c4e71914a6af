//! The stubs that surround the real engine: sinks, value functions, resolvers,
//! filters and formatters, each a seam the simulator controls; and the code
//! that runs one operation on the real engine and observes everything.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};

use upon::{Engine, EngineFn, Template, Value, ValueAccess, ValueAccessOp, ValueMember};

use crate::alloc::Zone;
use crate::ast::{Acc, Member, Path};
use crate::exec::Env;
use crate::funcs::{self, FmtKind, FmtSpec, FnSpec};
use crate::model::*;
use crate::sched::{Point, Sched};
use crate::ser::{Script, Ser, ValSer};
use crate::val::Val;

////////////////////////////////////////////////////////////////////////////////
// Panics
////////////////////////////////////////////////////////////////////////////////

pub struct SimPanic(pub u64);

pub fn sim_panic(id: u64) -> ! {
    panic_any(SimPanic(id))
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static OPS: RefCell<Vec<Arc<OpCtx>>> = const { RefCell::new(Vec::new()) };
    static SCHED: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    static SER_POINTS: Cell<u64> = const { Cell::new(0) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<SimPanic>().is_some() {
            return;
        }
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(format!("{msg} at {loc}"));
            }
        });
        if std::env::var_os("UPSIM_SHOW_PANICS").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
    }));
}

pub fn take_last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "unknown panic".into())
}

pub enum Caught {
    Sim(u64),
    Engine(String),
}

pub fn classify(p: Box<dyn Any + Send>) -> Caught {
    match p.downcast_ref::<SimPanic>() {
        Some(s) => Caught::Sim(s.0),
        None => Caught::Engine(take_last_panic()),
    }
}

////////////////////////////////////////////////////////////////////////////////
// Scheduling points
////////////////////////////////////////////////////////////////////////////////

fn alloc_hook() -> u32 {
    SCHED.with(|s| match s.try_borrow() {
        Ok(s) => match &*s {
            Some((sched, me)) => sched.yield_point(*me, Point::Alloc),
            None => 0,
        },
        Err(_) => 0,
    })
}

/// See `Sched::careful_step`.
pub fn careful_step() {
    let s = SCHED.with(|s| s.try_borrow().ok().and_then(|s| s.clone()));
    if let Some((s, me)) = s {
        if s.careful_step(me) {
            let gap = s.yield_point(me, Point::Alloc);
            crate::alloc::set_gap(gap);
        }
    }
}

pub fn enter_sched(s: &Arc<Sched>, me: usize) {
    SCHED.with(|x| *x.borrow_mut() = Some((s.clone(), me)));
    let gap = s.begin(me);
    crate::alloc::set_hook(Some(alloc_hook), gap);
}

pub fn leave_sched(panicked: bool) {
    crate::alloc::set_hook(None, 0);
    let s = SCHED.with(|x| x.borrow_mut().take());
    if let Some((s, me)) = s {
        s.finish(me, panicked);
    }
}

/// The engine has been running for long without anything happening.
pub fn long_silence(stuck: bool) {
    let s = SCHED.with(|s| s.try_borrow().ok().and_then(|s| s.clone()));
    if let Some((s, me)) = s {
        if s.spinning(me, stuck) {
            if stuck {
                crate::cover::event();
            }
            return;
        }
    }
    if stuck {
        crate::worker::fatal(
            "hang",
            vec![crate::exec::Mismatch {
                kind: "hang".into(),
                op: "engine".into(),
                detail: "the engine keeps running without anything happening".into(),
            }],
        );
    }
}

pub fn yield_now(at: Point) {
    crate::cover::event();
    let s = SCHED.with(|x| x.borrow().clone());
    if let Some((s, me)) = s {
        let gap = s.yield_point(me, at);
        crate::alloc::set_gap(gap);
    }
}

fn stall_now() {
    let s = SCHED.with(|x| x.borrow().clone());
    if let Some((s, me)) = s {
        s.stall(me);
    }
}

/// A serializer call is a point where control may change hands.
pub fn ser_point() {
    SER_POINTS.with(|x| x.set(x.get() + 1));
    let _z = Zone::harness();
    yield_now(Point::Callback);
}

////////////////////////////////////////////////////////////////////////////////
// One operation in flight
////////////////////////////////////////////////////////////////////////////////

#[derive(Default)]
pub struct Run {
    pub st: CbState,
    /// bytes the sink accepted
    pub bytes: Vec<u8>,
    pub n_bytes: usize,
    pub hash: crate::rng::Fnv0,
    pub calls: u32,
    pub failed: bool,
    pub writes_after_failure: u32,
    pub callbacks_after_failure: u32,
    pub errors_injected: u32,
    pub interrupts_fired: u32,
    pub short_writes: u32,
    pub chunk: usize,
    pub interrupted: Option<u32>,
    pub flushes: u32,
    pub nested: u32,
    pub sink_fault: Option<&'static str>,
}

pub struct OpCtx {
    pub op: Arc<RenderOp>,
    env: *const Env,
    run: Mutex<Run>,
    drops: AtomicU32,
    fn_drops: AtomicU32,
    fn_made: AtomicU32,
    /// only count output, record nothing
    quiet: bool,
    /// how many operations are stacked below this one
    depth: usize,
}

unsafe impl Send for OpCtx {}
unsafe impl Sync for OpCtx {}

impl OpCtx {
    fn lock(&self) -> MutexGuard<'_, Run> {
        self.run.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Run another operation from inside a callback of this one.
    fn inside(&self, op: &crate::scen::Op, thread: bool) {
        self.lock().nested += 1;
        let d = self.depth + 1;
        if !thread {
            return unsafe { &*self.env }.nested(op, d);
        }
        let env = crate::exec::EnvPtr(self.env);
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let env = env;
                    unsafe { &*env.get() }.nested(op, d)
                })
                .unwrap();
        });
    }

    /// A callback of this operation begins: run `f` (the shared definition of
    /// what it does), then whatever else the scenario makes it do.
    fn callback<T>(&self, f: impl FnOnce(&RenderOp, &mut CbState, usize) -> T) -> T {
        let _z = Zone::harness();
        yield_now(Point::Callback);
        let (r, special) = {
            let mut g = self.lock();
            if g.failed {
                g.callbacks_after_failure += 1;
            }
            let at = g.n_bytes;
            let n = g.st.n;
            let r = f(&self.op, &mut g.st, at);
            (r, self.op.faults.get(&n))
        };
        match special {
            Some(Fault::Nested(op)) => {
                if self.depth < 3 {
                    self.inside(op, false);
                }
            }
            Some(Fault::NestedThread(op)) => {
                if self.depth < 3 {
                    self.inside(op, true);
                }
            }
            Some(Fault::Deep { op, at, n, thread }) => {
                let mut inner = (**op).clone();
                if let (crate::scen::Op::Render(r), true) = (&mut inner, *n > 1) {
                    let next = Fault::Deep { op: op.clone(), at: *at, n: *n - 1, thread: *thread };
                    r.faults.insert(*at, next);
                }
                if self.depth < MAX_DEEP {
                    self.inside(&inner, *thread);
                }
            }
            Some(Fault::Stall) => stall_now(),
            _ => {}
        }
        yield_now(Point::Callback);
        r
    }
}

/// Operations inside operations, at most.
pub const MAX_DEEP: usize = 400;

fn current() -> Option<Arc<OpCtx>> {
    OPS.with(|o| o.borrow().last().cloned())
}

struct OpGuard;

impl OpGuard {
    fn push(c: Arc<OpCtx>) -> OpGuard {
        OPS.with(|o| o.borrow_mut().push(c));
        OpGuard
    }
}

impl Drop for OpGuard {
    fn drop(&mut self) {
        OPS.with(|o| o.borrow_mut().pop());
    }
}

////////////////////////////////////////////////////////////////////////////////
// Functions registered in the engine
////////////////////////////////////////////////////////////////////////////////

/// Lives inside a registered closure: tells whether the engine dropped it.
pub struct Witness(pub Arc<AtomicU32>);

impl Drop for Witness {
    fn drop(&mut self) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

pub fn add_fn(e: &mut Engine<'static>, name: &str, spec: &FnSpec, w: Witness) -> Option<EngineFn> {
    match spec {
        FnSpec::Filter { shape, fallible, .. } => {
            let spec = spec.clone();
            let fname = name.to_string();
            let call = move |args: Vec<Val>| -> Result<Val, String> {
                let _w = &w;
                let Some(c) = current() else {
                    panic!("filter called outside of any operation");
                };
                match c.callback(|op, st, at| op.cb_filter(st, &fname, &spec, &args, at)) {
                    Cb::Ok(v) => Ok(v),
                    Cb::Err(m) => Err(m),
                    Cb::Panic(id) => sim_panic(id),
                }
            };
            #[cfg(feature = "ff")]
            return funcs::register(e, name.to_string(), *shape, *fallible, call);
            #[cfg(not(feature = "ff"))]
            {
                let _ = (shape, fallible, call);
                unreachable!("no filters in this build")
            }
        }
        FnSpec::Fmt(f) => {
            let f = f.clone();
            let fname = name.to_string();
            e.add_formatter(name.to_string(), move |out: &mut upon::fmt::Formatter<'_>, v: &Value| {
                let _w = &w;
                run_formatter(out, v, &fname, &f)
            })
        }
    }
}

pub fn run_formatter(
    out: &mut upon::fmt::Formatter<'_>,
    v: &Value,
    name: &str,
    spec: &FmtSpec,
) -> upon::fmt::Result {
    let Some(c) = current() else {
        panic!("formatter called outside of any operation");
    };
    let val = {
        let _z = Zone::harness();
        Val::from_upon(v)
    };
    let run = c.callback(|op, st, at| op.cb_format(st, name, spec, &val, at));
    let full = matches!(run.end, FmtEnd::Ok | FmtEnd::EngineErr);
    let put = |out: &mut upon::fmt::Formatter<'_>, i: usize, p: &str| -> upon::fmt::Result {
        match spec.kind {
            FmtKind::Def if full => upon::fmt::default(out, v)?,
            FmtKind::Angle if full && i == 1 => upon::fmt::default(out, v)?,
            FmtKind::Chars | FmtKind::Esc if p.chars().count() == 1 => {
                out.write_char(p.chars().next().unwrap())?
            }
            FmtKind::Fmt => write!(out, "{p}")?,
            _ => out.write_str(p)?,
        }
        Ok(())
    };
    let done = (|| {
        for (i, p) in run.pieces.iter().enumerate() {
            put(out, i, p)?;
        }
        Ok(())
    })();
    if let Err(e) = done {
        return Err(if spec.remap { upon::fmt::Error::from("remapped by the formatter") } else { e });
    }
    match run.end {
        FmtEnd::Ok => Ok(()),
        FmtEnd::EngineErr => upon::fmt::default(out, v),
        FmtEnd::Err(Some(m)) => Err(m.into()),
        FmtEnd::Err(None) => Err(std::fmt::Error.into()),
        FmtEnd::Panic(id) => sim_panic(id),
    }
}

fn to_path(ms: &[ValueMember<'_>]) -> Option<Path> {
    let mut it = ms.iter();
    let first = match it.next()? {
        ValueMember { op: ValueAccessOp::Direct, access: ValueAccess::Key(k) } => k.to_string(),
        _ => return None,
    };
    let rest = it
        .map(|m| Member {
            opt: m.op == ValueAccessOp::Optional,
            acc: match m.access {
                ValueAccess::Key(k) => Acc::Key(k.to_string()),
                ValueAccess::Index(i) => Acc::Index(i),
            },
        })
        .collect();
    Some(Path { first, rest })
}

////////////////////////////////////////////////////////////////////////////////
// Sinks
////////////////////////////////////////////////////////////////////////////////

#[derive(Debug)]
pub struct SimErr(pub u64);

impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simulated error {}", self.0)
    }
}

impl std::error::Error for SimErr {}

pub const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::WriteZero,
];

pub fn make_err(e: &SinkErr) -> io::Error {
    match e {
        SinkErr::Kind(k) => KINDS[*k as usize % KINDS.len()].into(),
        SinkErr::Custom(k, id) => io::Error::new(KINDS[*k as usize % KINDS.len()], SimErr(*id)),
        SinkErr::Os(n) => io::Error::from_raw_os_error(*n),
        SinkErr::Zero | SinkErr::Panic(_) => unreachable!(),
    }
}

pub fn err_kind_name(e: &SinkErr) -> &'static str {
    match e {
        SinkErr::Kind(_) => "sink_error_kind",
        SinkErr::Custom(..) => "sink_error_custom",
        SinkErr::Os(_) => "sink_error_os",
        SinkErr::Zero => "sink_disk_full_zero_write",
        SinkErr::Panic(_) => "sink_panic",
    }
}

/// Whether the error that came back is the one that was injected.
pub fn same_err(e: &SinkErr, got: &io::Error) -> bool {
    match e {
        SinkErr::Kind(k) => {
            got.kind() == KINDS[*k as usize % KINDS.len()]
                && got.raw_os_error().is_none()
                && got.get_ref().is_none()
        }
        SinkErr::Custom(k, id) => {
            got.kind() == KINDS[*k as usize % KINDS.len()]
                && got.get_ref().and_then(|r| r.downcast_ref::<SimErr>()).map(|s| s.0) == Some(*id)
        }
        SinkErr::Os(n) => got.raw_os_error() == Some(*n),
        SinkErr::Zero => got.kind() == io::ErrorKind::WriteZero,
        SinkErr::Panic(_) => false,
    }
}

struct SimSink {
    c: Arc<OpCtx>,
    plan: SinkPlan,
}

impl Drop for SimSink {
    fn drop(&mut self) {
        self.c.drops.fetch_add(1, Ordering::SeqCst);
    }
}

impl SimSink {
    fn fail(&self, g: &mut Run, e: &SinkErr) -> Option<io::Result<usize>> {
        g.failed = true;
        g.errors_injected += 1;
        g.sink_fault = Some(err_kind_name(e));
        match e {
            SinkErr::Panic(_) => None,
            SinkErr::Zero => Some(Ok(0)),
            e => Some(Err(make_err(e))),
        }
    }
}

impl io::Write for SimSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _z = Zone::harness();
        yield_now(Point::Callback);
        let r = {
            let c = self.c.clone();
            let mut g = c.lock();
            self.write_inner(&mut g, buf)
        };
        yield_now(Point::Callback);
        match r {
            Ok(r) => r,
            Err(id) => sim_panic(id),
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        self.c.lock().flushes += 1;
        Ok(())
    }
}

impl SimSink {
    fn write_inner(&mut self, g: &mut Run, buf: &[u8]) -> Result<io::Result<usize>, u64> {
        let p = &self.plan;
        if g.failed {
            g.writes_after_failure += 1;
            if p.sticky {
                return Ok(Err(io::Error::new(io::ErrorKind::Other, SimErr(0))));
            }
        }
        let call = g.calls;
        if p.interrupts.contains(&call) && g.interrupted != Some(call) {
            g.interrupted = Some(call);
            g.interrupts_fired += 1;
            return Ok(Err(io::ErrorKind::Interrupted.into()));
        }
        g.calls += 1;
        let boom = |s: &Self, g: &mut Run, e: &SinkErr| match s.fail(g, e) {
            Some(r) => Ok(r),
            None => match e {
                SinkErr::Panic(id) => Err(*id),
                _ => unreachable!(),
            },
        };
        if !g.failed {
            if let Some((n, e)) = &p.fail_at_call {
                if *n == call {
                    return boom(self, g, e);
                }
            }
        }
        let mut n = buf.len();
        if !p.chunks.is_empty() {
            let k = p.chunks[g.chunk % p.chunks.len()].max(1);
            g.chunk += 1;
            if k < n {
                g.short_writes += 1;
                n = k;
            }
        }
        if !g.failed {
            if let Some((lim, e)) = &p.fail_at_byte {
                let room = (*lim as usize).saturating_sub(g.n_bytes);
                if room == 0 && n > 0 {
                    return boom(self, g, e);
                }
                n = n.min(room);
            }
        }
        if self.c.quiet {
            g.hash.add(&buf[..n]);
        } else {
            g.bytes.extend_from_slice(&buf[..n]);
        }
        g.n_bytes += n;
        Ok(Ok(n))
    }
}

////////////////////////////////////////////////////////////////////////////////
// Running one render on the real engine
////////////////////////////////////////////////////////////////////////////////

pub enum ROut {
    Ok,
    Err(upon::Error),
    SimPanic(u64),
    EnginePanic(String),
    NotConsumed,
}

pub struct Real {
    pub outcome: ROut,
    /// delivered bytes; `None` when a string render did not return one
    pub out: Option<Vec<u8>>,
    pub run: Run,
    pub sink_drops: u32,
    pub sinks: u32,
    pub fn_drops: u32,
    pub fn_made: u32,
    /// events recorded before the renderer was consumed
    pub early: usize,
}

enum Tgt<'a> {
    E(upon::TemplateRef<'a>),
    S(&'a Template<'a>),
}

fn consume<'r>(r: upon::Renderer<'r>, ctx: &Arc<OpCtx>, op: &RenderOp, sinks: &AtomicU32) -> (ROut, Option<Vec<u8>>) {
    match &op.out {
        OutKind::Str => match r.to_string() {
            Ok(s) => (ROut::Ok, Some(s.into_bytes())),
            Err(e) => (ROut::Err(e), None),
        },
        OutKind::Drop => {
            drop(r);
            (ROut::NotConsumed, None)
        }
        OutKind::Sink(p) => {
            let (mut sink, res);
            {
                let _z = Zone::harness();
                sink = SimSink { c: ctx.clone(), plan: p.clone() };
                sinks.fetch_add(1, Ordering::SeqCst);
            }
            match p.pass % 3 {
                0 => res = r.to_writer(sink),
                1 => res = r.to_writer(&mut sink),
                _ => {
                    let b: Box<dyn io::Write> = Box::new(sink);
                    res = r.to_writer(b)
                }
            }
            match res {
                Ok(()) => (ROut::Ok, None),
                Err(e) => (ROut::Err(e), None),
            }
        }
    }
}

/// `tmp` overrides the target with a template compiled on the spot.
pub fn render(env: &Env, op: &RenderOp, tmp: Option<&Template<'static>>, depth: usize, quiet: bool) -> Real {
    render_shared(env, &Arc::new(op.clone()), tmp, depth, quiet)
}

pub fn render_shared(
    env: &Env,
    op: &Arc<RenderOp>,
    tmp: Option<&Template<'static>>,
    depth: usize,
    quiet: bool,
) -> Real {
    let ctx = Arc::new(OpCtx {
        op: op.clone(),
        env,
        run: Mutex::new(Run::default()),
        drops: AtomicU32::new(0),
        fn_drops: AtomicU32::new(0),
        fn_made: AtomicU32::new(0),
        quiet,
        depth,
    });
    let sinks = AtomicU32::new(0);
    let visits = AtomicU32::new(0);
    let value = match op.made.as_ref().map(crate::conv::make) {
        Some((crate::conv::Got::Value(v), _)) => v,
        _ if op.kind != CtxKind::Value => Value::None,
        _ => op.val.to_upon(),
    };
    let early = AtomicU32::new(0);
    let fns = Arc::new(AtomicU32::new(0));
    let r = {
        let _g = OpGuard::push(ctx.clone());
        catch_unwind(AssertUnwindSafe(|| {
            let _z = Zone::engine();
            let eng: &Engine<'_> = env.engine();
            let tgt = match (&tmp, &op.target) {
                (Some(t), _) => Tgt::S(t),
                (None, Target::Engine(n)) => Tgt::E(eng.get_template(n).expect("no such template")),
                (None, Target::Slot(i)) => Tgt::S(env.slot(*i)),
            };
            let mut r = match (&op.kind, &op.ser) {
                #[cfg(not(feature = "fs"))]
                (_, Some(_)) | (CtxKind::Serde, None) => unreachable!("no serde in this build"),
                #[cfg(feature = "fs")]
                (_, Some(s)) => {
                    let s = Ser { s, visits: &visits };
                    match &tgt {
                        Tgt::E(t) => t.render(s),
                        Tgt::S(t) => t.render(eng, s),
                    }
                }
                #[cfg(feature = "fs")]
                (CtxKind::Serde, None) if op.made.is_some() => match &tgt {
                    Tgt::E(t) => t.render(&value),
                    Tgt::S(t) => t.render(eng, &value),
                },
                #[cfg(feature = "fs")]
                (CtxKind::Serde, None) => {
                    let s = ValSer(&op.val);
                    match &tgt {
                        Tgt::E(t) => t.render(s),
                        Tgt::S(t) => t.render(eng, s),
                    }
                }
                (CtxKind::Value, None) => match &tgt {
                    Tgt::E(t) => t.render_from(&value),
                    Tgt::S(t) => t.render_from(eng, &value),
                },
                (CtxKind::Fn(_), None) => {
                    let c = ctx.clone();
                    ctx.fn_made.fetch_add(1, Ordering::SeqCst);
                    let w = Witness(fns.clone());
                    let f = move |ms: &[ValueMember<'_>]| -> Result<Value, String> {
                        let _w = &w;
                        let p = {
                            let _z = Zone::harness();
                            to_path(ms).unwrap_or_else(|| Path::name(&format!("!malformed {ms:?}")))
                        };
                        match c.callback(|op, st, at| op.cb_lookup(st, &p, at)) {
                            Cb::Ok(v) => Ok(v.to_upon()),
                            Cb::Err(m) => Err(m),
                            Cb::Panic(id) => sim_panic(id),
                        }
                    };
                    match &tgt {
                        Tgt::E(t) => t.render_from_fn(f),
                        Tgt::S(t) => t.render_from_fn(eng, f),
                    }
                }
            };
            if op.resolver.is_some() {
                let c = ctx.clone();
                ctx.fn_made.fetch_add(1, Ordering::SeqCst);
                let w = Witness(fns.clone());
                r = r.with_template_fn(move |name| {
                    let _w = &w;
                    match c.callback(|op, st, at| op.cb_resolve(st, name, at)) {
                        Cb::Ok(i) => Ok(env.slot(i % env.n_slots())),
                        Cb::Err(m) => Err(m),
                        Cb::Panic(id) => sim_panic(id),
                    }
                });
            }
            if let Some(d) = op.depth {
                r = r.with_max_include_depth(d);
            }
            {
                let g = ctx.lock();
                early.store(g.st.events.len() as u32 + g.calls, Ordering::SeqCst);
            }
            if MEASURE.with(Cell::get).is_some() {
                let base = crate::alloc::reset_peak();
                let x = consume(r, &ctx, op, &sinks);
                MEASURE.with(|m| m.set(Some(crate::alloc::peak() - base)));
                return x;
            }
            consume(r, &ctx, op, &sinks)
        }))
    };
    let (outcome, s) = match r {
        Ok((o, s)) => (o, s),
        Err(p) => match classify(p) {
            Caught::Sim(id) => (ROut::SimPanic(id), None),
            Caught::Engine(m) => (ROut::EnginePanic(m), None),
        },
    };
    let run = std::mem::take(&mut *ctx.lock());
    let out = match &op.out {
        OutKind::Sink(_) => Some(run.bytes.clone()),
        _ => s,
    };
    Real {
        outcome,
        out,
        run,
        sink_drops: ctx.drops.load(Ordering::SeqCst),
        sinks: sinks.load(Ordering::SeqCst),
        fn_drops: fns.load(Ordering::SeqCst),
        fn_made: ctx.fn_made.load(Ordering::SeqCst),
        early: early.load(Ordering::SeqCst) as usize,
    }
}

/// Convert a scripted value; the number of visited parts comes back too.
pub fn to_value(s: &Script) -> (Result<Result<Val, upon::Error>, Caught>, u32) {
    let visits = AtomicU32::new(0);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _z = Zone::engine();
        #[cfg(feature = "fs")]
        return upon::to_value(Ser { s, visits: &visits });
        #[cfg(not(feature = "fs"))]
        {
            let _ = (s, &visits);
            unreachable!("no serde in this build")
        }
    }));
    let v = visits.load(Ordering::SeqCst);
    (
        match r {
            Ok(Ok(v)) => Ok(Ok(Val::from_upon(&v))),
            Ok(Err(e)) => Ok(Err(e)),
            Err(p) => Err(classify(p)),
        },
        v,
    )
}

/// Everything observable about an error; printing it must not fail either.
pub struct ErrText {
    pub short: String,
    pub long: String,
}

impl ErrText {
    /// What must be the same every time. The width of characters depends on
    /// the `unicode` feature, so that columns may differ between builds.
    pub fn digest(&self) -> String {
        if crate::avail::has(crate::avail::UNICODE) {
            return self.long.clone();
        }
        let mut out = String::new();
        let plain = self.long.bytes().all(|b| (1..128).contains(&b));
        for l in self.long.lines() {
            let l = match l.trim_start().starts_with("--> ") {
                true if !plain => l.rsplit_once(':').map_or(l, |x| x.0),
                _ => l,
            };
            if !l.trim_start().trim_start_matches('|').trim_start().starts_with('^') {
                out.push_str(l);
                out.push('\n');
            }
        }
        out
    }
}

pub fn err_text(e: &upon::Error) -> Result<ErrText, String> {
    catch_unwind(AssertUnwindSafe(|| {
        let t = ErrText { short: format!("{e}"), long: format!("{e:#}") };
        let _ = format!("{e:?}");
        let _ = format!("{e:#?}");
        t
    }))
    .map_err(|p| match classify(p) {
        Caught::Engine(m) => m,
        Caught::Sim(_) => "?".into(),
    })
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(|| {
        let _z = Zone::engine();
        f()
    }))
    .map_err(|p| match classify(p) {
        Caught::Engine(m) => m,
        Caught::Sim(id) => {
            let _ = id;
            resume_unwind(Box::new(SimPanic(id)))
        }
    })
}

pub type Names = BTreeMap<String, ()>;

/// Render to a counting sink and report the peak of live memory above the
/// level at the start.
pub fn render_measured(env: &Env, op: &RenderOp) -> (Real, i64) {
    MEASURE.with(|m| m.set(Some(0)));
    let r = render(env, op, None, 0, true);
    let p = MEASURE.with(|m| m.replace(None)).unwrap_or(0);
    (r, p)
}

thread_local! {
    static MEASURE: Cell<Option<i64>> = const { Cell::new(None) };
}
