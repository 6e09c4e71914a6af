//! The reference: a sequential interpreter of the documented template
//! language over the abstract document tree, and a map for the engine.
//!
//! It knows nothing of tokens, instructions, jumps or stacks of states; it
//! walks the tree and records every externally visible effect in order.

use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::Arc;

use serde::{Deserialize, Serialize};

use crate::ast::*;
use crate::funcs::{self, FmtKind, FmtSpec, FnSpec};
use crate::val::Val;

////////////////////////////////////////////////////////////////////////////////
// What a render operation is asked to do
////////////////////////////////////////////////////////////////////////////////

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Target {
    /// a template registered in the engine
    Engine(String),
    /// a template compiled earlier, by slot
    Slot(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum CtxKind {
    Serde,
    Value,
    /// value function; the number selects how the source drifts over time
    Fn(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ResolverSpec {
    /// name -> compiled slots, used in rotation as time passes
    pub map: BTreeMap<String, Vec<usize>>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    /// the callback reports an error with this text
    Err(String),
    /// a formatter fails after writing this many pieces; `None` message is a
    /// bare formatting error
    FmtErr { after: usize, msg: Option<String> },
    /// the callback panics with this payload
    Panic(u64),
    /// a formatter panics after writing this many pieces
    FmtPanic { after: usize, id: u64 },
    /// the callback runs this operation on the same engine first
    Nested(Box<crate::scen::Op>),
    /// the callback does not come back until everybody else is done
    Stall,
    /// like Nested but on a brand new thread which is joined before returning
    NestedThread(Box<crate::scen::Op>),
    /// the callback runs this operation, which at event `at` does the same
    /// again, `n` levels deep (each on a thread of its own with `thread`)
    Deep { op: Box<crate::scen::Op>, at: u32, n: u32, thread: bool },
}

impl Fault {
    /// The operation this fault runs from inside a callback.
    pub fn nested(&self) -> Option<&crate::scen::Op> {
        match self {
            Fault::Nested(o) | Fault::NestedThread(o) | Fault::Deep { op: o, .. } => Some(o),
            _ => None,
        }
    }

    pub fn nested_mut(&mut self) -> Option<&mut crate::scen::Op> {
        match self {
            Fault::Nested(o) | Fault::NestedThread(o) | Fault::Deep { op: o, .. } => Some(o),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SinkErr {
    Kind(u8),
    Custom(u8, u64),
    Os(i32),
    Zero,
    Panic(u64),
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct SinkPlan {
    /// cycle of maximum sizes accepted per write call; empty accepts all
    pub chunks: Vec<usize>,
    /// write calls (by number) that report `Interrupted` first
    pub interrupts: Vec<u32>,
    /// fails once this many bytes were delivered
    pub fail_at_byte: Option<(u64, SinkErr)>,
    /// fails at this write call
    pub fail_at_call: Option<(u32, SinkErr)>,
    /// how the sink is handed over: by value, by reference, boxed
    pub pass: u8,
    /// the sink keeps failing (false: it would accept writes again)
    pub sticky: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum OutKind {
    Str,
    Sink(SinkPlan),
    /// the renderer is built but never consumed
    Drop,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RenderOp {
    pub target: Target,
    pub kind: CtxKind,
    pub val: Val,
    /// a context whose serialization goes wrong
    pub ser: Option<crate::ser::Script>,
    /// how the context value is built (instead of `val`)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub made: Option<crate::conv::Made>,
    pub resolver: Option<ResolverSpec>,
    pub depth: Option<usize>,
    pub out: OutKind,
    /// faults by callback ordinal
    pub faults: BTreeMap<u32, Fault>,
}

////////////////////////////////////////////////////////////////////////////////
// Callbacks: one definition used by the real stubs and by the reference
////////////////////////////////////////////////////////////////////////////////

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub desc: String,
    /// output bytes delivered when the callback was entered
    pub at: usize,
}

#[derive(Default)]
pub struct CbState {
    pub n: u32,
    pub lookups: u32,
    pub resolves: u32,
    pub events: Vec<Ev>,
    pub fired: Vec<(u32, &'static str)>,
}

pub enum Cb<T> {
    Ok(T),
    Err(String),
    Panic(u64),
}

impl RenderOp {
    fn next<'p>(&'p self, st: &mut CbState, desc: String, at: usize) -> (u32, Option<&'p Fault>) {
        let n = st.n;
        st.n += 1;
        st.events.push(Ev { desc, at });
        (n, self.faults.get(&n))
    }

    pub fn cb_lookup(&self, st: &mut CbState, path: &Path, at: usize) -> Cb<Val> {
        let k = st.lookups;
        st.lookups += 1;
        let (n, f) = self.next(st, format!("lookup {}", path.repr()), at);
        match f {
            Some(Fault::Err(m)) => {
                st.fired.push((n, "value_fn_error"));
                return Cb::Err(m.clone());
            }
            Some(Fault::Panic(id)) => {
                st.fired.push((n, "value_fn_panic"));
                return Cb::Panic(*id);
            }
            _ => {}
        }
        let drift = match self.kind {
            CtxKind::Fn(d) => d,
            _ => 0,
        };
        let root = drifted(&self.val, drift, k);
        let full: Vec<Member> = std::iter::once(Member { opt: false, acc: Acc::Key(path.first.clone()) })
            .chain(path.rest.iter().cloned())
            .collect();
        let mut v = &*root;
        for m in &full {
            let next = match (v, &m.acc) {
                (Val::Map(x), Acc::Key(k)) => x.get(k),
                (Val::List(x), Acc::Index(i)) => x.get(*i),
                _ => return Cb::Err(format!("cannot access {}", path.repr())),
            };
            match next {
                Some(x) => v = x,
                None if m.opt => return Cb::Ok(Val::None),
                None => return Cb::Err(format!("no value at {}", path.repr())),
            }
        }
        Cb::Ok(v.clone())
    }

    pub fn cb_filter(&self, st: &mut CbState, name: &str, spec: &FnSpec, args: &[Val], at: usize) -> Cb<Val> {
        let FnSpec::Filter { shape, beh, fallible, ver } = spec else { unreachable!() };
        let fallible = &funcs::fallible(*shape, *fallible);
        let a: Vec<String> = args.iter().map(Val::repr).collect();
        let (n, f) = self.next(st, format!("filter {name}@{ver}({})", a.join(", ")), at);
        match f {
            Some(Fault::Err(m)) if *fallible => {
                st.fired.push((n, "filter_error"));
                Cb::Err(m.clone())
            }
            Some(Fault::Panic(id)) => {
                st.fired.push((n, "filter_panic"));
                Cb::Panic(*id)
            }
            _ => Cb::Ok(funcs::returned(*shape, funcs::apply(*beh, args))),
        }
    }

    /// A formatter call: pieces to write and how it ends.
    pub fn cb_format(&self, st: &mut CbState, name: &str, spec: &FmtSpec, v: &Val, at: usize) -> FmtRun {
        let (n, f) = self.next(st, format!("format {name}@{}({})", spec.ver, v.repr()), at);
        let script = funcs::format_script(spec.kind, spec.ver, v);
        let mut pieces = script.pieces;
        let end = match f {
            Some(Fault::FmtErr { after, msg }) => {
                st.fired.push((n, "formatter_error"));
                pieces.truncate(*after);
                FmtEnd::Err(msg.clone())
            }
            Some(Fault::Err(m)) => {
                st.fired.push((n, "formatter_error"));
                pieces.truncate(0);
                FmtEnd::Err(Some(m.clone()))
            }
            Some(Fault::FmtPanic { after, id }) => {
                st.fired.push((n, "formatter_panic"));
                pieces.truncate(*after);
                FmtEnd::Panic(*id)
            }
            Some(Fault::Panic(id)) => {
                st.fired.push((n, "formatter_panic"));
                pieces.truncate(0);
                FmtEnd::Panic(*id)
            }
            _ if script.engine_err => FmtEnd::EngineErr,
            _ => FmtEnd::Ok,
        };
        FmtRun { pieces, end }
    }

    pub fn cb_resolve(&self, st: &mut CbState, name: &str, at: usize) -> Cb<usize> {
        let k = st.resolves as usize;
        st.resolves += 1;
        let (n, f) = self.next(st, format!("resolve {name:?}"), at);
        match f {
            Some(Fault::Err(m)) => {
                st.fired.push((n, "resolver_error"));
                return Cb::Err(m.clone());
            }
            Some(Fault::Panic(id)) => {
                st.fired.push((n, "resolver_panic"));
                return Cb::Panic(*id);
            }
            _ => {}
        }
        match self.resolver.as_ref().and_then(|r| r.map.get(name)) {
            Some(s) if !s.is_empty() => Cb::Ok(s[k % s.len()]),
            _ => Cb::Err(format!("resolver has no {name:?}")),
        }
    }
}

pub struct FmtRun {
    pub pieces: Vec<String>,
    pub end: FmtEnd,
}

pub enum FmtEnd {
    Ok,
    Err(Option<String>),
    /// the library's default formatter refused the value
    EngineErr,
    Panic(u64),
}

/// The value source as it looks at its `k`-th consultation.
fn drifted(v: &Val, drift: u8, k: u32) -> Cow<'_, Val> {
    Cow::Owned(match drift {
        0 => return Cow::Borrowed(v),
        1 => map_leaves(v, &|l| match l {
            Val::Int(i) => Val::Int(i.wrapping_add(i64::from(k))),
            Val::Str(s) => Val::Str(format!("{s}~{k}")),
            l => l.clone(),
        }),
        2 => rotate_lists(v, k as usize),
        _ => map_leaves(v, &|l| match l {
            Val::Bool(b) => Val::Bool(*b ^ (k % 2 == 1)),
            Val::Int(i) => Val::Int(i ^ i64::from(k)),
            l => l.clone(),
        }),
    })
}

fn map_leaves(v: &Val, f: &dyn Fn(&Val) -> Val) -> Val {
    match v {
        Val::List(l) => Val::List(l.iter().map(|x| map_leaves(x, f)).collect()),
        Val::Map(m) => Val::Map(m.iter().map(|(k, x)| (k.clone(), map_leaves(x, f))).collect()),
        l => f(l),
    }
}

fn rotate_lists(v: &Val, k: usize) -> Val {
    match v {
        Val::List(l) if !l.is_empty() => {
            let mut l: Vec<Val> = l.iter().map(|x| rotate_lists(x, k)).collect();
            let n = l.len();
            l.rotate_left(k % n);
            if k % 3 == 2 {
                l.pop();
            }
            Val::List(l)
        }
        Val::Map(m) => Val::Map(m.iter().map(|(a, x)| (a.clone(), rotate_lists(x, k))).collect()),
        l => l.clone(),
    }
}

////////////////////////////////////////////////////////////////////////////////
// Engine model
////////////////////////////////////////////////////////////////////////////////

#[derive(Clone)]
pub struct MEngine {
    pub templates: BTreeMap<String, Arc<Compiled>>,
    pub slots: Vec<Arc<Compiled>>,
    pub fns: BTreeMap<String, FnSpec>,
    pub depth: usize,
    pub deffmt: Option<FmtSpec>,
    /// nodes that one render may interpret
    pub steps: usize,
}

impl MEngine {
    pub fn new() -> Self {
        MEngine {
            templates: BTreeMap::new(),
            slots: vec![],
            fns: BTreeMap::new(),
            depth: 64,
            deffmt: None,
            steps: MAX_STEPS,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Render,
    Filter,
    Format,
    Io,
    Serialize,
    Syntax,
}

#[derive(Clone, Debug)]
pub enum Out {
    Ok,
    Err(ErrExp),
    Panic(u64),
}

#[derive(Clone, Debug)]
pub struct ErrExp {
    pub class: Class,
    /// text supplied by user code, if any
    pub msg: Option<String>,
    /// user code failed without a text: there is nothing after the kind
    pub bare: bool,
    /// template and source offset that must be blamed
    pub at: Option<(Option<String>, Arc<Compiled>, usize)>,
    /// other offsets that may be blamed when more than one thing is wrong
    pub also: Vec<usize>,
    pub by_user: bool,
    pub why: &'static str,
}

pub struct Expect {
    pub outcome: Out,
    pub out: Vec<u8>,
    pub st: CbState,
    /// events from here on may or may not have happened
    pub relaxed: Option<usize>,
    /// the documentation does not settle this case
    pub unspecified: bool,
    /// the run is too long to be worth executing
    pub too_big: bool,
    pub includes: usize,
    pub max_depth: usize,
    /// number of events before each variable passed by reference
    pub refs: Vec<usize>,
}

enum Stop {
    Err(ErrExp),
    Panic(u64),
}

type R<T> = Result<T, Stop>;

enum Sc {
    Fn,
    Root(Val),
    Var(String, Val),
    Loop { vars: Vec<String>, key: Option<String>, val: Val, i: usize, n: usize },
    Boundary,
}

struct Interp<'a> {
    eng: &'a MEngine,
    op: &'a RenderOp,
    st: CbState,
    out: Vec<u8>,
    budget: Option<usize>,
    scopes: Vec<Sc>,
    limit: usize,
    relaxed: Option<usize>,
    unspecified: bool,
    too_big: bool,
    includes: usize,
    max_depth: usize,
    steps: usize,
    refs: Vec<usize>,
    refuse: Option<usize>,
}

struct Tp {
    name: Option<String>,
    c: Arc<Compiled>,
}

/// Upper bound on interpreted nodes: scenarios that exceed it are not used.
const MAX_STEPS: usize = 40_000;
const MAX_OUT: usize = 3_000_000;

pub fn find_target(eng: &MEngine, t: &Target) -> Option<(Option<String>, Arc<Compiled>)> {
    match t {
        Target::Engine(n) => eng.templates.get(n).map(|c| (Some(n.clone()), c.clone())),
        Target::Slot(i) => eng.slots.get(*i).map(|c| (None, c.clone())),
    }
}

/// Run the reference on one render operation.
pub fn render(eng: &MEngine, op: &RenderOp) -> Expect {
    let (name, c) = find_target(eng, &op.target).expect("target checked by the caller");
    render_with(eng, op, name, c, None)
}

/// Like `render`, for any template. The `refuse`th variable passed by
/// reference is not accepted.
pub fn render_with(eng: &MEngine, op: &RenderOp, name: Option<String>, c: Arc<Compiled>, refuse: Option<usize>) -> Expect {
    let budget = match &op.out {
        OutKind::Sink(p) => p.fail_at_byte.as_ref().map(|(n, _)| *n as usize),
        _ => None,
    };
    let root = match op.kind {
        CtxKind::Fn(_) => Sc::Fn,
        _ => Sc::Root(op.val.clone()),
    };
    let mut it = Interp {
        eng,
        op,
        st: CbState::default(),
        out: Vec::new(),
        budget,
        scopes: vec![root],
        limit: op.depth.unwrap_or(eng.depth),
        relaxed: None,
        unspecified: false,
        too_big: false,
        includes: 0,
        max_depth: 1,
        steps: 0,
        refs: Vec::new(),
        refuse,
    };
    let tp = Tp { name, c: c.clone() };
    let r = it.template(&tp, &c, 1);
    let outcome = match r {
        Ok(()) => Out::Ok,
        Err(Stop::Err(e)) => Out::Err(e),
        Err(Stop::Panic(p)) => Out::Panic(p),
    };
    Expect {
        outcome,
        out: it.out,
        st: it.st,
        relaxed: it.relaxed,
        unspecified: it.unspecified,
        too_big: it.too_big,
        includes: it.includes,
        max_depth: it.max_depth,
        refs: it.refs,
    }
}

impl Interp<'_> {
    fn err<T>(&self, class: Class, msg: Option<String>, tp: &Tp, at: usize, why: &'static str) -> R<T> {
        let by_user = msg.is_some();
        Err(Stop::Err(ErrExp {
            class,
            msg,
            bare: false,
            at: Some((tp.name.clone(), tp.c.clone(), at)),
            also: Vec::new(),
            by_user,
            why,
        }))
    }

    fn emit(&mut self, s: &str) -> R<()> {
        if let Some(b) = self.budget {
            if self.out.len() + s.len() > b {
                // The sink takes what fits and then fails.
                let room = b - self.out.len();
                self.out.extend_from_slice(&s.as_bytes()[..room]);
                let (_, e) = match &self.op.out {
                    OutKind::Sink(p) => p.fail_at_byte.as_ref().unwrap(),
                    _ => unreachable!(),
                };
                if let SinkErr::Panic(id) = e {
                    return Err(Stop::Panic(*id));
                }
                return Err(Stop::Err(ErrExp {
                    class: Class::Io,
                    msg: None,
                    bare: false,
                    at: None,
                    also: Vec::new(),
                    by_user: true,
                    why: "sink failed",
                }));
            }
        }
        self.out.extend_from_slice(s.as_bytes());
        Ok(())
    }

    fn template(&mut self, tp: &Tp, c: &Compiled, depth: usize) -> R<()> {
        if c.opaque {
            self.unspecified = true;
            return Err(Stop::Panic(u64::MAX));
        }
        self.body(tp, &c.items, depth)
    }

    fn body(&mut self, tp: &Tp, items: &[LNode], depth: usize) -> R<()> {
        for n in items {
            self.steps += 1;
            if self.steps > self.eng.steps || self.out.len() > MAX_OUT {
                self.too_big = true;
                return Err(Stop::Panic(u64::MAX));
            }
            self.node(tp, n, depth)?;
        }
        Ok(())
    }

    fn node(&mut self, tp: &Tp, n: &LNode, depth: usize) -> R<()> {
        match n {
            LNode::Raw(i) => {
                let s = tp.c.raws[*i].clone();
                self.emit(&s)
            }
            LNode::Emit(e) => self.emit_expr(tp, e),
            LNode::If { arms, els } => {
                for (not, e, b) in arms {
                    if self.expr(tp, e)?.truthy() != *not {
                        return self.body(tp, b, depth);
                    }
                }
                match els {
                    Some(b) => self.body(tp, b, depth),
                    None => Ok(()),
                }
            }
            LNode::With { e, name, body } => {
                let v = self.expr(tp, e)?;
                self.scopes.push(Sc::Var(name.clone(), v));
                let r = self.body(tp, body, depth);
                self.scopes.pop();
                r
            }
            LNode::For { vars, vars_span, e, body } => {
                let v = self.expr(tp, e)?;
                let items: Vec<(Option<String>, Val)> = match (v, vars.len()) {
                    (Val::List(l), 1) => l.into_iter().map(|x| (None, x)).collect(),
                    (Val::Map(m), 2) => m.into_iter().map(|(k, x)| (Some(k), x)).collect(),
                    (Val::List(_), _) => {
                        return self.err(Class::Render, None, tp, vars_span.a, "two variables for a list")
                    }
                    (Val::Map(_), _) => {
                        return self.err(Class::Render, None, tp, vars_span.a, "one variable for a map")
                    }
                    _ => return self.err(Class::Render, None, tp, e.span.a, "not iterable"),
                };
                let n = items.len();
                for (i, (key, val)) in items.into_iter().enumerate() {
                    self.scopes.push(Sc::Loop { vars: vars.clone(), key, val, i, n });
                    let r = self.body(tp, body, depth);
                    self.scopes.pop();
                    r?;
                }
                Ok(())
            }
            LNode::Include { name, span, with } => {
                let ctx = match with {
                    Some(e) => Some(self.expr(tp, e)?),
                    None => None,
                };
                let target = if self.op.resolver.is_some() {
                    match self.op.cb_resolve(&mut self.st, name, self.out.len()) {
                        Cb::Ok(i) => self.eng.slots[i % self.eng.slots.len()].clone(),
                        Cb::Err(m) => return self.err(Class::Render, Some(m), tp, span.a, "resolver error"),
                        Cb::Panic(p) => return Err(Stop::Panic(p)),
                    }
                } else {
                    match self.eng.templates.get(name) {
                        Some(c) => c.clone(),
                        None => return self.err(Class::Render, None, tp, span.a, "unknown template"),
                    }
                };
                self.includes += 1;
                if depth + 1 > self.limit {
                    return Err(Stop::Err(ErrExp {
                        class: Class::Render,
                        msg: None,
                        bare: false,
                        at: None,
                        also: Vec::new(),
                        by_user: false,
                        why: "include depth",
                    }));
                }
                self.max_depth = self.max_depth.max(depth + 1);
                let inner = Tp { name: Some(name.clone()), c: target.clone() };
                match ctx {
                    Some(v) => {
                        self.scopes.push(Sc::Boundary);
                        self.scopes.push(Sc::Root(v));
                        let r = self.template(&inner, &target, depth + 1);
                        self.scopes.pop();
                        self.scopes.pop();
                        r
                    }
                    None => self.template(&inner, &target, depth + 1),
                }
            }
        }
    }

    fn base(&mut self, tp: &Tp, b: &LBase) -> R<Val> {
        match b {
            LBase::Lit { v, .. } => Ok(v.clone()),
            LBase::Var { path, span, first, members } => self.lookup(tp, path, *span, *first, members),
        }
    }

    fn walk(&self, tp: &Tp, mut v: &Val, rest: &[Member], spans: &[Span]) -> R<Val> {
        for (m, sp) in rest.iter().zip(spans) {
            let next = match (v, &m.acc) {
                (Val::Map(x), Acc::Key(k)) => x.get(k),
                (Val::List(x), Acc::Index(i)) => x.get(*i),
                _ => return self.err(Class::Render, None, tp, sp.a, "wrong kind of access"),
            };
            match next {
                Some(x) => v = x,
                None if m.opt => return Ok(Val::None),
                None => return self.err(Class::Render, None, tp, sp.a, "member not found"),
            }
        }
        Ok(v.clone())
    }

    fn lookup(&mut self, tp: &Tp, p: &Path, span: Span, first: Span, members: &[Span]) -> R<Val> {
        for i in (0..self.scopes.len()).rev() {
            match &self.scopes[i] {
                Sc::Fn => {
                    return match self.op.cb_lookup(&mut self.st, p, self.out.len()) {
                        Cb::Ok(v) => Ok(v),
                        Cb::Err(m) => self.err(Class::Render, Some(m), tp, span.a, "value function error"),
                        Cb::Panic(id) => Err(Stop::Panic(id)),
                    };
                }
                Sc::Root(Val::Map(m)) => {
                    if let Some(v) = m.get(&p.first) {
                        return self.walk(tp, v, &p.rest, members);
                    }
                }
                Sc::Root(_) => {}
                Sc::Var(n, v) if *n == p.first => {
                    return self.walk(tp, v, &p.rest, members);
                }
                Sc::Var(..) => {}
                Sc::Loop { vars, key, val, i, n } => {
                    if p.first == "loop" {
                        if p.rest.len() > 1 && p.rest[0].opt && !matches!(&p.rest[0].acc, Acc::Key(k) if ["index", "first", "last"].contains(&k.as_str())) {
                            // What may follow a missing optional member of
                            // `loop` is not documented.
                            self.unspecified = true;
                        }
                        let l = Val::map([
                            ("index", Val::Int(*i as i64)),
                            ("first", Val::Bool(*i == 0)),
                            ("last", Val::Bool(i + 1 == *n)),
                        ]);
                        return self.walk(tp, &l, &p.rest, members);
                    }
                    let hit = match key {
                        None if vars[0] == p.first => Some(val.clone()),
                        Some(k) if vars[0] == p.first => Some(Val::Str(k.clone())),
                        Some(_) if vars[1] == p.first => Some(val.clone()),
                        _ => None,
                    };
                    if let Some(v) = hit {
                        return self.walk(tp, &v, &p.rest, members);
                    }
                }
                Sc::Boundary => break,
            }
        }
        self.err(Class::Render, None, tp, first.a, "not found in scope")
    }

    fn expr(&mut self, tp: &Tp, e: &LExpr) -> R<Val> {
        let mut v = self.base(tp, &e.base)?;
        for c in &e.calls {
            v = self.call(tp, c, v)?;
        }
        Ok(v)
    }

    fn call(&mut self, tp: &Tp, c: &LCall, v: Val) -> R<Val> {
        match self.eng.fns.get(&c.name) {
            None => self.err(Class::Render, None, tp, c.span.a, "unknown filter"),
            Some(FnSpec::Fmt(_)) => self.err(Class::Render, None, tp, c.span.a, "formatter used as filter"),
            Some(spec @ FnSpec::Filter { shape, .. }) => self.filter(tp, c, spec, funcs::shape(*shape), v),
        }
    }

    fn filter(&mut self, tp: &Tp, c: &LCall, spec: &FnSpec, tys: &[funcs::Ty], v: Val) -> R<Val> {
        let ev0 = self.st.events.len();
        if tys.len() != c.args.len() + 1 {
            // Which of the things wrong with one application is reported
            // first, and which arguments were looked up before, is not
            // promised; record what might have been looked up.
            return self.misapplied(tp, c, tys, 0, ev0, c.span.a, "wrong number of arguments");
        }
        let Some(first) = tys[0].convert(&v) else {
            return self.misapplied(tp, c, tys, 0, ev0, c.span.a, "piped value of the wrong type");
        };
        let mut args = vec![first];
        for (i, a) in c.args.iter().enumerate() {
            let ty = tys[i + 1];
            let raw = self.base(tp, a)?;
            if ty.is_ref() && matches!(a, LBase::Var { .. }) {
                // Whether a variable can be passed by reference depends on
                // where it lives; the documentation leaves that open. It
                // is passed or refused.
                self.refs.push(self.st.events.len());
                if self.refuse == Some(self.refs.len() - 1) {
                    return self.misapplied(tp, c, tys, i + 1, ev0, a.span().a, "argument of the wrong type");
                }
            }
            match ty.convert(&raw) {
                Some(x) => args.push(x),
                None => return self.misapplied(tp, c, tys, i + 1, ev0, a.span().a, "argument of the wrong type"),
            }
        }
        match self.op.cb_filter(&mut self.st, &c.name, spec, &args, self.out.len()) {
            Cb::Ok(v) => Ok(v),
            Cb::Err(m) => self.err(Class::Filter, Some(m), tp, c.span.a, "filter error"),
            Cb::Panic(p) => Err(Stop::Panic(p)),
        }
    }

    fn misapplied<T>(
        &mut self,
        tp: &Tp,
        c: &LCall,
        tys: &[funcs::Ty],
        from: usize,
        ev0: usize,
        at: usize,
        why: &'static str,
    ) -> R<T> {
        self.relaxed = Some(ev0);
        // Which of several things wrong with one application is reported is
        // not promised either: any later argument that may not fit will do.
        let mut also = Vec::new();
        for (i, a) in c.args.iter().enumerate().skip(from) {
            let fits = match (a, tys.get(i + 1)) {
                (LBase::Lit { v, .. }, Some(t)) => t.convert(v).is_some(),
                _ => false,
            };
            if !fits {
                also.push(a.span().a);
                if let LBase::Var { first, members, .. } = a {
                    also.push(first.a);
                    also.extend(members.iter().map(|m| m.a));
                }
            }
        }
        match self.err(Class::Render, None, tp, at, why) {
            Err(Stop::Err(mut e)) => {
                e.also = also;
                Err(Stop::Err(e))
            }
            r => r,
        }
    }

    fn emit_expr(&mut self, tp: &Tp, e: &LExpr) -> R<()> {
        let mut v = self.base(tp, &e.base)?;
        for (i, c) in e.calls.iter().enumerate() {
            let last = i + 1 == e.calls.len();
            if last && c.args.is_empty() {
                if let Some(FnSpec::Fmt(f)) = self.eng.fns.get(&c.name) {
                    let f = f.clone();
                    return self.format(tp, &c.name, &f, &v, c.span.a);
                }
            }
            v = self.call(tp, c, v)?;
        }
        match self.eng.deffmt.clone() {
            Some(f) => self.format(tp, "default", &f, &v, e.span.a),
            None => match v.display() {
                Some(s) => self.emit(&s),
                None => self.err(Class::Format, None, tp, e.span.a, "unformattable value"),
            },
        }
    }

    fn format(&mut self, tp: &Tp, name: &str, f: &FmtSpec, v: &Val, at: usize) -> R<()> {
        let run = self.op.cb_format(&mut self.st, name, f, v, self.out.len());
        for p in &run.pieces {
            self.emit(p)?;
        }
        let _ = FmtKind::Def;
        match run.end {
            FmtEnd::Ok => Ok(()),
            FmtEnd::EngineErr => self.err(Class::Format, None, tp, at, "unformattable value"),
            FmtEnd::Panic(p) => Err(Stop::Panic(p)),
            FmtEnd::Err(Some(m)) => self.err(Class::Format, Some(m), tp, at, "formatter error"),
            FmtEnd::Err(None) => {
                let mut e = match self.err::<()>(Class::Format, None, tp, at, "bare formatter error") {
                    Err(Stop::Err(e)) => e,
                    _ => unreachable!(),
                };
                e.bare = true;
                e.by_user = true;
                // Without a message there is nothing to attach a location to.
                e.at = None;
                Err(Stop::Err(e))
            }
        }
    }
}
