//! Executes a scenario against the real engine and the reference side by side.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex};

use serde::{Deserialize, Serialize};
use upon::{Engine, EngineFn, Template};

use crate::alloc;
use crate::refparse::{self, Verdict};
use crate::avail;
use crate::ast::{self, line_col, Compiled, Node};
use crate::conv::{self, Got, Made, Stop};
use crate::funcs::{FmtSpec, FnSpec};
use crate::model::{self, *};
use crate::real::{self, Caught, ROut, Real, Witness};
use crate::rng::Fnv;
use crate::sched::{Point, Sched};
use crate::scen::*;
use crate::ser::{self, Script, SerStop};
use crate::val::Val;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Mismatch {
    pub kind: String,
    pub op: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
}

impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        if v > 0 {
            *self.n.entry(k.to_string()).or_insert(0) += v;
        }
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.n {
            *self.n.entry(k.clone()).or_insert(0) += v;
        }
    }
    pub fn get(&self, k: &str) -> u64 {
        self.n.get(k).copied().unwrap_or(0)
    }
}

struct Leaked {
    strs: Vec<*mut str>,
    fmts: Vec<Box<dyn std::any::Any>>,
}

impl Drop for Leaked {
    fn drop(&mut self) {
        for s in self.strs.drain(..) {
            drop(unsafe { Box::from_raw(s) });
        }
    }
}

pub struct Env {
    eng: Option<Engine<'static>>,
    slots: Vec<Box<Template<'static>>>,
    pub model: MEngine,
    docs: Vec<Arc<Compiled>>,
    nodes: Vec<Vec<Node>>,
    syn: ast::SyntaxSpec,
    pub mism: Mutex<Vec<Mismatch>>,
    pub stats: Mutex<Stats>,
    pub hash: Mutex<Fnv>,
    /// closures registered so far, by witness counter
    witnesses: Vec<(String, Arc<AtomicU32>, u32)>,
    leaked: Leaked,
    names: BTreeSet<String>,
    quiet_log: bool,
}

// The scheduler lets one thread run at a time; whether the engine itself may
// be shared is what P10 decides.
unsafe impl Sync for Env {}
unsafe impl Send for Env {}

pub struct EnvPtr(pub *const Env);
unsafe impl Send for EnvPtr {}
impl EnvPtr {
    pub fn get(&self) -> *const Env {
        self.0
    }
}

fn short(s: &str) -> String {
    if s.len() > 400 {
        format!("{}… ({} bytes)", &s[..floor_char(s, 400)], s.len())
    } else {
        s.to_string()
    }
}

fn show(b: &[u8]) -> String {
    short(&format!("{:?}", String::from_utf8_lossy(b)))
}

fn class_name(c: Class) -> &'static str {
    match c {
        Class::Render => "render error",
        Class::Filter => "filter error",
        Class::Format => "format error",
        Class::Io => "io error",
        Class::Serialize => "serialize error",
        Class::Syntax => "invalid syntax",
    }
}

pub struct Opts {
    /// run parallel phases as one thread after another, without stalls
    pub linear: bool,
    /// ignore nested operations
    pub no_nested: bool,
}

pub struct RunReport {
    pub valid: bool,
    pub mism: Vec<Mismatch>,
    pub stats: Stats,
    pub hash: u64,
    /// of each step outside of parallel phases
    pub parts: Vec<u64>,
    /// recorded scheduling decisions per parallel phase
    pub choices: Vec<Vec<u32>>,
}

pub fn opaque(src: String) -> Arc<Compiled> {
    Arc::new(Compiled { src, raws: vec![], items: vec![], tags: vec![], opaque: true })
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Rule {
    MustErr,
    MustOk,
    Any,
}

struct Reading {
    rule: Rule,
    /// where the text stops being a template, and why
    at: Option<(Vec<usize>, &'static str)>,
    /// what the text means
    parsed: Option<Arc<Compiled>>,
}

impl Env {
    pub fn engine(&self) -> &Engine<'static> {
        self.eng.as_ref().unwrap()
    }
    fn engine_mut(&mut self) -> &mut Engine<'static> {
        self.eng.as_mut().unwrap()
    }
    pub fn slot(&self, i: usize) -> &Template<'static> {
        &self.slots[i]
    }
    pub fn n_slots(&self) -> usize {
        self.slots.len()
    }

    fn bad(&self, kind: &str, op: &str, detail: String) {
        let mut g = self.mism.lock().unwrap_or_else(|e| e.into_inner());
        if g.len() < 50 {
            g.push(Mismatch { kind: kind.into(), op: op.into(), detail: short(&detail) });
        }
    }

    fn stat(&self, k: &str, v: u64) {
        if !self.quiet_log {
            self.stats.lock().unwrap_or_else(|e| e.into_inner()).add(k, v);
        }
    }

    /// An operation started from inside a callback.
    pub fn nested(&self, op: &Op, depth: usize) {
        self.stat("nested_operations", 1);
        self.shared_op(op, "nested", depth);
    }

    ////////////////////////////////////////////////////////////////////////
    // Operations that need no exclusive access
    ////////////////////////////////////////////////////////////////////////

    /// Returns a digest of everything observed.
    pub fn shared_op(&self, op: &Op, who: &str, depth: usize) -> u64 {
        let mut h = Fnv::new();
        match op {
            Op::Render(r) => {
                if model::find_target(&self.model, &r.target).is_none() {
                    return 0;
                }
                h.add_u64(self.render(r, None, who, depth));
            }
            Op::Get { name } => self.get(name, who),
            Op::Missing { name } => self.missing(name, who),
            Op::Compile { doc, damage, render, owned, .. } => {
                let (text, c) = self.text(*doc, damage);
                if let Some((t, c)) = self.compile(&text, c, damage, *owned, who, &mut h) {
                    if let Some(r) = render {
                        h.add_u64(self.render(r, Some((&t, c)), who, depth));
                    }
                }
            }
            Op::ToValue(s) => h.add_u64(self.to_value(s, who)),
            Op::Convert(m) => h.add_u64(self.convert(m, who)),
            _ => return 0,
        }
        self.stat("operations", 1);
        h.0
    }

    fn text(&self, doc: usize, damage: &Option<Damage>) -> (String, Arc<Compiled>) {
        let i = doc % self.docs.len();
        let c = self.docs[i].clone();
        match damage {
            None => (c.src.clone(), c),
            Some(d) => {
                let docs = &self.docs;
                let t = d.apply(&c.src, &|o| docs[o % docs.len()].src.clone());
                // What may stand in a name differs without that feature.
                let names = |c: char| !c.is_ascii() && (c.is_alphanumeric() || ('\u{300}'..='\u{36f}').contains(&c));
                if !avail::has(avail::UNICODE) && !matches!(d, Damage::Truncate(_)) && t.contains(names) {
                    return (c.src.clone(), c);
                }
                if t == c.src {
                    return (t, c);
                }
                (t, c)
            }
        }
    }

    fn rule(&self, c: &Compiled, text: &str, damage: &Option<Damage>) -> Rule {
        if text == c.src {
            return Rule::MustOk;
        }
        let Some(Damage::Truncate(_)) = damage else { return Rule::Any };
        let n = text.len();
        let mut depth = 0;
        for t in &c.tags {
            if t.start >= n {
                break;
            }
            if n < t.end {
                // What is left may end in another, shorter delimiter.
                let pats: Vec<_> = self.syn.patterns().into_iter().filter(|p| p.2).collect();
                let ended = || (t.open..=n).any(|i| text.is_char_boundary(i) && pats.iter().any(|p| text[i..] == p.0));
                return if n >= t.open && !ended() { Rule::MustErr } else { Rule::Any };
            }
            depth = t.depth;
        }
        if depth > 0 {
            Rule::MustErr
        } else {
            Rule::MustOk
        }
    }

    /// What the documentation says about a text.
    fn reading(&self, c: &Arc<Compiled>, text: &str, damage: &Option<Damage>) -> Reading {
        let rule = self.rule(c, text, damage);
        if text == c.src || text.len() > 600_000 {
            return Reading { rule, at: None, parsed: None };
        }
        match refparse::parse(text, &self.syn) {
            Verdict::Ok(p) => Reading { rule, at: None, parsed: Some(p) },
            Verdict::Err { at, why } => Reading { rule, at: Some((at, why)), parsed: None },
            Verdict::Unspecified => Reading { rule, at: None, parsed: None },
        }
    }

    /// The meaning of a truncated document, when it has one.
    fn prefix(&self, doc: usize, text: &str) -> Option<Arc<Compiled>> {
        let nodes = &self.nodes[doc % self.nodes.len()];
        if nodes.len() > 2_000 {
            return None;
        }
        for k in (0..=nodes.len()).rev() {
            let Ok(c) = ast::compile(&nodes[..k], &self.syn) else { continue };
            if c.src.len() > text.len() {
                if let Some(Node::Raw(r)) = nodes[..k].last() {
                    let cut = c.src.len() - text.len();
                    if cut < r.len() && r.is_char_boundary(r.len() - cut) {
                        let mut v = nodes[..k].to_vec();
                        *v.last_mut().unwrap() = Node::Raw(r[..r.len() - cut].to_string());
                        if let Ok(c) = ast::compile(&v, &self.syn) {
                            if c.src == text {
                                return Some(Arc::new(c));
                            }
                        }
                    }
                }
                continue;
            }
            return (c.src == text).then(|| Arc::new(c));
        }
        None
    }

    /// What a text is expected to mean if the engine accepts it.
    fn meaning(&self, doc: usize, c: &Arc<Compiled>, text: &str, x: &Reading) -> Arc<Compiled> {
        if text == c.src {
            return c.clone();
        }
        if let Some(p) = &x.parsed {
            return p.clone();
        }
        if x.rule == Rule::MustOk {
            if let Some(p) = self.prefix(doc, text) {
                return p;
            }
        }
        opaque(text.to_string())
    }

    fn check_compile(
        &self,
        r: &Result<(), &upon::Error>,
        x: &Reading,
        text: &str,
        name: Option<&str>,
        who: &str,
        h: &mut Fnv,
    ) {
        let rule = x.rule;
        match r {
            Ok(()) => {
                h.add(b"ok");
                if let Some((at, why)) = &x.at {
                    self.bad("syntax-accepted", who, format!("{text:?} is no template (at {at:?}: {why}) but was accepted"));
                }
                if x.parsed.is_some() {
                    self.stat("damaged_texts_that_are_templates", 1);
                }
                if rule == Rule::MustErr {
                    self.bad("accepted", who, format!("incomplete template text was accepted: {text:?}"));
                }
            }
            Err(e) => match real::err_text(e) {
                Err(p) => self.bad("panic", who, format!("printing the error panicked: {p}; text {text:?}")),
                Ok(t) => {
                    h.add(t.digest().as_bytes());
                    self.stat("compile_errors", 1);
                    if rule == Rule::MustOk {
                        self.bad("rejected", who, format!("{} for {text:?}", t.short));
                    }
                    if x.parsed.is_some() {
                        self.bad("syntax-rejected", who, format!("{} for the template {text:?}", t.short));
                    }
                    if let Some((at, why)) = &x.at {
                        self.stat(&format!("syntax_error.{}", why.replace(' ', "_")), 1);
                        let name = name.unwrap_or("<anonymous>");
                        let there = at.iter().any(|o| {
                            let (line, cols) = line_col(text, *o);
                            cols.iter().any(|c| t.long.contains(&format!("--> {name}:{line}:{c}\n")))
                        });
                        if !there {
                            let want: Vec<_> = at.iter().map(|o| line_col(text, *o)).collect();
                            self.bad(
                                "syntax-location",
                                who,
                                format!("{why} at {want:?} of {name:?}, but the error says {:?}; text {text:?}", t.long),
                            );
                        } else if let Some(what) = excerpt(text, name, &t) {
                            self.bad("excerpt", who, format!("{what} in {:?}; text {text:?}", t.long));
                        }
                    }
                    if !t.short.starts_with("invalid syntax") {
                        self.bad("class", who, format!("compiling failed with {:?}", t.short));
                    }
                    if let Some(n) = name {
                        if t.long.contains("-->") && !t.long.contains(&format!("--> {n}:")) {
                            self.bad("template", who, format!("compile error of {n:?} says {:?}", t.long));
                        }
                    }
                }
            },
        }
    }

    fn compile(
        &self,
        text: &str,
        c: Arc<Compiled>,
        damage: &Option<Damage>,
        owned: bool,
        who: &str,
        h: &mut Fnv,
    ) -> Option<(Template<'static>, Arc<Compiled>)> {
        self.compile_in(self.engine(), text, c, damage, owned, who, h)
    }

    /// An engine in which the names of this one mean something else.
    fn decoy(&self, syn: &ast::SyntaxSpec, fns: &[&String], templates: &[&String]) -> Engine<'static> {
        use std::fmt::Write as _;
        let mut e = new_engine(syn, 1);
        e.set_max_include_depth(1);
        e.set_default_formatter(&|f: &mut upon::fmt::Formatter<'_>, _: &upon::Value| Ok(f.write_str("DECOY")?));
        for &n in fns {
            e.add_formatter(n.clone(), |f: &mut upon::fmt::Formatter<'_>, _: &upon::Value| Ok(f.write_str("DECOY")?));
        }
        for &n in templates {
            let _ = e.add_template(n.clone(), "zq");
            if let Some(t) = e.get_template(n) {
                let _ = t.render_from(&upon::Value::None).to_string();
            }
        }
        e
    }

    #[allow(clippy::too_many_arguments)]
    fn compile_in(
        &self,
        engine: &Engine<'static>,
        text: &str,
        c: Arc<Compiled>,
        damage: &Option<Damage>,
        owned: bool,
        who: &str,
        h: &mut Fnv,
    ) -> Option<(Template<'static>, Arc<Compiled>)> {
        let x = self.reading(&c, text, damage);
        if damage.is_some() && text != c.src {
            self.stat("damaged_texts", 1);
            self.stat("fault.damaged_source", 1);
        }
        // A template compiled from owned text; for the borrowed route the text
        // is borrowed only while comparing.
        let r = real::guard(|| engine.compile(text.to_string()));
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                self.bad("panic", who, format!("compiling panicked: {p}; text {text:?}"));
                return None;
            }
        };
        if !owned {
            match real::guard(|| engine.compile(text).map(|t| t.source() == text)) {
                Err(p) => self.bad("panic", who, format!("compiling panicked: {p}; text {text:?}")),
                Ok(b) => {
                    if b.is_ok() != r.is_ok() || b.as_ref().map_or(false, |s| !*s) {
                        self.bad("route", who, format!("borrowed and owned compilation differ for {text:?}"));
                    }
                }
            }
        }
        self.check_compile(&r.as_ref().map(|_| ()), &x, text, None, who, h);
        match r {
            Ok(t) => {
                if t.source() != text {
                    self.bad("source", who, format!("source() is {:?}, not {text:?}", t.source()));
                }
                let m = if text == c.src {
                    c
                } else {
                    let doc = self.docs.iter().position(|d| Arc::ptr_eq(d, &c)).unwrap_or(0);
                    self.meaning(doc, &c, text, &x)
                };
                Some((t, m))
            }
            Err(_) => None,
        }
    }

    fn get(&self, name: &str, who: &str) {
        let want = self.model.templates.get(name).map(|c| c.src.as_str());
        match real::guard(|| self.engine().get_template(name).map(|t| t.source().to_string())) {
            Err(p) => self.bad("panic", who, format!("get_template panicked: {p}")),
            Ok(got) => {
                if got.as_deref() != want {
                    self.bad("registry", who, format!("lookup of {name:?}: got {got:?}, expected {want:?}"));
                }
            }
        }
    }

    fn missing(&self, name: &str, who: &str) {
        let exists = self.model.templates.contains_key(name);
        let r = real::guard(|| self.engine().template(name).source().to_string());
        match (exists, r) {
            (true, Ok(s)) => {
                if s != self.model.templates[name].src {
                    self.bad("registry", who, format!("template({name:?}) has source {s:?}"));
                }
            }
            (true, Err(p)) => self.bad("panic", who, format!("template({name:?}) panicked: {p}")),
            (false, Ok(s)) => self.bad("registry", who, format!("template({name:?}) exists: {s:?}")),
            (false, Err(_)) => self.stat("documented_panics", 1),
        }
    }

    fn to_value(&self, s: &Script, who: &str) -> u64 {
        let mut want_visits = 0;
        let want = ser::eval(s, &mut want_visits);
        let (got, visits) = real::to_value(s);
        let mut h = Fnv::new();
        match (&want, &got) {
            (Ok(v), Ok(Ok(g))) => {
                h.add(g.repr().as_bytes());
                if v != g {
                    self.bad("value", who, format!("{s:?} became {}, expected {}", g.repr(), v.repr()));
                }
            }
            (Err(SerStop::User(m)), Ok(Err(e))) => {
                self.stat("fault.serialize_error", 1);
                let t = format!("{e}");
                h.add(t.as_bytes());
                if !t.starts_with("serialize error") || !t.contains(m.as_str()) {
                    self.bad("message", who, format!("error {t:?} does not carry {m:?}"));
                }
            }
            (Err(SerStop::Engine), Ok(Err(e))) => {
                let t = format!("{e}");
                if !t.starts_with("serialize error") {
                    self.bad("class", who, format!("conversion failed with {t:?}"));
                }
            }
            (Err(SerStop::Panic(id)), Err(Caught::Sim(g))) if id == g => {
                self.stat("fault.serialize_panic", 1);
            }
            (w, Err(Caught::Engine(p))) => {
                self.bad("panic", who, format!("conversion panicked: {p}; expected {w:?}"))
            }
            (w, g) => {
                let g = match g {
                    Ok(Ok(v)) => v.repr(),
                    Ok(Err(e)) => e.to_string(),
                    Err(_) => "a panic".into(),
                };
                self.bad("outcome", who, format!("{s:?}: got {g}, expected {w:?}"))
            }
        }
        if matches!(want, Ok(_)) && visits != want_visits {
            self.bad("visits", who, format!("{visits} parts serialized, expected {want_visits}: {s:?}"));
        }
        if !matches!(want, Ok(_)) && visits > want_visits {
            self.bad("visits", who, format!("{visits} parts serialized, the failing one is number {want_visits}: {s:?}"));
        }
        h.0
    }

    /// Build a value from its parts.
    fn convert(&self, m: &Made, who: &str) -> u64 {
        let mut want_visits = 0;
        let want = conv::eval(m, &mut want_visits);
        let (got, visits) = conv::make(m);
        let mut h = Fnv::new();
        match (&want, &got) {
            (Ok(v), Got::Value(x)) => {
                let g = Val::from_upon(x);
                h.add(g.repr().as_bytes());
                if *v != g {
                    self.bad("value", who, format!("{m:?} became {}, expected {}", g.repr(), v.repr()));
                }
                if let Err(p) = real::guard(|| (format!("{x:?}"), format!("{x:#?}"))) {
                    self.bad("panic", who, format!("printing the value {} panicked: {p}", g.repr()));
                }
                if visits != want_visits {
                    self.bad("visits", who, format!("{visits} parts converted, expected {want_visits}: {m:?}"));
                }
                self.alike(x, who);
            }
            (Err(Stop::Ser(SerStop::User(t))), Got::Err(e)) => {
                self.stat("fault.serialize_error", 1);
                let s = e.to_string();
                h.add(s.as_bytes());
                if !s.starts_with("serialize error") || !s.contains(t.as_str()) {
                    self.bad("message", who, format!("error {s:?} does not carry {t:?}"));
                }
            }
            (Err(Stop::Ser(SerStop::Engine)), Got::Err(e)) => {
                let s = e.to_string();
                if !s.starts_with("serialize error") {
                    self.bad("class", who, format!("conversion failed with {s:?}"));
                }
            }
            (Err(Stop::Panic(id) | Stop::Ser(SerStop::Panic(id))), Got::Panic(Caught::Sim(g))) if id == g => {
                self.stat("fault.conversion_panic", 1);
            }
            (Err(Stop::Any), Got::Err(_) | Got::Panic(_)) => {}
            (Err(Stop::Macro), Got::Panic(Caught::Engine(_))) => self.stat("macro_cannot_fail", 1),
            (_, got) => {
                let g = match got {
                    Got::Value(v) => Val::from_upon(v).repr(),
                    Got::Err(e) => e.to_string(),
                    Got::Panic(Caught::Engine(p)) => format!("a panic: {p}"),
                    Got::Panic(Caught::Sim(id)) => format!("the panic {id}"),
                };
                self.bad("outcome", who, format!("{m:?}: got {g}, expected {want:?}"))
            }
        }
        h.0
    }

    /// A value equals its copies, and nothing else.
    fn alike(&self, x: &upon::Value, who: &str) {
        let v = Val::from_upon(x);
        let copy = x.clone();
        if v != Val::from_upon(&copy) || v != Val::from_upon(x.as_ref()) {
            self.bad("value", who, format!("a copy of {} is {}", v.repr(), Val::from_upon(&copy).repr()));
        }
        if (*x == copy) != !v.has_nan() {
            self.bad("value", who, format!("{} compares wrong with its copy", v.repr()));
        }
        for o in [v.altered(false), v.altered(true)].into_iter().flatten() {
            if *x == o.to_upon() {
                self.bad("value", who, format!("{} compares equal to {}", v.repr(), o.repr()));
            }
        }
    }

    ////////////////////////////////////////////////////////////////////////
    // Rendering
    ////////////////////////////////////////////////////////////////////////

    fn render(
        &self,
        op: &RenderOp,
        tmp: Option<(&Template<'static>, Arc<Compiled>)>,
        who: &str,
        depth: usize,
    ) -> u64 {
        // A context that fails to serialize never gets as far as rendering.
        let mut ser_want = None;
        let mut visits = 0;
        let mut mop = op.clone();
        if let Some(m) = &op.made {
            match conv::eval(m, &mut 0) {
                Ok(v) => mop.val = v,
                // Only a finished value can be rendered.
                Err(_) => return 0,
            }
        }
        if let Some(s) = &op.ser {
            match ser::eval(s, &mut visits) {
                Ok(v) => {
                    mop.val = v;
                    mop.kind = CtxKind::Serde;
                }
                Err(e) => ser_want = Some(e),
            }
        }
        if let Some(want) = ser_want {
            let r = real::render(self, op, tmp.as_ref().map(|t| t.0), depth, false);
            return self.check_ser(op, want, r, who);
        }
        let exp = match &tmp {
            Some((_, c)) => model::render_with(&self.model, &mop, None, c.clone(), None),
            None => model::render(&self.model, &mop),
        };
        if exp.too_big {
            self.stat("skipped_too_big", 1);
            return 0;
        }
        let r = real::render(self, op, tmp.as_ref().map(|t| t.0), depth, false);
        let exp = match exp.refs.is_empty() {
            true => exp,
            false => {
                let target = match &tmp {
                    Some((_, c)) => Some((None, c.clone())),
                    None => model::find_target(&self.model, &mop.target),
                };
                self.settle(&mop, exp, target, &r)
            }
        };
        self.compare(op, &exp, &r, who)
    }

    /// Which of the arguments that may or may not be passed by reference
    /// was refused.
    fn settle(
        &self,
        op: &RenderOp,
        exp: Expect,
        target: Option<(Option<String>, Arc<Compiled>)>,
        r: &Real,
    ) -> Expect {
        let ROut::Err(got) = &r.outcome else { return exp };
        let (Ok(t), Some((name, c))) = (real::err_text(got), target) else { return exp };
        let fits = |x: &Expect| {
            let Out::Err(ErrExp { at: Some(at), .. }) = &x.outcome else { return false };
            let (got, want) = (&r.run.st.events, &x.st.events);
            let least = x.relaxed.unwrap_or(want.len());
            r.out.as_ref().map_or(true, |o| *o == x.out)
                && points_at(&t.long, at)
                && (least..=want.len()).contains(&got.len())
                && got.iter().zip(want).all(|(g, w)| g.desc == w.desc)
        };
        if fits(&exp) || !t.short.starts_with(class_name(Class::Render)) {
            return exp;
        }
        let here = r.run.st.events.len();
        for k in 0..exp.refs.len() {
            if exp.refs[k].abs_diff(here) > 8 {
                continue;
            }
            let alt = model::render_with(&self.model, op, name.clone(), c.clone(), Some(k));
            if fits(&alt) {
                self.stat("refused_references", 1);
                return alt;
            }
        }
        exp
    }

    fn check_ser(&self, op: &RenderOp, want: SerStop, r: Real, who: &str) -> u64 {
        let mut h = Fnv::new();
        if !r.run.st.events.is_empty() || r.run.calls > 0 {
            self.bad(
                "partial",
                who,
                format!("rendering began although the context could not be serialized ({want:?})"),
            );
        }
        match (&want, &r.outcome) {
            (_, ROut::EnginePanic(p)) => self.bad("panic", who, p.clone()),
            (SerStop::Panic(a), ROut::SimPanic(b)) if a == b => self.stat("fault.serialize_panic", 1),
            (SerStop::Panic(_), _) => self.bad("payload", who, "the panic of the context was lost".into()),
            (_, ROut::NotConsumed) => {}
            (w, ROut::Err(e)) => {
                let t = e.to_string();
                h.add(t.as_bytes());
                self.stat("fault.serialize_error", 1);
                if !t.starts_with("serialize error") {
                    self.bad("class", who, format!("context failed with {w:?}, reported {t:?}"));
                }
                if let SerStop::User(m) = w {
                    if !t.contains(m.as_str()) {
                        self.bad("message", who, format!("error {t:?} does not carry {m:?}"));
                    }
                }
            }
            (w, ROut::Ok) => self.bad("outcome", who, format!("rendered although the context failed: {w:?}")),
            (w, ROut::SimPanic(_)) => self.bad("outcome", who, format!("panicked instead of {w:?}")),
        }
        self.drops(op, &r, who);
        h.0
    }

    fn drops(&self, _op: &RenderOp, r: &Real, who: &str) {
        if r.sinks != r.sink_drops {
            self.bad("drops", who, format!("{} sinks handed over, {} dropped", r.sinks, r.sink_drops));
        }
        if r.fn_made != r.fn_drops {
            self.bad("drops", who, format!("{} closures handed over, {} dropped", r.fn_made, r.fn_drops));
        }
    }

    fn compare(&self, op: &RenderOp, exp: &Expect, r: &Real, who: &str) -> u64 {
        let mut h = Fnv::new();
        let run = &r.run;
        self.stat("renders", 1);
        self.stat("callbacks", u64::from(run.st.n));
        self.stat("write_calls", u64::from(run.calls));
        self.stat("bytes", run.n_bytes as u64);
        self.stat("includes", exp.includes as u64);
        for (_, k) in &run.st.fired {
            self.stat(&format!("fault.{k}"), 1);
        }
        if let Some(k) = run.sink_fault {
            self.stat(&format!("fault.{k}"), 1);
        }
        self.stat("fault.sink_interrupted", u64::from(run.interrupts_fired));
        self.stat("fault.sink_short_write", u64::from(run.short_writes));
        for e in &run.st.events {
            h.add(e.desc.as_bytes());
        }
        if let Some(o) = &r.out {
            h.add(o);
        }
        match &r.outcome {
            ROut::Ok => h.add(b"ok"),
            ROut::Err(e) => match real::err_text(e) {
                Ok(t) => h.add(t.digest().as_bytes()),
                Err(p) => self.bad("panic", who, format!("printing the error panicked: {p}")),
            },
            ROut::SimPanic(p) => h.add_u64(*p),
            ROut::EnginePanic(m) => self.bad("panic", who, format!("the engine panicked: {m}; target {:?}", op.target)),
            ROut::NotConsumed => h.add(b"dropped"),
        }
        if run.writes_after_failure > 0 {
            self.bad(
                "sink-after-failure",
                who,
                format!("{} writes reached the sink after it had failed", run.writes_after_failure),
            );
        }
        if run.callbacks_after_failure > 0 {
            self.bad(
                "callback-after-failure",
                who,
                format!("{} callbacks ran after the sink had failed", run.callbacks_after_failure),
            );
        }
        self.drops(op, r, who);
        if r.early > 0 {
            self.bad("early", who, format!("{} effects before the renderer was consumed", r.early));
        }
        if let OutKind::Drop = op.out {
            if run.st.n > 0 || run.calls > 0 {
                self.bad("early", who, "a renderer that was never consumed had effects".into());
            }
            return h.0;
        }
        if exp.unspecified {
            self.stat("unspecified", 1);
            return h.0;
        }
        if let ROut::EnginePanic(_) = r.outcome {
            return h.0;
        }
        let call_fault = match &op.out {
            OutKind::Sink(p) => p.fail_at_call.as_ref().map(|(_, e)| e),
            _ => None,
        };
        if run.failed && call_fault.is_some() && !matches!(exp.outcome, Out::Err(ErrExp { class: Class::Io, .. })) {
            // The sink failed at a write call, and how output is cut into
            // write calls is not promised: the output is a prefix, the events
            // are a prefix, and the injected error comes back.
            let e = call_fault.unwrap();
            self.io_outcome(e, r, who);
            if !exp.out.starts_with(&run.bytes) {
                self.bad("bytes", who, format!("after a sink failure: got {}, full output {}", show(&run.bytes), show(&exp.out)));
            }
            self.events(exp, r, true, who);
            return h.0;
        }
        self.outcome(op, exp, r, who);
        match (&r.outcome, &r.out) {
            (_, Some(o)) if *o != exp.out => {
                self.bad("bytes", who, format!("got {}, expected {}", show(o), show(&exp.out)))
            }
            _ => {}
        }
        self.events(exp, r, false, who);
        h.0
    }

    fn events(&self, exp: &Expect, r: &Real, prefix: bool, who: &str) {
        let got = &r.run.st.events;
        let want = &exp.st.events;
        let n = match exp.relaxed {
            // The failing filter application may or may not have looked its
            // arguments up.
            Some(i) => i,
            None => want.len(),
        };
        for (i, g) in got.iter().enumerate() {
            match want.get(i) {
                Some(w) if w.desc == g.desc => {
                    if g.at > w.at {
                        self.bad(
                            "order",
                            who,
                            format!("{} was entered after {} bytes of output, expected at most {}", g.desc, g.at, w.at),
                        );
                        return;
                    }
                }
                _ if i >= n && exp.relaxed.is_some() => return,
                Some(w) => {
                    self.bad("trace", who, format!("callback {i} was {}, expected {}", short(&g.desc), short(&w.desc)));
                    return;
                }
                None => {
                    self.bad("trace", who, format!("unexpected callback {i}: {}", short(&g.desc)));
                    return;
                }
            }
        }
        if !prefix && got.len() < n {
            self.bad("trace", who, format!("callback {} never ran: {}", got.len(), short(&want[got.len()].desc)));
        }
    }

    fn io_outcome(&self, e: &SinkErr, r: &Real, who: &str) {
        match (e, &r.outcome) {
            (SinkErr::Panic(a), ROut::SimPanic(b)) if a == b => {}
            (SinkErr::Panic(_), _) => self.bad("payload", who, "the panic of the sink was lost".into()),
            (e, ROut::Err(err)) => {
                let src = std::error::Error::source(err).and_then(|s| s.downcast_ref::<std::io::Error>());
                match src {
                    Some(io) if real::same_err(e, io) => {}
                    Some(io) => self.bad("io-error", who, format!("injected {e:?}, reported {io:?}")),
                    None => self.bad("io-error", who, format!("injected {e:?}, reported {:?} without a source", err.to_string())),
                }
                if !err.to_string().starts_with("io error") {
                    self.bad("class", who, format!("a sink failure was reported as {:?}", err.to_string()));
                }
            }
            (e, _) => self.bad("io-error", who, format!("the sink failed with {e:?} but rendering did not fail")),
        }
    }

    fn outcome(&self, op: &RenderOp, exp: &Expect, r: &Real, who: &str) {
        match (&exp.outcome, &r.outcome) {
            (Out::Ok, ROut::Ok) => self.stat("outcome.ok", 1),
            (Out::Panic(a), ROut::SimPanic(b)) => {
                self.stat("outcome.panic", 1);
                if a != b {
                    self.bad("payload", who, format!("panic payload {b}, expected {a}"));
                }
            }
            (Out::Err(e), ROut::Err(got)) => {
                self.stat(&format!("outcome.{}", e.why), 1);
                self.error(op, e, got, r, who);
            }
            (w, g) => {
                let w = match w {
                    Out::Ok => "success".to_string(),
                    Out::Err(e) => format!("{} ({}, {:?})", class_name(e.class), e.why, e.msg),
                    Out::Panic(p) => format!("panic {p}"),
                };
                let g = match g {
                    ROut::Ok => "success".to_string(),
                    ROut::Err(e) => e.to_string(),
                    ROut::SimPanic(p) => format!("panic {p}"),
                    _ => "?".into(),
                };
                self.bad("outcome", who, format!("{:?}: got {g}, expected {w}", op.target));
            }
        }
    }

    fn error(&self, op: &RenderOp, e: &ErrExp, got: &upon::Error, r: &Real, who: &str) {
        if e.class == Class::Io {
            let inj = match &op.out {
                OutKind::Sink(p) => p.fail_at_byte.as_ref().map(|x| &x.1),
                _ => None,
            };
            if let Some(inj) = inj {
                self.io_outcome(inj, r, who);
            }
            return;
        }
        let Ok(t) = real::err_text(got) else { return };
        if !t.short.starts_with(class_name(e.class)) {
            self.bad("class", who, format!("got {:?}, expected a {} ({})", t.short, class_name(e.class), e.why));
            return;
        }
        if let Some(m) = &e.msg {
            if !t.short.contains(m.as_str()) || !t.long.contains(m.as_str()) {
                self.bad("message", who, format!("got {:?}, expected {m:?}", t.short));
            }
        }
        if e.bare && t.short.contains("remapped") {
            self.bad("message", who, format!("a bare error became {:?}", t.short));
        }
        let Some((name, c, off)) = &e.at else { return };
        let (line, cols) = line_col(&c.src, *off);
        let name = name.as_deref().unwrap_or("<anonymous>");
        if !t.long.contains(&format!("--> {name}:")) {
            self.bad("template", who, format!("expected template {name:?} to be blamed ({}): {}", e.why, t.long));
            return;
        }
        let here = |(line, cols): (usize, Vec<usize>)| {
            cols.iter().any(|col| t.long.contains(&format!("--> {name}:{line}:{col}\n")))
        };
        if !here((line, cols)) && !e.also.iter().any(|o| here(line_col(&c.src, *o))) {
            self.bad(
                match e.why {
                    "wrong number of arguments" | "piped value of the wrong type" | "argument of the wrong type" => "arg-location",
                    _ if e.by_user => "location",
                    _ => "engine-location",
                },
                who,
                format!("expected {name}:{:?} ({}), got {}", line_col(&c.src, *off), e.why, t.long),
            );
        } else if let Some(what) = excerpt(&c.src, name, &t) {
            self.bad("excerpt", who, format!("{what} in {:?}; text {:?}", t.long, c.src));
        }
    }

    ////////////////////////////////////////////////////////////////////////
    // Operations that need exclusive access
    ////////////////////////////////////////////////////////////////////////

    fn exclusive_op(&mut self, op: &Op, who: &str) -> u64 {
        let mut h = Fnv::new();
        match op {
            Op::Add { name, doc, damage, owned } => {
                if !self.quiet_log {
                    self.names.insert(name.clone());
                }
                let (text, c) = self.text(*doc, damage);
                let x = self.reading(&c, &text, damage);
                if damage.is_some() && text != c.src {
                    self.stat("fault.damaged_source", 1);
                }
                // Registering must accept exactly what compiling accepts.
                let alt = real::guard(|| self.engine().compile(text.as_str()).map(drop));
                let r = if *owned {
                    let t = text.clone();
                    let eng = self.engine_mut();
                    real::guard(|| eng.add_template(name.clone(), t))
                } else {
                    let p: *mut str = Box::into_raw(text.clone().into_boxed_str());
                    self.leaked.strs.push(p);
                    let n: *mut str = Box::into_raw(name.clone().into_boxed_str());
                    self.leaked.strs.push(n);
                    let (s, n): (&'static str, &'static str) = unsafe { (&*p, &*n) };
                    let eng = self.engine_mut();
                    real::guard(|| eng.add_template(n, s))
                };
                let r = match r {
                    Ok(r) => r,
                    Err(p) => {
                        self.bad("panic", who, format!("add_template panicked: {p}; text {text:?}"));
                        return 0;
                    }
                };
                if let Ok(alt) = &alt {
                    if alt.is_ok() != r.is_ok() {
                        self.bad("route", who, format!("add_template and compile disagree on {text:?}"));
                    }
                }
                self.check_compile(&r.as_ref().map(|_| ()), &x, &text, Some(name), who, &mut h);
                if r.is_ok() {
                    let m = self.meaning(doc % self.docs.len(), &c, &text, &x);
                    self.model.templates.insert(name.clone(), m);
                } else {
                    self.stat("failed_adds", 1);
                }
            }
            Op::Remove { name } => {
                if !self.quiet_log {
                    self.names.insert(name.clone());
                }
                let want = self.model.templates.remove(name).is_some();
                let eng = self.engine_mut();
                match real::guard(|| eng.remove_template(name)) {
                    Err(p) => self.bad("panic", who, format!("remove_template panicked: {p}")),
                    Ok(got) if got != want => {
                        self.bad("registry", who, format!("remove_template({name:?}) returned {got}"))
                    }
                    Ok(_) => {}
                }
            }
            Op::AddFn { name, f } => {
                let want = self.model.fns.insert(name.clone(), f.clone()).map(|f| fn_kind(&f));
                let w = Arc::new(AtomicU32::new(0));
                let eng = self.eng.as_mut().unwrap();
                let wit = Witness(w.clone());
                match real::guard(|| real::add_fn(eng, name, f, wit)) {
                    Err(p) => self.bad("panic", who, format!("registering a function panicked: {p}")),
                    Ok(got) if got != want => self.bad(
                        "registry",
                        who,
                        format!("registering function {name:?} returned {got:?}, expected {want:?}"),
                    ),
                    Ok(_) => {}
                }
                self.retire(name);
                self.witnesses.push((name.clone(), w, 0));
                self.check_witnesses(who);
            }
            Op::RemoveFn { name } => {
                let want = self.model.fns.remove(name).map(|f| fn_kind(&f));
                let eng = self.engine_mut();
                match real::guard(|| eng.remove_function(name)) {
                    Err(p) => self.bad("panic", who, format!("remove_function panicked: {p}")),
                    Ok(got) if got != want => self.bad(
                        "registry",
                        who,
                        format!("remove_function({name:?}) returned {got:?}, expected {want:?}"),
                    ),
                    Ok(_) => {}
                }
                self.retire(name);
                self.check_witnesses(who);
            }
            Op::SetDepth(d) => {
                self.model.depth = *d;
                let d = *d;
                self.engine_mut().set_max_include_depth(d);
            }
            Op::SetFmt(spec) => {
                self.model.deffmt = Some(spec.clone());
                self.set_fmt(spec.clone());
            }
            Op::Compile { doc, damage, keep: true, owned, .. } => {
                let (text, c) = self.text(*doc, damage);
                if let Some((t, m)) = self.compile(&text, c, damage, *owned, who, &mut h) {
                    self.slots.push(Box::new(t));
                    self.model.slots.push(m);
                }
            }
            Op::CompileAway { doc } => {
                let (text, c) = self.text(*doc, &None);
                let Ok(away) = real::guard(|| {
                    let (f, t): (Vec<_>, Vec<_>) = (self.model.fns.keys().collect(), self.model.templates.keys().collect());
                    self.decoy(&self.syn, &f, &t)
                }) else {
                    self.bad("panic", who, "setting up another engine panicked".to_string());
                    return 0;
                };
                let got = self.compile_in(&away, &text, c, &None, true, who, &mut h);
                drop(away);
                if let Some((t, m)) = got {
                    self.slots.push(Box::new(t));
                    self.model.slots.push(m);
                }
            }
            Op::Repeat { op, n } => return self.repeat(op, *n, who),
            op => return self.shared_op(op, who, 0),
        }
        self.stat("operations", 1);
        h.0
    }

    /// The first and the last time are compared with the reference, those in
    /// between with the first.
    fn repeat(&mut self, op: &Op, n: u32, who: &str) -> u64 {
        let before = self.mism.lock().unwrap_or_else(|e| e.into_inner()).len();
        let first = self.exclusive_op(op, who);
        if first == 0 || self.mism.lock().unwrap_or_else(|e| e.into_inner()).len() > before {
            return first;
        }
        let mut done = 0;
        match op {
            Op::Render(r) if r.ser.is_none() && r.made.is_none() => {
                let r = &Arc::new(r.clone());
                let Some(x) = self.quick(r, None) else { return first };
                let n = n.min(n_cap(n) / (x.1 as u32 + 300));
                for i in 0..n {
                    done = i + 2;
                    match self.quick(r, None) {
                        Some(y) if y.0 == x.0 => {}
                        y => {
                            let d = format!("render {done} of the same thing differs from the first: {:?} bytes and events, at first {}", y.map(|y| y.1), x.1);
                            self.bad("repetition", who, d);
                            break;
                        }
                    }
                }
            }
            Op::Compile { doc, damage, keep: false, owned, render } => {
                let (text, _) = self.text(*doc, damage);
                let n = n.min(n_cap(n) / (8 * text.len() as u32 + 300));
                let render = render.as_ref().filter(|r| r.ser.is_none() && r.made.is_none()).map(|r| Arc::new((**r).clone()));
                let once = |env: &Env| -> Option<(u64, usize)> {
                    let r = match owned {
                        true => real::guard(|| env.engine().compile(text.to_string())),
                        false => real::guard(|| env.engine().compile(text.as_str()).map(|t| {
                            drop(t);
                            env.engine().compile(text.to_string()).expect("it was a template")
                        })),
                    };
                    let mut h = Fnv::new();
                    let mut size = 0;
                    match r.ok()? {
                        Ok(t) => {
                            h.add(t.source().as_bytes());
                            if let Some(r) = &render {
                                let q = env.quick(r, Some(&t))?;
                                h.add_u64(q.0);
                                size = q.1;
                            }
                        }
                        Err(e) => h.add(real::err_text(&e).ok()?.digest().as_bytes()),
                    }
                    Some((h.0, size))
                };
                let Some(x) = once(self) else { return first };
                let n = n.min(n_cap(n) / (x.1 as u32 + 300));
                for i in 0..n {
                    done = i + 2;
                    if once(self).map(|y| y.0) != Some(x.0) {
                        self.bad("repetition", who, format!("compiling {text:?} for the {done}th time differs from the first"));
                        break;
                    }
                }
            }
            _ => {
                for i in 0..n.min(600) {
                    done = i + 2;
                    self.exclusive_op(op, who);
                }
            }
        }
        self.stat("repetitions", u64::from(done));
        self.exclusive_op(op, who);
        first
    }

    /// A digest of one render, and how much happened.
    fn quick(&self, op: &Arc<RenderOp>, tmp: Option<&Template<'static>>) -> Option<(u64, usize)> {
        if tmp.is_none() {
            model::find_target(&self.model, &op.target)?;
        }
        let r = real::render_shared(self, op, tmp, 0, false);
        let mut h = Fnv::new();
        for e in &r.run.st.events {
            h.add(e.desc.as_bytes());
        }
        if let Some(o) = &r.out {
            h.add(o);
        }
        match &r.outcome {
            ROut::Ok => h.add(b"ok"),
            ROut::Err(e) => h.add(real::err_text(e).ok()?.digest().as_bytes()),
            ROut::SimPanic(p) => h.add_u64(*p),
            ROut::EnginePanic(m) => h.add(m.as_bytes()),
            ROut::NotConsumed => h.add(b"dropped"),
        }
        let nested = op.faults.values().map(|f| match f {
            Fault::Deep { n, .. } => *n as usize,
            f => usize::from(f.nested().is_some()),
        }).sum::<usize>();
        let size = r.run.st.events.len() * 60
            + r.run.calls as usize * 20
            + r.run.n_bytes
            + r.out.as_ref().map_or(0, Vec::len)
            + op.val.size() * 10
            + nested * 100_000;
        Some((h.0, size))
    }

    fn retire(&mut self, name: &str) {
        // The closure registered before under this name must be gone.
        for w in &mut self.witnesses {
            if w.0 == name {
                w.2 = 1;
            }
        }
    }

    fn check_witnesses(&mut self, who: &str) {
        for (n, w, want) in &self.witnesses {
            let got = w.load(Ordering::SeqCst);
            if got != *want {
                let d = format!("closure of function {n:?} was dropped {got} times, expected {want}");
                self.bad("drops", who, d);
                break;
            }
        }
        self.witnesses.retain(|w| w.2 == 0);
    }

    fn set_fmt(&mut self, spec: FmtSpec) {
        let f = Box::new(move |out: &mut upon::fmt::Formatter<'_>, v: &upon::Value| {
            real::run_formatter(out, v, "default", &spec)
        });
        self.install(f);
    }

    fn install<F>(&mut self, f: Box<F>)
    where
        F: Fn(&mut upon::fmt::Formatter<'_>, &upon::Value) -> upon::fmt::Result + Send + Sync + 'static,
    {
        let p: *mut F = Box::into_raw(f);
        let r: &'static F = unsafe { &*p };
        self.engine_mut().set_default_formatter(r);
        self.leaked.fmts.push(unsafe { Box::from_raw(p) } as Box<dyn std::any::Any>);
    }

    /// All names that were ever used, checked against the map.
    fn probe(&self, who: &str) {
        for n in &self.names {
            self.get(n, who);
        }
    }
}

fn fn_kind(f: &FnSpec) -> EngineFn {
    match f {
        #[cfg(feature = "ff")]
        FnSpec::Filter { .. } => EngineFn::Filter,
        #[cfg(not(feature = "ff"))]
        FnSpec::Filter { .. } => unreachable!("no filters in this build"),
        FnSpec::Fmt(_) => EngineFn::Formatter,
    }
}

/// Much work is not done as often.
fn n_cap(n: u32) -> u32 {
    if n > 10_000 {
        30_000_000
    } else {
        2_000_000
    }
}

fn strip(op: &Op, o: &Opts) -> Op {
    let mut op = op.clone();
    let fix = |r: &mut RenderOp| {
        r.faults.retain(|_, f| match f {
            f if f.nested().is_some() => !o.no_nested,
            Fault::Stall => !o.linear,
            _ => true,
        });
    };
    match &mut op {
        Op::Render(r) => fix(r),
        Op::Compile { render: Some(r), .. } => fix(r),
        Op::Repeat { op, .. } => **op = strip(op, o),
        _ => {}
    }
    op
}

pub fn run(sc: &Scenario, opts: &Opts) -> RunReport {
    let _watch = crate::cover::Watch::new();
    crate::avail::set(sc.feats);
    let mut rep = RunReport { valid: true, mism: vec![], stats: Stats::default(), hash: 0, parts: vec![], choices: vec![] };
    let mut docs = Vec::new();
    for d in &sc.docs {
        match ast::compile(d, &sc.syntax) {
            Ok(c) => docs.push(Arc::new(c)),
            Err(_) => {
                rep.valid = false;
                return rep;
            }
        }
    }
    if docs.is_empty() {
        docs.push(Arc::new(ast::compile(&[], &sc.syntax).unwrap()));
    }
    let mut nodes = sc.docs.clone();
    if nodes.is_empty() {
        nodes.push(vec![]);
    }
    let live0 = alloc::live();
    let mut model = MEngine::new();
    if sc.big {
        model.steps = crate::big::STEPS;
    }
    let mut env = Env {
        eng: None,
        slots: vec![],
        model,
        docs,
        nodes,
        syn: sc.syntax.clone(),
        mism: Mutex::new(vec![]),
        stats: Mutex::new(Stats::default()),
        hash: Mutex::new(Fnv::new()),
        witnesses: vec![],
        leaked: Leaked { strs: vec![], fmts: vec![] },
        names: BTreeSet::new(),
        quiet_log: false,
    };
    let _ = live0;
    let spec = sc.syntax.clone();
    let away = |p: &Phase| matches!(p, Phase::Seq(ops) if ops.iter().any(|o| matches!(o, Op::CompileAway { .. })));
    // It exists before and as long as the other.
    let _before = sc.phases.iter().any(away).then(|| {
        let (mut fns, mut templates) = (vec![], vec![]);
        for p in &sc.phases {
            let Phase::Seq(ops) = p else { continue };
            for o in ops {
                match o {
                    Op::AddFn { name, .. } => fns.push(name),
                    Op::Add { name, .. } => templates.push(name),
                    _ => {}
                }
            }
        }
        real::guard(|| env.decoy(&ast::SyntaxSpec::other_than(&env.syn), &fns, &templates))
    });
    match real::guard(|| {
        new_engine(&spec, sc.docs.len())
    }) {
        Ok(e) => env.eng = Some(e),
        Err(p) => {
            rep.mism.push(Mismatch {
                kind: "panic".into(),
                op: "new".into(),
                detail: format!("creating an engine with {:?} panicked: {p}", sc.syntax),
            });
            return rep;
        }
    }
    let mut h = Fnv::new();
    let mut parts = Vec::new();
    for (pi, ph) in sc.phases.iter().enumerate() {
        match ph {
            Phase::Seq(ops) => {
                for (i, op) in ops.iter().enumerate() {
                    let op = strip(op, opts);
                    let who = format!("phase {pi} op {i}");
                    let d = env.exclusive_op(&op, &who);
                    h.add_u64(d);
                    parts.push(d);
                    if !matches!(op, Op::Render(_)) {
                        env.probe(&who);
                    }
                }
                env.probe(&format!("phase {pi} end"));
            }
            Phase::Par { threads, sched } => {
                if opts.linear {
                    for (t, ops) in threads.iter().enumerate() {
                        for (i, op) in ops.iter().enumerate() {
                            let op = strip(op, opts);
                            h.add_u64(env.shared_op(&op, &format!("phase {pi} thread {t} op {i}"), 0));
                        }
                    }
                    continue;
                }
                let (d, choices) = run_par(&env, pi, threads, sched, opts);
                h.add_u64(d);
                rep.choices.push(choices);
            }
            Phase::Cycle { ops, n } => h.add_u64(cycle(&mut env, pi, ops, *n, opts)),
            Phase::Scale { small, large, slack } => h.add_u64(scale(&env, pi, small, large, *slack)),
        }
    }
    // Tear everything down: every closure must be dropped exactly once.
    env.slots.clear();
    let eng = env.eng.take();
    if let Err(p) = real::guard(|| drop(eng)) {
        env.bad("panic", "drop", format!("dropping the engine panicked: {p}"));
    }
    for w in &mut env.witnesses {
        w.2 = 1;
    }
    env.check_witnesses("engine dropped");
    rep.mism.append(&mut env.mism.lock().unwrap_or_else(|e| e.into_inner()));
    rep.stats = std::mem::take(&mut *env.stats.lock().unwrap_or_else(|e| e.into_inner()));
    rep.hash = h.0;
    rep.parts = parts;
    rep
}

fn run_par(env: &Env, pi: usize, threads: &[Vec<Op>], spec: &SchedSpec, opts: &Opts) -> (u64, Vec<u32>) {
    let n = threads.len();
    let sched = Arc::new(Sched::new(n, spec));
    let digests: Vec<Mutex<u64>> = (0..n).map(|_| Mutex::new(0)).collect();
    std::thread::scope(|s| {
        for (t, ops) in threads.iter().enumerate() {
            let sched = sched.clone();
            let digests = &digests;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    real::enter_sched(&sched, t);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut h = Fnv::new();
                        for (i, op) in ops.iter().enumerate() {
                            let op = strip(op, opts);
                            real::yield_now(Point::Op);
                            h.add_u64(env.shared_op(&op, &format!("phase {pi} thread {t} op {i}"), 0));
                        }
                        h.0
                    }));
                    match r {
                        Ok(d) => *digests[t].lock().unwrap() = d,
                        Err(_) => env.bad("panic", "thread", real::take_last_panic()),
                    }
                    real::leave_sched(false);
                })
                .unwrap();
        }
        sched.kick();
        sched.supervise();
        let r = sched.report();
        if r.deadlock {
            env.bad("deadlock", "schedule", "threads sharing the engine are stuck".into());
            // Nothing can unstick them: leave through the crash path.
            crate::worker::fatal("deadlock", env.mism.lock().unwrap_or_else(|e| e.into_inner()).clone());
        }
    });
    let r = sched.report();
    if let Some((b, p)) = r.blocked {
        env.bad(
            "blocked",
            "schedule",
            format!("thread {b} cannot proceed while thread {p} is paused inside a callback or sink"),
        );
    }
    env.stat("context_switches", r.switches);
    env.stat("context_switches_inside_engine", r.alloc_switches);
    env.stat("fault.stalled_callback", r.stalls);
    env.stat("rescued", r.rescued);
    let mut h = Fnv::new();
    h.add_u64(r.hash);
    for d in &digests {
        h.add_u64(*d.lock().unwrap());
    }
    (h.0, r.choices)
}

/// Stands for the number of the cycle in names, texts and data.
const PLACE: &str = "000000";

fn cycle(env: &mut Env, pi: usize, ops: &[Op], n: usize, opts: &Opts) -> u64 {
    let n = n.max(8);
    let mut h = Fnv::new();
    let ops: Vec<Op> = ops.iter().map(|o| strip(o, opts)).collect();
    let who = format!("phase {pi} cycle");
    // Once loudly, so that everything is compared.
    for op in &ops {
        h.add_u64(env.exclusive_op(op, &who));
    }
    env.quiet_log = true;
    let mut marks = Vec::with_capacity(n + 4);
    let held = |e: &Env| (e.model.templates.len(), e.model.fns.len(), e.slots.len(), e.leaked.strs.len());
    let held0 = held(env);
    let vary: Vec<Option<String>> = ops
        .iter()
        .map(|o| serde_json::to_string(o).ok().filter(|s| s.contains(PLACE)))
        .collect();
    for i in 0..n + 3 {
        for (op, v) in ops.iter().zip(&vary) {
            match v {
                None => env.exclusive_op(op, &who),
                Some(s) => {
                    let s = s.replace(PLACE, &format!("{i:06}"));
                    let op: Op = crate::worker::json(&s).unwrap_or_else(|_| op.clone());
                    env.exclusive_op(&op, &who)
                }
            };
        }
        env.leaked_trim();
        marks.push(alloc::live());
    }
    env.quiet_log = false;
    env.stat("cycles", n as u64);
    if held(env) != held0 {
        // The operations themselves keep adding things.
        return h.0;
    }
    let base = marks[2];
    let mid = marks[2 + n / 2];
    let end = marks[2 + n];
    if end - mid >= (n / 2) as i64 && mid - base >= (n / 2) as i64 {
        env.bad("leak", &who, format!("live memory grew from {base} to {mid} to {end} bytes over {n} cycles"));
    }
    h.add_u64(n as u64);
    h.0
}

impl Env {
    fn leaked_trim(&mut self) {
        // Replaced default formatters are never called again.
        let k = self.leaked.fmts.len();
        if k > 1 {
            self.leaked.fmts.drain(..k - 1);
        }
    }
}

fn scale(env: &Env, pi: usize, small: &RenderOp, large: &RenderOp, slack: usize) -> u64 {
    let mut h = Fnv::new();
    let who = format!("phase {pi} scale");
    let mut measure = |op: &RenderOp| -> Option<i64> {
        if model::find_target(&env.model, &op.target).is_none() {
            return None;
        }
        let exp = model::render(&env.model, op);
        if exp.too_big || exp.unspecified {
            return None;
        }
        let mut peak = i64::MAX;
        for _ in 0..2 {
            let r = real::render_measured(env, op);
            env.stat("renders", 1);
            peak = peak.min(r.1);
            let mut want = crate::rng::Fnv0::default();
            want.add(&exp.out);
            h.add_u64(want.get());
            if r.0.run.hash.get() != want.get() || r.0.run.n_bytes != exp.out.len() {
                env.bad("bytes", &who, "output of a large render differs".into());
            }
            match (&r.0.outcome, &exp.outcome) {
                (ROut::Ok, Out::Ok) | (ROut::Err(_), Out::Err(_)) => {}
                _ => env.bad("outcome", &who, "outcome of a large render differs".into()),
            }
        }
        Some(peak)
    };
    let (Some(a), Some(b)) = (measure(small), measure(large)) else { return 0 };
    env.stat("scale_pairs", 1);
    if b - a > slack as i64 {
        env.bad(
            "memory",
            &who,
            format!("rendering to a sink needed {a} bytes for the small and {b} bytes for the large data set"),
        );
    }
    h.0
}

pub fn val_size(v: &Val) -> usize {
    match v {
        Val::List(l) => 1 + l.iter().map(val_size).sum::<usize>(),
        Val::Map(m) => 1 + m.values().map(val_size).sum::<usize>(),
        _ => 1,
    }
}

fn points_at(long: &str, (name, c, off): &(Option<String>, Arc<Compiled>, usize)) -> bool {
    let name = name.as_deref().unwrap_or("<anonymous>");
    let (line, cols) = line_col(&c.src, *off);
    cols.iter().any(|col| long.contains(&format!("--> {name}:{line}:{col}\n")))
}

/// The long form of an error quotes the line it names, marks the column it
/// names, and repeats the reason.
fn excerpt(src: &str, name: &str, t: &real::ErrText) -> Option<String> {
    let from = t.long.find(&format!("--> {name}:"))?;
    let at = &t.long[from + name.len() + 5..];
    let (at, rest) = at.split_once('\n')?;
    let (line, col) = at.split_once(':')?;
    let (line, col): (usize, usize) = (line.parse().ok()?, col.parse().ok()?);
    let quoted = src.split('\n').nth(line - 1).unwrap_or("");
    let head = format!(" {line} | {quoted}\n");
    let Some(i) = rest.find(&head) else {
        return Some(format!("line {line} is not quoted"));
    };
    let below = rest[i + head.len()..].split('\n').next().unwrap_or("");
    let marks = below.split_once("| ").map_or("", |x| x.1);
    match marks.find(|c| c != ' ') {
        Some(n) if n + 1 == col && marks.as_bytes()[n] == b'^' => {}
        _ => return Some(format!("column {col} is not marked")),
    }
    if let Some((_, reason)) = t.short.split_once(": ") {
        if !t.long.contains(reason) {
            return Some("another reason".into());
        }
    }
    None
}

/// Three ways to the same engine.
fn new_engine(spec: &ast::SyntaxSpec, way: usize) -> Engine<'static> {
    if *spec != ast::SyntaxSpec::default_spec() {
        return Engine::with_syntax(spec.to_upon());
    }
    match way % 4 {
        0 => Engine::default(),
        1 => Engine::with_syntax(spec.to_upon()),
        _ => Engine::new(),
    }
}
