//! Command line: the parent that spreads seeded runs over worker processes,
//! the workers, replay, and the evidence.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value as J};

use crate::avail;
use crate::cover;
use crate::exec::{self, Mismatch, Opts, Stats};
use crate::minimise;
use crate::props;
use crate::real;
use crate::rng::{mix, Fnv};
use crate::scen::{Phase, Scenario};

const OPTS: Opts = Opts { linear: false, no_nested: false };
const STACK: usize = 256 << 20;
/// Without any progress for this long, a worker is suspected to hang.
const HANG: Duration = Duration::from_secs(60);
/// The same when none of its threads is even runnable.
const IDLE: Duration = Duration::from_secs(8);

////////////////////////////////////////////////////////////////////////////////
// One run
////////////////////////////////////////////////////////////////////////////////

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunOut {
    pub valid: bool,
    pub hash: u64,
    pub sched: u64,
    /// the digest of each step
    #[serde(default)]
    pub parts: Vec<u64>,
    pub mism: Vec<Mismatch>,
    pub choices: Vec<Vec<u32>>,
    #[serde(default)]
    pub stats: Stats,
}

/// Run a scenario and keep what says something about its property.
pub fn run_one(sc: &Scenario) -> RunOut {
    let rep = exec::run(sc, &OPTS);
    let mism: Vec<Mismatch> = rep.mism.into_iter().filter(|m| props::relevant(&sc.prop, m)).collect();
    let mut f = Fnv::new();
    for c in &rep.choices {
        f.add_u64(c.len() as u64);
        for x in c {
            f.add(&[*x as u8]);
        }
    }
    RunOut {
        valid: rep.valid,
        hash: rep.hash,
        parts: rep.parts,
        sched: if rep.choices.is_empty() { 0 } else { f.0 },
        mism,
        choices: rep.choices,
        stats: rep.stats,
    }
}

fn emit(line: &str) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(line.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

/// The threads of the current run are stuck for good: report and leave.
pub fn fatal(_kind: &str, m: Vec<Mismatch>) -> ! {
    emit(&format!("F {}", serde_json::to_string(&m).unwrap()));
    unsafe { _exit(3) }
}

extern "C" {
    fn _exit(code: i32) -> !;
}

/// Plans of values are nested as deep as the values.
pub fn json<T: for<'a> serde::Deserialize<'a>>(s: &str) -> serde_json::Result<T> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    let v = T::deserialize(&mut d)?;
    d.end()?;
    Ok(v)
}

pub fn big<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

////////////////////////////////////////////////////////////////////////////////
// Child modes
////////////////////////////////////////////////////////////////////////////////

/// `worker PROP BASE FIRST STRIDE COUNT SECONDS`
fn worker(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (base, first, stride, count, secs) = (n(1), n(2), n(3), n(4), n(5));
    big(move || {
        real::install_panic_hook();
        let t0 = Instant::now();
        let mut stats = Stats::default();
        for k in 0..count {
            if t0.elapsed().as_secs() >= secs {
                break;
            }
            let i = first + k * stride;
            emit(&format!("S {i}"));
            let sc = props::scenario(&prop, base, i);
            let out = run_one(&sc);
            stats.merge(&out.stats);
            if !out.mism.is_empty() {
                let mism = serde_json::to_string(&out.mism).unwrap();
                if sc.feats.is_none() && !props::explained(&sc, &out.mism) {
                    emit(&format!("V {i} {mism}"));
                    break;
                }
                // Looks like another property's problem; the parent makes sure.
                emit(&format!("X {i} {mism}"));
            }
            let busy = out.stats.get("operations") > 0 || out.stats.get("scale_pairs") > 0 || out.stats.get("cycles") > 0;
            emit(&format!("R {i} {:016x} {:016x} {}", out.hash, out.sched, u8::from(out.valid && busy)));
        }
        emit(&format!("T {}", serde_json::to_string(&stats).unwrap()));
        let hit: Vec<String> = cover::hit().iter().map(u32::to_string).collect();
        emit(&format!("C {} {} {}", cover::total(), cover::most_steps(), hit.join(",")));
        0
    })
}

/// `eval`: scenarios on stdin, one result line each.
fn eval() -> i32 {
    big(|| {
        real::install_panic_hook();
        for line in std::io::stdin().lock().lines() {
            let Ok(line) = line else { break };
            let out = match json::<Scenario>(&line) {
                Ok(sc) => run_one(&sc),
                Err(_) => RunOut::default(),
            };
            emit(&format!("E {}", serde_json::to_string(&out).unwrap()));
        }
        0
    })
}

/// `baseline`: a scenario and what was found in it, on stdin; whether the same
/// shows without what the property is about.
fn baseline() -> i32 {
    big(|| {
        real::install_panic_hook();
        let mut line = String::new();
        let _ = std::io::stdin().lock().read_line(&mut line);
        let out = match json::<(Scenario, Vec<Mismatch>)>(&line) {
            Ok((sc, m)) => RunOut { valid: props::explained(&sc, &m), ..RunOut::default() },
            Err(_) => RunOut::default(),
        };
        emit(&format!("E {}", serde_json::to_string(&out).unwrap()));
        0
    })
}

/// `history PROP BASE I,J,K`: those runs in that order, then the last result.
fn history(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let base: u64 = a[1].parse().unwrap();
    let mut ids = String::new();
    let _ = std::io::stdin().lock().read_line(&mut ids);
    let ids: Vec<u64> = ids.trim().split(',').filter_map(|s| s.parse().ok()).collect();
    big(move || {
        real::install_panic_hook();
        let mut last = RunOut::default();
        for i in ids {
            last = run_one(&props::scenario(&prop, base, i));
        }
        emit(&format!("E {}", serde_json::to_string(&last).unwrap()));
        0
    })
}

/// The deep nesting finding, in a process of its own. The stack is that of a
/// main thread.
/// Large texts of extreme shapes, with a stack of the usual size.
pub const SHAPES: &[(&str, usize)] = &[
    ("deep-nesting", 20_000),
    ("deep-for", 20_000),
    ("deep-with", 20_000),
    ("long-else-if", 20_000),
    ("deep-nesting", 400),
    ("deep-for", 400),
    ("deep-with", 400),
    ("long-else-if", 400),
    ("long-filter-chain", 2_000),
    ("long-path", 1_000),
    ("many-arguments", 2_000),
    ("many-tags", 50_000),
    ("unclosed", 20_000),
    ("unclosed-tags", 50_000),
    ("comments", 50_000),
    ("long-string", 50_000),
    ("digits", 50_000),
];

fn shape_text(shape: &str, n: usize) -> String {
    let rep = |a: &str, b: &str, c: &str| format!("{}{b}{}", a.repeat(n), c.repeat(n));
    match shape {
        "deep-nesting" => rep("{% if x %}", "", "{% endif %}"),
        "deep-for" => rep("{% for y in x %}", "", "{% endfor %}"),
        "deep-with" => rep("{% with x as y %}", "", "{% endwith %}"),
        "long-else-if" => format!("{{% if x %}}{}{{% endif %}}", "{% else if x %}".repeat(n)),
        "long-filter-chain" => format!("{{{{ x{} }}}}", " | f".repeat(n)),
        "long-path" => format!("{{{{ x{} }}}}", ".y?.0".repeat(n)),
        "many-arguments" => format!("{{{{ x | f: 1{} }}}}", ", y".repeat(n)),
        "many-tags" => "{{ x }}{% include \"a\" %}".repeat(n),
        "unclosed" => "{% if x %}".repeat(n),
        "unclosed-tags" => "{{ x ".repeat(n),
        "comments" => "{# x #}{##}".repeat(n),
        "long-string" => format!("{{{{ \"{}\" }}}}", "\\n\\\\é".repeat(n)),
        _ => format!("{{{{ {} }}}}{{{{ 0.{} }}}}{{{{ 1e{} }}}}", "9".repeat(n), "3".repeat(n), "7".repeat(n)),
    }
}

fn deepnest(a: &[String]) -> i32 {
    let n: usize = a[1].parse().unwrap();
    let s = shape_text(&a[0], n);
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let e = upon::Engine::new();
            if let Err(e) = e.compile(s) {
                let _ = format!("{e:#} {e:?}").len();
            }
        })
        .unwrap()
        .join()
        .map_or(1, |_| 0)
}

////////////////////////////////////////////////////////////////////////////////
// Child processes
////////////////////////////////////////////////////////////////////////////////

/// The simulator around the crate with all features, or with just these.
fn exe(feats: Option<u8>) -> PathBuf {
    let me = std::env::current_exe().unwrap();
    match feats {
        None => me,
        Some(m) => me.with_file_name(format!("upsim-f{m}")),
    }
}

fn spawn(feats: Option<u8>, args: &[String], stdin: bool) -> Child {
    Command::new(exe(feats))
        .args(args)
        .stdin(if stdin { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("cannot start a worker")
}

/// CPU seconds used so far by a process.
fn cpu(pid: u32) -> f64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0.0 };
    let Some(i) = s.rfind(')') else { return 0.0 };
    let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
    let t = |k: usize| f.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

/// Whether all threads of a process sleep.
fn idle(pid: u32) -> bool {
    let Ok(d) = std::fs::read_dir(format!("/proc/{pid}/task")) else { return false };
    for t in d.flatten() {
        let s = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        if let Some(i) = s.rfind(')') {
            if !s[i + 1..].trim_start().starts_with('S') {
                return false;
            }
        }
    }
    true
}

#[derive(Debug)]
pub enum Ended {
    Out(RunOut),
    Fatal(Vec<Mismatch>),
    Crash(String),
    Hang(String),
    /// not the engine's doing
    Harness(String),
}

impl Ended {
    pub fn mism(&self) -> Vec<Mismatch> {
        let m = |kind: &str, d: &str| {
            vec![Mismatch { kind: kind.into(), op: "process".into(), detail: d.to_string() }]
        };
        match self {
            Ended::Out(o) => o.mism.clone(),
            Ended::Fatal(v) => v.clone(),
            Ended::Crash(d) => m("crash", d),
            Ended::Hang(d) => m("hang", d),
            Ended::Harness(_) => vec![],
        }
    }
}

/// A child that answers lines, watched for crashes and hangs.
pub struct Server {
    child: Child,
    rx: mpsc::Receiver<String>,
    err: std::thread::JoinHandle<String>,
}

fn collect(child: &mut Child) -> (mpsc::Receiver<String>, std::thread::JoinHandle<String>) {
    let out = child.stdout.take().unwrap();
    let err = child.stderr.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    let e = std::thread::spawn(move || {
        let mut s = String::new();
        for l in BufReader::new(err).lines() {
            let Ok(l) = l else { break };
            if s.len() < 4000 {
                s.push_str(&l);
                s.push('\n');
            }
        }
        s
    });
    (rx, e)
}

fn death(st: std::process::ExitStatus, err: &str) -> Ended {
    let err: String = err.chars().take(600).collect();
    match st.signal() {
        Some(6) | Some(11) | Some(7) | Some(4) | Some(8) => {
            let what = if err.contains("UPSIM-MEMORY-LIMIT") {
                "the process needed more than 2 GB of memory".to_string()
            } else if err.contains("overflowed its stack") {
                "the process ran out of stack".to_string()
            } else {
                format!("the process died with signal {}: {}", st.signal().unwrap(), err.trim())
            };
            Ended::Crash(what)
        }
        Some(s) => Ended::Harness(format!("a worker was ended by signal {s}")),
        None => Ended::Harness(format!("a worker left with {st}: {}", err.trim())),
    }
}

impl Server {
    pub fn start(args: &[String]) -> Server {
        Server::start_in(None, args)
    }

    pub fn start_in(feats: Option<u8>, args: &[String]) -> Server {
        let mut child = spawn(feats, args, true);
        let (rx, err) = collect(&mut child);
        Server { child, rx, err }
    }

    /// Send a line, wait for the answer. `None` means this server is gone.
    pub fn ask(&mut self, line: &str, hang: Duration) -> Result<RunOut, Ended> {
        let sent = {
            let i = self.child.stdin.as_mut().unwrap();
            i.write_all(line.as_bytes()).and_then(|_| i.write_all(b"\n")).and_then(|_| i.flush())
        };
        let _ = sent;
        let pid = self.child.id();
        let (mut t0, mut c0) = (Instant::now(), cpu(pid));
        let (mut t1, mut c1) = (t0, c0);
        loop {
            match self.rx.recv_timeout(Duration::from_millis(200)) {
                Ok(l) => {
                    if let Some(x) = l.strip_prefix("E ") {
                        return Ok(json(x).unwrap());
                    }
                    if let Some(x) = l.strip_prefix("F ") {
                        let _ = self.child.wait();
                        return Err(Ended::Fatal(json(x).unwrap()));
                    }
                }
                Err(mpsc::RecvTimeoutError::Timeout) => {
                    if t1.elapsed() > IDLE {
                        let c = cpu(pid);
                        if c - c1 < 0.05 && idle(pid) {
                            return Err(Ended::Hang("every thread is blocked".into()));
                        }
                        (t1, c1) = (Instant::now(), c);
                    }
                    if t0.elapsed() > hang {
                        if cpu(pid) - c0 > hang.as_secs_f64() / 2.0 {
                            return Err(Ended::Hang("no end in sight, burning CPU".into()));
                        }
                        t0 = Instant::now();
                        c0 = cpu(pid);
                    }
                }
                Err(mpsc::RecvTimeoutError::Disconnected) => {
                    let st = self.child.wait().unwrap();
                    let e = std::mem::replace(&mut self.err, std::thread::spawn(String::new));
                    return Err(death(st, &e.join().unwrap_or_default()));
                }
            }
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// What a build with some features shows and the build with all does not.
fn across(sc: &Scenario, e: Ended) -> Ended {
    let mut s = Server::start(&["eval".to_string()]);
    let all = s.ask(&serde_json::to_string(sc).unwrap(), HANG);
    let feats = avail::describe(sc.feats.unwrap_or(avail::ALL));
    match (e, all) {
        (Ended::Out(mut o), Ok(a)) => {
            o.mism.retain(|m| !a.mism.iter().any(|x| (&x.kind, &x.op) == (&m.kind, &m.op)));
            if o.valid && a.valid && o.hash != a.hash {
                let k = o.parts.iter().zip(&a.parts).position(|(x, y)| x != y);
                let op = k.map_or("run".into(), |k| format!("step {k}"));
                o.mism.push(Mismatch {
                    kind: "builds-differ".into(),
                    op,
                    detail: format!("with {feats} this does something else than with all features"),
                });
            }
            for m in &mut o.mism {
                if m.kind != "builds-differ" {
                    m.detail = format!("only with {feats}: {}", m.detail);
                }
            }
            Ended::Out(o)
        }
        // Nothing to compare with.
        (Ended::Out(o), Err(_)) => Ended::Out(RunOut { mism: vec![], ..o }),
        (e, Ok(_)) => e,
        (_, Err(_)) => Ended::Out(RunOut { valid: true, ..RunOut::default() }),
    }
}

/// Drop what is some other property's problem.
pub fn blame(sc: &Scenario, e: Ended) -> Ended {
    if sc.feats.is_some() {
        return across(sc, e);
    }
    let m = e.mism();
    if m.is_empty() || !props::has_baseline(&sc.prop) {
        return e;
    }
    let mut s = Server::start(&["baseline".to_string()]);
    let explained = match s.ask(&serde_json::to_string(&(sc, &m)).unwrap(), HANG) {
        Ok(o) => o.valid,
        // The baseline ends the same way.
        Err(x) => overlap(&x.mism(), &m),
    };
    match e {
        Ended::Out(o) if explained => Ended::Out(RunOut { mism: vec![], ..o }),
        _ if explained => Ended::Out(RunOut { valid: true, ..RunOut::default() }),
        e => e,
    }
}

/// One scenario in a fresh process.
pub fn fresh(sc: &Scenario) -> Ended {
    let mut s = Server::start_in(sc.feats, &["eval".to_string()]);
    let e = match s.ask(&serde_json::to_string(sc).unwrap(), HANG) {
        Ok(o) => Ended::Out(o),
        Err(e) => e,
    };
    blame(sc, e)
}

fn fresh_history(prop: &str, base: u64, ids: &[u64], hang: Duration) -> Ended {
    let feats = ids.last().and_then(|i| props::scenario(prop, base, *i).feats);
    let mut s = Server::start_in(feats, &["history".to_string(), prop.to_string(), base.to_string()]);
    let l: Vec<String> = ids.iter().map(u64::to_string).collect();
    let e = match s.ask(&l.join(","), hang) {
        Ok(o) => Ended::Out(o),
        Err(e) => e,
    };
    match ids.last() {
        Some(i) => blame(&props::scenario(prop, base, *i), e),
        None => e,
    }
}

////////////////////////////////////////////////////////////////////////////////
// Replay files
////////////////////////////////////////////////////////////////////////////////

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Replay {
    /// one self-contained scenario
    Scenario(Scenario),
    /// seeds, run in this order in one process; the last one fails
    History { base: u64, ids: Vec<u64> },
    /// the same last run after two different histories (or twice after the
    /// same) ends differently
    Differ { base: u64, a: Vec<u64>, b: Vec<u64> },
    /// the engine type cannot be shared between threads
    Shareable,
    /// compiling a text of this shape and size takes the process down
    Deep { shape: String, n: usize },
    /// the crate does not build, or not with everything it offers, with these
    /// features
    Build { feats: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub seed: u64,
    pub base: u64,
    pub index: u64,
    pub violation: Vec<Mismatch>,
    pub replay: Replay,
    /// how often to try: 1 unless the failure itself is not deterministic
    pub attempts: usize,
    pub sources: Vec<String>,
}

fn differ(prop: &str, base: u64, a: &[u64], b: &[u64], tries: usize) -> Option<Vec<Mismatch>> {
    let mut seen: Option<u64> = None;
    for _ in 0..tries {
        for l in [a, b] {
            if let Ended::Out(o) = fresh_history(prop, base, l, HANG) {
                if seen.is_some_and(|s| s != o.hash) {
                    return Some(vec![Mismatch {
                        kind: "nondeterminism".into(),
                        op: format!("run {}", l.last().unwrap_or(&0)),
                        detail: format!(
                            "the same run gave different results: {:016x} and {:016x}",
                            seen.unwrap(),
                            o.hash
                        ),
                    }]);
                }
                seen = Some(o.hash);
            }
        }
    }
    None
}

fn replay_once(f: &ReplayFile) -> Vec<Mismatch> {
    let mut last = vec![];
    for _ in 0..f.attempts.max(1) {
        last = match &f.replay {
            Replay::Scenario(s) => fresh(s).mism(),
            Replay::History { base, ids } => fresh_history(&f.property, *base, ids, HANG).mism(),
            Replay::Differ { base, a, b } => differ(&f.property, *base, a, b, 3).unwrap_or_default(),
            Replay::Shareable => shareable(),
            Replay::Deep { shape, n } => deep(shape, *n),
            Replay::Build { feats } => unbuilt(*feats),
        };
        if !last.is_empty() {
            break;
        }
    }
    last
}

fn replay(a: &[String]) -> i32 {
    let Ok(text) = std::fs::read_to_string(&a[0]) else {
        eprintln!("cannot read {}", a[0]);
        return 2;
    };
    let f: ReplayFile = match json(&text) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("not a replay file: {e}");
            return 2;
        }
    };
    let m = replay_once(&f);
    for x in &m {
        println!("  {} [{}]: {}", x.op, x.kind, x.detail);
    }
    if m.is_empty() {
        println!("not reproduced: the property held");
        return 0;
    }
    println!("VIOLATION property={} replay={}", f.property, a[0]);
    1
}

////////////////////////////////////////////////////////////////////////////////
// Special probes
////////////////////////////////////////////////////////////////////////////////

mod probe {
    use std::marker::PhantomData;
    pub struct Probe<T>(pub PhantomData<T>);
    pub trait No {
        fn shareable(&self) -> bool {
            false
        }
    }
    impl<T> No for &Probe<T> {}
    impl<T: Send + Sync> Probe<T> {
        pub fn shareable(&self) -> bool {
            true
        }
    }
}

fn shareable() -> Vec<Mismatch> {
    #[allow(unused_imports)]
    use probe::No;
    use probe::Probe;
    use std::marker::PhantomData;
    let mut v = Vec::new();
    let mut check = |ok: bool, what: &str| {
        if !ok {
            v.push(Mismatch {
                kind: "not-shareable".into(),
                op: "type".into(),
                detail: format!("{what} cannot be shared between threads"),
            });
        }
    };
    check((&Probe::<upon::Engine<'static>>(PhantomData)).shareable(), "the engine");
    check((&Probe::<upon::Template<'static>>(PhantomData)).shareable(), "a compiled template");
    check((&Probe::<upon::Value>(PhantomData)).shareable(), "a value");
    v
}

/// Why there is no program for these features.
fn unbuilt(feats: u8) -> Vec<Mismatch> {
    if exe(Some(feats)).exists() {
        return vec![];
    }
    let log = std::fs::read_to_string(exe(Some(feats)).with_extension("log"))
        .or_else(|_| std::fs::read_to_string(format!("{}.log", exe(Some(feats)).display())))
        .unwrap_or_default();
    let why: Vec<&str> = log.lines().filter(|l| l.starts_with("error")).take(4).collect();
    if why.is_empty() {
        // Nothing the compiler says: not the crate's doing.
        eprintln!("upsim: no program for {}: {log}", avail::describe(feats));
        std::process::exit(2);
    }
    vec![Mismatch {
        kind: "build".into(),
        op: "process".into(),
        detail: format!(
            "with {} the crate does not build or lacks something it has otherwise: {}",
            avail::describe(feats),
            why.join("; ")
        ),
    }]
}

fn deep(shape: &str, n: usize) -> Vec<Mismatch> {
    let mut c = spawn(None, &["deepnest".to_string(), shape.to_string(), n.to_string()], false);
    let (_rx, err) = collect(&mut c);
    let t0 = Instant::now();
    let st = loop {
        if let Ok(Some(st)) = c.try_wait() {
            break st;
        }
        if t0.elapsed() > Duration::from_secs(120) && cpu(c.id()) > 20.0 || t0.elapsed() > Duration::from_secs(400) {
            let _ = c.kill();
            let _ = c.wait();
            return vec![Mismatch {
                kind: "hang".into(),
                op: "process".into(),
                detail: format!("compiling {n} times {shape} does not end"),
            }];
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let e = err.join().unwrap_or_default();
    if st.success() {
        return vec![];
    }
    death(st, &e).mism()
}

////////////////////////////////////////////////////////////////////////////////
// The check
////////////////////////////////////////////////////////////////////////////////

struct W {
    child: Child,
    at: Option<u64>,
    done: Vec<u64>,
    last: Instant,
    cpu0: f64,
    window: (Instant, f64),
    open: bool,
    err: Option<std::thread::JoinHandle<String>>,
    first: u64,
    stride: u64,
}

enum Msg {
    Line(usize, String),
    Eof(usize),
}

struct Found {
    index: u64,
    history: Vec<u64>,
    mism: Vec<Mismatch>,
}

#[derive(Default)]
struct Pool {
    stats: Stats,
    hashes: HashMap<u64, u64>,
    scheds: HashSet<u64>,
    busy: u64,
    total: u64,
    found: Option<Found>,
    harness: Option<String>,
    /// disagreements that seem to be another property's
    suspects: Vec<Found>,
    explained: u64,
    histories: Vec<(u64, u64, Vec<u64>)>,
    /// control flow edges of the crate under test: reached, and how many
    edges: HashSet<u32>,
    all_edges: u32,
    most_steps: u64,
}

/// `full`: in the build with all features.
fn pool(prop: &str, base: u64, jobs: &[(u64, u64, u64)], secs: u64, full: bool) -> Pool {
    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<W> = Vec::new();
    for (k, (first, stride, count)) in jobs.iter().enumerate() {
        let args: Vec<String> = ["worker", prop]
            .iter()
            .map(|s| s.to_string())
            .chain([base, *first, *stride, *count, secs].iter().map(u64::to_string))
            .collect();
        let feats = if full { None } else { props::scenario(prop, base, *first).feats };
        let mut child = spawn(feats, &args, false);
        let (lines, err) = collect(&mut child);
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in lines {
                if tx.send(Msg::Line(k, l)).is_err() {
                    return;
                }
            }
            let _ = tx.send(Msg::Eof(k));
        });
        ws.push(W {
            child,
            at: None,
            done: vec![],
            last: Instant::now(),
            cpu0: 0.0,
            window: (Instant::now(), 0.0),
            open: true,
            err: Some(err),
            first: *first,
            stride: *stride,
        });
    }
    drop(tx);
    let mut p = Pool::default();
    let mut last_scan = Instant::now();
    while ws.iter().any(|w| w.open) && p.found.is_none() && p.harness.is_none() {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(k, l)) => {
                let w = &mut ws[k];
                w.last = Instant::now();
                w.cpu0 = -1.0;
                let mut it = l.splitn(2, ' ');
                let (tag, rest) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
                match tag {
                    "S" => w.at = rest.parse().ok(),
                    "R" => {
                        let f: Vec<&str> = rest.split(' ').collect();
                        let i: u64 = f[0].parse().unwrap();
                        p.total += 1;
                        if f[3] == "1" {
                            p.busy += 1;
                            p.hashes.insert(i, u64::from_str_radix(f[1], 16).unwrap());
                        }
                        let s = u64::from_str_radix(f[2], 16).unwrap();
                        if s != 0 {
                            p.scheds.insert(s);
                        }
                        w.done.push(i);
                        w.at = None;
                    }
                    "V" => {
                        let (i, j) = rest.split_once(' ').unwrap();
                        p.total += 1;
                        p.found = Some(Found {
                            index: i.parse().unwrap(),
                            history: w.done.clone(),
                            mism: json(j).unwrap(),
                        });
                    }
                    "X" => {
                        let (i, j) = rest.split_once(' ').unwrap();
                        p.explained += 1;
                        if p.suspects.len() < 12 {
                            p.suspects.push(Found {
                                index: i.parse().unwrap(),
                                history: w.done.clone(),
                                mism: json(j).unwrap(),
                            });
                        }
                    }
                    "F" => {
                        let m: Vec<Mismatch> = json(rest).unwrap();
                        let m: Vec<Mismatch> = m.into_iter().filter(|m| props::relevant(prop, m)).collect();
                        p.total += 1;
                        if m.is_empty() {
                            p.harness = Some("threads got stuck".into());
                        } else {
                            p.found = Some(Found { index: w.at.unwrap_or(0), history: w.done.clone(), mism: m });
                        }
                    }
                    "C" => {
                        let f: Vec<&str> = rest.split(' ').collect();
                        p.all_edges = f[0].parse().unwrap_or(0);
                        p.most_steps = p.most_steps.max(f[1].parse().unwrap_or(0));
                        p.edges.extend(f[2].split(',').filter_map(|x| x.parse::<u32>().ok()));
                    }
                    "T" => {
                        if let Ok(s) = json::<Stats>(rest) {
                            p.stats.merge(&s);
                        }
                    }
                    _ => {}
                }
            }
            Ok(Msg::Eof(k)) => {
                let w = &mut ws[k];
                w.open = false;
                let st = w.child.wait().unwrap();
                let e = w.err.take().map(|e| e.join().unwrap_or_default()).unwrap_or_default();
                if st.code() != Some(0) && p.found.is_none() {
                    match (death(st, &e), w.at) {
                        (Ended::Harness(d), _) => p.harness = Some(d),
                        (_, None) => p.harness = Some(format!("a worker died between runs: {e}")),
                        (x, Some(i)) => {
                            p.total += 1;
                            p.found = Some(Found { index: i, history: w.done.clone(), mism: x.mism() })
                        }
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
        }
        if last_scan.elapsed() > Duration::from_secs(1) {
            last_scan = Instant::now();
            for w in ws.iter_mut().filter(|w| w.open) {
                let pid = w.child.id();
                if w.cpu0 < 0.0 {
                    w.cpu0 = cpu(pid);
                }
                if w.last.elapsed() < IDLE || w.at.is_none() {
                    w.window = (Instant::now(), cpu(pid));
                    continue;
                }
                let now = cpu(pid);
                let burnt = now - w.cpu0;
                let still = if w.window.0.elapsed() < IDLE {
                    false
                } else {
                    let used = now - w.window.1;
                    w.window = (Instant::now(), now);
                    used < 0.05 && idle(pid)
                };
                let d = if w.last.elapsed() > HANG && burnt > HANG.as_secs_f64() / 2.0 {
                    "no end in sight, burning CPU"
                } else if still {
                    "every thread is blocked"
                } else {
                    continue;
                };
                p.total += 1;
                p.found = Some(Found {
                    index: w.at.unwrap(),
                    history: w.done.clone(),
                    mism: Ended::Hang(d.into()).mism(),
                });
                break;
            }
        }
    }
    for w in &mut ws {
        let _ = w.child.kill();
        let _ = w.child.wait();
        p.histories.push((w.first, w.stride, std::mem::take(&mut w.done)));
    }
    p
}

fn kinds(m: &[Mismatch]) -> HashSet<String> {
    m.iter().map(|m| m.kind.clone()).collect()
}

pub fn overlap(a: &[Mismatch], b: &[Mismatch]) -> bool {
    !kinds(a).is_disjoint(&kinds(b))
}

/// Find a way to show the violation again from nothing.
fn confirm(prop: &str, base: u64, f: &Found) -> Option<(Replay, Vec<Mismatch>, usize)> {
    let sc = props::scenario(prop, base, f.index);
    let heavy = f.mism.iter().any(|m| m.kind == "hang" || m.kind == "deadlock");
    for k in 0..if heavy { 2 } else { 3 } {
        let m = fresh(&sc).mism();
        if !m.is_empty() {
            return Some((Replay::Scenario(sc), m, if k == 0 { 1 } else { 12 }));
        }
    }
    let mut ids = f.history.clone();
    ids.push(f.index);
    let t = Duration::from_secs(60);
    for k in 0..2 {
        let m = fresh_history(prop, base, &ids, t).mism();
        if m.is_empty() {
            continue;
        }
        // Shrink the history by halves.
        let t0 = Instant::now();
        let mut pre = f.history.clone();
        let mut chunk = pre.len().max(1);
        while chunk >= 1 && t0.elapsed() < Duration::from_secs(60) {
            let mut i = 0;
            while i < pre.len() && t0.elapsed() < Duration::from_secs(60) {
                let mut c = pre.clone();
                c.drain(i..(i + chunk).min(c.len()));
                let mut ids = c.clone();
                ids.push(f.index);
                if fresh_history(prop, base, &ids, t).mism().is_empty() {
                    i += chunk;
                } else {
                    pre = c;
                }
            }
            chunk /= 2;
        }
        pre.push(f.index);
        return Some((Replay::History { base, ids: pre }, m, if k == 0 { 1 } else { 6 }));
    }
    // Perhaps it only fails now and then, because the code under test is not
    // deterministic by itself.
    for _ in 0..if heavy { 1 } else { 10 } {
        let m = fresh(&sc).mism();
        if !m.is_empty() {
            return Some((Replay::Scenario(sc), m, 40));
        }
    }
    None
}

fn verif() -> PathBuf {
    std::env::var_os("UPSIM_HOME").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("."))
}

fn write_replay(f: &ReplayFile) -> PathBuf {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{:016x}.json", f.property, f.seed));
    let _ = std::fs::write(&p, serde_json::to_string_pretty(f).unwrap());
    p
}

fn report(f: &ReplayFile) {
    for m in f.violation.iter().take(8) {
        println!("  {} [{}]: {}", m.op, m.kind, m.detail);
    }
    for s in f.sources.iter().take(6) {
        println!("  template: {s:?}");
    }
    let p = write_replay(f);
    println!("VIOLATION property={} replay={}", f.property, p.display());
}

fn findings(prop: &str) -> Vec<String> {
    // finding: property=<id> id=<id> <text>
    let t = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter(|l| l.starts_with(&format!("property={prop} ")))
        .map(str::to_string)
        .collect()
}

fn check(a: &[String]) -> i32 {
    let prop = a[0].as_str();
    if !props::PROPS.contains(&prop) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let base = mix(seed);
    let n = std::env::var("UPSIM_RUNS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| props::budget(prop, thorough)) as u64;
    let cores = std::thread::available_parallelism().map_or(4, usize::from).clamp(2, 16) as u64;
    let secs: u64 = if thorough { 3600 } else { 180 };
    let t0 = Instant::now();
    // Each set of features is another program.
    let lanes = if prop == "P19" { u64::from(avail::ALL) * if cores > 8 { 2 } else { 1 } } else { cores };
    let jobs: Vec<(u64, u64, u64)> = (0..lanes).map(|w| (w, lanes, (n + lanes - 1 - w) / lanes)).collect();
    if prop == "P19" {
        if let Some((m, f)) = (0..avail::ALL).map(|m| (unbuilt(m), m)).find(|x| !x.0.is_empty()) {
            report(&special(prop, base, m, Replay::Build { feats: f }));
            evidence(prop, thorough, seed, &Pool::default(), t0, t0.elapsed(), 1, 0, 0, vec![]);
            return 1;
        }
    }
    let mut p = pool(prop, base, &jobs, secs, false);
    let search = t0.elapsed();
    if let Some(h) = &p.harness {
        eprintln!("upsim: {h}");
        return 2;
    }
    let mut code = 0;
    let mut violations = 0;
    let mut unconfirmed: Vec<J> = vec![];
    let mut file = None;
    let (mut again, mut differing) = (0, 0);
    if prop == "P19" && p.found.is_none() {
        // The same runs with all features.
        let q = pool(prop, base, &jobs, secs, true);
        // Numbers of edges mean something within one build only.
        p.edges = q.edges;
        p.all_edges = q.all_edges;
        let mut ids: Vec<u64> = p.hashes.keys().copied().collect();
        ids.sort_unstable();
        for i in ids {
            if let Some(h) = q.hashes.get(&i) {
                again += 1;
                if *h != p.hashes[&i] {
                    differing += 1;
                    if p.suspects.len() < 24 {
                        p.suspects.push(Found { index: i, history: vec![], mism: vec![] });
                    }
                }
            }
        }
    }
    if p.found.is_none() {
        // State left over in a worker can make a baseline fail as well.
        let t = Instant::now();
        while let (Some(f), true) = (p.suspects.pop(), t.elapsed() < Duration::from_secs(60)) {
            let sc = props::scenario(prop, base, f.index);
            let e = match sc.feats {
                Some(_) => fresh(&sc),
                None => blame(&sc, Ended::Out(RunOut { valid: true, mism: f.mism.clone(), ..RunOut::default() })),
            };
            if !e.mism().is_empty() {
                p.found = Some(f);
                break;
            }
        }
    }
    if let Some(f) = p.found.take() {
        match confirm(prop, base, &f) {
            None => {
                // Never believed without a replay.
                unconfirmed.push(json!({"index": f.index, "seen": f.mism}));
                eprintln!("upsim: run {} reported {:?} once and never again", f.index, kinds(&f.mism));
            }
            Some((mut replay, mut m, attempts)) => {
                if let (Replay::Scenario(sc), 1) = (&replay, attempts) {
                    let cap = Duration::from_secs(if thorough { 120 } else { 40 });
                    let sc = sc.clone();
                    for isolated in [false, true] {
                        let (s2, _) = minimise::minimise(&sc, &m, cap, isolated);
                        let m2 = fresh(&s2).mism();
                        if overlap(&m2, &m) {
                            replay = Replay::Scenario(s2);
                            m = m2;
                            break;
                        }
                    }
                }
                let sources = match &replay {
                    Replay::Scenario(s) => s
                        .docs
                        .iter()
                        .filter_map(|d| crate::ast::compile(d, &s.syntax).ok().map(|c| c.src))
                        .collect(),
                    _ => vec![],
                };
                let rf = ReplayFile {
                    property: prop.into(),
                    seed: props::scenario(prop, base, f.index).seed,
                    base,
                    index: f.index,
                    violation: m,
                    replay,
                    attempts,
                    sources,
                };
                file = Some(rf);
            }
        }
    }
    // The same seeds in other processes, after other histories.
    if file.is_none() && prop != "P19" {
        let step = if thorough { 97 } else { 29 };
        let m = n / step;
        let per = (m + cores - 1) / cores.max(1);
        let jobs: Vec<(u64, u64, u64)> =
            (0..cores).map(|w| (w * per * step, step, per.min((n / step).saturating_sub(w * per)))).filter(|j| j.2 > 0).collect();
        let q = pool(prop, base, &jobs, secs / 3, false);
        let mut bad = None;
        for (i, h) in &q.hashes {
            if let Some(h0) = p.hashes.get(i) {
                again += 1;
                if h0 != h {
                    differing += 1;
                    if bad.map_or(true, |b| *i < b) {
                        bad = Some(*i);
                    }
                }
            }
        }
        if let (Some(i), "P16") = (bad, prop) {
            let upto = |p: &Pool| -> Vec<u64> {
                for (_, _, d) in &p.histories {
                    if let Some(k) = d.iter().position(|x| *x == i) {
                        return d[..=k].to_vec();
                    }
                }
                vec![i]
            };
            let (mut x, mut y) = (upto(&p), upto(&q));
            let mut res = differ(prop, base, &[i], &[i], 4);
            if res.is_some() {
                x = vec![i];
                y = vec![i];
            } else {
                res = differ(prop, base, &x, &y, 2);
            }
            if let Some(m) = res {
                file = Some(ReplayFile {
                    property: prop.into(),
                    seed: props::scenario(prop, base, i).seed,
                    base,
                    index: i,
                    violation: m,
                    replay: Replay::Differ { base, a: x, b: y },
                    attempts: 3,
                    sources: vec![],
                });
            }
        }
    }
    if file.is_none() && prop == "P10" {
        let m = shareable();
        if !m.is_empty() {
            file = Some(special(prop, base, m, Replay::Shareable));
        }
    }
    if file.is_none() && prop == "P09" {
        for (shape, n) in SHAPES {
            let m = deep(shape, *n);
            if m.is_empty() {
                continue;
            }
            match findings(prop).iter().find(|l| l.contains(&format!("id={shape}-{n} "))) {
                Some(l) => println!("KNOWN-FINDING: {l}"),
                None => file = Some(special(prop, base, m, Replay::Deep { shape: shape.to_string(), n: *n })),
            }
        }
    }
    if let Some(f) = &file {
        report(f);
        code = 1;
        violations = 1;
    }
    evidence(prop, thorough, seed, &p, t0, search, violations, again, differing, unconfirmed);
    if code == 0 {
        println!(
            "property {prop}: held in {} simulated runs ({} distinct), seed {seed}, {:.1} s",
            p.total,
            p.hashes.values().collect::<HashSet<_>>().len(),
            t0.elapsed().as_secs_f64()
        );
    }
    code
}

fn special(prop: &str, base: u64, m: Vec<Mismatch>, replay: Replay) -> ReplayFile {
    ReplayFile { property: prop.into(), seed: 0, base, index: 0, violation: m, replay, attempts: 1, sources: vec![] }
}

fn sample(prop: &str, base: u64, i: u64) -> J {
    let sc = props::scenario(prop, base, i);
    let src: Vec<String> =
        sc.docs.iter().filter_map(|d| crate::ast::compile(d, &sc.syntax).ok().map(|c| c.src)).collect();
    let mut ops = Vec::new();
    for p in &sc.phases {
        let t = match p {
            Phase::Seq(o) => o.iter().map(|o| brief(&format!("{o:?}"))).collect::<Vec<_>>(),
            Phase::Par { threads, sched } => threads
                .iter()
                .enumerate()
                .flat_map(|(t, o)| o.iter().map(move |o| format!("thread {t}: {}", brief(&format!("{o:?}")))))
                .chain([format!("{sched:?}")])
                .collect(),
            Phase::Cycle { ops, n } => {
                ops.iter().map(|o| format!("{n} times: {}", brief(&format!("{o:?}")))).collect()
            }
            Phase::Scale { .. } => vec!["render small and large data, compare peak memory".to_string()],
        };
        ops.extend(t.into_iter().take(12));
    }
    json!({"index": i, "seed": sc.seed, "templates": src, "operations": ops})
}

fn brief(s: &str) -> String {
    if s.len() > 300 {
        format!("{}…", &s[..crate::scen::floor_char(s, 300)])
    } else {
        s.to_string()
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str,
    thorough: bool,
    seed: u64,
    p: &Pool,
    t0: Instant,
    search: Duration,
    violations: u32,
    again: u64,
    differing: u64,
    unconfirmed: Vec<J>,
) {
    let s = &p.stats;
    let faults: BTreeMap<String, u64> =
        s.n.iter().filter_map(|(k, v)| k.strip_prefix("fault.").map(|k| (k.to_string(), *v))).collect();
    let rest: BTreeMap<String, u64> =
        s.n.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| (k.clone(), *v)).collect();
    let distinct = p.hashes.values().collect::<HashSet<_>>().len();
    let steps = s.get("callbacks") + s.get("write_calls") + s.get("context_switches") + s.get("operations");
    let base = mix(seed);
    let hours = search.as_secs_f64().max(0.001) / 3600.0;
    let j = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": p.total,
            "distinct_nontrivial": distinct,
            "rule": "One evaluation is one simulated execution, generated from (VERIF_SEED, property, index): templates, data, registered functions, operations, faults and the schedule. Non-trivial: the scenario is valid and at least one operation was carried out on the real engine and compared with the reference. Distinct: different digests of everything observed (callback events with arguments, delivered bytes, error texts, and the schedule taken).",
            "samples": [sample(prop, base, 0), sample(prop, base, 1), sample(prop, base, 7)],
            "runs_per_hour": (p.total as f64 / hours) as u64,
            "seeds_per_hour": (p.total as f64 / hours) as u64,
            "simulated_time": {
                "unit": "scheduler-visible steps (callbacks, sink writes, operations, context switches); the system under test has no clock",
                "steps": steps
            },
            "faults_injected": faults,
            "distinct_interleavings": p.scheds.len(),
            "distinct_interleavings_measure": "different sequences of scheduling decisions in parallel phases",
            "counts": rest,
            "engine_control_flow_edges": {
                "reached": p.edges.len(),
                "of": p.all_edges,
                "note": "edges of the compiled crate under test, including those of error paths this property has no business with and of code that is never instantiated"
            },
            "most_engine_steps_without_an_event": p.most_steps,
            "determinism_recheck": {
                "what": "seeds run again in another process after other runs, digests compared",
                "compared": again,
                "differing": differing
            },
            "unconfirmed": unconfirmed,
            "disagreements_that_are_another_propertys": p.explained,
            "real_components": ["the whole upon crate built from /repo's working tree: compiler, renderer, value model, serde conversion, error formatting"],
            "stub_components": ["output sinks", "value functions", "template resolvers", "filters and formatters", "serde data sources", "source text storage (damage on the way in)", "thread scheduling (real threads, one at a time, chosen by the simulator)", "allocator accounting (the allocations themselves go to the system)"]
        },
        "assumptions": [
            "the reference interpreter in /verif/sim/src/model.rs states the documented behaviour",
            "threads are switched at callbacks, sink writes, operation boundaries, and inside the engine at allocations and control flow edges, not at every instruction; code of the engine that is generic and instantiated in the simulator has no such edges"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&j).unwrap());
}

fn one(a: &[String]) -> i32 {
    // `one PROP INDEX [SEED]`: for development
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let sc = props::scenario(&a[0], mix(seed), a[1].parse().unwrap());
    let full = a.get(3).is_some();
    for d in &sc.docs {
        match crate::ast::compile(d, &sc.syntax) {
            Ok(c) => println!("template: {:?}", c.src),
            Err(e) => println!("invalid: {e:?}"),
        }
    }
    if full {
        println!("{}", serde_json::to_string_pretty(&sc).unwrap());
    }
    let e = fresh(&sc);
    match &e {
        Ended::Out(o) => {
            println!("valid {} hash {:016x} stats {:?}", o.valid, o.hash, o.stats.n);
        }
        e => println!("{e:?}"),
    }
    for m in e.mism() {
        println!("  {} [{}]: {}", m.op, m.kind, m.detail);
    }
    0
}

/// `stats PROP COUNT`: run in this process and print how often things happen.
fn stats(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let n: u64 = a[1].parse().unwrap();
    let base = mix(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1));
    big(move || {
        real::install_panic_hook();
        let mut st = Stats::default();
        let t0 = Instant::now();
        let mut by: BTreeMap<String, Vec<u64>> = BTreeMap::new();
        let mut invalid = 0;
        for i in 0..n {
            let sc = props::scenario(&prop, base, i);
            let most = cover::most_steps();
            let t1 = Instant::now();
            let r = exec::run(&sc, &OPTS);
            if t1.elapsed().as_secs_f64() > 0.7 {
                println!("run {i}: {:.1} s", t1.elapsed().as_secs_f64());
            }
            if cover::most_steps() > most.max(1 << 20) {
                println!("run {i}: {} steps without an event", cover::most_steps());
            }
            if !r.valid {
                invalid += 1;
            }
            st.merge(&r.stats);
            let mut seen = HashSet::new();
            for m in &r.mism {
                if std::env::var("UPSIM_SHOW").map_or(false, |k| k == m.kind) {
                    println!("{i} {}: {}", m.op, m.detail);
                }
                if seen.insert(m.kind.clone()) {
                    by.entry(m.kind.clone()).or_default().push(i);
                }
            }
        }
        println!("{n} runs, {invalid} invalid, {:.1} s", t0.elapsed().as_secs_f64());
        println!("edges {} of {}, most steps {}", cover::hit().len(), cover::total(), cover::most_steps());
        for (k, v) in &st.n {
            println!("  {k}: {v}");
        }
        for (k, v) in &by {
            println!("MISMATCH {k}: {} e.g. {:?}", v.len(), &v[..v.len().min(6)]);
        }
        0
    })
}

/// `edges COUNT [PROP..]`: run in this process and list the addresses of the edges
/// reached (`+`) and not reached (`-`), for `addr2line`.
fn edges(a: &[String]) -> i32 {
    let n: u64 = a[0].parse().unwrap();
    let ps: Vec<String> = if a.len() > 1 { a[1..].to_vec() } else { props::PROPS.iter().map(|p| p.to_string()).collect() };
    big(move || {
        real::install_panic_hook();
        for p in &ps {
            for i in 0..n {
                exec::run(&props::scenario(p, mix(1), i), &OPTS);
            }
            eprintln!("{p}: {} of {}, most steps {}", cover::hit().len(), cover::total(), cover::most_steps());
        }
        let hit: HashSet<u32> = cover::hit().into_iter().collect();
        for (i, a) in cover::addresses() {
            println!("{} {a:#x}", if hit.contains(&i) { '+' } else { '-' });
        }
        0
    })
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let _ = Path::new("");
    match a.first().map(String::as_str) {
        Some("check") => check(&a[1..]),
        Some("worker") => worker(&a[1..]),
        Some("eval") => eval(),
        Some("baseline") => baseline(),
        Some("history") => history(&a[1..]),
        Some("replay") => replay(&a[1..]),
        Some("deepnest") => deepnest(&a[1..]),
        Some("one") => one(&a[1..]),
        Some("stats") => stats(&a[1..]),
        Some("edges") => edges(&a[1..]),
        Some("refcheck") => refcheck(&a[1..]),
        _ => {
            eprintln!("usage: upsim check PROP | replay FILE | one PROP INDEX [SEED]");
            2
        }
    }
}

/// The printer and the reader of template text must agree.
fn refcheck(a: &[String]) -> i32 {
    let n: u64 = a.first().and_then(|s| s.parse().ok()).unwrap_or(200);
    let (mut same, mut skip, mut bad) = (0, 0, 0);
    for p in props::PROPS {
        for i in 0..n {
            cover::event();
            let sc = props::scenario(p, 1, i);
            for d in &sc.docs {
                let Ok(c) = crate::ast::compile(d, &sc.syntax) else { continue };
                match crate::refparse::parse(&c.src, &sc.syntax) {
                    crate::refparse::Verdict::Unspecified => skip += 1,
                    crate::refparse::Verdict::Err { at, why } => {
                        bad += 1;
                        println!("{p}/{i}: {why} at {at:?} of {:?}", c.src);
                    }
                    crate::refparse::Verdict::Ok(q) => {
                        let (x, y) = (format!("{:?} {:?}", c.raws, c.items), format!("{:?} {:?}", q.raws, q.items));
                        if x == y {
                            same += 1;
                        } else {
                            bad += 1;
                            println!("{p}/{i}: {:?}\n  printed {x}\n  read    {y}", c.src);
                        }
                    }
                }
                if bad > 5 {
                    return 1;
                }
            }
        }
    }
    println!("same {same} unspecified {skip} different {bad}");
    0
}
