//! One scenario generator per property, and what counts as a violation of it.

use std::collections::BTreeMap;
use std::sync::Arc;

use crate::ast::*;
use crate::avail;
use crate::big::{self, Kind};
use crate::conv::{self, Made};
use crate::exec::{self, Mismatch, Opts};
use crate::funcs::{Beh, FmtKind, FmtSpec, FnSpec};
use crate::gen::{self, Feat, Graph, World};
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::scen::*;
use crate::ser::Script;
use crate::shapes;
use crate::val::Val;

pub const PROPS: &[&str] = &[
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14",
    "P15", "P16", "P17", "P18", "P19", "P20",
];

/// Runs in the quick and in the thorough tier.
pub fn budget(p: &str, thorough: bool) -> usize {
    let q = match p {
        "P10" => 5_000,
        "P19" => 21_000,
        "P12" | "P15" => 8_000,
        "P16" => 4_000,
        "P07" => 8_000,
        "P08" | "P09" | "P14" | "P17" | "P20" => 40_000,
        _ => 24_000,
    };
    if thorough {
        q * 40
    } else {
        q
    }
}

pub fn scenario(prop: &str, base: u64, idx: u64) -> Scenario {
    let mut seed = mix(base ^ 0x5eed);
    for b in prop.bytes() {
        seed = mix(seed ^ u64::from(b));
    }
    seed = mix(seed ^ mix(idx));
    let mut r = Rng::new(seed);
    avail::set(None);
    let mut sc = match prop {
        "P19" => p19(&mut r, (idx % u64::from(avail::ALL)) as u8),
        "P01" => p01(&mut r),
        "P02" => p02(&mut r),
        "P03" => p03(&mut r),
        "P04" => p04(&mut r),
        "P05" => p05(&mut r),
        "P06" => p06(&mut r),
        "P07" => p07(&mut r),
        "P08" => p08(&mut r),
        "P09" => p09(&mut r),
        "P10" => p10(&mut r),
        "P11" => p11(&mut r),
        "P12" => p12(&mut r),
        "P13" => p13(&mut r),
        "P14" => p14(&mut r),
        "P17" => p17(&mut r),
        "P15" => p15(&mut r),
        "P16" => p16(&mut r),
        "P18" => p18(&mut r),
        "P20" => p20(&mut r),
        _ => panic!("unknown property {prop}"),
    };
    sc.prop = prop.to_string();
    sc.seed = seed;
    sc
}

fn sc(w: &World, phases: Vec<Phase>) -> Scenario {
    Scenario { prop: String::new(), seed: 0, syntax: w.syntax.clone(), docs: w.docs.clone(), phases, feats: None, big: w.big }
}

fn with_slots(w: &World, m: &mut MEngine, ops: &mut Vec<Op>, r: &mut Rng) {
    for i in 0..w.docs.len() {
        if r.pct(20) {
            ops.push(Op::CompileAway { doc: i });
        } else {
            ops.push(Op::Compile { doc: i, damage: None, keep: true, render: None, owned: r.pct(50) });
        }
        m.slots.push(w.compiled[i].clone());
    }
}

fn resolver_for(w: &World, r: &mut Rng) -> ResolverSpec {
    let mut map = BTreeMap::new();
    let n = w.docs.len();
    for (i, name) in w.names.iter().enumerate() {
        if r.pct(90) {
            let mut s = vec![i];
            while r.pct(40) && s.len() < 3 {
                // Rotation keeps to later documents, so that runs end.
                s.push(r.range(i, n - 1));
            }
            map.insert(name.clone(), s);
        }
    }
    ResolverSpec { map }
}

/// A render of the first document, by a random route.
fn route(w: &World, r: &mut Rng, slots: bool) -> RenderOp {
    let i = if r.pct(80) { 0 } else { r.below(w.docs.len()) };
    let mut op = w.op(r, i);
    if slots && r.pct(50) {
        op.target = Target::Slot(i);
    }
    if slots && r.pct(20) {
        op.resolver = Some(resolver_for(w, r));
    }
    big::tame(w, &mut op);
    op
}

fn id(r: &mut Rng) -> u64 {
    r.u64() >> 40
}

fn msg(r: &mut Rng) -> String {
    let k = id(r);
    match r.below(6) {
        5 => format!(" \t{k}. "),
        0 => format!("boom {k}"),
        1 => format!("fehler ü€ {k}"),
        2 => format!("line one\nline two {k}"),
        3 => format!("\"{k}\" {{{{ }}}}"),
        _ => format!("e{k}"),
    }
}

#[derive(Clone, Copy)]
struct FaultMix {
    err: usize,
    panic: usize,
}

/// Put one fault at a random callback that the render reaches.
fn inject(m: &MEngine, op: &mut RenderOp, r: &mut Rng, mix: FaultMix) -> bool {
    let Some(e) = gen::dry(m, op) else { return false };
    let n = e.st.events.len();
    if n == 0 {
        return false;
    }
    let k = if r.pct(30) { n - 1 } else { r.below(n) } as u32;
    let desc = &e.st.events[k as usize].desc;
    let is_fmt = desc.starts_with("format");
    let f = if r.below(mix.err + mix.panic) < mix.err {
        if is_fmt {
            Fault::FmtErr { after: r.below(5), msg: if r.pct(70) { Some(msg(r)) } else { None } }
        } else {
            Fault::Err(msg(r))
        }
    } else if is_fmt {
        Fault::FmtPanic { after: r.below(5), id: id(r) }
    } else {
        Fault::Panic(id(r))
    };
    op.faults.insert(k, f);
    true
}

/// A sink that fails somewhere within the output of this render.
fn break_sink(m: &MEngine, op: &mut RenderOp, r: &mut Rng, panics: bool) -> bool {
    let Some(e) = gen::dry(m, op) else { return false };
    let mut p = gen::awkward(r);
    let n = id(r);
    let err = if panics { SinkErr::Panic(n) } else { gen::sink_err(r, n) };
    if e.out.is_empty() {
        op.out = OutKind::Sink(p);
        return false;
    }
    if r.pct(75) {
        let at = match r.below(6) {
            0 => 0,
            1 => e.out.len() - 1,
            2 => e.out.len(),
            _ => r.below(e.out.len()),
        };
        p.fail_at_byte = Some((at as u64, err));
    } else {
        let k = match r.below(4) {
            0 => 0,
            1 => r.below(4),
            _ => r.below(e.out.len().min(60)),
        };
        p.fail_at_call = Some((k as u32, err));
    }
    op.out = OutKind::Sink(p);
    true
}

fn sink_of(r: &mut Rng) -> OutKind {
    if r.pct(40) {
        OutKind::Str
    } else {
        let mut p = gen::awkward(r);
        if r.pct(60) {
            p.chunks.clear();
            p.interrupts.clear();
        }
        OutKind::Sink(p)
    }
}

fn base_world(r: &mut Rng, tweak: impl FnOnce(&mut Rng, &mut Feat)) -> World {
    let mut f = Feat::draw(r);
    tweak(r, &mut f);
    gen::world(r, f, Graph::Dag)
}

/// Like `base_world`; every so often small but for one thing of unusual size.
fn sized_world(r: &mut Rng, permille: usize, kinds: &[Kind], tweak: impl FnOnce(&mut Rng, &mut Feat)) -> World {
    if r.below(1000) >= permille {
        return base_world(r, tweak);
    }
    let mut w = base_world(r, |r, f| {
        tweak(r, f);
        f.nodes = r.range(1, 3);
        f.docs = r.range(1, 2);
        f.err = 0;
        f.big = false;
        f.trims = *r.pick(&[0, 0, 20]);
        if r.pct(60) {
            f.syntax = 0;
        }
    });
    big::grow(&mut w, r, kinds);
    w
}

/// Sometimes only some kinds of tags are configured.
fn partly(r: &mut Rng, f: &mut Feat, pct: usize) {
    if r.pct(pct) {
        f.syntax = gen::PARTIAL;
    }
}

fn p01(r: &mut Rng) -> Scenario {
    let w = sized_world(r, 12, &[Kind::Text, Kind::Loop, Kind::Lines, Kind::Col, Kind::Names], |r, f| {
        f.fmts = *r.pick(&[15, 40, 60]);
        if r.pct(70) {
            f.err = 0;
        }
    });
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    for _ in 0..r.range(1, 4) {
        let mut op = route(&w, r, true);
        op.out = OutKind::Sink(gen::awkward(r));
        ops.push(Op::Render(op));
    }
    sc(&w, vec![Phase::Seq(ops)])
}

fn p02(r: &mut Rng) -> Scenario {
    let w = sized_world(r, 12, &[Kind::Text, Kind::Text, Kind::Loop, Kind::Lines], |r, f| {
        f.fmts = *r.pick(&[15, 40, 60]);
        f.deffmt = *r.pick(&[0, 60]);
        f.err = 0;
    });
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    for _ in 0..r.range(1, 4) {
        let mut op = route(&w, r, true);
        let panics = r.pct(6);
        break_sink(&m, &mut op, r, panics);
        ops.push(Op::Render(op));
        if r.pct(25) {
            let mut op = route(&w, r, true);
            op.out = sink_of(r);
            ops.push(Op::Render(op));
        }
    }
    sc(&w, vec![Phase::Seq(ops)])
}

fn p03(r: &mut Rng) -> Scenario {
    let w = sized_world(r, 14, big::ALL, |r, f| {
        f.filters = *r.pick(&[25, 50]);
        f.fmts = *r.pick(&[15, 40]);
        f.deffmt = *r.pick(&[0, 50]);
        f.err = *r.pick(&[0, 0, 3, 8]);
        f.unicode = r.pct(60);
        partly(r, f, 2);
    });
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    for _ in 0..r.range(1, 4) {
        let mut op = route(&w, r, true);
        if r.pct(50) {
            op.kind = CtxKind::Fn(r.below(4) as u8);
        }
        big::tame(&w, &mut op);
        if r.pct(25) && op.resolver.is_none() {
            op.resolver = Some(resolver_for(&w, r));
        }
        op.out = sink_of(r);
        inject(&m, &mut op, r, FaultMix { err: 1, panic: 0 });
        ops.push(Op::Render(op));
    }
    sc(&w, vec![Phase::Seq(ops)])
}

fn p04(r: &mut Rng) -> Scenario {
    let w = sized_world(r, 14, big::ALL, |r, f| {
        f.nodes = r.range(3, 45);
        partly(r, f, 3);
    });
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    for _ in 0..r.range(1, 3) {
        let mut op = route(&w, r, true);
        op.out = sink_of(r);
        ops.push(Op::Render(op));
    }
    sc(&w, vec![Phase::Seq(ops)])
}

fn p20(r: &mut Rng) -> Scenario {
    // Many small templates that each apply a few filters, or some large ones.
    let small = r.pct(70);
    let w = sized_world(r, 6, &[Kind::Args, Kind::Args, Kind::Filters], |r, f| {
        f.shapes = true;
        f.filters = *r.pick(&[60, 80, 95]);
        f.fmts = *r.pick(&[0, 15]);
        f.err = *r.pick(&[0, 2, 5, 20]);
        f.lits = *r.pick(&[10, 50, 80]);
        f.includes = *r.pick(&[0, 0, 6]);
        if small {
            f.filters = 95;
            f.err = *r.pick(&[10, 30]);
            f.nodes = r.range(1, 3);
            f.docs = r.range(4, 10);
            (f.loops, f.withs, f.ifs, f.includes) = (0, 0, 0, 0);
            f.big = false;
        }
    });
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    for _ in 0..if small { r.range(4, 16) } else { r.range(1, 3) } {
        let mut op = route(&w, r, true);
        if r.pct(30) {
            op.kind = CtxKind::Fn(r.below(4) as u8);
        }
        op.out = sink_of(r);
        if r.pct(25) {
            inject(&m, &mut op, r, FaultMix { err: 2, panic: 1 });
        }
        ops.push(Op::Render(op));
    }
    sc(&w, vec![Phase::Seq(ops)])
}

fn p05(r: &mut Rng) -> Scenario {
    let w = sized_world(r, 14, &[Kind::Loop, Kind::Loop, Kind::Index, Kind::Withs, Kind::Withs, Kind::Chain, Kind::Path, Kind::Jump, Kind::Names], |r, f| {
        f.loops = *r.pick(&[14, 25]);
        f.withs = *r.pick(&[12, 25]);
        f.ifs = *r.pick(&[0, 10]);
        f.shadow = true;
        f.opt = *r.pick(&[0, 15, 50]);
        f.includes = *r.pick(&[0, 10, 20]);
        f.err = *r.pick(&[0, 0, 0, 3]);
        f.nodes = r.range(6, 40);
    });
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    for _ in 0..r.range(1, 3) {
        let mut op = route(&w, r, true);
        if r.pct(75) {
            op.kind = CtxKind::Fn(r.below(4) as u8);
        }
        big::tame(&w, &mut op);
        op.out = sink_of(r);
        ops.push(Op::Render(op));
    }
    sc(&w, vec![Phase::Seq(ops)])
}

fn p06(r: &mut Rng) -> Scenario {
    let w = sized_world(r, 12, &[Kind::Chain, Kind::Chain, Kind::Names, Kind::Withs, Kind::Loop], |r, f| {
        f.includes = *r.pick(&[20, 35]);
        f.docs = r.range(2, 7);
        f.loops = *r.pick(&[8, 16]);
        f.withs = *r.pick(&[6, 14]);
        f.shadow = r.pct(60);
        f.err = *r.pick(&[0, 0, 0, 2]);
        f.nodes = r.range(8, 36);
    });
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    let n = w.docs.len();
    for _ in 0..r.range(2, 5) {
        let mut op = route(&w, r, true);
        if r.pct(35) {
            op.resolver = Some(resolver_for(&w, r));
        }
        if r.pct(40) {
            op.kind = CtxKind::Fn(r.below(4) as u8);
        }
        big::tame(&w, &mut op);
        op.out = sink_of(r);
        ops.push(Op::Render(op));
        // What a name means may change between renders.
        match r.below(6) {
            0 => {
                let i = r.below(n);
                let j = r.range(i, n - 1);
                ops.push(Op::Add { name: w.names[i].clone(), doc: j, damage: None, owned: r.pct(50) });
            }
            1 => ops.push(Op::Remove { name: w.names[r.range(n.min(2) - 1, n - 1)].clone() }),
            2 => {
                if let Some((k, _)) = w.fns.iter().next() {
                    ops.push(Op::AddFn { name: k.clone(), f: gen::fn_spec(r, 7) });
                }
            }
            3 => {
                let i = r.below(n);
                ops.push(Op::Add {
                    name: w.names[i].clone(),
                    doc: i,
                    damage: Some(Damage::Text("{{ broken".into())),
                    owned: r.pct(50),
                });
            }
            _ => {}
        }
    }
    sc(&w, vec![Phase::Seq(ops)])
}

fn var(s: &str) -> Expr {
    let mut it = s.split('.');
    let mut p = Path::name(it.next().unwrap());
    for k in it {
        let (k, opt) = match k.strip_suffix('?') {
            Some(k) => (k, true),
            None => (k, false),
        };
        p.rest.push(Member {
            opt,
            acc: match k.parse() {
                Ok(i) => Acc::Index(i),
                Err(_) => Acc::Key(k.to_string()),
            },
        });
    }
    Expr { base: Base::Var(p), calls: vec![] }
}

fn emit(s: &str) -> Node {
    Node::Emit { e: var(s), tag: Tag::default() }
}

fn raw(s: &str) -> Node {
    Node::Raw(s.to_string())
}

fn include(n: &str, with: Option<Expr>) -> Node {
    Node::Include { name: Lit::str(n), with, tag: Tag::default() }
}

fn p07(r: &mut Rng) -> Scenario {
    // A chain of nested data whose length decides how deep the includes go.
    let depth = match r.below(5) {
        0 => r.range(0, 6),
        1 => r.range(60, 68),
        2 => r.range(100, 140),
        3 if r.pct(6) => r.range(250, 330),
        _ => r.range(2, 40),
    };
    let n = r.range(1, 4);
    let names: Vec<String> = (0..n).map(|i| format!("t{i}")).collect();
    let mut docs = Vec::new();
    let style = r.below(5);
    for i in 0..n {
        let next = names[if r.pct(80) { (i + 1) % n } else { r.below(n) }].clone();
        let mut d = vec![raw("<"), emit("v")];
        if r.pct(30) {
            d.push(include("leaf", if r.pct(50) { Some(var("n")) } else { None }));
        }
        let inc = |with: bool| include(&next, with.then(|| var("next")));
        let iff = |b: Vec<Node>| Node::If {
            arms: vec![Arm { not: false, e: var("next"), tag: Tag::default(), body: b }],
            els: None,
            end: Tag::default(),
        };
        match style {
            // data-bounded recursion with a fresh scope each time
            0 | 1 => d.push(iff(vec![inc(true)])),
            // scope passed along through `with`
            2 => d.push(iff(vec![Node::With {
                e: var("next"),
                name: "cur".into(),
                tag: Tag::default(),
                body: vec![include(&next, Some(var("cur")))],
                end: Tag::default(),
            }])),
            // through a loop over children
            3 => d.push(iff(vec![Node::For {
                vars: vec!["c".into()],
                e: var("kids"),
                tag: Tag::default(),
                body: vec![include(&next, Some(var("c"))), raw(",")],
                end: Tag::default(),
            }])),
            // unbounded
            _ => d.push(include(&next, None)),
        }
        d.push(raw(">"));
        if r.pct(30) {
            d.push(emit("v"));
        }
        docs.push(d);
    }
    docs.push(vec![raw("leaf")]);
    let mut data = Val::map([("v", Val::Int(0)), ("n", Val::map([])), ("next", Val::None), ("kids", Val::List(vec![]))]);
    for i in 0..depth {
        data = Val::map([
            ("v", Val::Int(i as i64 + 1)),
            ("n", Val::map([("v", Val::str("n"))])),
            ("kids", if style == 3 { Val::List(vec![data.clone()]) } else { Val::List(vec![]) }),
            ("next", if style == 3 { Val::Bool(true) } else { data }),
        ]);
    }
    if style != 3 && r.pct(20) {
        // `next` present but nothing to iterate
        data = Val::map([("v", Val::str("top")), ("n", Val::map([])), ("next", data), ("kids", Val::List(vec![]))]);
    }
    let mut ops = Vec::new();
    for (i, d) in names.iter().enumerate() {
        ops.push(Op::Add { name: d.clone(), doc: i, damage: None, owned: r.pct(50) });
    }
    ops.push(Op::Add { name: "leaf".into(), doc: n, damage: None, owned: true });
    for i in 0..=n {
        ops.push(Op::Compile { doc: i, damage: None, keep: true, render: None, owned: true });
    }
    for _ in 0..r.range(1, 4) {
        let limit = |r: &mut Rng| match r.below(6) {
            0 => r.range(1, 4),
            1 => depth.max(1),
            2 => depth + 1,
            3 => depth + 2,
            4 => r.range(1, 200),
            _ if r.pct(15) => *r.pick(&[127, 128, 255, 256, 257, 300, 511, 1_000, 3_000]),
            _ if r.pct(10) => 0,
            // As good as none: the data ends the recursion.
            _ if style < 4 && r.pct(15) => *r.pick(&[65_535, 65_536, 65_537, 1 << 31, 1 << 32, (1 << 32) + 1, usize::MAX - 1, usize::MAX]),
            _ => *r.pick(&[1, 2, 63, 64, 65, 66]),
        };
        if r.pct(50) {
            ops.push(Op::SetDepth(limit(r)));
        }
        let mut op = RenderOp {
            target: if r.pct(60) { Target::Engine(names[0].clone()) } else { Target::Slot(0) },
            kind: *r.pick(&[CtxKind::Serde, CtxKind::Value, CtxKind::Fn(0)]),
            val: data.clone(),
            ser: None,
            made: None,
            resolver: None,
            depth: None,
            out: sink_of(r),
            faults: BTreeMap::new(),
        };
        if r.pct(60) {
            op.depth = Some(limit(r));
        }
        if r.pct(25) {
            let mut map = BTreeMap::new();
            for (i, nm) in names.iter().enumerate() {
                map.insert(nm.clone(), if r.pct(70) { vec![i] } else { vec![i, r.below(n)] });
            }
            map.insert("leaf".into(), vec![n]);
            op.resolver = Some(ResolverSpec { map });
        }
        ops.push(Op::Render(op));
    }
    Scenario { prop: String::new(), seed: 0, syntax: SyntaxSpec::default_spec(), docs, phases: vec![Phase::Seq(ops)], feats: None, big: false }
}

/// A write to the engine's registries, or a read.
fn registry_op(w: &World, r: &mut Rng, names: &[String], fns: &[String], ver: &mut u32, damage: usize) -> Op {
    let name = r.pick(names).clone();
    let fname = r.pick(fns).clone();
    *ver += 1;
    match r.below(20) {
        0..=5 => {
            let doc = r.below(w.docs.len());
            let damage = if r.pct(damage) { Some(gen_damage(w, r, doc)) } else { None };
            Op::Add { name, doc, damage, owned: r.pct(50) }
        }
        6..=8 => Op::Remove { name },
        9 => Op::Get { name },
        10 => Op::Missing { name: if r.pct(50) { name } else { "no such".into() } },
        11..=14 => Op::AddFn { name: fname, f: gen::fn_spec(r, *ver) },
        15..=16 => Op::RemoveFn { name: fname },
        17 => Op::SetDepth(r.range(1, 80)),
        18 => Op::SetFmt(gen::fmt_spec(r, *ver)),
        _ => {
            let doc = r.below(w.docs.len());
            if r.pct(25) {
                Op::CompileAway { doc }
            } else {
                Op::Compile { doc, damage: None, keep: true, render: None, owned: r.pct(50) }
            }
        }
    }
}

/// A name that is easily confused with another.
fn near(r: &mut Rng, base: &str) -> String {
    match r.below(12) {
        0 => format!("{base} "),
        1 => format!(" {base}"),
        2 => base.to_uppercase(),
        3 => format!("{base}.html"),
        4 => base.strip_suffix(".html").unwrap_or("b").to_string(),
        5 => format!("./{base}"),
        6 => format!("/{base}"),
        7 => base.rsplit('/').next().unwrap_or("x").to_string(),
        8 => format!("{base}/"),
        9 => format!("{base}\u{301}"),
        10 => base.chars().take(base.chars().count().saturating_sub(1)).collect(),
        _ => format!("{base}\0"),
    }
}

fn p08(r: &mut Rng) -> Scenario {
    let w = base_world(r, |r, f| {
        f.docs = r.range(2, 6);
        f.nodes = r.range(3, 14);
        f.includes = *r.pick(&[0, 15, 30]);
        f.filters = 40;
        f.fmts = 30;
        f.err = *r.pick(&[0, 0, 4]);
    });
    let mut ops = vec![];
    if r.pct(70) {
        ops = w.setup(r);
    }
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    let mut names: Vec<String> = w.names.clone();
    names.push("extra".into());
    // Names that are almost, but not, the same name.
    if r.pct(60) {
        for _ in 0..r.range(1, 4) {
            let base = r.pick(&w.names).clone();
            names.push(near(r, &base));
        }
    }
    let mut fns: Vec<String> = w.fns.keys().take(4).cloned().collect();
    fns.push("up".into());
    fns.push("zz".into());
    if r.pct(40) {
        let base = r.pick(&fns).clone();
        fns.push(near(r, &base));
    }
    let mut ver = 10;
    if r.below(1000) < 8 {
        let many = big::names(r, "t");
        for n in &many {
            ops.push(Op::Add { name: n.clone(), doc: r.below(w.docs.len()), damage: None, owned: r.pct(50) });
        }
        names.extend(many);
        let many = big::names(r, "fn_");
        for n in &many {
            ver += 1;
            ops.push(Op::AddFn { name: n.clone(), f: gen::fn_spec(r, ver) });
        }
        fns.extend(many);
    }
    // A long history: of everything, or of failures mostly.
    let (n, damage, mostly) = if r.below(1000) < 6 {
        names.truncate(r.range(1, 4));
        (r.range(200, 900), *r.pick(&[30, 60, 90]), r.below(12))
    } else {
        (r.range(5, 45), 30, usize::MAX)
    };
    let favoured = |o: &Op| match mostly {
        0..=2 => matches!(o, Op::Add { .. }),
        3 => matches!(o, Op::Add { .. } | Op::Remove { .. }),
        4 => matches!(o, Op::AddFn { .. } | Op::RemoveFn { .. }),
        5 => matches!(o, Op::Get { .. } | Op::Missing { .. }),
        6 => matches!(o, Op::Compile { .. } | Op::CompileAway { .. }),
        _ => true,
    };
    for _ in 0..n {
        if r.pct(22) {
            let mut op = w.op(r, 0);
            op.target = if r.pct(75) {
                Target::Engine(r.pick(&names).clone())
            } else {
                Target::Slot(r.below(w.docs.len()))
            };
            op.out = sink_of(r);
            ops.push(Op::Render(op));
        } else {
            let mut op = registry_op(&w, r, &names, &fns, &mut ver, damage);
            for _ in 0..8 {
                if favoured(&op) {
                    break;
                }
                op = registry_op(&w, r, &names, &fns, &mut ver, damage);
            }
            ops.push(op);
        }
    }
    sc(&w, vec![Phase::Seq(ops)])
}

fn gen_damage(w: &World, r: &mut Rng, doc: usize) -> Damage {
    let src = &w.compiled[doc].src;
    let n = src.len().max(1);
    // Prefer offsets inside and right next to tags.
    let off = |r: &mut Rng| -> usize {
        let tags = &w.compiled[doc].tags;
        if !tags.is_empty() && r.pct(60) {
            let t = r.pick(tags);
            match r.below(6) {
                0 => t.start,
                1 => t.open,
                2 => t.end,
                3 => t.end.saturating_sub(1),
                _ => r.range(t.start, t.end),
            }
        } else {
            r.below(n + 1)
        }
    };
    let bits: &[&str] = &[
        "{{", "}}", "{%", "%}", "{#", "#}", "-", "\"", "\\", "|", ":", ".", "?.", "?", ",", "\n", "0x", "é", "𝄞", " ",
        "{%-", "-%}", "{% endif %}", "{% else %}", "{% for", "99999999999999999999", "1e999", "\0", "{{ }}", "{% %}",
        "in", "not", "as", "+", "\u{feff}", "\u{301}", "{% include %}", "\"\\q\"", "0b12", "1.2.3", "-",
    ];
    match r.below(12) {
        0..=4 => Damage::Truncate(off(r)),
        5 => Damage::Delete(off(r), off(r)),
        6 => Damage::Dup(off(r), off(r)),
        7 => {
            let o = r.below(w.docs.len());
            let t = w.compiled[o].src.len();
            Damage::Splice { other: o, head: off(r), tail: r.below(t + 1) }
        }
        8 | 9 => Damage::Subst(off(r), r.pick(bits).to_string()),
        10 => Damage::Insert(off(r), r.pick(bits).to_string()),
        _ => {
            let k = r.range(0, 12);
            let mut s = String::new();
            let d = &w.syntax;
            for _ in 0..k {
                match r.below(8) {
                    0 => s.push_str(&d.expr.0),
                    1 => s.push_str(&d.expr.1),
                    2 => s.push_str(&d.block.0),
                    3 => s.push_str(&d.block.1),
                    _ => s.push_str(*r.pick(bits)),
                }
            }
            Damage::Text(s)
        }
    }
}

fn p09(r: &mut Rng) -> Scenario {
    let w = sized_world(r, 4, TEXTUAL, |r, f| {
        f.syntax = r.below(10) as u8;
        partly(r, f, 5);
        f.nodes = r.range(2, 14);
        f.docs = r.range(1, 4);
        f.comments = r.pct(60);
        f.trims = *r.pick(&[0, 30]);
        f.err = *r.pick(&[0, 5]);
    });
    let mut ops = w.setup(r);
    let n = if r.below(1000) < 4 { r.range(150, 700) } else { r.range(4, 16) };
    for _ in 0..n {
        let doc = r.below(w.docs.len());
        let damage = Some(gen_damage(&w, r, doc));
        if r.pct(60) {
            let name = r.pick(&w.names).clone();
            ops.push(Op::Add { name: name.clone(), doc, damage, owned: r.pct(50) });
            if r.pct(50) {
                let mut op = w.op(r, 0);
                op.target = Target::Engine(name);
                op.out = sink_of(r);
                ops.push(Op::Render(op));
            }
            if r.pct(30) {
                // Put the good version back.
                let i = r.below(w.docs.len());
                ops.push(Op::Add { name: w.names[i].clone(), doc: i, damage: None, owned: r.pct(50) });
            }
        } else {
            let mut op = w.op(r, 0);
            op.out = sink_of(r);
            ops.push(Op::Compile { doc, damage, keep: false, render: Some(Box::new(op)), owned: r.pct(50) });
        }
    }
    let mut op = w.op(r, 0);
    op.out = sink_of(r);
    ops.push(Op::Render(op));
    sc(&w, vec![Phase::Seq(ops)])
}

/// A number, a string, a path, ... not always a correct one.
fn ascii(r: &mut Rng) -> char {
    r.below(128) as u8 as char
}

fn odd_token(r: &mut Rng) -> String {
    match r.below(10) {
        0 | 1 => {
            let pre = *r.pick(&["", "", "0x", "0b", "0o"]);
            let pool: &[&str] = match pre {
                "0x" => &["f", "F", "1", "0", "_", "a9", "g", "7fff"],
                "0b" => &["0", "1", "10", "_", "2", "b", "1111111"],
                "0o" => &["7", "0", "1", "_", "8", "777"],
                _ => &["0", "1", "9", "_", "42", "e5", "e-2", ".5", "a", "E+1", "999999999"],
            };
            let sign = *r.pick(&["", "", "", "-", "+", "- ", "-\t", "--"]);
            let n = if r.pct(25) { r.range(10, 70) } else { r.range(1, 9) };
            let pool = if n > 9 { &pool[..4] } else { pool };
            let body: String = (0..n).map(|_| *r.pick(pool)).collect();
            let lead = if pre.is_empty() { *r.pick(&["1", "0", "9"]) } else { "" };
            format!("{sign}{pre}{lead}{body}")
        }
        2 => {
            let n = r.below(6);
            let inner: String = (0..n)
                .map(|_| match r.below(8) {
                    0 => format!("\\{}", ascii(r)),
                    1 => ascii(r).to_string(),
                    _ => r
                        .pick(&["a", " ", "\\n", "\\\\", "\\\"", "\\t", "\\r", "é", "\\q", "\\", "\n", "\r", "\u{3000}", "%}", "{{", "名"])
                        .to_string(),
                })
                .collect();
            format!("\"{inner}{}", if r.pct(85) { "\"" } else { "" })
        }
        3 => {
            let n = r.range(1, 4);
            (0..n).map(|_| *r.pick(&["a", ".", "?.", ".0", ".18446744073709551616", ".b", "é", ".if", "?", ".00"])).collect()
        }
        4 | 5 => r.pick(KEYWORDS).to_string(),
        6 => r
            .pick(&[" ", "\t", "\n", "\r\n", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{3000}", "\u{200b}", "\u{a0}", "\u{feff}"])
            .to_string(),
        7 if r.pct(50) => ascii(r).to_string(),
        7 => r.pick(&["=", "!", "(", ")", "'", "\0", "~", "$", "\\", "/", "`", "€", "¿", "…"]).to_string(),
        8 => r.pick(&["|", ":", ",", ".", "?.", "-", "+", "?", "||", "::", ",,", "| f:", "|f0|"]).to_string(),
        _ => r.pick(&["a", "名", "loop", "é", "if x", "a b", "x,y in", "as x", "in a", "with a"]).to_string(),
    }
}

/// A text some edits away from a template.
fn edited(w: &World, r: &mut Rng, doc: usize) -> Damage {
    if r.pct(25) {
        return gen_damage(w, r, doc);
    }
    let c = &w.compiled[doc];
    let mut s = c.src.clone();
    let d = &w.syntax;
    let tags: Vec<(usize, usize, usize)> = c.tags.iter().map(|t| (t.start, t.open, t.end)).collect();
    let edits = *r.pick(&[1, 1, 1, 2, 3]);
    // From the back, so that the positions of earlier tags stay right.
    let mut last = usize::MAX;
    for _ in 0..edits {
        let fit: Vec<_> = tags.iter().filter(|t| t.2 <= last && t.2 <= s.len()).collect();
        let Some(&&(a, open, b)) = (if fit.is_empty() { None } else { Some(r.pick(&fit)) }) else { break };
        last = a;
        let at = |r: &mut Rng, s: &str| {
            let mut k = r.range(open, b);
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            // Often between tokens.
            if r.pct(60) {
                while k > open && !s[..k].ends_with([' ', '\t', '|', ':', ',', '.']) {
                    k -= 1;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                }
            }
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            k.max(a)
        };
        if !s.is_char_boundary(a) || !s.is_char_boundary(b) {
            break;
        }
        match r.below(10) {
            0 => s.replace_range(a..b, ""),
            1 => {
                let t = s[a..b].to_string();
                s.insert_str(b, &t);
            }
            2 => {
                let e = r.pick(&["endif", "endfor", "endwith", "else", "else if a", "include \"x\"", "if a", "for x in a", "with a as x", ""]);
                let t = format!("{} {e} {}", d.block.0, d.block.1);
                if r.pct(60) {
                    s.replace_range(a..b, &t);
                } else {
                    s.insert_str(if r.pct(50) { a } else { b }, &t);
                }
            }
            3 => {
                let k = at(r, &s);
                let k2 = at(r, &s);
                s.replace_range(k.min(k2)..k.max(k2), "");
            }
            4 => {
                let del: Vec<&String> = [&d.expr.0, &d.expr.1, &d.block.0, &d.block.1]
                    .into_iter()
                    .chain(d.comment.iter().flat_map(|c| [&c.0, &c.1]))
                    .collect();
                let k = if r.pct(50) { at(r, &s) } else { b };
                let t = r.pick(&del).to_string();
                s.insert_str(k, &t);
            }
            5 => {
                // Lose one delimiter of the tag.
                if r.pct(50) {
                    s.replace_range(a..open.min(b), "");
                } else {
                    let n = if s[a..].starts_with(d.block.0.as_str()) { d.block.1.len() } else { d.expr.1.len() };
                    let k = b.saturating_sub(n).max(open);
                    if s.is_char_boundary(k) {
                        s.replace_range(k..b, "");
                    }
                }
            }
            _ => {
                let k = at(r, &s);
                let t = odd_token(r);
                let t = if r.pct(60) { format!(" {t} ") } else { t };
                if r.pct(40) {
                    // Instead of what stands there.
                    let mut e = k;
                    while e < b && !s[e..].starts_with([' ', '\t', '|', ':', ',', '.', '%', '}']) {
                        e += s[e..].chars().next().map_or(1, char::len_utf8);
                    }
                    if e <= s.len() {
                        s.replace_range(k..e, &t);
                    }
                } else {
                    s.insert_str(k, &t);
                }
            }
        }
    }
    if r.pct(12) {
        s.push_str(*r.pick(&["\n", "\r\n", "\n\n", " \n", "é\n"]));
    }
    Damage::Text(s)
}

/// Where it is the text that is large.
const TEXTUAL: &[Kind] =
    &[Kind::Lines, Kind::Col, Kind::Jump, Kind::Names, Kind::Filters, Kind::ElseIf, Kind::Text, Kind::Withs, Kind::Path, Kind::Tokens];

fn p18(r: &mut Rng) -> Scenario {
    let w = sized_world(r, 6, TEXTUAL, |r, f| {
        f.syntax = if r.pct(50) { 0 } else { r.below(10) as u8 };
        partly(r, f, 5);
        f.nodes = r.range(2, 12);
        f.docs = r.range(1, 4);
        f.comments = r.pct(60);
        f.trims = *r.pick(&[0, 30]);
        f.err = 0;
    });
    let mut ops = w.setup(r);
    for _ in 0..r.range(6, 24) {
        let doc = r.below(w.docs.len());
        let damage = Some(edited(&w, r, doc));
        let mut op = w.op(r, 0);
        if r.pct(30) {
            op.out = sink_of(r);
        }
        match r.below(10) {
            0..=3 => {
                let name = r.pick(&w.names).clone();
                ops.push(Op::Add { name: name.clone(), doc, damage, owned: r.pct(50) });
                op.target = Target::Engine(name);
                ops.push(Op::Render(op));
                if r.pct(30) {
                    let i = r.below(w.docs.len());
                    ops.push(Op::Add { name: w.names[i].clone(), doc: i, damage: None, owned: r.pct(50) });
                }
            }
            _ => ops.push(Op::Compile { doc, damage, keep: false, render: Some(Box::new(op)), owned: r.pct(50) }),
        }
    }
    sc(&w, vec![Phase::Seq(ops)])
}

/// What other properties are decided with, restricted to what a build with
/// these features offers.
fn p19(r: &mut Rng, feats: u8) -> Scenario {
    avail::set(Some(feats));
    let mut s = loop {
        let s = match r.below(19) {
            0 => p01(r),
            1 => p02(r),
            2..=4 => p03(r),
            5..=7 => p04(r),
            8 => p05(r),
            9 => p06(r),
            10 => p07(r),
            11 => p08(r),
            12 => p09(r),
            13 if r.pct(50) => p13(r),
            14 if avail::has(avail::SERDE) => p14(r),
            13 => p17(r),
            15..=16 => p18(r),
            17..=18 if avail::has(avail::FILTERS) => p20(r),
            _ => p03(r),
        };
        if !s.phases.iter().any(|p| matches!(p, Phase::Par { .. })) {
            break s;
        }
    };
    s.feats = Some(feats);
    for p in &mut s.phases {
        if let Phase::Seq(ops) | Phase::Cycle { ops, .. } = p {
            ops.retain(|o| match o {
                Op::AddFn { f: FnSpec::Filter { .. }, .. } => avail::has(avail::FILTERS),
                Op::ToValue(_) => avail::has(avail::SERDE),
                Op::Convert(m) => avail::has(avail::SERDE) || !conv::needs_serde(m),
                _ => true,
            });
        }
    }
    if !avail::has(avail::SERDE) {
        each_render(&mut s, &mut |o| {
            o.ser = None;
            if o.made.as_ref().map_or(false, conv::needs_serde) {
                o.made = None;
            }
            if o.kind == CtxKind::Serde {
                o.kind = CtxKind::Value;
            }
        });
    }
    s
}

fn par_world(r: &mut Rng) -> World {
    let mut w = plain_world(r);
    match r.below(10) {
        0 | 1 => {
            let d = *r.pick(&[2, 3, 5, 9, 62, 65]);
            chain(&mut w, r, d);
            w.limit = match r.below(4) {
                0 => None,
                1 => Some(d),
                2 => Some(d + 1),
                _ => Some(r.range(1, d)),
            };
        }
        2 => w.limit = Some(r.range(1, 4)),
        _ => {}
    }
    w
}

/// A document that includes itself as deep as its data goes, with callbacks
/// on every level, reached from the first document.
fn chain(w: &mut World, r: &mut Rng, depth: usize) {
    let mut v = emit("v");
    if let (Node::Emit { e, .. }, Some((n, FnSpec::Fmt(_)))) = (&mut v, w.fns.iter().find(|f| matches!(f.1, FnSpec::Fmt(_)))) {
        e.calls.push(Call { name: n.clone(), args: vec![] });
    }
    let body = vec![
        v,
        Node::If {
            arms: vec![Arm {
                not: false,
                e: var("next"),
                tag: Tag::default(),
                body: vec![include("rec", Some(var("next")))],
            }],
            els: None,
            end: Tag::default(),
        },
        raw("."),
    ];
    if !w.add_doc("rec", body) {
        return;
    }
    let mut data = Val::map([("v", Val::Int(0)), ("next", Val::None)]);
    for i in 1..depth {
        data = Val::map([("v", Val::Int(i as i64)), ("next", data)]);
    }
    if w.extend_doc(0, &[include("rec", Some(var("chain")))]) {
        w.set_root("chain", data);
    }
    if r.pct(50) {
        w.extend_doc(0, &[emit("n")]);
    }
}

fn plain_world(r: &mut Rng) -> World {
    base_world(r, |r, f| {
        f.nodes = r.range(4, 20);
        f.docs = r.range(1, 4);
        f.err = *r.pick(&[0, 0, 3]);
        f.big = false;
        f.filters = *r.pick(&[25, 50]);
        f.fmts = *r.pick(&[15, 40]);
        f.includes = *r.pick(&[6, 14]);
    })
}

fn par_op(w: &World, m: &MEngine, r: &mut Rng) -> Op {
    match r.below(12) {
        0 => {
            let doc = r.below(w.docs.len());
            let damage = if r.pct(30) { Some(gen_damage(w, r, doc)) } else { None };
            let mut op = route(w, r, true);
            op.out = sink_of(r);
            Op::Compile { doc, damage, keep: false, render: Some(Box::new(op)), owned: r.pct(50) }
        }
        1 => Op::Get { name: r.pick(&w.names).clone() },
        _ => {
            let mut op = route(w, r, true);
            if r.pct(30) {
                op.kind = CtxKind::Fn(r.below(4) as u8);
            }
            if r.pct(15) {
                op.val = gen::root(r, &w.feat);
            }
            op.out = sink_of(r);
            if r.pct(12) {
                op.depth = Some(r.range(1, 5));
            }
            if r.pct(20) {
                inject(m, &mut op, r, FaultMix { err: 3, panic: 1 });
            } else if r.pct(15) {
                break_sink(m, &mut op, r, false);
            }
            Op::Render(op)
        }
    }
}

fn sched(r: &mut Rng) -> SchedSpec {
    SchedSpec { seed: r.u64(), choices: None, preempt: *r.pick(&[0, 10, 60, 400, 400, 3000]) }
}

/// Mostly a few threads, sometimes a crowd.
fn n_threads(r: &mut Rng) -> usize {
    match r.below(100) {
        0 => r.range(18, 40),
        1..=4 => r.range(5, 17),
        _ => r.range(2, 4),
    }
}

fn p10(r: &mut Rng) -> Scenario {
    let w = par_world(r);
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    let t = n_threads(r);
    let shared = par_op(&w, &m, r);
    let threads = (0..t)
        .map(|_| {
            (0..r.range(1, if t > 4 { 2 } else { 4 }))
                .map(|_| if r.pct(30) { shared.clone() } else { par_op(&w, &m, r) })
                .collect()
        })
        .collect();
    let tail = route(&w, r, true);
    sc(
        &w,
        vec![Phase::Seq(ops), Phase::Par { threads, sched: sched(r) }, Phase::Seq(vec![Op::Render(tail)])],
    )
}

/// An operation that may run from inside a callback.
fn inner_op(w: &World, m: &MEngine, r: &mut Rng, level: usize) -> Op {
    let mut op = par_op(w, m, r);
    if let Op::Render(o) = &mut op {
        if level < 2 && r.pct(20) {
            nest(w, m, o, r, level + 1);
        }
    }
    op
}

fn nest(w: &World, m: &MEngine, op: &mut RenderOp, r: &mut Rng, level: usize) -> bool {
    let Some(e) = gen::dry(m, op) else { return false };
    let n = e.st.events.len();
    if n == 0 {
        return false;
    }
    for _ in 0..r.range(1, 3) {
        let k = r.below(n) as u32;
        let inner = Box::new(inner_op(w, m, r, level));
        let f = if r.pct(15) { Fault::NestedThread(inner) } else { Fault::Nested(inner) };
        op.faults.insert(k, f);
    }
    true
}

/// The same render from inside itself, many levels deep.
fn dig(w: &World, m: &MEngine, op: &mut RenderOp, r: &mut Rng) -> bool {
    let n_of = |op: &RenderOp| gen::dry(m, op).map_or(0, |e| e.st.events.len());
    let n = n_of(op);
    if n == 0 {
        return false;
    }
    let at = r.below(n) as u32;
    let mut inner = if r.pct(50) { op.clone() } else { route(w, r, true) };
    if r.pct(20) {
        inject(m, &mut inner, r, FaultMix { err: 1, panic: 0 });
    }
    let n = n_of(&inner);
    if n == 0 {
        return false;
    }
    let again = r.below(n) as u32;
    let thread = r.pct(15);
    let levels = match r.below(10) {
        0 if !thread => r.range(40, 150),
        0..=3 => r.range(10, 40),
        _ => r.range(4, 10),
    };
    op.faults.insert(at, Fault::Deep { op: Box::new(Op::Render(inner)), at: again, n: levels as u32, thread });
    true
}

fn p11(r: &mut Rng) -> Scenario {
    let w = par_world(r);
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    for _ in 0..r.range(1, 3) {
        let mut op = route(&w, r, true);
        if r.pct(50) {
            op.kind = CtxKind::Fn(r.below(4) as u8);
        }
        op.out = sink_of(r);
        if r.pct(15) {
            op.depth = Some(r.range(1, 5));
        }
        if !r.pct(5) || !dig(&w, &m, &mut op, r) {
            nest(&w, &m, &mut op, r, 0);
        }
        ops.push(Op::Render(op));
    }
    sc(&w, vec![Phase::Seq(ops)])
}

fn p12(r: &mut Rng) -> Scenario {
    let w = par_world(r);
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    let t = n_threads(r);
    // Nobody or nearly everybody else is stalled as well.
    let also = if t > 4 { *r.pick(&[10, 50, 95]) } else { 25 };
    let mut threads: Vec<Vec<Op>> = Vec::new();
    for i in 0..t {
        let mut v = Vec::new();
        for j in 0..r.range(1, if t > 4 { 1 } else { 3 }) {
            let mut op = par_op(&w, &m, r);
            if i == 0 && j == 0 {
                let mut o = route(&w, r, true);
                if r.pct(50) {
                    o.kind = CtxKind::Fn(0);
                }
                op = Op::Render(o);
            }
            if let Op::Render(o) = &mut op {
                if i == 0 || r.pct(also) {
                    if let Some(e) = gen::dry(&m, o) {
                        if !e.st.events.is_empty() {
                            let k = r.below(e.st.events.len()) as u32;
                            o.faults.insert(k, Fault::Stall);
                        }
                    }
                }
            }
            v.push(op);
        }
        threads.push(v);
    }
    let mut s = sched(r);
    s.preempt = *r.pick(&[0, 0, 40, 400]);
    sc(&w, vec![Phase::Seq(ops), Phase::Par { threads, sched: s }])
}

fn p13(r: &mut Rng) -> Scenario {
    let w = par_world(r);
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    let panicking = |r: &mut Rng| -> RenderOp {
        let mut op = route(&w, r, true);
        if r.pct(50) {
            op.kind = CtxKind::Fn(r.below(4) as u8);
        }
        op.out = sink_of(r);
        match r.below(10) {
            0 => {
                op.ser = Some(ser_fault(r, true));
            }
            1 | 2 => {
                break_sink(&m, &mut op, r, true);
            }
            _ => {
                inject(&m, &mut op, r, FaultMix { err: 0, panic: 1 });
            }
        }
        op
    };
    let mut phases = Vec::new();
    if r.pct(1) {
        let n = *r.pick(&[20, 150, 300, 1500]);
        ops.push(Op::Repeat { op: Box::new(Op::Render(panicking(r))), n });
    }
    for _ in 0..r.range(1, 4) {
        ops.push(Op::Render(panicking(r)));
        let mut op = route(&w, r, true);
        op.out = sink_of(r);
        ops.push(Op::Render(op));
    }
    let mut after: Vec<Op> = Vec::new();
    let mut ver = 50;
    let fns: Vec<String> = w.fns.keys().take(3).cloned().chain(["zz".to_string()]).collect();
    for _ in 0..r.range(0, 3) {
        after.push(registry_op(&w, r, &w.names, &fns, &mut ver, 20));
    }
    after.push(Op::Render(route(&w, r, true)));
    phases.push(Phase::Seq(ops));
    if r.pct(30) {
        let threads = (0..2)
            .map(|_| {
                let mut v = vec![Op::Render(panicking(r))];
                v.push(par_op(&w, &m, r));
                v
            })
            .collect();
        phases.push(Phase::Par { threads, sched: sched(r) });
    }
    phases.push(Phase::Seq(after));
    sc(&w, phases)
}

fn script(r: &mut Rng, depth: usize, fault: &mut Option<Script>) -> Script {
    if let Some(f) = fault {
        if r.pct(12) {
            let f = f.clone();
            *fault = None;
            return f;
        }
    }
    let f = Feat { unicode: true, ..Feat::draw(r) };
    let leaf = depth >= 3 || r.pct(35);
    if leaf {
        return match r.below(20) {
            0 => Script::I8(*r.pick(&[i8::MIN, -1, 0, i8::MAX])),
            1 => Script::I16(*r.pick(&[i16::MIN, -1, 0, i16::MAX])),
            2 => Script::I32(*r.pick(&[i32::MIN, -1, 0, i32::MAX])),
            3 => Script::U8(*r.pick(&[0, 7, u8::MAX])),
            4 => Script::U16(*r.pick(&[0, 7, u16::MAX])),
            5 => Script::U32(*r.pick(&[0, 7, u32::MAX])),
            6 => Script::U64(*r.pick(&[0, 7, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX])),
            7 => Script::F32(*r.pick(&[0.0, 1.5, -2.25, 0.1, -0.0, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, 16_777_217.0])),
            8 => Script::Char(*r.pick(&['a', 'é', '𝄞', '\n', '\0'])),
            9 => Script::Bytes((0..r.below(4)).map(|i| i as u8 * 100).collect()),
            10 => Script::NoneOpt,
            11 => Script::UnitStruct,
            14 => Script::Unit,
            15 => Script::Human("10.0.0.1".into()),
            16 => Script::Early(Val::List(vec![gen::scalar(r, &f), Val::None, Val::Map(BTreeMap::from([("k".into(), gen::scalar(r, &f))]))])),
            12 => Script::UnitVariant(r.below(13)),
            13 => Script::Collect("collected ü".into()),
            _ => Script::Val(gen::scalar(r, &f)),
        };
    }
    let many = |r: &mut Rng, fault: &mut Option<Script>| -> Vec<Script> {
        (0..r.below(4)).map(|_| script(r, depth + 1, fault)).collect()
    };
    match r.below(12) {
        0 => Script::Some(Box::new(script(r, depth + 1, fault))),
        1 => Script::Newtype(Box::new(script(r, depth + 1, fault))),
        2 => Script::NewtypeVariant(r.below(13), Box::new(script(r, depth + 1, fault))),
        3 => Script::Seq(r.below(2) as u8, many(r, fault)),
        4 => Script::Tuple(many(r, fault)),
        5 => Script::TupleStruct(many(r, fault)),
        6 => Script::TupleVariant(r.below(13), many(r, fault)),
        7 | 8 => {
            let n = r.below(4);
            let mut v = Vec::new();
            for _ in 0..n {
                let k = if fault.is_some() && r.pct(15) { fault.take().unwrap() } else { key(r) };
                v.push((k, script(r, depth + 1, fault)));
            }
            Script::Map(r.pct(50), v)
        }
        9 | 10 => {
            let n = r.below(5);
            Script::Struct((0..n).map(|_| (r.below(13), script(r, depth + 1, fault))).collect())
        }
        _ => {
            let n = r.below(4);
            Script::StructVariant(r.below(13), (0..n).map(|_| (r.below(13), script(r, depth + 1, fault))).collect())
        }
    }
}

fn key(r: &mut Rng) -> Script {
    match r.below(12) {
        0 => Script::U64(*r.pick(&[0, 3, u64::MAX])),
        1 => Script::I8(-3),
        2 => Script::Char(*r.pick(&['k', 'a', ' ', '"', '\'', '\\', '\n', '\0', 'é', '𝄞'])),
        3 => Script::UnitVariant(r.below(13)),
        4 => Script::Newtype(Box::new(Script::Val(Val::str("wrapped")))),
        5 if r.pct(30) => Script::Human("::1".into()),
        5 => Script::Collect("col".into()),
        6 => Script::Val(Val::Int(12)),
        7 if r.pct(60) => {
            let x = || Box::new(Script::Val(Val::str("k")));
            match r.below(20) {
                17 => Script::Unit,
                18 => Script::Early(Val::None),
                0 => Script::F32(1.0),
                1 => Script::Val(Val::Float(2.0)),
                2 => Script::Val(Val::Bool(true)),
                3 => Script::Val(Val::None),
                4 => Script::NoneOpt,
                5 => Script::Some(x()),
                6 => Script::UnitStruct,
                7 => Script::NewtypeVariant(1, x()),
                8 => Script::Seq(1, vec![]),
                9 => Script::Tuple(vec![*x()]),
                10 => Script::TupleStruct(vec![*x()]),
                11 => Script::TupleVariant(2, vec![*x()]),
                12 => Script::Map(true, vec![]),
                13 => Script::Struct(vec![(0, *x())]),
                14 => Script::StructVariant(1, vec![]),
                15 => Script::Bytes(b"ab".to_vec()),
                16 => Script::Newtype(Box::new(Script::F32(0.5))),
                _ => Script::Val(Val::List(vec![])),
            }
        }
        8 => match r.below(6) {
            0 => Script::I16(-300),
            1 => Script::I32(i32::MIN),
            2 => Script::U8(200),
            3 => Script::U16(60_000),
            4 => Script::U32(u32::MAX),
            _ => Script::Val(Val::Int(i64::MIN)),
        },
        _ => Script::Val(Val::str(*r.pick(&["a", "b", "name", "items", "x y", "", "é", "A", "a b", "q\"q", "\n", "0", "-1"]))),
    }
}

fn ser_fault(r: &mut Rng, panic: bool) -> Script {
    let bomb = if panic { Script::Panic(id(r)) } else { Script::Fail(msg(r)) };
    let mut slot = Some(bomb.clone());
    let s = script(r, 0, &mut slot);
    if slot.is_some() {
        // It found no place: put it last.
        Script::Struct(vec![(0, s), (3, bomb)])
    } else {
        s
    }
}

fn p14(r: &mut Rng) -> Scenario {
    let w = base_world(r, |r, f| {
        f.nodes = r.range(2, 12);
        f.docs = r.range(1, 3);
    });
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    for _ in 0..r.range(2, 8) {
        let faulty = r.pct(35);
        let s = if faulty {
            let p = r.pct(25);
            ser_fault(r, p)
        } else if r.below(1000) < 2 {
            big::script(r)
        } else if r.below(1000) < 6 {
            big::deep_script(r)
        } else {
            script(r, 0, &mut None)
        };
        if r.pct(55) {
            ops.push(Op::ToValue(s));
        } else {
            let mut op = route(&w, r, true);
            op.out = sink_of(r);
            let s = if faulty || r.pct(40) {
                s
            } else {
                // The data the templates were written for, in disguise.
                disguise(&w.root, r)
            };
            op.ser = Some(s);
            if r.pct(10) {
                op.out = OutKind::Drop;
            }
            ops.push(Op::Render(op));
        }
        if r.pct(20) {
            let mut op = route(&w, r, true);
            op.kind = CtxKind::Serde;
            op.out = sink_of(r);
            ops.push(Op::Render(op));
        }
    }
    sc(&w, vec![Phase::Seq(ops)])
}

/// The same data through other serializer calls.
fn disguise(v: &Val, r: &mut Rng) -> Script {
    if r.pct(10) {
        return Script::Some(Box::new(disguise(v, r)));
    }
    if r.pct(10) {
        return Script::Newtype(Box::new(disguise(v, r)));
    }
    match v {
        Val::None => Script::NoneOpt,
        Val::Int(i) if i8::try_from(*i).is_ok() && r.pct(50) => Script::I8(*i as i8),
        Val::Int(i) if u32::try_from(*i).is_ok() && r.pct(50) => Script::U32(*i as u32),
        Val::Int(i) if *i >= 0 => Script::U64(*i as u64),
        Val::List(l) => {
            let v: Vec<Script> = l.iter().map(|x| disguise(x, r)).collect();
            match r.below(3) {
                0 => Script::Tuple(v),
                1 => Script::TupleStruct(v),
                _ => Script::Seq(r.below(2) as u8, v),
            }
        }
        Val::Map(m) => {
            let v = m.iter().map(|(k, x)| (Script::Val(Val::str(k)), disguise(x, r))).collect();
            Script::Map(r.pct(50), v)
        }
        Val::Str(s) if s.chars().count() == 1 => Script::Char(s.chars().next().unwrap()),
        Val::Str(s) if r.pct(30) => Script::Collect(s.clone()),
        v => Script::Val(v.clone()),
    }
}

/// A plan for building some value.
fn made(r: &mut Rng, depth: usize, fault: &mut Option<Made>) -> Made {
    if fault.is_some() && depth > 0 && r.pct(12) {
        return fault.take().unwrap();
    }
    let serde = avail::has(avail::SERDE);
    if depth >= 3 || r.pct(35) {
        let f = Feat { unicode: true, ..Feat::draw(r) };
        return match r.below(20) {
            0 => Made::U8(*r.pick(&[0, 1, 127, 128, u8::MAX])),
            1 => Made::U16(*r.pick(&[0, 255, 32768, u16::MAX])),
            2 => Made::U32(*r.pick(&[0, 65536, 1 << 31, u32::MAX])),
            3 => Made::I8(*r.pick(&[i8::MIN, -1, 0, i8::MAX])),
            4 => Made::I16(*r.pick(&[i16::MIN, -129, 0, i16::MAX])),
            5 => Made::I32(*r.pick(&[i32::MIN, -1, 0, i32::MAX])),
            6 => Made::I64(*r.pick(&[i64::MIN, -1, 0, 1 << 53, (1 << 53) + 1, i64::MAX])),
            7 => Made::F32(*r.pick(&[0.0, 1.5, -2.25, 0.1, f32::MAX, f32::NAN, f32::NEG_INFINITY])),
            8 => Made::F64(*r.pick(&[0.0, -0.0, 0.1, 1e300, 5e-324, f64::NAN, f64::INFINITY])),
            9 => Made::Bool(r.pct(50)),
            10 => Made::Unit,
            11 => Made::Absent,
            12 => Made::Default,
            13..=15 => {
                let s: &str = *r.pick(&["", "a", "two words", "None", "é", "𝄞\n", "0", "{{ x }}", "\0"]);
                Made::Str(r.below(4) as u8, s.into())
            }
            16 if serde => Made::Ser(script(r, 2, &mut None)),
            _ => Made::Enum(gen::scalar(r, &f)),
        };
    }
    let many = |r: &mut Rng, fault: &mut Option<Made>| -> Vec<Made> {
        (0..*r.pick(&[0, 1, 1, 2, 2, 3, 4, 5, 7])).map(|_| made(r, depth + 1, fault)).collect()
    };
    let pairs = |r: &mut Rng, fault: &mut Option<Made>| -> Vec<(String, Made)> {
        let keys: &[&str] = if r.pct(15) {
            &["a", "b", "é", "x", "Z", "\0"]
        } else {
            &["a", "b", "name", "x y", "", "é", "A", "a b", "0", "items", "None"]
        };
        (0..*r.pick(&[0, 1, 1, 2, 2, 3, 4, 5])).map(|_| (r.pick(keys).to_string(), made(r, depth + 1, fault))).collect()
    };
    let kind = r.below(6) as u8;
    match r.below(13) {
        0 => Made::Some(Box::new(made(r, depth + 1, fault))),
        1 => Made::Vec(many(r, fault)),
        2 => Made::Array(many(r, fault)),
        3 => Made::Iter(many(r, fault)),
        4 => Made::BTree(kind, pairs(r, fault)),
        5 => Made::Hash(kind, pairs(r, fault)),
        6 => Made::Pairs(kind, pairs(r, fault)),
        7 => Made::IterMap(kind, pairs(r, fault)),
        8 => Made::Clone(Box::new(made(r, depth + 1, fault))),
        9 if serde => Made::Again(Box::new(made(r, depth + 1, fault))),
        10 if serde => Made::Ser(script(r, depth, &mut None)),
        11 | 12 if serde => {
            let i = r.below(shapes::HOLES.len());
            Made::Macro(i, (0..conv::holes(i)).map(|_| made(r, depth + 1, fault)).collect())
        }
        _ => Made::Vec(many(r, fault)),
    }
}

/// A plan for building exactly this.
fn plan(v: &Val, r: &mut Rng) -> Made {
    let serde = avail::has(avail::SERDE);
    match r.below(16) {
        0 => return Made::Some(Box::new(plan(v, r))),
        1 => return Made::Clone(Box::new(plan(v, r))),
        2 if serde => return Made::Again(Box::new(plan(v, r))),
        3 if serde => return Made::Ser(disguise(v, r)),
        4 => return Made::Enum(v.clone()),
        _ => {}
    }
    let kind = r.below(6) as u8;
    match v {
        Val::None => [Made::Unit, Made::Absent, Made::Default][r.below(3)].clone(),
        Val::Bool(b) => Made::Bool(*b),
        Val::Int(i) => {
            let i = *i;
            let mut all = vec![Made::I64(i)];
            all.extend(u8::try_from(i).ok().map(Made::U8));
            all.extend(u16::try_from(i).ok().map(Made::U16));
            all.extend(u32::try_from(i).ok().map(Made::U32));
            all.extend(i8::try_from(i).ok().map(Made::I8));
            all.extend(i16::try_from(i).ok().map(Made::I16));
            all.extend(i32::try_from(i).ok().map(Made::I32));
            r.pick(&all).clone()
        }
        Val::Float(f) if f64::from(*f as f32) == *f && r.pct(50) => Made::F32(*f as f32),
        Val::Float(f) => Made::F64(*f),
        Val::Str(s) => Made::Str(kind, s.clone()),
        Val::List(l) => {
            let v: Vec<Made> = l.iter().map(|x| plan(x, r)).collect();
            match r.below(3) {
                0 => Made::Vec(v),
                1 => Made::Array(v),
                _ => Made::Iter(v),
            }
        }
        Val::Map(m) => {
            let v: Vec<(String, Made)> = m.iter().map(|(k, x)| (k.clone(), plan(x, r))).collect();
            match r.below(4) {
                0 => Made::BTree(kind, v),
                1 => Made::Hash(kind, v),
                2 => Made::Pairs(kind, v),
                _ => Made::IterMap(kind, v),
            }
        }
    }
}

fn p17(r: &mut Rng) -> Scenario {
    let w = base_world(r, |r, f| {
        f.nodes = r.range(2, 10);
        f.docs = r.range(1, 3);
    });
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    for _ in 0..r.range(3, 9) {
        if r.pct(65) {
            let mut fault = match r.below(8) {
                0 => Some(Made::Panic(id(r))),
                1 if avail::has(avail::SERDE) => {
                    let p = r.pct(30);
                    Some(Made::Ser(ser_fault(r, p)))
                }
                _ => None,
            };
            let m = match r.below(1000) {
                0..=1 => big::made(r),
                2..=9 => big::deep_made(r),
                _ => made(r, 0, &mut fault),
            };
            let m = match fault {
                // It found no place: put it last.
                Some(f) => Made::Vec(vec![m, f]),
                None => m,
            };
            ops.push(Op::Convert(m));
        } else {
            let mut op = route(&w, r, true);
            op.kind = if avail::has(avail::SERDE) && r.pct(40) { CtxKind::Serde } else { CtxKind::Value };
            op.out = sink_of(r);
            op.made = Some(plan(&w.root, r));
            ops.push(Op::Render(op));
        }
    }
    sc(&w, vec![Phase::Seq(ops)])
}

fn p15(r: &mut Rng) -> Scenario {
    match r.below(3) {
        0 => p15_scale(r),
        1 => p15_drop(r),
        _ => p15_cycle(r),
    }
}

fn p15_drop(r: &mut Rng) -> Scenario {
    let w = par_world(r);
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    for _ in 0..r.range(2, 5) {
        let mut op = route(&w, r, true);
        if r.pct(60) {
            op.kind = CtxKind::Fn(0);
        }
        match r.below(5) {
            0 => {
                op.out = OutKind::Drop;
            }
            1 => {
                break_sink(&m, &mut op, r, false);
            }
            2 => {
                let p = r.pct(40);
                break_sink(&m, &mut op, r, p);
            }
            3 => {
                op.out = sink_of(r);
                inject(&m, &mut op, r, FaultMix { err: 1, panic: 1 });
            }
            _ => op.out = sink_of(r),
        }
        ops.push(Op::Render(op));
    }
    let mut ver = 60;
    let fns: Vec<String> = w.fns.keys().take(4).cloned().chain(["zz".to_string()]).collect();
    for _ in 0..r.range(0, 8) {
        ops.push(registry_op(&w, r, &w.names, &fns, &mut ver, 20));
    }
    sc(&w, vec![Phase::Seq(ops)])
}

/// One operation whose content is different in every cycle: six zeros are
/// replaced by the number of the cycle.
fn varying(w: &World, r: &mut Rng, ops: &mut Vec<Op>) {
    let text = |t: &str, s: &SyntaxSpec| {
        t.replace("{{", &s.expr.0).replace("}}", &s.expr.1).replace("{%", &s.block.0).replace("%}", &s.block.1)
    };
    match r.below(6) {
        0 => {
            let t = *r.pick(&[
                "{{ u | no000000 }}",
                "{{ \"lit 000000\" }}",
                "raw 000000 {% for x000000 in nums %}{{ x000000 }}{% endfor %}",
                "{% include \"x000000\" %}",
                "{% with u as w000000 %}{{ w000000 }}{% endwith %}",
                "{{ m000000 }}",
                "{{ user?.k000000 }}",
                "{{ 000000",
                "{% if x000000 %}",
                "{% 000000 %}",
            ]);
            let mut o = w.op(r, 0);
            o.out = sink_of(r);
            ops.push(Op::Compile {
                doc: 0,
                damage: Some(Damage::Text(text(t, &w.syntax))),
                keep: false,
                render: Some(Box::new(o)),
                owned: true,
            });
        }
        1 => ops.push(Op::Get { name: "name000000".into() }),
        2 => {
            ops.push(Op::Add { name: "temp000000".into(), doc: 0, damage: None, owned: true });
            ops.push(Op::Remove { name: "temp000000".into() });
        }
        3 => {
            let Some(f) = w.fns.values().next() else { return };
            ops.push(Op::AddFn { name: "fn000000".into(), f: f.clone() });
            ops.push(Op::RemoveFn { name: "fn000000".into() });
        }
        4 => {
            ops.push(Op::Add {
                name: "temp000000".into(),
                doc: 0,
                damage: Some(Damage::Text(text("{{ a000000", &w.syntax))),
                owned: true,
            });
            ops.push(Op::Remove { name: "temp000000".into() });
        }
        _ => {
            let mut o = w.op(r, 0);
            o.kind = *r.pick(&[CtxKind::Serde, CtxKind::Value, CtxKind::Fn(0)]);
            o.out = sink_of(r);
            if r.pct(40) {
                if let Val::Map(m) = &mut o.val {
                    m.insert("k000000".into(), Val::str("v 000000"));
                }
            }
            ops.push(Op::Render(o));
        }
    }
}

fn p15_cycle(r: &mut Rng) -> Scenario {
    // Many more times, in a small world.
    let long = r.pct(3);
    let mut w = base_world(r, |r, f| {
        f.nodes = if long { r.range(1, 4) } else { r.range(3, 16) };
        f.docs = if long { r.range(1, 2) } else { r.range(1, 3) };
        f.big = false;
        f.err = *r.pick(&[0, 4]);
    });
    let vary = r.pct(60);
    if vary && w.extend_doc(0, &[emit("u")]) {
        w.set_root("u", Val::str("value 000000"));
        if r.pct(30) {
            // A render that fails with a different message each time.
            w.extend_doc(0, &[include("nosuch", Some(var("u")))]);
        }
    }
    let w = w;
    let mut setup = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut setup, r);
    let mut ops = Vec::new();
    for _ in 0..r.range(1, 4) {
        match r.below(8) {
            0 => {
                let i = r.below(w.docs.len());
                ops.push(Op::Add { name: w.names[i].clone(), doc: i, damage: None, owned: true });
            }
            1 => {
                let i = r.below(w.docs.len());
                let d = gen_damage(&w, r, i);
                let rule_safe = Damage::Text("{{ oops".into());
                let d = if r.pct(50) { d } else { rule_safe };
                // Compiled and thrown away, so that the registry stays put.
                ops.push(Op::Compile { doc: i, damage: Some(d), keep: false, render: None, owned: true });
            }
            2 => {
                if let Some((n, f)) = w.fns.iter().next() {
                    ops.push(Op::AddFn { name: n.clone(), f: f.clone() });
                }
            }
            3 => {
                ops.push(Op::Add { name: "temp".into(), doc: 0, damage: None, owned: true });
                ops.push(Op::Remove { name: "temp".into() });
            }
            _ => {
                let mut op = route(&w, r, true);
                op.out = sink_of(r);
                match r.below(6) {
                    0 => {
                        inject(&m, &mut op, r, FaultMix { err: 2, panic: 1 });
                    }
                    1 => {
                        let p = r.pct(30);
                        break_sink(&m, &mut op, r, p);
                    }
                    2 => op.out = OutKind::Drop,
                    _ => {}
                }
                ops.push(Op::Render(op));
            }
        }
    }
    if vary {
        for _ in 0..r.range(1, 3) {
            varying(&w, r, &mut ops);
        }
    }
    let n = if long { r.range(300, 1300) } else { r.range(16, 32) };
    sc(&w, vec![Phase::Seq(setup), Phase::Cycle { ops, n }])
}

fn p15_scale(r: &mut Rng) -> Scenario {
    // Loops over data of two sizes, rendered to a sink from a borrowed value.
    // Each element yields far more output than the few words it may cost.
    let mut body = vec![raw(&"some text that is long enough to notice \n".repeat(4))];
    let keys = ["a", "b"];
    for _ in 0..r.range(1, 4) {
        body.push(match r.below(8) {
            0 => raw("some text\n"),
            1 => emit("x.a"),
            2 => emit("loop.index"),
            3 => Node::If {
                arms: vec![Arm { not: r.pct(50), e: var("x.b"), tag: Tag::default(), body: vec![raw("yes")] }],
                els: Some((Tag::default(), vec![emit("x.a")])),
                end: Tag::default(),
            },
            4 => Node::With {
                e: var(*r.pick(&["x.a", "x", "top", "x.c"])),
                name: "w".into(),
                tag: Tag::default(),
                body: vec![emit("x.a"), raw("!")],
                end: Tag::default(),
            },
            5 => include("part", if r.pct(50) { Some(var("x")) } else { None }),
            6 => Node::For {
                vars: vec!["y".into()],
                e: var("x.c"),
                tag: Tag::default(),
                body: vec![emit("y"), raw(",")],
                end: Tag::default(),
            },
            _ => emit("x.b"),
        });
    }
    let map_loop = r.pct(30);
    let doc = vec![
        raw("start "),
        Node::For {
            vars: if map_loop { vec!["k".into(), "x".into()] } else { vec!["x".into()] },
            e: var("items"),
            tag: Tag::default(),
            body,
            end: Tag::default(),
        },
        raw(" end"),
    ];
    // What is in scope is borrowed, not copied.
    let doc = match r.below(8) {
        0 => vec![Node::With { e: var("items"), name: "all".into(), tag: Tag::default(), body: doc, end: Tag::default() }],
        1 => vec![Node::If {
            arms: vec![Arm { not: false, e: var("items"), tag: Tag::default(), body: doc }],
            els: None,
            end: Tag::default(),
        }],
        2 => vec![raw("a"), include("inner", None)],
        3 => vec![
            raw("b"),
            Node::With {
                e: var("all"),
                name: "whole".into(),
                tag: Tag::default(),
                body: vec![include("inner", Some(var("whole")))],
                end: Tag::default(),
            },
        ],
        4 => vec![Node::For {
            vars: vec!["o".into()],
            e: var("pair"),
            tag: Tag::default(),
            body: vec![include("inner", Some(var("o")))],
            end: Tag::default(),
        }],
        5 => {
            let mut d = doc;
            d.push(emit("text"));
            d.push(Node::If {
                arms: vec![Arm { not: true, e: var("text"), tag: Tag::default(), body: vec![raw("none")] }],
                els: None,
                end: Tag::default(),
            });
            d
        }
        _ => doc,
    };
    let inner = vec![
        raw("inner "),
        Node::For {
            vars: if map_loop { vec!["k".into(), "x".into()] } else { vec!["x".into()] },
            e: var("items"),
            tag: Tag::default(),
            body: vec![raw(&"an element of the inner template, long enough to notice \n".repeat(4)), emit("x.a")],
            end: Tag::default(),
        },
    ];
    let part = vec![raw("["), Node::Emit { e: var(if r.pct(50) { "top" } else { "x.a" }), tag: Tag::default() }, raw("]")];
    let part = if r.pct(50) { part } else { vec![raw("[part]")] };
    let mk = |n: usize| {
        let item = |i: usize| {
            Val::map([
                (keys[0], Val::Int(i as i64)),
                (keys[1], Val::Bool(i % 3 == 0)),
                ("c", Val::List(vec![Val::Int(1), Val::str("two")])),
                ("top", Val::str("t")),
                ("x", Val::map([("a", Val::Int(1))])),
            ])
        };
        let items = if map_loop {
            Val::Map((0..n).map(|i| (format!("k{i:06}"), item(i))).collect())
        } else {
            Val::List((0..n).map(item).collect())
        };
        let all = Val::map([("items", items.clone())]);
        Val::map([
            ("text", Val::Str("some long text ".repeat(n * 8))),
            ("pair", Val::List(vec![all.clone(), all.clone()])),
            ("all", all),
            ("items", items),
            ("top", Val::str("top")),
            ("x", Val::map([("a", Val::Int(9))])),
        ])
    };
    let op = |v: Val, r: &mut Rng| RenderOp {
        target: Target::Engine("main".into()),
        kind: CtxKind::Value,
        val: v,
        ser: None,
        made: None,
        resolver: None,
        depth: None,
        out: OutKind::Sink(SinkPlan { pass: r.below(2) as u8, ..SinkPlan::default() }),
        faults: BTreeMap::new(),
    };
    let a = r.range(3, 8);
    let b = r.range(300, 700);
    let setup = vec![
        Op::Add { name: "main".into(), doc: 0, damage: None, owned: true },
        Op::Add { name: "part".into(), doc: 1, damage: None, owned: true },
        Op::Add { name: "inner".into(), doc: 2, damage: None, owned: true },
    ];
    Scenario {
        prop: String::new(),
        seed: 0,
        syntax: SyntaxSpec::default_spec(),
        docs: vec![doc, part, inner],
        phases: vec![
            Phase::Seq(setup),
            Phase::Scale { small: op(mk(a), r), large: op(mk(b), r), slack: 4096 + 32 * b },
        ],
        feats: None,
        big: false,
    }
}

/// Documents of one length that fail at one offset, on different lines.
fn twins(w: &mut World, r: &mut Rng) -> Vec<usize> {
    let mut out = Vec::new();
    for (i, t) in ["ab cd ef gh", "ab\ncd ef gh", "ab cd\nef\ngh", "\n\nb cd ef g\n"].iter().enumerate() {
        let d = vec![raw(t), emit("nosuch"), raw("tail")];
        if w.add_doc(&format!("twin{i}"), d) {
            out.push(w.docs.len() - 1);
        }
    }
    let _ = r;
    out
}

/// Something small more often than a counter of 16 bits can count.
fn marathon(r: &mut Rng) -> Scenario {
    let w = base_world(r, |r, f| {
        f.nodes = r.range(1, 3);
        f.docs = r.range(1, 2);
        f.big = false;
        f.err = *r.pick(&[0, 0, 6]);
    });
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    let mut probe = w.op(r, 0);
    probe.out = OutKind::Str;
    ops.push(Op::Render(probe.clone()));
    let mut op = par_op(&w, &m, r);
    if let (Op::Render(o), true) = (&mut op, r.pct(40)) {
        inject(&m, o, r, FaultMix { err: 3, panic: 1 });
    }
    ops.push(Op::Repeat { op: Box::new(op), n: 66_000 });
    ops.push(Op::Render(probe));
    sc(&w, vec![Phase::Seq(ops)])
}

fn p16(r: &mut Rng) -> Scenario {
    if r.pct(1) {
        return marathon(r);
    }
    let mut w = par_world(r);
    let tw = if r.pct(40) { twins(&mut w, r) } else { vec![] };
    let mut ops = w.setup(r);
    let mut m = w.model();
    with_slots(&w, &mut m, &mut ops, r);
    // The probe: one render, by every route that must not matter.
    let mut probe = w.op(r, 0);
    probe.val = w.root.clone();
    probe.out = OutKind::Str;
    let routes = |r: &mut Rng| -> Vec<Op> {
        let mut v = Vec::new();
        for k in [CtxKind::Serde, CtxKind::Value] {
            for t in [probe.target.clone(), Target::Slot(0)] {
                let mut p = probe.clone();
                p.kind = k;
                p.target = t;
                if r.pct(50) {
                    p.out = OutKind::Sink(SinkPlan::default());
                }
                v.push(Op::Render(p));
            }
        }
        v
    };
    ops.extend(routes(r));
    let n = match r.below(4) {
        0 => r.range(70, 160),
        _ => r.range(3, 30),
    };
    let failing = r.pct(60);
    // The same thing very often.
    let mut many = if r.pct(30) { r.range(1, 3) } else { 0 };
    for _ in 0..n {
        let mut op = par_op(&w, &m, r);
        if let Op::Render(o) = &mut op {
            if failing && o.faults.is_empty() {
                if r.pct(50) {
                    inject(&m, o, r, FaultMix { err: 4, panic: 1 });
                } else {
                    let p = r.pct(20);
                    break_sink(&m, o, r, p);
                }
            }
            if r.pct(10) {
                nest(&w, &m, o, r, 1);
            }
        }
        let op = match op {
            op if many > 0 && r.pct(15) => {
                many -= 1;
                let n = match r.below(20) {
                    0..=1 => 4_200,
                    2..=7 => 1_100,
                    _ => 270,
                };
                Op::Repeat { op: Box::new(op), n }
            }
            op => op,
        };
        ops.push(op);
        if !tw.is_empty() && r.pct(30) {
            for _ in 0..r.range(1, 4) {
                let i = *r.pick(&tw);
                let mut o = w.op(r, i);
                o.target = Target::Slot(i);
                o.out = sink_of(r);
                ops.push(if r.pct(80) {
                    Op::Compile { doc: i, damage: None, keep: false, render: Some(Box::new(o)), owned: r.pct(70) }
                } else {
                    Op::Render(o)
                });
            }
        }
        if r.pct(8) {
            let mut p = probe.clone();
            if r.pct(50) {
                p.target = Target::Slot(0);
            }
            ops.push(Op::Render(p));
        }
    }
    ops.extend(routes(r));
    sc(&w, vec![Phase::Seq(ops)])
}

////////////////////////////////////////////////////////////////////////////////
// What counts
////////////////////////////////////////////////////////////////////////////////

/// Kinds of disagreement that say something about this property.
pub fn relevant(prop: &str, k: &Mismatch) -> bool {
    let kind = k.kind.as_str();
    // Which texts are templates, and where others go wrong, is decided by P18.
    if kind.starts_with("syntax-") && !matches!(prop, "P18" | "P19") {
        return false;
    }
    if kind == "excerpt" && !matches!(prop, "P03" | "P18" | "P19") {
        return false;
    }
    let loc = matches!(kind, "location" | "engine-location" | "arg-location" | "template");
    match prop {
        "P03" => true,
        // Where exactly an error is located is decided by P03.
        "P01" | "P02" | "P04" | "P05" | "P06" | "P07" | "P08" | "P15" => !loc,
        "P09" => !matches!(kind, "location" | "engine-location" | "arg-location"),
        "P20" => !matches!(kind, "location" | "engine-location"),
        "P12" => matches!(kind, "blocked" | "deadlock" | "panic" | "trace" | "bytes" | "outcome" | "payload" | "crash" | "hang"),
        _ => true,
    }
}

/// Whether a disagreement has to be compared with a baseline at all.
pub fn has_baseline(prop: &str) -> bool {
    matches!(prop, "P01" | "P02" | "P10" | "P11" | "P12" | "P13" | "P16" | "P17")
}

/// Does the same disagreement show without what the property is about? Then
/// it is some other property that is broken. Call this in a process that has
/// run nothing else, so that nothing can be left over from the failing run.
pub fn explained(sc: &Scenario, found: &[Mismatch]) -> bool {
    match sc.prop.as_str() {
        "P01" | "P02" => {
            let mut s = sc.clone();
            each_render(&mut s, &mut |o| {
                if matches!(o.out, OutKind::Sink(_)) {
                    o.out = OutKind::Str;
                }
            });
            shows(&s, found)
        }
        // Perhaps it dies in any order: then the process running this does too.
        "P10" | "P11" | "P12" if found.iter().all(|f| f.op == "process" || f.op == "engine") => {
            exec::run(sc, &Opts { linear: true, no_nested: true });
            false
        }
        "P10" | "P11" | "P12" => found.iter().all(|f| alone(sc, f).iter().any(|s| shows(s, std::slice::from_ref(f)))),
        "P13" => {
            let mut s = sc.clone();
            each_render(&mut s, &mut |o| {
                o.faults.retain(|_, f| !matches!(f, Fault::Panic(_) | Fault::FmtPanic { .. }));
                if let OutKind::Sink(p) = &mut o.out {
                    if matches!(p.fail_at_byte, Some((_, SinkErr::Panic(_)))) {
                        p.fail_at_byte = None;
                    }
                    if matches!(p.fail_at_call, Some((_, SinkErr::Panic(_)))) {
                        p.fail_at_call = None;
                    }
                }
                if o.ser.is_some() {
                    o.ser = None;
                }
            });
            shows(&s, found)
        }
        // The same renders of a value that is there already.
        "P17" => {
            let mut s = sc.clone();
            each_render(&mut s, &mut |o| {
                if let Some(v) = o.made.take().and_then(|m| conv::eval(&m, &mut 0).ok()) {
                    o.val = v;
                    o.kind = CtxKind::Value;
                }
            });
            for p in &mut s.phases {
                if let Phase::Seq(ops) = p {
                    for o in ops.iter_mut().filter(|o| matches!(o, Op::Convert(_))) {
                        *o = Op::Get { name: "no".into() };
                    }
                }
            }
            shows(&s, found)
        }
        "P16" => found.iter().all(|f| {
            alone(sc, f).iter().any(|s| {
                let f = std::slice::from_ref(f);
                // It has to show by every route: the routes must agree.
                shows(s, f) && detours(s).iter().all(|s| shows(s, f))
            })
        }),
        _ => false,
    }
}

fn shows(sc: &Scenario, found: &[Mismatch]) -> bool {
    let rep = exec::run(sc, &Opts { linear: false, no_nested: false });
    rep.mism.iter().any(|m| found.iter().any(|f| f.kind == m.kind))
}

/// The operation a disagreement is about, alone on a fresh engine: only the
/// changes to the engine that came before it remain. For a nested operation,
/// which one it was is not known, so there is one candidate for each.
fn alone(sc: &Scenario, f: &Mismatch) -> Vec<Scenario> {
    let w: Vec<&str> = f.op.split(' ').collect();
    let num = |k: usize| w.get(k).and_then(|x| x.parse::<usize>().ok());
    let mut cand: Vec<(usize, usize, Op)> = Vec::new();
    match w.as_slice() {
        ["phase", _, "op", _] => {
            if let (Some(p), Some(i)) = (num(1), num(3)) {
                if let Some(Phase::Seq(ops)) = sc.phases.get(p) {
                    if let Some(o) = ops.get(i) {
                        cand.push((p, i, o.clone()));
                    }
                }
            }
        }
        ["phase", _, "thread", _, "op", _] => {
            if let (Some(p), Some(t), Some(i)) = (num(1), num(3), num(5)) {
                if let Some(Phase::Par { threads, .. }) = sc.phases.get(p) {
                    if let Some(o) = threads.get(t).and_then(|t| t.get(i)) {
                        cand.push((p, 0, o.clone()));
                    }
                }
            }
        }
        ["nested"] => {
            for (p, ph) in sc.phases.iter().enumerate() {
                let mut inner = Vec::new();
                match ph {
                    Phase::Seq(ops) => {
                        for (i, o) in ops.iter().enumerate() {
                            inner.clear();
                            nested_in(o, &mut inner);
                            cand.extend(inner.drain(..).map(|o| (p, i, o)));
                        }
                    }
                    Phase::Par { threads, .. } => {
                        threads.iter().flatten().for_each(|o| nested_in(o, &mut inner));
                        cand.extend(inner.drain(..).map(|o| (p, 0, o)));
                    }
                    _ => {}
                }
            }
        }
        _ => {}
    }
    cand.truncate(40);
    cand.into_iter()
        .map(|(p, i, mut o)| {
            let mut keep = Vec::new();
            for (q, ph) in sc.phases.iter().enumerate().take(p + 1) {
                if let Phase::Seq(ops) = ph {
                    let n = if q == p { i } else { ops.len() };
                    keep.extend(
                        ops.iter().take(n).filter(|o| !matches!(o, Op::Render(_) | Op::Repeat { .. } | Op::Compile { keep: false, .. })).cloned(),
                    );
                }
            }
            if let Op::Repeat { op, .. } = o {
                o = *op;
            }
            plain(&mut o);
            keep.push(o);
            let mut s = sc.clone();
            s.phases = vec![Phase::Seq(keep)];
            s
        })
        .collect()
}

fn nested_in(o: &Op, out: &mut Vec<Op>) {
    let r = match o {
        Op::Render(r) => r,
        Op::Compile { render: Some(r), .. } => &**r,
        Op::Repeat { op, .. } => return nested_in(op, out),
        _ => return,
    };
    for f in r.faults.values() {
        if let Some(o) = f.nested() {
            out.push(o.clone());
            nested_in(o, out);
        }
    }
}

/// Without anything that involves other operations.
fn plain(o: &mut Op) {
    let r = match o {
        Op::Render(r) => r,
        Op::Compile { render: Some(r), .. } => &mut **r,
        _ => return,
    };
    r.faults.retain(|_, f| f.nested().is_none() && !matches!(f, Fault::Stall));
}

/// The same last render by the other routes that must not matter.
fn detours(sc: &Scenario) -> Vec<Scenario> {
    let mut v = Vec::new();
    let Some(Phase::Seq(ops)) = sc.phases.first() else { return v };
    let Some(Op::Render(r)) = ops.last() else { return v };
    if r.ser.is_some() || r.resolver.is_some() {
        return v;
    }
    let mut add = |r: RenderOp| {
        let mut s = sc.clone();
        if let Some(Phase::Seq(ops)) = s.phases.first_mut() {
            *ops.last_mut().unwrap() = Op::Render(r);
        }
        v.push(s);
    };
    for k in [CtxKind::Serde, CtxKind::Value] {
        if matches!(r.kind, CtxKind::Serde | CtxKind::Value) && k != r.kind {
            add(RenderOp { kind: k, ..r.clone() });
        }
    }
    match &r.out {
        OutKind::Str => add(RenderOp { out: OutKind::Sink(SinkPlan::default()), ..r.clone() }),
        OutKind::Sink(p) if p.fail_at_byte.is_none() && p.fail_at_call.is_none() => {
            add(RenderOp { out: OutKind::Str, ..r.clone() })
        }
        _ => {}
    }
    // Slots hold the documents in order, and so does the registry.
    let name = |i: usize| {
        ops.iter().find_map(|o| match o {
            Op::Add { name, doc, damage: None, .. } if *doc == i => Some(name.clone()),
            _ => None,
        })
    };
    match &r.target {
        Target::Slot(i) => {
            if let Some(n) = name(*i) {
                add(RenderOp { target: Target::Engine(n), ..r.clone() });
            }
        }
        Target::Engine(n) => {
            let k = ops.iter().find_map(|o| match o {
                Op::Add { name, doc, damage: None, .. } if name == n => Some(*doc),
                _ => None,
            });
            if let Some(k) = k {
                add(RenderOp { target: Target::Slot(k), ..r.clone() });
            }
        }
    }
    v
}

fn each_op(ops: &mut [Op], f: &mut dyn FnMut(&mut RenderOp)) {
    for o in ops {
        match o {
            Op::Render(r) => each_nested(r, f),
            Op::Compile { render: Some(r), .. } => each_nested(r, f),
            Op::Repeat { op, .. } => each_op(std::slice::from_mut(&mut **op), f),
            _ => {}
        }
    }
}

fn each_nested(r: &mut RenderOp, f: &mut dyn FnMut(&mut RenderOp)) {
    for fault in r.faults.values_mut() {
        if let Some(o) = fault.nested_mut() {
            each_op(std::slice::from_mut(o), f);
        }
    }
    f(r);
}

pub fn each_render(s: &mut Scenario, f: &mut dyn FnMut(&mut RenderOp)) {
    for p in &mut s.phases {
        match p {
            Phase::Seq(ops) | Phase::Cycle { ops, .. } => each_op(ops, f),
            Phase::Par { threads, .. } => threads.iter_mut().for_each(|t| each_op(t, f)),
            Phase::Scale { .. } => {}
        }
    }
}

pub type Unused = (Arc<()>, Beh, FmtKind, FmtSpec, FnSpec);
