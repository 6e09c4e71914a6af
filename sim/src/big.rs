//! Size as something to vary: documents, data, names and nestings that are
//! larger than what a byte, a 16-bit counter or a fixed buffer can hold.

use crate::ast::*;
use crate::avail;
use crate::conv::Made;
use crate::funcs::{self, Beh, FnSpec};
use crate::gen::{self, World};
use crate::model::CtxKind;
use crate::model::RenderOp;
use crate::rng::Rng;
use crate::ser::Script;
use crate::val::Val;

/// More nodes than other runs may interpret.
pub const STEPS: usize = 1_500_000;

pub fn size(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(20) {
        0..=12 => r.range(256, 420),
        13..=16 => r.range(1_000, 6_000),
        _ => r.range(65_536, 66_300),
    };
    if n > max {
        r.range(max * 3 / 4, max)
    } else {
        n
    }
}

fn var(first: &str) -> Path {
    Path::name(first)
}

fn key(mut p: Path, k: &str) -> Path {
    p.rest.push(Member { opt: false, acc: Acc::Key(k.to_string()) });
    p
}

fn idx(mut p: Path, i: usize, opt: bool) -> Path {
    p.rest.push(Member { opt, acc: Acc::Index(i) });
    p
}

fn ev(p: Path) -> Expr {
    Expr { base: Base::Var(p), calls: vec![] }
}

fn el(l: Lit) -> Expr {
    Expr { base: Base::Lit(l), calls: vec![] }
}

fn emit(p: Path) -> Node {
    Node::Emit { e: ev(p), tag: Tag::default() }
}

fn lit(s: &str) -> Node {
    Node::Emit { e: el(Lit::str(s)), tag: Tag::default() }
}

fn raw(s: &str) -> Node {
    Node::Raw(s.to_string())
}

fn bool_lit(b: bool) -> Expr {
    el(Lit { text: b.to_string(), v: Val::Bool(b) })
}

fn iff(e: Expr, body: Vec<Node>, els: Option<Vec<Node>>) -> Node {
    Node::If {
        arms: vec![Arm { not: false, e, tag: Tag::default(), body }],
        els: els.map(|b| (Tag::default(), b)),
        end: Tag::default(),
    }
}

fn for_in(vars: &[&str], e: Expr, body: Vec<Node>) -> Node {
    Node::For {
        vars: vars.iter().map(|s| s.to_string()).collect(),
        e,
        tag: Tag::default(),
        body,
        end: Tag::default(),
    }
}

fn with(e: Expr, name: &str, body: Vec<Node>) -> Node {
    Node::With { e, name: name.to_string(), tag: Tag::default(), body, end: Tag::default() }
}

fn include(n: &str, with: Option<Expr>) -> Node {
    Node::Include { name: Lit::str(n), with, tag: Tag::default() }
}

/// `n` characters, of one kind or of many.
pub fn long(r: &mut Rng, n: usize) -> String {
    let unit = *r.pick(&["x", "0123456789", "é", "ab\tc ", "名前 ", "<&>"]);
    unit.chars().cycle().take(n).collect()
}

fn long_name(r: &mut Rng) -> String {
    let n = size(r, 5_000);
    let unit = *r.pick(&["n", "abc_", "q1"]);
    unit.chars().cycle().take(n).collect()
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Loop,
    Index,
    Lines,
    Col,
    Jump,
    Withs,
    Chain,
    Path,
    Names,
    Filters,
    ElseIf,
    Text,
    Args,
    Tokens,
}

pub const ALL: &[Kind] = &[
    Kind::Loop,
    Kind::Index,
    Kind::Lines,
    Kind::Col,
    Kind::Jump,
    Kind::Withs,
    Kind::Chain,
    Kind::Path,
    Kind::Names,
    Kind::Filters,
    Kind::ElseIf,
    Kind::Text,
    Kind::Args,
    Kind::Tokens,
];

/// Give the first document one large part and perhaps some others.
pub fn grow(w: &mut World, r: &mut Rng, kinds: &[Kind]) {
    w.big = true;
    let k = if r.pct(70) { 1 } else { 2 };
    for i in 0..k {
        let kind = *r.pick(kinds);
        let max = if i == 0 { usize::MAX } else { 420 };
        add(w, r, kind, i, max);
    }
}

fn add(w: &mut World, r: &mut Rng, kind: Kind, i: usize, max: usize) {
    // Something may be wrong at the very end.
    let err = r.pct(25);
    let bulk = format!("bulk{i}");
    let mut doc = vec![];
    match kind {
        Kind::Loop => {
            let n = size(r, max);
            let style = r.below(3);
            let item = |i: usize| match style {
                0 => Val::Int(i as i64 % 11),
                1 => Val::Str(format!("s{}", i % 7)),
                _ => Val::map([("a", Val::Int(i as i64 % 5))]),
            };
            let mut items: Vec<Val> = (0..n).map(item).collect();
            if err {
                let k = if r.pct(50) { n - 1 } else { r.below(n) };
                items[k] = Val::map([]);
            }
            let pairs = r.pct(40);
            let v = if pairs {
                Val::Map(items.into_iter().enumerate().map(|(i, v)| (format!("k{i:06}"), v)).collect())
            } else {
                Val::List(items)
            };
            w.set_root(&bulk, v);
            let it = if style == 2 { key(var("it"), "a") } else { var("it") };
            let lp = |k: &str| key(var("loop"), k);
            let mut body = vec![emit(it)];
            if r.pct(70) {
                body.insert(0, emit(lp("index")));
            }
            if r.pct(60) {
                let k = if r.pct(70) { "last" } else { "first" };
                body.push(iff(ev(lp(k)), vec![raw("!\n")], Some(vec![raw(",")])));
            }
            if pairs && r.pct(30) {
                body.push(emit(var("kk")));
            }
            let vars: &[&str] = if pairs { &["kk", "it"] } else { &["it"] };
            if r.pct(25) {
                doc.push(with(ev(var(&bulk)), "all", vec![for_in(vars, ev(var("all")), body), raw("e")]));
            } else {
                doc.push(for_in(vars, ev(var(&bulk)), body));
            }
        }
        Kind::Index => {
            let n = size(r, max);
            w.set_root(&bulk, Val::List((0..n).map(|i| Val::Int(i as i64)).collect()));
            for k in [n - 1, n / 2, 0, 255, 256, 65_535, 65_536, n - 200] {
                if k < n {
                    doc.push(emit(idx(var(&bulk), k, r.pct(30))));
                    doc.push(raw(" "));
                }
            }
            doc.push(emit(idx(var(&bulk), n + r.below(3), true)));
            if err {
                doc.push(emit(idx(var(&bulk), n + r.below(3), false)));
            }
        }
        Kind::Lines => {
            let some = r.pct(40);
            let n = size(r, if some { max.min(6_000) } else { max });
            if !some {
                let l = *r.pick(&["a\n", "\n", "b\r\n", "é x\n"]);
                doc.push(Node::Raw(l.repeat(n)));
            } else {
                for k in 0..n {
                    doc.push(lit("l"));
                    doc.push(raw(if k % 3 == 0 { "\n" } else { "\nz" }));
                }
            }
            doc.push(raw("end"));
        }
        Kind::Col => {
            let n = size(r, max);
            let t = long(r, n);
            doc.push(Node::Raw(t));
            doc.push(lit("q"));
        }
        Kind::Jump => {
            let n = size(r, max) / 2;
            let many = |n: usize| -> Vec<Node> {
                (0..n)
                    .flat_map(|k| [lit(if k % 13 == 0 { "ab" } else { "" }), raw(if k % 11 == 0 { "\n" } else { "." })])
                    .collect()
            };
            match r.below(4) {
                0 => {
                    let c = r.pct(50);
                    doc.push(iff(bool_lit(c), many(n), Some(vec![raw("short")])));
                }
                1 => {
                    let c = r.pct(50);
                    doc.push(iff(bool_lit(c), vec![raw("short")], Some(many(n))));
                }
                2 => {
                    w.set_root(&bulk, Val::List(vec![Val::Int(1), Val::Int(2)]));
                    let mut b = many(n);
                    b.push(emit(var("it")));
                    doc.push(for_in(&["it"], ev(var(&bulk)), b));
                }
                _ => {
                    // A short jump after many instructions.
                    doc.extend(many(n));
                    doc.push(iff(bool_lit(false), vec![raw("no")], Some(vec![raw("yes")])));
                    w.set_root(&bulk, Val::List(vec![Val::Int(1), Val::Int(2)]));
                    doc.push(for_in(&["it"], ev(var(&bulk)), vec![emit(var("it")), raw(";")]));
                }
            }
            doc.push(raw("tail"));
        }
        Kind::Withs => {
            let n = r.range(10, 300);
            w.set_root(&bulk, Val::List(vec![Val::str("one")]));
            w.set_root("outer", Val::str("outermost"));
            let mut body = vec![emit(var("outer")), raw(" ")];
            for k in [0, n / 2, n - 1, r.below(n)] {
                body.push(emit(var(&format!("w{k}"))));
                body.push(raw(" "));
            }
            let loops = r.pct(40);
            for k in (0..n).rev() {
                let name = format!("w{k}");
                let after = k % 50 == 7;
                body = vec![if loops && k % 2 == 1 {
                    for_in(&[&name], ev(var(&bulk)), body)
                } else {
                    with(el(Lit::int(k as i64)), &name, body)
                }];
                if after {
                    body.push(emit(var("outer")));
                }
            }
            doc.extend(body);
        }
        Kind::Chain => {
            let d = r.range(65, 330);
            let mut data = Val::map([("v", Val::Int(0)), ("next", Val::None)]);
            for k in 0..d {
                data = Val::map([("v", Val::Int(k as i64 + 1)), ("next", data)]);
            }
            w.limit = Some(d + 2 + r.below(4));
            w.set_root(&bulk, data);
            let name = format!("rec{i}");
            let cur = r.pct(50);
            let body = if cur {
                vec![
                    raw("<"),
                    emit(key(var("cur"), "v")),
                    iff(
                        ev(key(var("cur"), "next")),
                        vec![with(ev(key(var("cur"), "next")), "cur", vec![include(&name, None)])],
                        None,
                    ),
                    raw(">"),
                    emit(key(var("cur"), "v")),
                ]
            } else {
                vec![
                    raw("<"),
                    emit(var("v")),
                    iff(ev(var("next")), vec![include(&name, Some(ev(var("next"))))], None),
                    raw(">"),
                    emit(var("v")),
                ]
            };
            if w.add_doc(&name, body) {
                doc.push(if cur {
                    with(ev(var(&bulk)), "cur", vec![include(&name, None)])
                } else {
                    include(&name, Some(ev(var(&bulk))))
                });
            }
        }
        Kind::Path => {
            let d = r.range(8, 260);
            let lists = r.pct(30);
            let mut data = Val::str("deep");
            let mut p = var(&bulk);
            for k in 0..d {
                if lists && k % 3 == 0 {
                    data = Val::List(vec![Val::None, data]);
                } else {
                    data = Val::map([("a", data), ("z", Val::Int(k as i64))]);
                }
            }
            for k in (0..d).rev() {
                p = if lists && k % 3 == 0 { idx(p, 1, false) } else { key(p, "a") };
            }
            w.set_root(&bulk, data);
            doc.push(emit(p.clone()));
            let mut part = p.clone();
            part.rest.truncate(d / 2);
            doc.push(with(ev(part), "half", vec![emit(Path { first: "half".into(), rest: p.rest[d / 2..].to_vec() })]));
            if err {
                doc.push(emit(key(p, "more")));
            }
        }
        Kind::Names => {
            let n = long_name(r);
            let mut near = n.clone();
            near.push('x');
            w.set_root(&n, Val::str("long"));
            w.set_root(&near, Val::map([(n.as_str(), Val::Int(7)), (near.as_str(), Val::Int(8))]));
            doc.push(emit(var(&n)));
            doc.push(emit(key(var(&near), &n)));
            doc.push(with(ev(key(var(&near), &near)), &n, vec![emit(var(&n))]));
            if r.pct(70) {
                let spec = gen::fmt_spec(r, 3);
                w.fns.insert(n.clone(), FnSpec::Fmt(spec));
                w.fns.insert(near.clone(), FnSpec::Fmt(gen::fmt_spec(r, 4)));
                let call = |n: &str| Node::Emit {
                    e: Expr { base: Base::Lit(Lit::str("f")), calls: vec![Call { name: n.to_string(), args: vec![] }] },
                    tag: Tag::default(),
                };
                doc.push(call(&n));
                doc.push(call(&near));
            }
            if w.add_doc(&n, vec![raw("n "), emit(var(&n))]) && w.add_doc(&near, vec![raw("near "), emit(var(&n))]) {
                doc.push(include(&near, None));
                doc.push(include(&n, None));
                if err {
                    doc.push(include(&format!("{near}x"), None));
                }
            }
        }
        Kind::Filters => {
            if avail::has(avail::FILTERS) {
                let n = r.range(20, 420);
                w.fns.insert("idd".into(), FnSpec::Filter { shape: 0, beh: Beh::Id, fallible: true, ver: 5 });
                w.fns.insert("upp".into(), FnSpec::Filter { shape: 0, beh: Beh::Upper, fallible: false, ver: 5 });
                let calls = (0..n)
                    .map(|k| Call { name: if k % 37 == 5 { "upp" } else { "idd" }.to_string(), args: vec![] })
                    .collect();
                doc.push(Node::Emit { e: Expr { base: Base::Lit(Lit::str("word")), calls }, tag: Tag::default() });
            }
        }
        Kind::ElseIf => {
            let n = r.range(20, 300);
            let hit = if r.pct(70) { n - 1 } else { r.below(n) };
            let arms = (0..n)
                .map(|k| Arm {
                    not: false,
                    e: bool_lit(k == hit),
                    tag: Tag::default(),
                    body: vec![Node::Raw(format!("arm {k}"))],
                })
                .collect();
            doc.push(Node::If { arms, els: Some((Tag::default(), vec![raw("else")])), end: Tag::default() });
            doc.push(raw("after"));
        }
        Kind::Args => {
            if avail::has(avail::FILTERS) {
                let n = size(r, max);
                let list = |n: usize| Val::List((0..n).map(|i| Val::Int(i as i64 % 9)).collect());
                let map = |n: usize| Val::Map((0..n).map(|i| (format!("k{i}"), Val::Int(i as i64 % 9))).collect());
                let t = long(r, n);
                w.set_root("bulks", Val::Str(t.clone()));
                w.set_root("bulkl", list(n));
                w.set_root("bulkm", map(n.min(2_000)));
                w.set_root("bulki", Val::Int(7));
                w.set_root("bulkf", Val::Float(0.5));
                let pool = ["bulks", "bulkl", "bulkm", "bulki", "bulkf"];
                let vals = [Val::Str(String::new()), list(1), map(1), Val::Int(7), Val::Float(0.5)];
                let specs: Vec<(String, usize)> = w
                    .fns
                    .iter()
                    .filter_map(|(k, f)| match f {
                        FnSpec::Filter { shape, .. } => Some((k.clone(), *shape)),
                        _ => None,
                    })
                    .collect();
                for (name, shape) in specs.iter().take(8) {
                    let mut args: Vec<Base> = Vec::new();
                    for t in funcs::shape(*shape) {
                        let o = r.below(pool.len());
                        let fit = (0..pool.len()).map(|k| (k + o) % pool.len()).find(|k| t.convert(&vals[*k]).is_some());
                        args.push(match fit {
                            Some(k) => Base::Var(var(pool[k])),
                            None => Base::Lit(Lit { text: "true".into(), v: Val::Bool(true) }),
                        });
                    }
                    let base = args.remove(0);
                    let mut calls = vec![Call { name: name.clone(), args }];
                    if r.pct(50) {
                        calls.push(Call { name: name.clone(), args: calls[0].args.clone() });
                    }
                    doc.push(with(Expr { base, calls }, "got", vec![iff(ev(var("got")), vec![raw("t")], Some(vec![raw("f")]))]));
                }
            }
        }
        Kind::Tokens => {
            let n = size(r, max);
            if w.syntax.comment.is_some() {
                let text: String = "note ".chars().cycle().take(n).collect();
                doc.push(Node::Comment { text: format!(" {text} "), tag: Tag::default() });
            }
            let pad = *r.pick(&[32, 64, 96]);
            let tag = Tag { pad, ..Tag::default() };
            doc.push(Node::Emit { e: el(Lit::int(7)), tag });
            doc.push(Node::If {
                arms: vec![Arm { not: r.pct(50), e: bool_lit(true), tag, body: vec![raw("in")] }],
                els: Some((tag, vec![raw("out")])),
                end: tag,
            });
            doc.push(lit(&"\\\"\n\té".repeat(n / 5)));
            let zeros = "0".repeat(r.range(256, 700));
            doc.push(Node::Emit { e: el(Lit { text: format!("1.{zeros}"), v: Val::Float(1.0) }), tag });
            doc.push(raw("t"));
        }
        Kind::Text => {
            let n = size(r, max) + r.below(9_000);
            let t = long(r, n);
            if r.pct(50) {
                w.set_root(&bulk, Val::Str(t));
                doc.push(emit(var(&bulk)));
                if r.pct(40) {
                    let f = w.fns.iter().filter(|(_, f)| matches!(f, FnSpec::Fmt(_))).map(|x| x.0.clone()).next();
                    if let Some(name) = f {
                        doc.push(Node::Emit {
                            e: Expr { base: Base::Var(var(&bulk)), calls: vec![Call { name, args: vec![] }] },
                            tag: Tag::default(),
                        });
                    }
                }
            } else {
                doc.push(lit(&t));
                doc.push(Node::Raw(t));
            }
            doc.push(raw("."));
        }
    }
    if err {
        doc.push(emit(var("nosuchthing")));
        doc.push(raw("never"));
    }
    // Not every text prints under every delimiter configuration.
    w.extend_doc(0, &doc);
}

/// What would take forever with large data.
pub fn tame(w: &World, op: &mut RenderOp) {
    if w.big {
        op.val = w.root.clone();
        if let CtxKind::Fn(_) = op.kind {
            op.kind = CtxKind::Fn(0);
        }
    }
}


/// A lot of serializer calls.
pub fn script(r: &mut Rng) -> Script {
    let leaf = |i: usize| match i % 5 {
        0 => Script::U8(i as u8),
        1 => Script::Val(Val::Str(format!("s{i}"))),
        2 => Script::NoneOpt,
        3 => Script::I32(-(i as i32)),
        _ => Script::Char('c'),
    };
    let n = size(r, usize::MAX);
    let items = |n: usize| (0..n).map(leaf).collect::<Vec<_>>();
    match r.below(9) {
        0 | 1 => Script::Seq(r.below(2) as u8, items(n)),
        2 => Script::Tuple(items(n)),
        3 => Script::Struct((0..n).map(|i| (i, leaf(i))).collect()),
        4 | 5 => {
            let k = |i: usize| match i % 3 {
                0 => Script::U32(i as u32),
                1 => Script::Val(Val::Str(format!("key{i}"))),
                _ => Script::Collect(format!("c{i}")),
            };
            Script::Map(r.pct(50), (0..n).map(|i| (k(i), leaf(i))).collect())
        }
        6 => Script::Bytes((0..n).map(|i| i as u8).collect()),
        7 => Script::Val(Val::Str(long(r, n))),
        _ => {
            deep_script(r)
        }
    }
}

/// Levels on levels: more of them, the more seldom.
fn levels(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.range(10, 40),
        1 | 2 => r.range(30, 140),
        _ => r.range(100, 300),
    }
}

pub fn deep_script(r: &mut Rng) -> Script {
    let d = levels(r);
    let only = if r.pct(40) { Some(r.below(7)) } else { None };
    let mut s = Script::U64(d as u64);
    for k in 0..d {
        s = match only.unwrap_or_else(|| r.below(7)) {
            0 => Script::Some(Box::new(s)),
            1 => Script::Seq(1, vec![Script::NoneOpt, s]),
            2 => Script::NewtypeVariant(k, Box::new(s)),
            3 => Script::Map(true, vec![(Script::U8(1), s)]),
            4 => Script::Tuple(vec![s, Script::Unit]),
            5 => Script::Newtype(Box::new(s)),
            _ => Script::Struct(vec![(k, s)]),
        };
    }
    s
}

pub fn deep_made(r: &mut Rng) -> Made {
    let serde = avail::has(avail::SERDE);
    let d = levels(r);
    let only = if r.pct(40) { Some(r.below(9)) } else { None };
    let kind = r.below(6) as u8;
    let mut m = Made::U32(d as u32);
    for _ in 0..d {
        let one = |m: Made| vec![("a".to_string(), m)];
        m = match only.unwrap_or_else(|| r.below(9)) {
            0 => Made::Some(Box::new(m)),
            1 => Made::Vec(vec![Made::Unit, m]),
            2 => Made::IterMap(0, one(m)),
            3 => Made::Iter(vec![m]),
            4 => Made::BTree(kind, one(m)),
            5 => Made::Hash(kind, one(m)),
            6 => Made::Pairs(kind, one(m)),
            _ => Made::Array(vec![m, Made::Bool(true)]),
        };
        if r.pct(2) {
            m = if serde && r.pct(60) { Made::Again(Box::new(m)) } else { Made::Clone(Box::new(m)) };
        }
    }
    if serde && r.pct(60) {
        m = Made::Again(Box::new(m));
    }
    m
}

/// A plan with a lot to convert.
pub fn made(r: &mut Rng) -> Made {
    let leaf = |i: usize| match i % 5 {
        0 => Made::U8(i as u8),
        1 => Made::Str(i as u8 % 4, format!("s{i}")),
        2 => Made::Absent,
        3 => Made::I32(-(i as i32)),
        _ => Made::F32(i as f32 / 2.0),
    };
    let n = size(r, usize::MAX);
    let items = |n: usize| (0..n).map(leaf).collect::<Vec<_>>();
    let kind = r.below(6) as u8;
    let n2 = n.min(3_000);
    let pairs = || (0..n2).map(|i| (format!("k{}", i * 7 % (n2 - n2 / 5)), leaf(i))).collect::<Vec<_>>();
    match r.below(10) {
        0 | 1 => Made::Vec(items(n)),
        2 | 3 => Made::Iter(items(n)),
        4 => Made::BTree(kind, pairs()),
        5 => Made::Hash(kind, pairs()),
        6 => Made::IterMap(kind, pairs()),
        7 => Made::Str(r.below(4) as u8, long(r, n)),
        8 if avail::has(avail::SERDE) => Made::Again(Box::new(Made::Vec(items(n)))),
        _ => {
            deep_made(r)
        }
    }
}

/// Many different names, or one that is long.
pub fn names(r: &mut Rng, prefix: &str) -> Vec<String> {
    if r.pct(40) {
        let n = long_name(r);
        return vec![format!("{n}1"), n.clone(), format!("{n}2"), n[1..].to_string()];
    }
    let n = size(r, 1_200);
    (0..n).map(|i| format!("{prefix}{i}")).collect()
}
