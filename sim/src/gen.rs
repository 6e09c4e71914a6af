//! Generates worlds: delimiters, documents, functions, data, and the render
//! operations to run on them. Generation is aware of the data, so that most
//! renders get far, and errors are put in on purpose.

use std::collections::BTreeMap;
use std::sync::Arc;

use crate::ast::*;
use crate::avail;
use crate::funcs::{self, Beh, FmtKind, FmtSpec, FnSpec, BEHS, FMTS};
use crate::model::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::val::Val;

/// What one run may contain (drawn per run).
#[derive(Clone, Debug)]
pub struct Feat {
    pub comments: bool,
    pub trims: usize,
    pub includes: usize,
    pub loops: usize,
    pub withs: usize,
    pub ifs: usize,
    pub filters: usize,
    pub fmts: usize,
    pub opt: usize,
    pub lits: usize,
    pub pads: bool,
    /// percent chance per expression to be wrong on purpose
    pub err: usize,
    pub unicode: bool,
    pub nodes: usize,
    pub docs: usize,
    pub shadow: bool,
    pub syntax: u8,
    /// are there expression tags and blocks at all
    pub exprs: bool,
    pub blocks: bool,
    pub deffmt: usize,
    pub big: bool,
    /// filters of every shape
    pub shapes: bool,
}

impl Feat {
    pub fn draw(r: &mut Rng) -> Feat {
        let err = match r.below(10) {
            0..=5 => 0,
            6..=8 => 2,
            _ => 6,
        };
        Feat {
            comments: r.pct(50),
            trims: *r.pick(&[0, 0, 20, 60]),
            includes: *r.pick(&[0, 6, 12, 20]),
            loops: *r.pick(&[0, 8, 14, 20]),
            withs: *r.pick(&[0, 6, 12]),
            ifs: *r.pick(&[0, 10, 16]),
            filters: *r.pick(&[0, 25, 50]),
            fmts: *r.pick(&[0, 15, 40]),
            opt: *r.pick(&[0, 15, 50]),
            lits: *r.pick(&[5, 20]),
            pads: r.pct(40),
            err,
            unicode: r.pct(50),
            nodes: r.range(3, 28),
            docs: r.range(1, 5),
            shadow: r.pct(40),
            syntax: r.below(10) as u8,
            exprs: true,
            blocks: true,
            deffmt: *r.pick(&[0, 0, 0, 50]),
            big: r.pct(5),
            shapes: false,
        }
    }
}

pub struct World {
    pub syntax: SyntaxSpec,
    pub docs: Vec<Vec<Node>>,
    pub names: Vec<String>,
    pub compiled: Vec<Arc<Compiled>>,
    pub fns: BTreeMap<String, FnSpec>,
    pub root: Val,
    pub deffmt: Option<FmtSpec>,
    pub feat: Feat,
    /// include depth set on the engine
    pub limit: Option<usize>,
    /// larger than other worlds
    pub big: bool,
}

pub const TNAMES: &[&str] = &[
    "a", "b.html", "dir/x", "head er", "名前", "foot", "x\"q\"", "p.t", "include", "\\back", "",
];

const LOOPV: &[&str] = &["x", "y", "item", "k", "v", "i", "el"];
const KEYS: &[&str] = &["user", "items", "nums", "n", "s", "flag", "m", "deep", "none", "f", "empty", "zero"];
const SUB: &[&str] = &["name", "age", "tags", "on", "inner", "a", "b"];

fn word(r: &mut Rng, uni: bool) -> String {
    let w: &[&str] = if uni {
        &[
            "élan", "名前", "𝄞", "straße", "x<y>&\"z\"", "nbsp\u{a0}", "zwj\u{200d}", "ок", "\u{a0}", "\u{feff}bom", "e\u{301}",
            "\u{2028}",
        ]
    } else {
        &[
            "ann", "bob", "<b>", "", "a b", "line\nbreak", "0", "x&y", "tab\t", "quo\"te", " ", "false", "none", "\n", "nul\0",
        ]
    };
    (*r.pick(w)).to_string()
}

pub fn scalar(r: &mut Rng, f: &Feat) -> Val {
    match r.below(12) {
        0 => Val::Bool(r.pct(50)),
        1 => Val::Int(0),
        2 => Val::Int(*r.pick(&[-1, 1, 2, 7, 255, 256, -129, 65536, i64::MAX, i64::MIN, 4294967296])),
        3 => Val::Float(if r.pct(70) {
            *r.pick(&[0.0, 1.5, -2.25, 1e21, 0.1, -0.0, 3.0])
        } else {
            *r.pick(ODD_FLOATS)
        }),
        4 => Val::None,
        5..=6 => Val::Int(r.below(100) as i64),
        _ => {
            let u = f.unicode && r.pct(50);
            Val::Str(word(r, u))
        }
    }
}

const ODD_FLOATS: &[f64] = &[
    5e-324,
    1e-7,
    -1e-5,
    f64::MAX,
    f64::MIN_POSITIVE,
    f64::INFINITY,
    f64::NEG_INFINITY,
    1e16,
    9007199254740993.0,
    0.30000000000000004,
    f64::NAN,
];

fn record(r: &mut Rng, f: &Feat, depth: usize) -> Val {
    let mut m = BTreeMap::new();
    for k in SUB {
        if r.pct(70) {
            let v = match *k {
                "name" => {
                    let u = f.unicode && r.pct(50);
                    Val::Str(word(r, u))
                }
                "age" => Val::Int(r.below(90) as i64),
                "on" => Val::Bool(r.pct(50)),
                "tags" => list_of(r, f, depth + 2),
                "inner" if depth < 2 => record(r, f, depth + 1),
                _ => scalar(r, f),
            };
            m.insert(k.to_string(), v);
        }
    }
    Val::Map(m)
}

fn list_of(r: &mut Rng, f: &Feat, depth: usize) -> Val {
    let n = if r.pct(5) { 0 } else { r.range(1, 4) };
    match r.below(if depth < 2 { 5 } else { 3 }) {
        0 => Val::List((0..n).map(|i| Val::Int(i as i64)).collect()),
        1 => Val::List((0..n).map(|_| { let u = f.unicode && r.pct(50); Val::Str(word(r, u)) }).collect()),
        2 => Val::List((0..n).map(|_| scalar(r, f)).collect()),
        3 => Val::List((0..n).map(|_| record(r, f, depth + 1)).collect()),
        _ => Val::List((0..n).map(|_| list_of(r, f, depth + 1)).collect()),
    }
}

pub fn root(r: &mut Rng, f: &Feat) -> Val {
    let mut m = BTreeMap::new();
    for k in KEYS {
        if !r.pct(85) {
            continue;
        }
        let v = match *k {
            "user" => record(r, f, 0),
            "items" => {
                let n = if r.pct(8) { 0 } else { r.range(1, 4) };
                Val::List((0..n).map(|_| record(r, f, 1)).collect())
            }
            "nums" => list_of(r, f, 2),
            "n" => Val::Int(r.below(50) as i64),
            "s" => {
                let u = f.unicode && r.pct(50);
                Val::Str(word(r, u))
            }
            "flag" => Val::Bool(r.pct(50)),
            "m" => {
                let n = r.range(0, 4);
                Val::Map((0..n).map(|i| (format!("k{i}"), scalar(r, f))).collect())
            }
            "deep" => list_of(r, f, 0),
            "none" => Val::None,
            "f" => Val::Float(*r.pick(&[0.5, 2.0, -1.25])),
            "empty" => {
                if r.pct(50) {
                    Val::List(vec![])
                } else {
                    Val::Map(BTreeMap::new())
                }
            }
            _ => Val::Int(0),
        };
        m.insert(k.to_string(), v);
    }
    if f.unicode && r.pct(40) {
        m.insert("名".into(), scalar(r, f));
        m.insert("é".into(), list_of(r, f, 2));
    }
    if f.big {
        m.insert("s".into(), Val::Str("0123456789abcdef€".repeat(r.range(100, 1500))));
    }
    Val::Map(m)
}

pub fn fn_spec(r: &mut Rng, ver: u32) -> FnSpec {
    if r.pct(35) {
        FnSpec::Fmt(fmt_spec(r, ver))
    } else {
        let shape = if r.pct(50) { 0 } else { r.below(funcs::N_COMMON) };
        FnSpec::Filter { shape, beh: *r.pick(BEHS), fallible: r.pct(60), ver }
    }
}

pub fn fmt_spec(r: &mut Rng, ver: u32) -> FmtSpec {
    FmtSpec { kind: *r.pick(FMTS), remap: r.pct(15), ver }
}

fn functions(r: &mut Rng, f: &Feat) -> BTreeMap<String, FnSpec> {
    let mut m = BTreeMap::new();
    if f.filters > 0 && avail::has(avail::FILTERS) {
        let fil = |shape, beh, fallible| FnSpec::Filter { shape, beh, fallible, ver: 1 };
        let pool: Vec<(&str, FnSpec)> = vec![
            ("up", fil(0, Beh::Upper, true)),
            ("id", fil(1, Beh::Id, r.pct(50))),
            ("cat", fil(14, Beh::Cat, true)),
            ("range", fil(0, Beh::Range, false)),
            ("mk", fil(14, Beh::MkMap, true)),
            ("len", fil(1, Beh::Len, false)),
            ("wrap", fil(22, Beh::Wrap, true)),
            ("not_", fil(0, Beh::Not, false)),
            ("first", fil(0, Beh::First, true)),
            ("nest", fil(0, Beh::Nest, true)),
            ("repr", fil(26, Beh::Repr, true)),
            ("big", fil(0, Beh::Big, false)),
            ("nil", fil(0, Beh::NoneV, true)),
            ("strs", fil(15, Beh::Cat, true)),
            ("loops", fil(18, Beh::Last, true)),
        ];
        for (n, s) in pool {
            if r.pct(65) {
                m.insert(n.to_string(), s);
            }
        }
        for i in 0..r.below(6) {
            let shape = r.below(funcs::N_COMMON);
            let s = FnSpec::Filter { shape, beh: *r.pick(BEHS), fallible: r.pct(60), ver: 1 };
            m.insert(format!("f{i}"), s);
        }
        if f.shapes {
            for i in 0..r.range(6, 20) {
                let shape = funcs::any_shape(r);
                let s = FnSpec::Filter { shape, beh: *r.pick(BEHS), fallible: r.pct(60), ver: 1 };
                m.insert(format!("g{i}"), s);
            }
        }
        if f.unicode && avail::has(avail::UNICODE) {
            m.insert("größe".into(), fil(0, Beh::Len, true));
        }
    }
    if f.fmts > 0 {
        for (n, k) in [
            ("fdef", FmtKind::Def),
            ("angle", FmtKind::Angle),
            ("chars", FmtKind::Chars),
            ("chunks", FmtKind::Chunks),
            ("fmt", FmtKind::Fmt),
            ("any", FmtKind::Any),
            ("quiet", FmtKind::Quiet),
            ("esc", FmtKind::Esc),
        ] {
            if r.pct(50) {
                m.insert(n.to_string(), FnSpec::Fmt(FmtSpec { kind: k, remap: r.pct(15), ver: 1 }));
            }
        }
    }
    m
}

/// Only some kinds of tags are configured.
pub const PARTIAL: u8 = 100;

pub fn syntax(r: &mut Rng, k: u8) -> SyntaxSpec {
    let p = |a: &str, b: &str| (a.to_string(), b.to_string());
    match k {
        0..=5 => SyntaxSpec::default_spec(),
        6..=7 => {
            let all = [
                (p("<?", "?>"), p("<%", "%>"), Some(p("<#", "#>"))),
                (p("{", "}"), p("{{", "}}"), None),
                (p("${", "}"), p("<!--", "!>"), Some(p("//", "\n"))),
                (p("{{", "}}"), p("%", "\n"), None),
                (p("{{", "}}"), p("{%", "%}"), None),
                (p("«", "»"), p("‹", "›"), Some(p("¡", "!"))),
                (p("[[", "]]"), p("[%", "%]"), Some(p("[#", "#]"))),
                (p("<<", ">>"), p("<", ">"), Some(p("<<<", ">>>"))),
                (p("{{", "}}"), p("#", "\n"), Some(p("##", " "))),
                (p("{{{", "}}}"), p("{{", "}}"), Some(p("{!", "!}"))),
                (p("@(", ")"), p("@{", "}"), Some(p("@*", "*@"))),
                (p("begin ", " end"), p("<%", "%>"), None),
            ];
            let (expr, block, comment) = r.pick(&all).clone();
            SyntaxSpec { expr, block, comment }
        }
        PARTIAL => {
            let k = r.below(7) as u8 + 1;
            let k = if k == 7 { 0 } else { k };
            let of = *r.pick(&[0, 6, 8]);
            let full = syntax(r, of);
            SyntaxSpec {
                expr: if k & 1 != 0 { full.expr } else { p("", "") },
                block: if k & 2 != 0 { full.block } else { p("", "") },
                comment: if k & 4 != 0 { full.comment } else { None },
            }
        }
        _ => {
            // Few different characters: delimiters that contain and overlap each other.
            let chars = *r.pick(&["{}[]()<>%#$@!&*=;~^/\\§¿", "{}[]()<>%#$@!&*=;~^/\\§¿", "{}", "<-!", "%#&", "§{", "{%#-"]);
            let chars: Vec<char> = chars.chars().collect();
            let most = if chars.len() > 4 { *r.pick(&[3, 3, 3, 12]) } else { *r.pick(&[3, 4, 6, 7, 9]) };
            let least = if most > 4 { *r.pick(&[1, 3, 4, 5]) } else { 1 };
            for _ in 0..50 {
                let mut d = || -> String { (0..r.range(least, most)).map(|_| *r.pick(&chars)).collect() };
                let s = SyntaxSpec {
                    expr: (d(), d()),
                    block: (d(), d()),
                    comment: Some((d(), d())),
                };
                if s.unambiguous() {
                    let comment = if r.pct(30) { None } else { s.comment };
                    return SyntaxSpec { comment, ..s };
                }
            }
            SyntaxSpec::default_spec()
        }
    }
}

fn lit_num(r: &mut Rng) -> Lit {
    match r.below(12) {
        0 => Lit { text: "0x2a".into(), v: Val::Int(42) },
        1 => Lit { text: "-0x1F".into(), v: Val::Int(-31) },
        2 => Lit { text: "0o52".into(), v: Val::Int(42) },
        3 => Lit { text: "-3.14".into(), v: Val::Float(-3.14) },
        4 => Lit { text: "5.23e10".into(), v: Val::Float(5.23e10) },
        5 => Lit { text: "0.123".into(), v: Val::Float(0.123) },
        6 => Lit::int(*r.pick(&[i64::MAX, i64::MIN, -1, 0])),
        7 => {
            // Around the limits of the integer types.
            let top = 1i128 << *r.pick(&[7, 8, 15, 16, 31, 32, 63, 63]);
            let at = top + *r.pick(&[-1, 0, 1]);
            let at = if r.pct(50) { -at } else { at };
            spelled(r, i64::try_from(at).unwrap_or(if at < 0 { i64::MIN } else { i64::MAX }))
        }
        8 => {
            let n = r.below(5000) as i64 - 300;
            spelled(r, n)
        }
        9 => {
            let text = *r.pick(&["0.0", "-0.0", "+1.0", "1.5", "0.1", "16777217.0", "1.5e3", "2.5E2", "123456789.125", "1.0e21", "1.0e300"]);
            Lit { text: text.into(), v: Val::Float(text.parse().unwrap()) }
        }
        _ => Lit::int(r.below(12) as i64),
    }
}

/// A literal that resembles a value of a type, but is not one.
fn near_miss(r: &mut Rng, t: funcs::Ty) -> Lit {
    use funcs::Ty;
    let lit = |s: &str, v: Val| Lit { text: s.to_string(), v };
    let pool = [
        lit("false", Val::Bool(false)),
        lit("true", Val::Bool(true)),
        Lit::int(0),
        Lit::int(1),
        lit("0.0", Val::Float(0.0)),
        lit("1.0", Val::Float(1.0)),
        lit("300.0", Val::Float(300.0)),
        Lit::str(""),
        Lit::str("0"),
        Lit::str("1"),
        Lit::str("true"),
    ];
    let fit: Vec<&Lit> = pool.iter().filter(|l| t.convert(&l.v).is_none()).collect();
    match t {
        Ty::Val | Ty::ValRef => pool[r.below(pool.len())].clone(),
        _ => (*r.pick(&fit)).clone(),
    }
}

/// An integer in one of the documented notations.
fn spelled(r: &mut Rng, n: i64) -> Lit {
    let a = n.unsigned_abs();
    let digits = match r.below(6) {
        0 => format!("0x{a:x}"),
        1 => format!("0x{a:X}"),
        2 => format!("0o{a:o}"),
        3 => format!("0b{a:b}"),
        _ => a.to_string(),
    };
    let sign = if n < 0 {
        "-"
    } else if r.pct(15) {
        "+"
    } else {
        ""
    };
    Lit { text: format!("{sign}{digits}"), v: Val::Int(n) }
}

fn lit_str(r: &mut Rng, f: &Feat) -> Lit {
    let s = match r.below(8) {
        0 => "".to_string(),
        1 => "a\\".to_string(),
        2 => "q\"q".to_string(),
        3 => "l\nm\tn\r".to_string(),
        4 => "}} %} #} {{".to_string(),
        5 if f.unicode => "ü€𝄞".to_string(),
        _ => word(r, false),
    };
    Lit::str(&s)
}

struct G<'a> {
    r: &'a mut Rng,
    f: &'a Feat,
    fns: &'a BTreeMap<String, FnSpec>,
    scope: Vec<(String, Val)>,
    loops: usize,
    nodes: usize,
    doc: usize,
    names: &'a [String],
    /// scope of each document: path of the map it is rendered with
    homes: &'a [Option<(Path, Val)>],
    /// documents that may be included
    can: Vec<usize>,
    raws: &'a [&'a str],
}

impl G<'_> {
    fn tag(&mut self) -> Tag {
        let t = self.f.trims;
        Tag {
            lt: self.r.pct(t),
            rt: self.r.pct(t),
            pad: if self.f.pads { self.r.below(32) as u8 } else { 0 },
        }
    }

    fn end(&mut self) -> Tag {
        self.tag()
    }

    fn paths(&mut self) -> Vec<(Path, Val)> {
        let mut out: Vec<(Path, Val)> = Vec::new();
        let mut seen = std::collections::BTreeSet::new();
        for (n, v) in self.scope.iter().rev() {
            if !seen.insert(n.clone()) {
                continue;
            }
            walk(&Path::name(n), v, 0, &mut out);
        }
        if self.loops > 0 && !seen.contains("loop") {
            out.push((Path::name("loop"), Val::map([("first", Val::Bool(true)), ("index", Val::Int(0)), ("last", Val::Bool(false))])));
            for (k, v) in [("index", Val::Int(0)), ("first", Val::Bool(true)), ("last", Val::Bool(false))] {
                let mut p = Path::name("loop");
                p.rest.push(Member { opt: false, acc: Acc::Key(k.into()) });
                out.push((p, v));
            }
        }
        out
    }

    fn pick_path(&mut self, want: &dyn Fn(&Val) -> bool) -> Option<(Path, Val)> {
        let c: Vec<(Path, Val)> = self.paths().into_iter().filter(|(_, v)| want(v)).collect();
        if c.is_empty() {
            return None;
        }
        // Prefer what was bound most recently.
        let i = if self.r.pct(50) { self.r.below(c.len().min(6)) } else { self.r.below(c.len()) };
        let (mut p, v) = c[i].clone();
        for m in &mut p.rest {
            if self.r.pct(self.f.opt) {
                m.opt = true;
            }
        }
        Some((p, v))
    }

    fn bad_path(&mut self) -> Path {
        let base = self.pick_path(&|_| true).map(|x| x.0).unwrap_or_else(|| Path::name("n"));
        match self.r.below(5) {
            0 => Path::name(*self.r.pick(&["nope", "x", "y", "item", "loop", "k"])),
            1 | 2 => {
                let mut p = base;
                p.rest.push(Member { opt: self.r.pct(40), acc: Acc::Key("missing".into()) });
                p
            }
            3 => {
                let mut p = base;
                p.rest.push(Member { opt: self.r.pct(40), acc: Acc::Index(*self.r.pick(&[0, 1, 99])) });
                p
            }
            _ => {
                let mut p = Path::name("nope");
                p.rest.push(Member { opt: true, acc: Acc::Key("a".into()) });
                p
            }
        }
    }

    /// An optional access that misses (and so yields none).
    fn miss_path(&mut self) -> Option<(Path, Val)> {
        let (mut p, v) = self.pick_path(&|v| matches!(v, Val::Map(_) | Val::List(_)))?;
        let acc = match v {
            Val::Map(_) => Acc::Key("missing".into()),
            _ => Acc::Index(77),
        };
        p.rest.push(Member { opt: true, acc });
        if self.r.pct(30) {
            p.rest.push(Member { opt: self.r.pct(50), acc: Acc::Key("more".into()) });
        }
        Some((p, Val::None))
    }

    fn base(&mut self, want: &dyn Fn(&Val) -> bool) -> (Base, Val) {
        if self.r.pct(self.f.err) {
            return (Base::Var(self.bad_path()), Val::None);
        }
        if self.r.pct(self.f.opt / 6) && want(&Val::None) {
            if let Some((p, v)) = self.miss_path() {
                return (Base::Var(p), v);
            }
        }
        if !self.r.pct(self.f.lits) {
            if let Some((p, v)) = self.pick_path(want) {
                return (Base::Var(p), v);
            }
        }
        for _ in 0..8 {
            let l = match self.r.below(4) {
                0 => Lit { text: "true".into(), v: Val::Bool(true) },
                1 => Lit { text: "false".into(), v: Val::Bool(false) },
                2 => lit_num(self.r),
                _ => lit_str(self.r, self.f),
            };
            if want(&l.v) {
                return (Base::Lit(l.clone()), l.v);
            }
        }
        if let Some((p, v)) = self.pick_path(want) {
            return (Base::Var(p), v);
        }
        let l = lit_str(self.r, self.f);
        (Base::Lit(l.clone()), l.v)
    }

    fn call(&mut self, v: &Val) -> Option<(Call, Val)> {
        let wrong = self.r.pct(self.f.err);
        let misfit = wrong && self.f.shapes && self.r.pct(75);
        if wrong && !misfit && self.r.pct(30) {
            return Some((Call { name: "unknown".into(), args: vec![] }, Val::None));
        }
        let c: Vec<(String, FnSpec)> = self
            .fns
            .iter()
            .filter(|(_, s)| match s {
                FnSpec::Filter { shape, .. } if misfit => {
                    let tys = funcs::shape(*shape);
                    tys.len() > 1 && tys[0].convert(v).is_some()
                }
                FnSpec::Filter { shape, .. } => wrong || funcs::shape(*shape)[0].convert(v).is_some(),
                _ => wrong && !misfit,
            })
            .map(|(n, s)| (n.clone(), s.clone()))
            .collect();
        if c.is_empty() {
            return None;
        }
        let (name, spec) = self.r.pick(&c).clone();
        let FnSpec::Filter { shape, beh, .. } = spec else {
            return Some((Call { name, args: vec![] }, Val::None));
        };
        let tys = funcs::shape(shape);
        let mut vals = vec![tys[0].convert(v).unwrap_or(Val::None)];
        let mut args = Vec::new();
        // One argument out of place, or all of them.
        let odd = if misfit && self.r.pct(80) { Some(self.r.range(1, tys.len() - 1)) } else { None };
        for (i, t) in tys.iter().enumerate().skip(1) {
            let want = |v: &Val| t.convert(v).is_some();
            let (b, x) = if odd == Some(i) {
                let mut got = self.base(&|v| t.convert(v).is_none());
                if self.r.pct(70) {
                    let l = near_miss(self.r, *t);
                    got = (Base::Lit(l.clone()), l.v);
                }
                for _ in 0..3 {
                    let l = lit_num(self.r);
                    if t.convert(&l.v).is_none() && self.r.pct(60) {
                        got = (Base::Lit(l.clone()), l.v);
                    }
                }
                got
            } else if wrong && odd.is_none() {
                self.base(&|_| true)
            } else if t.is_ref() && !self.r.pct(if self.f.shapes { 15 } else { 4 }) {
                let mut got = None;
                for _ in 0..12 {
                    let l = if self.r.pct(60) { lit_str(self.r, self.f) } else { lit_num(self.r) };
                    if want(&l.v) {
                        got = Some((Base::Lit(l.clone()), l.v));
                        break;
                    }
                }
                got?
            } else {
                self.base(&want)
            };
            vals.push(t.convert(&x).unwrap_or(Val::None));
            args.push(b);
        }
        if wrong && odd.is_none() && self.r.pct(30) {
            if args.is_empty() || self.r.pct(50) {
                args.push(Base::Lit(Lit::int(1)));
            } else {
                args.pop();
            }
        }
        let res = funcs::returned(shape, funcs::apply(beh, &vals));
        Some((Call { name, args }, res))
    }

    fn expr(&mut self, want: &dyn Fn(&Val) -> bool) -> (Expr, Val) {
        if self.r.pct(self.f.filters) {
            // A chain of filters which happens to end in what is wanted.
            for _ in 0..6 {
                let (b, mut v) = self.base(&|_| true);
                let mut calls = Vec::new();
                for _ in 0..self.r.range(1, 3) {
                    let Some((c, x)) = self.call(&v) else { break };
                    calls.push(c);
                    v = x;
                    if want(&v) && self.r.pct(60) {
                        break;
                    }
                }
                if want(&v) {
                    return (Expr { base: b, calls }, v);
                }
            }
        }
        let (b, v) = self.base(want);
        (Expr { base: b, calls: vec![] }, v)
    }

    fn emit(&mut self) -> Node {
        let tag = self.tag();
        let fmt: Option<(String, FmtKind)> = if self.r.pct(self.f.fmts) {
            let c: Vec<(String, FmtKind)> = self
                .fns
                .iter()
                .filter_map(|(n, s)| match s {
                    FnSpec::Fmt(f) => Some((n.clone(), f.kind)),
                    _ => None,
                })
                .collect();
            if c.is_empty() {
                None
            } else {
                Some(self.r.pick(&c).clone())
            }
        } else {
            None
        };
        let wrong = self.r.pct(self.f.err);
        let strict = match &fmt {
            Some((_, k)) => matches!(k, FmtKind::Def | FmtKind::Angle),
            None => true,
        };
        let want = |v: &Val| wrong || !strict || v.display().is_some();
        let (mut e, _) = self.expr(&want);
        if let Some((n, _)) = fmt {
            let args = if self.r.pct(self.f.err / 2) { vec![Base::Lit(Lit::int(1))] } else { vec![] };
            e.calls.push(Call { name: n, args });
        }
        Node::Emit { e, tag }
    }

    fn raw(&mut self) -> Node {
        let n = self.r.range(1, 3);
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(*self.r.pick(self.raws));
        }
        Node::Raw(s)
    }

    fn body(&mut self, depth: usize) -> Vec<Node> {
        let mut out = Vec::new();
        let n = self.r.range(1, 4);
        for _ in 0..n {
            if self.nodes == 0 {
                break;
            }
            out.push(self.node(depth));
        }
        out
    }

    fn binding(&mut self) -> String {
        if self.f.shadow && self.r.pct(40) && !self.scope.is_empty() {
            let i = self.r.below(self.scope.len());
            let n = self.scope[i].0.clone();
            if n != "loop" {
                return n;
            }
        }
        self.r.pick(LOOPV).to_string()
    }

    fn node(&mut self, depth: usize) -> Node {
        self.nodes = self.nodes.saturating_sub(1);
        let deep = depth < 5 && self.nodes > 0;
        let w = [
            25,
            if self.f.exprs { 30 } else { 0 },
            if deep && self.f.blocks { self.f.ifs } else { 0 },
            if deep && self.f.blocks { self.f.loops } else { 0 },
            if deep && self.f.blocks { self.f.withs } else { 0 },
            if self.can.is_empty() && self.f.err == 0 || !self.f.blocks { 0 } else { self.f.includes },
            if self.f.comments { 6 } else { 0 },
        ];
        match self.r.pick_idx(&w) {
            0 => self.raw(),
            1 => self.emit(),
            2 => {
                let mut arms = Vec::new();
                for i in 0..3 {
                    if i > 0 && !self.r.pct(30) {
                        break;
                    }
                    let tag = self.tag();
                    let (e, _) = self.expr(&|_| true);
                    let not = self.r.pct(30);
                    let body = self.body(depth + 1);
                    arms.push(Arm { not, e, tag, body });
                }
                let els = if self.r.pct(50) { Some((self.tag(), self.body(depth + 1))) } else { None };
                Node::If { arms, els, end: self.end() }
            }
            3 => {
                let tag = self.tag();
                let wrong = self.r.pct(self.f.err);
                let empty_ok = self.r.pct(10);
                let (e, v) = self.expr(&|v| match v {
                    Val::List(l) => empty_ok || !l.is_empty(),
                    Val::Map(m) => empty_ok || !m.is_empty(),
                    _ => wrong,
                });
                let is_map = matches!(v, Val::Map(_)) ^ (wrong && self.r.pct(40));
                let mut vars = vec![self.binding()];
                if is_map {
                    let mut b = self.binding();
                    while b == vars[0] {
                        b = (*self.r.pick(LOOPV)).to_string();
                    }
                    vars.push(b);
                }
                let k = self.scope.len();
                match &v {
                    Val::List(l) => {
                        let i = if l.is_empty() { 0 } else { self.r.below(l.len()) };
                        self.scope.push((vars[0].clone(), l.get(i).cloned().unwrap_or(Val::None)));
                    }
                    Val::Map(m) => {
                        let i = if m.is_empty() { 0 } else { self.r.below(m.len()) };
                        let (a, b) = m
                            .iter()
                            .nth(i)
                            .map(|(a, b)| (Val::Str(a.clone()), b.clone()))
                            .unwrap_or((Val::None, Val::None));
                        self.scope.push((vars[0].clone(), a));
                        if let Some(n) = vars.get(1) {
                            self.scope.push((n.clone(), b));
                        }
                    }
                    _ => {}
                }
                self.loops += 1;
                let body = self.body(depth + 1);
                self.loops -= 1;
                self.scope.truncate(k);
                Node::For { vars, e, tag, body, end: self.end() }
            }
            4 => {
                let tag = self.tag();
                let (e, v) = self.expr(&|_| true);
                let name = if self.r.pct(3) { "loop".to_string() } else { self.binding() };
                let k = self.scope.len();
                self.scope.push((name.clone(), v));
                let body = self.body(depth + 1);
                self.scope.truncate(k);
                Node::With { e, name, tag, body, end: self.end() }
            }
            5 => {
                let tag = self.tag();
                if self.can.is_empty() || self.r.pct(self.f.err) {
                    return Node::Include { name: Lit::str("unknown template"), with: None, tag };
                }
                let j = *self.r.pick(&self.can.clone());
                let name = Lit::str(&self.names[j]);
                let with = match &self.homes[j] {
                    None => {
                        if self.r.pct(10) {
                            Some(self.expr(&|_| true).0)
                        } else {
                            None
                        }
                    }
                    Some((_, m)) => {
                        let m = m.clone();
                        let same = self.paths().into_iter().filter(|(_, v)| *v == m).collect::<Vec<_>>();
                        if !same.is_empty() && self.r.pct(70) {
                            let p = self.r.pick(&same).0.clone();
                            Some(Expr { base: Base::Var(p), calls: vec![] })
                        } else {
                            Some(self.expr(&|v| matches!(v, Val::Map(x) if !x.is_empty())).0)
                        }
                    }
                };
                Node::Include { name, with, tag }
            }
            _ => {
                let tag = self.tag();
                let t = *self.r.pick(&["", " note ", "multi\nline", "if x", " - "]);
                Node::Comment { text: t.to_string(), tag }
            }
        }
    }
}

fn walk(p: &Path, v: &Val, depth: usize, out: &mut Vec<(Path, Val)>) {
    if out.len() > 120 {
        return;
    }
    out.push((p.clone(), v.clone()));
    if depth >= 3 {
        return;
    }
    match v {
        Val::Map(m) => {
            for (k, x) in m {
                if !is_ident(k) {
                    continue;
                }
                let mut q = p.clone();
                q.rest.push(Member { opt: false, acc: Acc::Key(k.clone()) });
                walk(&q, x, depth + 1, out);
            }
        }
        Val::List(l) => {
            for (i, x) in l.iter().take(2).enumerate() {
                let mut q = p.clone();
                q.rest.push(Member { opt: false, acc: Acc::Index(i) });
                walk(&q, x, depth + 1, out);
            }
        }
        _ => {}
    }
}

pub fn is_ident(s: &str) -> bool {
    if !s.is_ascii() && !avail::has(avail::UNICODE) {
        return false;
    }
    let mut c = s.chars();
    match c.next() {
        Some(x) if x.is_alphabetic() || x == '_' => {}
        _ => return false,
    }
    c.all(|x| x.is_alphanumeric() || x == '_')
        && !["if", "not", "else", "endif", "for", "in", "endfor", "with", "as", "endwith", "include", "true", "false"]
            .contains(&s)
}

const RAW_PLAIN: &[&str] = &["text", " ", "\n", "a b", "  \n\t", "Zz.", "1,2", "\r\n", "x "];
const RAW_RICH: &[&str] = &[
    "text", " ", "\n", "<b>", "é€𝄞", "{", "}", "%", "# ", "-", "\t x \r\n", "}}", "%}", "\u{a0}", "\"q\"", "\u{3000}w", "|",
    "\u{b}", "\u{c}v\u{85}", "\u{2028}",
];

/// Tags under the usual delimiters, which are text under others.
const RAW_TAGS: &[&str] = &["{{ a }}", "{%", "{# no", "{{-", "{% if a %}", " -}} "];

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Graph {
    /// document i may include document j > i
    Dag,
    None,
}

/// Build a world; retries until the documents print unambiguously.
pub fn world(r: &mut Rng, feat: Feat, graph: Graph) -> World {
    let mut feat = feat;
    for attempt in 0..12 {
        if attempt == 8 {
            feat.syntax = 0;
        }
        let syn = syntax(r, feat.syntax);
        if !syn.unambiguous() {
            continue;
        }
        if syn.comment.is_none() {
            feat.comments = false;
        }
        feat.exprs = !syn.expr.0.is_empty();
        feat.blocks = !syn.block.0.is_empty();
        let root = root(r, &feat);
        let fns = functions(r, &feat);
        let mut pool: Vec<&str> = TNAMES.to_vec();
        let mut names = Vec::new();
        for _ in 0..feat.docs {
            let i = r.below(pool.len());
            names.push(pool.remove(i).to_string());
        }
        // Where each document expects to live.
        let mut homes: Vec<Option<(Path, Val)>> = vec![None];
        for _ in 1..feat.docs {
            let mut all = Vec::new();
            if let Val::Map(m) = &root {
                for (k, v) in m {
                    if is_ident(k) {
                        walk(&Path::name(k), v, 0, &mut all);
                    }
                }
            }
            let maps: Vec<_> = all.into_iter().filter(|(_, v)| matches!(v, Val::Map(m) if !m.is_empty())).collect();
            homes.push(if !maps.is_empty() && r.pct(40) { Some(r.pick(&maps).clone()) } else { None });
        }
        let raws: Vec<&str> = if attempt < 4 && feat.unicode { RAW_RICH.to_vec() } else { RAW_PLAIN.to_vec() };
        // Parts of delimiters are text.
        let parts: Vec<String> = syn
            .patterns()
            .iter()
            .flat_map(|p| {
                let at: Vec<usize> = p.0.char_indices().map(|x| x.0).skip(1).collect();
                at.into_iter().flat_map(|i| [p.0[..i].to_string(), p.0[i..].to_string()]).collect::<Vec<_>>()
            })
            .collect();
        let parts: Vec<&str> = parts.iter().map(String::as_str).collect();
        let raws = match attempt {
            0..=3 if feat.syntax > 5 && r.pct(50) => [&RAW_PLAIN[..4], &parts[..]].concat(),
            0..=3 if feat.syntax > 5 => [&raws[..], RAW_TAGS].concat(),
            _ => raws,
        };
        let mut docs: Vec<Vec<Node>> = vec![vec![]; feat.docs];
        for j in (0..feat.docs).rev() {
            let top = match &homes[j] {
                None => root.clone(),
                Some((_, v)) => v.clone(),
            };
            let scope: Vec<(String, Val)> = match top {
                Val::Map(m) => m.into_iter().filter(|(k, _)| is_ident(k)).collect(),
                _ => vec![],
            };
            let mut g = G {
                r,
                f: &feat,
                fns: &fns,
                scope,
                loops: 0,
                nodes: if j == 0 { feat.nodes } else { feat.nodes / 2 + 1 },
                doc: j,
                names: &names,
                homes: &homes,
                can: match graph {
                    Graph::Dag => (j + 1..feat.docs).collect(),
                    Graph::None => vec![],
                },
                raws: &raws,
            };
            let _ = g.doc;
            let mut v = Vec::new();
            while g.nodes > 0 {
                v.push(g.node(0));
            }
            docs[j] = v;
        }
        let compiled: Result<Vec<_>, _> = docs.iter().map(|d| compile(d, &syn).map(Arc::new)).collect();
        let Ok(compiled) = compiled else { continue };
        let deffmt = if r.pct(feat.deffmt) {
            Some(FmtSpec { kind: *r.pick(&[FmtKind::Def, FmtKind::Angle, FmtKind::Esc, FmtKind::Any]), remap: r.pct(15), ver: 9 })
        } else {
            None
        };
        return World { syntax: syn, docs, names, compiled, fns, root, deffmt, feat, limit: None, big: false };
    }
    // Cannot happen with default delimiters; an empty document always prints.
    World {
        syntax: SyntaxSpec::default_spec(),
        docs: vec![vec![Node::Raw("fallback".into())]],
        names: vec!["a".into()],
        compiled: vec![Arc::new(compile(&[Node::Raw("fallback".into())], &SyntaxSpec::default_spec()).unwrap())],
        fns: BTreeMap::new(),
        root: Val::Map(BTreeMap::new()),
        deffmt: None,
        feat,
        limit: None,
        big: false,
    }
}

impl World {
    pub fn setup(&self, r: &mut Rng) -> Vec<Op> {
        let mut ops = Vec::new();
        for (n, f) in &self.fns {
            ops.push(Op::AddFn { name: n.clone(), f: f.clone() });
        }
        for (i, n) in self.names.iter().enumerate() {
            ops.push(Op::Add { name: n.clone(), doc: i, damage: None, owned: r.pct(50) });
        }
        if let Some(f) = &self.deffmt {
            ops.push(Op::SetFmt(f.clone()));
        }
        if let Some(d) = self.limit {
            ops.push(Op::SetDepth(d));
        }
        ops
    }

    /// Add a document; `false` when it does not print under these delimiters.
    pub fn add_doc(&mut self, name: &str, nodes: Vec<Node>) -> bool {
        let Ok(c) = compile(&nodes, &self.syntax) else { return false };
        if self.names.iter().any(|n| n == name) {
            return false;
        }
        self.docs.push(nodes);
        self.names.push(name.to_string());
        self.compiled.push(Arc::new(c));
        true
    }

    /// Append to a document.
    pub fn extend_doc(&mut self, i: usize, nodes: &[Node]) -> bool {
        let mut d = self.docs[i].clone();
        d.extend_from_slice(nodes);
        let Ok(c) = compile(&d, &self.syntax) else { return false };
        self.docs[i] = d;
        self.compiled[i] = Arc::new(c);
        true
    }

    pub fn set_root(&mut self, k: &str, v: Val) {
        if let Val::Map(m) = &mut self.root {
            m.insert(k.to_string(), v);
        }
    }

    /// The engine model after `setup`.
    pub fn model(&self) -> MEngine {
        let mut m = MEngine::new();
        m.fns = self.fns.clone();
        for (i, n) in self.names.iter().enumerate() {
            m.templates.insert(n.clone(), self.compiled[i].clone());
        }
        m.deffmt = self.deffmt.clone();
        if let Some(d) = self.limit {
            m.depth = d;
        }
        if self.big {
            m.steps = crate::big::STEPS;
        }
        m
    }

    /// Data for document `i`: mostly what it was written for.
    pub fn data(&self, r: &mut Rng, i: usize) -> Val {
        let _ = i;
        if r.pct(85) {
            self.root.clone()
        } else {
            let f = self.feat.clone();
            root(r, &f)
        }
    }

    pub fn op(&self, r: &mut Rng, i: usize) -> RenderOp {
        RenderOp {
            target: Target::Engine(self.names[i].clone()),
            kind: *r.pick(&[CtxKind::Serde, CtxKind::Value, CtxKind::Fn(0)]),
            val: self.data(r, i),
            ser: None,
            made: None,
            resolver: None,
            depth: None,
            out: OutKind::Str,
            faults: BTreeMap::new(),
        }
    }
}

pub fn awkward(r: &mut Rng) -> SinkPlan {
    let chunks = match r.below(4) {
        0 => vec![],
        1 => vec![1],
        2 => vec![r.range(1, 4)],
        _ => (0..r.range(1, 5)).map(|_| r.range(1, 9)).collect(),
    };
    let interrupts = if r.pct(60) { (0..r.range(1, 6)).map(|_| r.below(40) as u32).collect() } else { vec![] };
    SinkPlan { chunks, interrupts, fail_at_byte: None, fail_at_call: None, pass: r.below(3) as u8, sticky: r.pct(50) }
}

pub fn sink_err(r: &mut Rng, id: u64) -> SinkErr {
    match r.below(5) {
        0 => SinkErr::Kind(r.below(10) as u8),
        1 | 2 => SinkErr::Custom(r.below(10) as u8, id),
        3 => SinkErr::Os(*r.pick(&[28, 32, 5, 9, 27, 122, 11, 104])),
        _ => SinkErr::Zero,
    }
}

/// What the callbacks of a render are, in order, without faults.
pub fn dry(m: &MEngine, op: &RenderOp) -> Option<Expect> {
    find_target(m, &op.target)?;
    let e = render(m, op);
    if e.too_big || e.unspecified {
        return None;
    }
    Some(e)
}
