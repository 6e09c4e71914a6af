//! Template documents as the simulator sees them: an abstract tree, a printer
//! that turns it into source text under a delimiter configuration, and the
//! located form that the reference interpreter executes.

use serde::{Deserialize, Serialize};

use crate::val::Val;

#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Tag {
    /// trim marker on the left / right
    pub lt: bool,
    pub rt: bool,
    /// whitespace style inside the tag
    pub pad: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Node {
    Raw(String),
    Comment { text: String, tag: Tag },
    Emit { e: Expr, tag: Tag },
    If { arms: Vec<Arm>, els: Option<(Tag, Vec<Node>)>, end: Tag },
    For { vars: Vec<String>, e: Expr, tag: Tag, body: Vec<Node>, end: Tag },
    With { e: Expr, name: String, tag: Tag, body: Vec<Node>, end: Tag },
    Include { name: Lit, with: Option<Expr>, tag: Tag },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Arm {
    pub not: bool,
    pub e: Expr,
    pub tag: Tag,
    pub body: Vec<Node>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Expr {
    pub base: Base,
    pub calls: Vec<Call>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Call {
    pub name: String,
    pub args: Vec<Base>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Base {
    Lit(Lit),
    Var(Path),
}

/// A literal: how it is spelled, and the value the documentation gives it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Lit {
    pub text: String,
    pub v: Val,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Path {
    pub first: String,
    pub rest: Vec<Member>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Member {
    pub opt: bool,
    pub acc: Acc,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Acc {
    Key(String),
    Index(usize),
}

impl Lit {
    pub fn str(s: &str) -> Lit {
        Lit { text: quote(s), v: Val::str(s) }
    }
    pub fn int(i: i64) -> Lit {
        Lit { text: i.to_string(), v: Val::Int(i) }
    }
    pub fn as_str(&self) -> &str {
        match &self.v {
            Val::Str(s) => s,
            _ => "",
        }
    }
}

/// The value the documentation gives to a literal of this spelling.
pub fn denoted(text: &str) -> Option<Val> {
    match text {
        "true" => return Some(Val::Bool(true)),
        "false" => return Some(Val::Bool(false)),
        _ => {}
    }
    if let Some(body) = text.strip_prefix('"') {
        let body = body.strip_suffix('"')?;
        let mut s = String::new();
        let mut it = body.chars();
        while let Some(c) = it.next() {
            s.push(match c {
                '"' | '\r' | '\n' => return None,
                '\\' => match it.next()? {
                    'n' => '\n',
                    'r' => '\r',
                    't' => '\t',
                    '\\' => '\\',
                    '"' => '"',
                    _ => return None,
                },
                c => c,
            });
        }
        return Some(Val::Str(s));
    }
    let (neg, digits) = match text.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, text.strip_prefix('+').unwrap_or(text)),
    };
    if !digits.starts_with(|c: char| c.is_ascii_digit()) {
        return None;
    }
    let int = |d: &str, radix: u32| -> Option<Val> {
        let d = d.replace('_', "");
        if !d.chars().all(|c| c.is_digit(radix)) || d.is_empty() {
            return None;
        }
        let m = i128::from_str_radix(&d, radix).ok()?;
        i64::try_from(if neg { -m } else { m }).ok().map(Val::Int)
    };
    match digits.as_bytes() {
        [b'0', b'b', ..] => int(&digits[2..], 2),
        [b'0', b'o', ..] => int(&digits[2..], 8),
        [b'0', b'x', ..] => int(&digits[2..], 16),
        _ if digits.chars().all(|c| c.is_ascii_digit() || c == '_') => int(digits, 10),
        _ => {
            if !digits.chars().all(|c| matches!(c, '0'..='9' | '.' | 'e' | 'E' | '+' | '-')) {
                return None;
            }
            let f: f64 = digits.parse().ok()?;
            Some(Val::Float(if neg { -f } else { f }))
        }
    }
}

/// A name that can be written in a template.
pub fn is_name(s: &str) -> bool {
    if !s.is_ascii() && !crate::avail::has(crate::avail::UNICODE) {
        return false;
    }
    let mut it = s.chars();
    it.next().map_or(false, |c| c == '_' || c.is_alphabetic())
        && it.all(|c| c == '_' || c.is_alphanumeric())
}

impl Path {
    pub fn name(s: &str) -> Path {
        Path { first: s.to_string(), rest: vec![] }
    }

    pub fn repr(&self) -> String {
        let mut s = self.first.clone();
        for m in &self.rest {
            s.push_str(if m.opt { "?." } else { "." });
            match &m.acc {
                Acc::Key(k) => s.push_str(k),
                Acc::Index(i) => s.push_str(&i.to_string()),
            }
        }
        s
    }
}

pub fn quote(s: &str) -> String {
    let mut t = String::from("\"");
    for c in s.chars() {
        match c {
            '\n' => t.push_str("\\n"),
            '\r' => t.push_str("\\r"),
            '\t' => t.push_str("\\t"),
            '\\' => t.push_str("\\\\"),
            '"' => t.push_str("\\\""),
            c => t.push(c),
        }
    }
    t.push('"');
    t
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SyntaxSpec {
    /// two empty strings: there are no such tags
    pub expr: (String, String),
    pub block: (String, String),
    pub comment: Option<(String, String)>,
}

impl SyntaxSpec {
    pub fn default_spec() -> Self {
        let p = |a: &str, b: &str| (a.to_string(), b.to_string());
        SyntaxSpec {
            expr: p("{{", "}}"),
            block: p("{%", "%}"),
            comment: Some(p("{#", "#}")),
        }
    }

    /// Delimiters that mean nothing, or something else, under these.
    pub fn other_than(s: &SyntaxSpec) -> Self {
        if *s != Self::default_spec() {
            return Self::default_spec();
        }
        let p = |a: &str, b: &str| (a.to_string(), b.to_string());
        SyntaxSpec { expr: p("{%", "%}"), block: p("{{", "}}"), comment: None }
    }

    pub fn to_upon(&self) -> upon::Syntax<'static> {
        if *self == Self::default_spec() {
            return upon::Syntax::default();
        }
        let mut b = upon::SyntaxBuilder::new();
        // What is not set is not available.
        let set = |p: &(String, String)| !p.0.is_empty();
        if let Some((x, y)) = &self.comment {
            b.comment(x, y);
        }
        if set(&self.block) {
            b.block(&self.block.1, &self.block.0);
            b.block(&self.block.0, &self.block.1);
        }
        if set(&self.expr) {
            b.expr(&self.expr.0, &self.expr.1);
        }
        // `Syntax` copies the delimiters, only its type parameter borrows.
        let s: upon::Syntax<'_> = b.build();
        unsafe { std::mem::transmute::<upon::Syntax<'_>, upon::Syntax<'static>>(s) }
    }

    /// All delimiters as (text, kind, is_end, trim).
    pub fn patterns(&self) -> Vec<(String, u8, bool, bool)> {
        let mut v = Vec::new();
        let mut add = |p: &(String, String), k: u8| {
            if p.0.is_empty() && p.1.is_empty() {
                return;
            }
            v.push((p.0.clone(), k, false, false));
            v.push((p.1.clone(), k, true, false));
            v.push((format!("{}-", p.0), k, false, true));
            v.push((format!("-{}", p.1), k, true, true));
        };
        add(&self.expr, 0);
        add(&self.block, 1);
        if let Some(c) = &self.comment {
            add(c, 2);
        }
        v
    }

    /// Delimiters must be pairwise different for the configuration to have
    /// one reading.
    pub fn unambiguous(&self) -> bool {
        let p = self.patterns();
        let mut t: Vec<&str> = p.iter().map(|x| x.0.as_str()).collect();
        if t.iter().any(|x| x.is_empty()) {
            return false;
        }
        t.sort_unstable();
        t.windows(2).all(|w| w[0] != w[1])
    }
}

pub type Pat = (String, u8, bool, bool);

/// The longest delimiter that starts exactly at `i`.
pub fn pat_at<'a>(pats: &'a [Pat], src: &str, i: usize) -> Option<&'a Pat> {
    pats.iter()
        .filter(|p| src.as_bytes()[i..].starts_with(p.0.as_bytes()))
        .max_by_key(|p| p.0.len())
}

/// Leftmost-longest search, by definition rather than by automaton.
pub fn find_from<'a>(pats: &'a [Pat], src: &str, i: usize) -> Option<(usize, &'a Pat)> {
    (i..src.len()).find_map(|j| pat_at(pats, src, j).map(|p| (j, p)))
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Span {
    pub a: usize,
    pub b: usize,
}

#[derive(Debug)]
pub enum LNode {
    Raw(usize),
    Emit(LExpr),
    If { arms: Vec<(bool, LExpr, Vec<LNode>)>, els: Option<Vec<LNode>> },
    For { vars: Vec<String>, vars_span: Span, e: LExpr, body: Vec<LNode> },
    With { e: LExpr, name: String, body: Vec<LNode> },
    Include { name: String, span: Span, with: Option<LExpr> },
}

#[derive(Debug)]
pub struct LExpr {
    pub base: LBase,
    pub calls: Vec<LCall>,
    pub span: Span,
}

#[derive(Debug)]
pub struct LCall {
    pub name: String,
    pub span: Span,
    pub args: Vec<LBase>,
}

#[derive(Debug)]
pub enum LBase {
    Lit { v: Val, span: Span },
    Var { path: Path, span: Span, first: Span, members: Vec<Span> },
}

impl LBase {
    pub fn span(&self) -> Span {
        match self {
            LBase::Lit { span, .. } | LBase::Var { span, .. } => *span,
        }
    }
}

/// Where each tag lies in the printed source (for truncation faults).
#[derive(Clone, Debug)]
pub struct TagAt {
    pub start: usize,
    /// end of the begin delimiter (without the trim marker)
    pub open: usize,
    pub end: usize,
    /// number of open blocks after this tag
    pub depth: usize,
    /// number of top-level nodes that end at or before `end`, if depth == 0
    pub kind: u8,
}

#[derive(Debug)]
pub struct Compiled {
    pub src: String,
    pub raws: Vec<String>,
    pub items: Vec<LNode>,
    pub tags: Vec<TagAt>,
    /// the text was damaged: what it means is not predicted
    pub opaque: bool,
}

struct Printer<'a> {
    syn: &'a SyntaxSpec,
    pats: Vec<Pat>,
    s: String,
    raws: Vec<String>,
    raw_span: Vec<Span>,
    cur_raw: Option<usize>,
    last_rt: bool,
    tags: Vec<TagAt>,
    depth: usize,
    /// starts of the tokens of the tag being printed
    toks: Vec<usize>,
    bad: Option<String>,
    /// cursor up to which the raw scan has been verified
    verified: usize,
    pending: Vec<(usize, usize, u8, bool, bool, Vec<usize>, usize)>,
}

/// Print a document. `Err` when the text would not tokenize as intended under
/// these delimiters (the generator then tries something else).
pub fn compile(nodes: &[Node], syn: &SyntaxSpec) -> Result<Compiled, String> {
    let mut p = Printer {
        syn,
        pats: syn.patterns(),
        s: String::new(),
        raws: vec![],
        raw_span: vec![],
        cur_raw: None,
        last_rt: false,
        tags: vec![],
        depth: 0,
        toks: vec![],
        bad: None,
        verified: 0,
        pending: vec![],
    };
    if !syn.unambiguous() {
        return Err("ambiguous delimiters".into());
    }
    let items = p.nodes(nodes);
    p.verify();
    match p.bad {
        Some(b) => Err(b),
        None => Ok(Compiled { src: p.s, raws: p.raws, items, tags: p.tags, opaque: false }),
    }
}

pub const KEYWORDS: &[&str] = &[
    "if", "not", "else", "endif", "for", "in", "endfor", "with", "as", "endwith", "include",
    "true", "false",
];

const LONG_PAD: &str = match std::str::from_utf8(&[b' '; 300]) {
    Ok(s) => s,
    Err(_) => unreachable!(),
};

fn pad_str(p: u8) -> &'static str {
    match p % 4 {
        0 => " ",
        1 => "",
        2 => "  ",
        _ => "\t",
    }
}

impl Printer<'_> {
    fn fail(&mut self, m: &str) {
        if self.bad.is_none() {
            self.bad = Some(m.to_string());
        }
    }

    fn nodes(&mut self, nodes: &[Node]) -> Vec<LNode> {
        let mut out = Vec::new();
        for n in nodes {
            if let Some(x) = self.node(n) {
                out.push(x);
            }
        }
        out
    }

    fn raw(&mut self, t: &str) -> Option<LNode> {
        if t.is_empty() {
            return None;
        }
        let a = self.s.len();
        self.s.push_str(t);
        if let Some(i) = self.cur_raw {
            // Two adjacent raw pieces are one raw piece.
            let full = Span { a: self.raw_span[i].a, b: self.s.len() };
            self.raw_span[i] = full;
            let text = self.s[full.a..full.b].to_string();
            self.raws[i] = text;
            if self.last_rt {
                self.raws[i] = self.raws[i].trim_start().to_string();
            }
            return None;
        }
        let i = self.raws.len();
        let mut text = t.to_string();
        if self.last_rt {
            text = text.trim_start().to_string();
        }
        self.raws.push(text);
        self.raw_span.push(Span { a, b: self.s.len() });
        self.cur_raw = Some(i);
        Some(LNode::Raw(i))
    }

    fn open(&mut self, kind: u8, tag: Tag) -> usize {
        if tag.lt {
            if let Some(i) = self.cur_raw {
                self.raws[i] = self.raws[i].trim_end().to_string();
            }
        }
        self.cur_raw = None;
        self.toks.clear();
        let start = self.s.len();
        let d = match kind {
            0 => &self.syn.expr.0,
            1 => &self.syn.block.0,
            _ => &self.syn.comment.as_ref().unwrap().0,
        };
        if d.is_empty() {
            self.bad = Some("no such tags".into());
        }
        self.s.push_str(d);
        let open = self.s.len();
        if tag.lt {
            self.s.push('-');
        }
        self.tags.push(TagAt { start, open, end: 0, depth: 0, kind });
        start
    }

    fn close(&mut self, kind: u8, tag: Tag, start: usize) {
        let at = self.s.len();
        if tag.rt {
            self.s.push('-');
        }
        let d = match kind {
            0 => &self.syn.expr.1,
            1 => &self.syn.block.1,
            _ => &self.syn.comment.as_ref().unwrap().1,
        };
        self.s.push_str(d);
        self.last_rt = tag.rt;
        let end = self.s.len();
        let t = self.tags.last_mut().unwrap();
        t.end = end;
        t.depth = self.depth;
        let toks = std::mem::take(&mut self.toks);
        self.pending.push((start, at, kind, tag.lt, tag.rt, toks, end));
    }

    /// Check the printed text against the naive scanner.
    fn verify(&mut self) {
        let pend = std::mem::take(&mut self.pending);
        for (start, close_at, kind, lt, rt, toks, end) in pend {
            match find_from(&self.pats, &self.s, self.verified) {
                Some((j, p)) if j == start && p.1 == kind && !p.2 && p.3 == lt => {}
                _ => return self.fail("begin delimiter misread"),
            }
            if kind == 2 {
                let dl = self.syn.comment.as_ref().unwrap().0.len() + usize::from(lt);
                match find_from(&self.pats, &self.s, start + dl) {
                    Some((j, p)) if j == close_at && p.1 == kind && p.2 && p.3 == rt => {}
                    _ => return self.fail("comment end misread"),
                }
            } else {
                for t in &toks {
                    if pat_at(&self.pats, &self.s, *t).is_some() {
                        return self.fail("delimiter inside a tag");
                    }
                }
                let ws = |i: usize| matches!(self.s.as_bytes()[i], b' ' | b'\t');
                if toks.last().map_or(false, |t| ws(*t)) && ws(close_at) {
                    return self.fail("whitespace run swallows the end delimiter");
                }
                match pat_at(&self.pats, &self.s, close_at) {
                    Some(p) if p.1 == kind && p.2 && p.3 == rt => {}
                    _ => return self.fail("end delimiter misread"),
                }
            }
            self.verified = end;
        }
        if find_from(&self.pats, &self.s, self.verified).is_some() {
            self.fail("delimiter in trailing raw text");
        }
    }

    /// One token inside a tag.
    fn tok(&mut self, t: &str) -> Span {
        let a = self.s.len();
        self.toks.push(a);
        self.s.push_str(t);
        Span { a, b: self.s.len() }
    }

    fn ws(&mut self, w: &str) {
        if !w.is_empty() {
            self.toks.push(self.s.len());
            self.s.push_str(w);
        }
    }

    /// Padding after the begin delimiter: `-` right after it is a trim marker.
    fn pad_open(&mut self, tag: Tag, next: &str) {
        let w = if tag.pad & 32 != 0 { LONG_PAD } else { pad_str(tag.pad) };
        let w = if w.is_empty() && next.starts_with(['-', '+']) { " " } else { w };
        self.ws(w);
    }

    /// Padding before the end delimiter: number literals swallow `-`.
    fn pad_close(&mut self, tag: Tag) {
        let w = if tag.pad & 64 != 0 { LONG_PAD } else { pad_str(tag.pad >> 2) };
        let num = self.toks.last().map_or(false, |&i| {
            self.s[i..].starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '+')
        });
        let w = if w.is_empty() && num { " " } else { w };
        self.ws(w);
    }

    fn ident(&mut self, s: &str) -> Span {
        if KEYWORDS.contains(&s) || !is_name(s) {
            self.fail("not an identifier");
        }
        self.tok(s)
    }

    /// The spelling and the value of a literal belong together.
    fn lit(&mut self, l: &Lit) {
        if denoted(&l.text).as_ref() != Some(&l.v) {
            self.fail("literal does not denote its value");
        }
    }

    fn base(&mut self, b: &Base) -> LBase {
        match b {
            Base::Lit(l) => {
                self.lit(l);
                let span = if let Some(rest) = l.text.strip_prefix(['-', '+']) {
                    let a = self.tok(&l.text[..1]);
                    let r = self.tok(rest);
                    Span { a: a.a, b: r.b }
                } else {
                    self.tok(&l.text)
                };
                LBase::Lit { v: l.v.clone(), span }
            }
            Base::Var(p) => {
                let first = self.ident(&p.first);
                let mut members = Vec::new();
                let mut last = first;
                for m in &p.rest {
                    let d = self.tok(if m.opt { "?." } else { "." });
                    let k = match &m.acc {
                        Acc::Key(k) => self.ident(k),
                        Acc::Index(i) => self.tok(&i.to_string()),
                    };
                    last = Span { a: d.a, b: k.b };
                    members.push(last);
                }
                let span = Span { a: first.a, b: last.b };
                LBase::Var { path: p.clone(), span, first, members }
            }
        }
    }

    fn expr(&mut self, e: &Expr, tag: Tag) -> LExpr {
        let tight = tag.pad & 16 != 0;
        let base = self.base(&e.base);
        let mut span = base.span();
        let mut calls = Vec::new();
        for c in &e.calls {
            if !tight {
                self.ws(" ");
            }
            self.tok("|");
            if !tight {
                self.ws(" ");
            }
            let ns = self.ident(&c.name);
            span.b = ns.b;
            let mut args = Vec::new();
            for (i, a) in c.args.iter().enumerate() {
                self.tok(if i == 0 { ":" } else { "," });
                if !tight {
                    self.ws(" ");
                }
                let la = self.base(a);
                span.b = la.span().b;
                args.push(la);
            }
            calls.push(LCall { name: c.name.clone(), span: ns, args });
        }
        LExpr { base, calls, span }
    }

    fn kw(&mut self, k: &str) {
        self.tok(k);
    }

    fn simple_block(&mut self, k: &str, tag: Tag, delta: isize) {
        let st = self.open(1, tag);
        self.pad_open(tag, k);
        for (i, w) in k.split(' ').enumerate() {
            if i > 0 {
                self.ws(" ");
            }
            self.kw(w);
        }
        self.pad_close(tag);
        self.depth = (self.depth as isize + delta) as usize;
        self.close(1, tag, st);
    }

    fn cond(&mut self, kw: &str, a: &Arm, delta: usize) -> LExpr {
        let st = self.open(1, a.tag);
        self.pad_open(a.tag, kw);
        for (i, w) in kw.split(' ').enumerate() {
            if i > 0 {
                self.ws(" ");
            }
            self.kw(w);
        }
        self.ws(" ");
        if a.not {
            self.kw("not");
            self.ws(" ");
        }
        let e = self.expr(&a.e, a.tag);
        self.pad_close(a.tag);
        self.depth += delta;
        self.close(1, a.tag, st);
        e
    }

    fn node(&mut self, n: &Node) -> Option<LNode> {
        Some(match n {
            Node::Raw(t) => return self.raw(t),
            Node::Comment { text, tag } => {
                if self.syn.comment.is_none() {
                    return None;
                }
                let st = self.open(2, *tag);
                self.s.push_str(text);
                self.close(2, *tag, st);
                return None;
            }
            Node::Emit { e, tag } => {
                let st = self.open(0, *tag);
                let first = match &e.base {
                    Base::Lit(l) => l.text.as_str(),
                    Base::Var(_) => "x",
                };
                self.pad_open(*tag, first);
                let le = self.expr(e, *tag);
                self.pad_close(*tag);
                self.close(0, *tag, st);
                LNode::Emit(le)
            }
            Node::If { arms, els, end } => {
                if arms.is_empty() {
                    self.fail("if without arms");
                    return None;
                }
                let mut la = Vec::new();
                for (i, a) in arms.iter().enumerate() {
                    let e = self.cond(if i == 0 { "if" } else { "else if" }, a, usize::from(i == 0));
                    let body = self.nodes(&a.body);
                    la.push((a.not, e, body));
                }
                let lels = els.as_ref().map(|(tag, b)| {
                    self.simple_block("else", *tag, 0);
                    self.nodes(b)
                });
                self.simple_block("endif", *end, -1);
                LNode::If { arms: la, els: lels }
            }
            Node::For { vars, e, tag, body, end } => {
                let st = self.open(1, *tag);
                self.pad_open(*tag, "for");
                self.kw("for");
                self.ws(" ");
                if vars.is_empty() || vars.len() > 2 {
                    self.fail("loop variables");
                    return None;
                }
                let mut vs = self.ident(&vars[0]);
                if let Some(v) = vars.get(1) {
                    self.tok(",");
                    self.ws(" ");
                    vs.b = self.ident(v).b;
                }
                self.ws(" ");
                self.kw("in");
                self.ws(" ");
                let le = self.expr(e, *tag);
                self.pad_close(*tag);
                self.depth += 1;
                self.close(1, *tag, st);
                let b = self.nodes(body);
                self.simple_block("endfor", *end, -1);
                LNode::For { vars: vars.clone(), vars_span: vs, e: le, body: b }
            }
            Node::With { e, name, tag, body, end } => {
                let st = self.open(1, *tag);
                self.pad_open(*tag, "with");
                self.kw("with");
                self.ws(" ");
                let le = self.expr(e, *tag);
                self.ws(" ");
                self.kw("as");
                self.ws(" ");
                self.ident(name);
                self.pad_close(*tag);
                self.depth += 1;
                self.close(1, *tag, st);
                let b = self.nodes(body);
                self.simple_block("endwith", *end, -1);
                LNode::With { e: le, name: name.clone(), body: b }
            }
            Node::Include { name, with, tag } => {
                let st = self.open(1, *tag);
                self.pad_open(*tag, "include");
                self.kw("include");
                self.ws(" ");
                self.lit(name);
                if !matches!(name.v, Val::Str(_)) {
                    self.fail("include needs a string");
                }
                let span = self.tok(&name.text);
                let w = with.as_ref().map(|e| {
                    self.ws(" ");
                    self.kw("with");
                    self.ws(" ");
                    self.expr(e, *tag)
                });
                self.pad_close(*tag);
                self.close(1, *tag, st);
                LNode::Include { name: name.as_str().to_string(), span, with: w }
            }
        })
    }
}

/// Line and the acceptable columns (1-based) of a byte offset: characters,
/// display cells, and tabs counted as zero or one are all acceptable columns.
pub fn line_col(src: &str, off: usize) -> (usize, Vec<usize>) {
    let before = &src[..off];
    let line = before.matches('\n').count() + 1;
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    let prefix = &src[start..off];
    let mut cols = Vec::new();
    let wide = |c: char| -> usize {
        match c {
            '\u{300}'..='\u{36f}' => 0,
            '\u{200b}'..='\u{200f}' | '\u{feff}' | '\u{ad}' => 0,
            '\u{1100}'..='\u{115f}'
            | '\u{2e80}'..='\u{a4cf}'
            | '\u{ac00}'..='\u{d7a3}'
            | '\u{f900}'..='\u{faff}'
            | '\u{ff00}'..='\u{ff60}'
            | '\u{1f300}'..='\u{1faff}' => 2,
            _ => 1,
        }
    };
    // How wide control characters are is left open.
    for (ctl, nul) in [(0usize, 0), (1, 0), (1, 1)] {
        let ctl = |c: char| if c == '\0' { nul } else { ctl };
        let w: usize = prefix.chars().map(|c| if c.is_control() { ctl(c) } else { wide(c) }).sum();
        let n: usize = prefix.chars().map(|c| if c.is_control() { ctl(c) } else { 1 }).sum();
        for x in [w, n] {
            if !cols.contains(&(x + 1)) {
                cols.push(x + 1);
            }
        }
    }
    (line, cols)
}
