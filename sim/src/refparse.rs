//! A second reading of template text, written from the documentation: what a
//! text means, or where it stops being a template. It searches delimiters by
//! definition and parses by recursive descent over characters.

use std::sync::Arc;

use crate::ast::{denoted, find_from, pat_at, Acc, Compiled, LBase, LCall, LExpr, LNode, Member, Pat, Path, Span, SyntaxSpec, KEYWORDS};
use crate::val::Val;

pub enum Verdict {
    Ok(Arc<Compiled>),
    /// not a template: any of these offsets is the place to point at
    Err { at: Vec<usize>, why: &'static str },
    /// the documentation does not say
    Unspecified,
}

enum Stop {
    Err(Vec<usize>, &'static str),
    Unspecified,
}
type R<T> = Result<T, Stop>;

fn err<T>(at: usize, why: &'static str) -> R<T> {
    Err(Stop::Err(vec![at], why))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Sym(char),
    OptDot,
    Word,
    Number,
    Index,
    Str,
    End(bool),
    Eof,
}

enum Frame {
    If { arms: Vec<(bool, LExpr, Vec<LNode>)>, cur: Option<(bool, LExpr)>, in_else: bool, at: usize },
    For { vars: Vec<String>, vars_span: Span, e: LExpr, at: usize },
    With { e: LExpr, name: String, at: usize },
}

impl Frame {
    fn at(&self) -> usize {
        match self {
            Frame::If { at, .. } | Frame::For { at, .. } | Frame::With { at, .. } => *at,
        }
    }
}

struct P<'a> {
    pats: Vec<Pat>,
    src: &'a str,
    pos: usize,
    /// start of the tag being read, its kind
    tag: (usize, u8),
    /// digits are list indexes here
    path: bool,
    peeked: Option<(T, Span)>,
}

pub fn parse(src: &str, syn: &SyntaxSpec) -> Verdict {
    if !syn.unambiguous() {
        return Verdict::Unspecified;
    }
    let mut p = P { pats: syn.patterns(), src, pos: 0, tag: (0, 0), path: false, peeked: None };
    match p.template() {
        Ok(c) => Verdict::Ok(Arc::new(c)),
        Err(Stop::Err(at, why)) => Verdict::Err { at, why },
        Err(Stop::Unspecified) => Verdict::Unspecified,
    }
}

/// Whether a character starts / continues a name; `None`: not settled here.
fn name_char(c: char, start: bool) -> Option<bool> {
    match c {
        '_' => Some(true),
        c if c.is_ascii_alphabetic() => Some(true),
        c if c.is_ascii_digit() => Some(!start),
        c if c.is_ascii() => Some(false),
        // Whether such names are allowed is then up to the engine.
        c if c.is_alphanumeric() && !crate::avail::has(crate::avail::UNICODE) => None,
        '\u{300}'..='\u{34e}' if !crate::avail::has(crate::avail::UNICODE) => None,
        '\u{300}'..='\u{34e}' => Some(!start),
        'à'..='ö' | 'ø'..='ÿ' | 'À'..='Ö' | 'Ø'..='Þ' | 'ß' => Some(true),
        '\u{4e00}'..='\u{9fa5}' => Some(true),
        '\u{feff}' | '€' | '𝄞' | '¿' | '«' | '»' | '‹' | '›' | '…' | '–' | '\u{200b}' | '\u{a0}' => Some(false),
        _ => None,
    }
}

impl P<'_> {
    fn template(&mut self) -> R<Compiled> {
        let mut raws: Vec<String> = Vec::new();
        let mut scopes: Vec<Vec<LNode>> = vec![vec![]];
        let mut frames: Vec<Frame> = Vec::new();
        let mut trim = false;
        loop {
            let found = find_from(&self.pats, self.src, self.pos).map(|(j, p)| (j, p.clone()));
            let upto = found.as_ref().map_or(self.src.len(), |f| f.0);
            if let Some((j, p)) = &found {
                if p.2 {
                    return err(*j, "end delimiter in text");
                }
            }
            if upto > self.pos {
                let mut t = &self.src[self.pos..upto];
                if found.as_ref().map_or(false, |f| f.1 .3) {
                    t = t.trim_end();
                }
                if trim {
                    t = t.trim_start();
                }
                scopes.last_mut().unwrap().push(LNode::Raw(raws.len()));
                raws.push(t.to_string());
            }
            trim = false;
            let Some((j, p)) = found else { break };
            self.pos = j + p.0.len();
            self.tag = (j, p.1);
            self.path = false;
            self.peeked = None;
            if p.1 == 2 {
                match find_from(&self.pats, self.src, self.pos).map(|(k, q)| (k, q.clone())) {
                    None => return err(self.src.len(), "comment is never closed"),
                    Some((_, q)) if !q.2 => return err(j, "comment interrupted by a tag"),
                    Some((k, q)) if q.1 != 2 => return err(k, "comment ends with the wrong delimiter"),
                    Some((k, q)) => {
                        self.pos = k + q.0.len();
                        trim = q.3;
                    }
                }
                continue;
            }
            if p.1 == 0 {
                let e = self.expr()?;
                trim = self.end()?;
                scopes.last_mut().unwrap().push(LNode::Emit(e));
                continue;
            }
            trim = self.block(j, &mut scopes, &mut frames)?;
        }
        if let Some(f) = frames.first() {
            return err(f.at(), "block is never closed");
        }
        Ok(Compiled { src: self.src.to_string(), raws, items: scopes.pop().unwrap(), tags: vec![], opaque: false })
    }

    fn block(&mut self, at: usize, scopes: &mut Vec<Vec<LNode>>, frames: &mut Vec<Frame>) -> R<bool> {
        let (t, sp) = self.next()?;
        if t != T::Word || !self.is_kw(sp) {
            return err(sp.a, "expected a block keyword");
        }
        let word = self.src[sp.a..sp.b].to_string();
        match word.as_str() {
            "if" => {
                let c = self.cond()?;
                let trim = self.end()?;
                frames.push(Frame::If { arms: vec![], cur: Some(c), in_else: false, at });
                scopes.push(vec![]);
                Ok(trim)
            }
            "else" => {
                let c = if self.peek_kw("if")? {
                    self.next()?;
                    Some(self.cond()?)
                } else {
                    None
                };
                let trim = self.end()?;
                let Some(Frame::If { arms, cur, in_else, .. }) = frames.last_mut() else {
                    return err(at, "else without if");
                };
                if *in_else {
                    return err(at, "else after else");
                }
                let (not, e) = cur.take().unwrap();
                arms.push((not, e, scopes.pop().unwrap()));
                scopes.push(vec![]);
                *in_else = c.is_none();
                *cur = c;
                Ok(trim)
            }
            "endif" => {
                let trim = self.end()?;
                match frames.pop() {
                    Some(Frame::If { mut arms, cur, .. }) => {
                        let body = scopes.pop().unwrap();
                        let els = match cur {
                            Some((not, e)) => {
                                arms.push((not, e, body));
                                None
                            }
                            None => Some(body),
                        };
                        scopes.last_mut().unwrap().push(LNode::If { arms, els });
                        Ok(trim)
                    }
                    _ => err(at, "endif without if"),
                }
            }
            "for" => {
                let (a, first) = self.name()?;
                let mut vars = vec![a];
                let mut vars_span = first;
                if self.peek()?.0 == T::Sym(',') {
                    self.next()?;
                    let (b, s) = self.name()?;
                    vars.push(b);
                    vars_span.b = s.b;
                }
                self.kw("in")?;
                let e = self.expr()?;
                let trim = self.end()?;
                frames.push(Frame::For { vars, vars_span, e, at });
                scopes.push(vec![]);
                Ok(trim)
            }
            "endfor" => {
                let trim = self.end()?;
                match frames.pop() {
                    Some(Frame::For { vars, vars_span, e, .. }) => {
                        let body = scopes.pop().unwrap();
                        scopes.last_mut().unwrap().push(LNode::For { vars, vars_span, e, body });
                        Ok(trim)
                    }
                    _ => err(at, "endfor without for"),
                }
            }
            "with" => {
                let e = self.expr()?;
                self.kw("as")?;
                let (name, _) = self.name()?;
                let trim = self.end()?;
                frames.push(Frame::With { e, name, at });
                scopes.push(vec![]);
                Ok(trim)
            }
            "endwith" => {
                let trim = self.end()?;
                match frames.pop() {
                    Some(Frame::With { e, name, .. }) => {
                        let body = scopes.pop().unwrap();
                        scopes.last_mut().unwrap().push(LNode::With { e, name, body });
                        Ok(trim)
                    }
                    _ => err(at, "endwith without with"),
                }
            }
            "include" => {
                let (t, span) = self.next()?;
                if t != T::Str {
                    return err(span.a, "expected a template name");
                }
                let Val::Str(name) = self.string(span)? else { unreachable!() };
                let with = if self.peek_kw("with")? {
                    self.next()?;
                    Some(self.expr()?)
                } else {
                    None
                };
                let trim = self.end()?;
                scopes.last_mut().unwrap().push(LNode::Include { name, span, with });
                Ok(trim)
            }
            _ => err(sp.a, "not a block keyword"),
        }
    }

    fn cond(&mut self) -> R<(bool, LExpr)> {
        let not = self.peek_kw("not")?;
        if not {
            self.next()?;
        }
        Ok((not, self.expr()?))
    }

    fn expr(&mut self) -> R<LExpr> {
        let base = self.base()?;
        let mut span = base.span();
        let mut calls = Vec::new();
        while self.peek()?.0 == T::Sym('|') {
            self.next()?;
            let (name, ns) = self.name()?;
            span.b = ns.b;
            let mut args = Vec::new();
            if self.peek()?.0 == T::Sym(':') {
                self.next()?;
                loop {
                    let a = self.base()?;
                    span.b = a.span().b;
                    args.push(a);
                    if self.peek()?.0 != T::Sym(',') {
                        break;
                    }
                    self.next()?;
                }
            }
            calls.push(LCall { name, span: ns, args });
        }
        Ok(LExpr { base, calls, span })
    }

    fn base(&mut self) -> R<LBase> {
        let (t, sp) = self.next()?;
        match t {
            T::Word if self.is_kw(sp) => match &self.src[sp.a..sp.b] {
                "true" => Ok(LBase::Lit { v: Val::Bool(true), span: sp }),
                "false" => Ok(LBase::Lit { v: Val::Bool(false), span: sp }),
                _ => err(sp.a, "keyword in an expression"),
            },
            T::Word => {
                let first = self.src[sp.a..sp.b].to_string();
                let mut rest = Vec::new();
                let mut members = Vec::new();
                let mut span = sp;
                loop {
                    let (t, d) = self.peek()?;
                    let opt = match t {
                        T::Sym('.') => false,
                        T::OptDot => true,
                        _ => break,
                    };
                    self.next()?;
                    let (t, k) = self.next()?;
                    let text = &self.src[k.a..k.b];
                    let acc = match t {
                        T::Word if !self.is_kw(k) => Acc::Key(text.to_string()),
                        T::Index => match text.parse::<usize>() {
                            Ok(i) => Acc::Index(i),
                            Err(_) => return err(k.a, "index out of range"),
                        },
                        _ => return err(k.a, "expected a member"),
                    };
                    rest.push(Member { opt, acc });
                    members.push(Span { a: d.a, b: k.b });
                    span.b = k.b;
                }
                Ok(LBase::Var { path: Path { first, rest }, span, first: sp, members })
            }
            T::Str => Ok(LBase::Lit { v: self.string(sp)?, span: sp }),
            T::Number => self.number(None, sp),
            T::Sym(c @ ('-' | '+')) => {
                let (t, n) = self.next()?;
                if t != T::Number {
                    return err(n.a, "expected a number");
                }
                self.number(Some((c, sp.a)), n)
            }
            _ => err(sp.a, "expected an expression"),
        }
    }

    fn number(&self, sign: Option<(char, usize)>, sp: Span) -> R<LBase> {
        let digits = &self.src[sp.a..sp.b];
        let text = format!("{}{digits}", sign.map_or(String::new(), |s| s.0.to_string()));
        let start = sign.map_or(sp.a, |s| s.1);
        if let Some(v) = denoted(&text) {
            return Ok(LBase::Lit { v, span: Span { a: start, b: sp.b } });
        }
        let (skip, radix) = match digits.as_bytes() {
            [b'0', b'b', ..] => (2, 2),
            [b'0', b'o', ..] => (2, 8),
            [b'0', b'x', ..] => (2, 16),
            _ => (0, 10),
        };
        let body = &digits[skip..];
        if body.chars().all(|c| c == '_') || (radix == 10 && body.chars().all(|c| c == '_' || c.is_ascii_digit())) {
            // No digits at all; decimal integers beyond 64 bits.
            return Err(Stop::Unspecified);
        }
        if body.contains(['.', '+', '-']) {
            return err(start, "not a number");
        }
        // What is too long may or may not be noticed before what is not a digit.
        match body.char_indices().find(|(_, c)| *c != '_' && !c.is_digit(radix)) {
            Some((i, _)) => {
                let clean: String = body[..i].chars().filter(|c| *c != '_').collect();
                let fits = clean.is_empty() || i64::from_str_radix(&clean, radix).is_ok();
                let mut at = vec![sp.a + skip + i];
                if !fits {
                    at.push(start);
                }
                Err(Stop::Err(at, "not a digit"))
            }
            None => err(start, "literal out of range"),
        }
    }

    fn string(&self, sp: Span) -> R<Val> {
        let text = &self.src[sp.a..sp.b];
        if let Some(v) = denoted(text) {
            return Ok(v);
        }
        let mut it = text.char_indices();
        while let Some((i, c)) = it.next() {
            if c == '\\' {
                match it.next() {
                    Some((_, 'n' | 'r' | 't' | '\\' | '"')) => {}
                    Some((k, _)) => return Err(Stop::Err(vec![sp.a + k, sp.a + i], "unknown escape")),
                    None => break,
                }
            }
        }
        Err(Stop::Unspecified)
    }

    fn is_kw(&self, sp: Span) -> bool {
        KEYWORDS.contains(&&self.src[sp.a..sp.b])
    }

    fn kw(&mut self, k: &str) -> R<()> {
        let (t, sp) = self.next()?;
        if t == T::Word && &self.src[sp.a..sp.b] == k {
            return Ok(());
        }
        err(sp.a, "expected another keyword")
    }

    fn peek_kw(&mut self, k: &str) -> R<bool> {
        let (t, sp) = self.peek()?;
        Ok(t == T::Word && &self.src[sp.a..sp.b] == k)
    }

    fn name(&mut self) -> R<(String, Span)> {
        let (t, sp) = self.next()?;
        if t == T::Word && !self.is_kw(sp) {
            return Ok((self.src[sp.a..sp.b].to_string(), sp));
        }
        err(sp.a, "expected a name")
    }

    fn end(&mut self) -> R<bool> {
        match self.next()? {
            (T::End(trim), _) => Ok(trim),
            (_, sp) => err(sp.a, "expected the end of the tag"),
        }
    }

    fn peek(&mut self) -> R<(T, Span)> {
        if self.peeked.is_none() {
            self.peeked = Some(self.token()?);
        }
        Ok(self.peeked.unwrap())
    }

    fn next(&mut self) -> R<(T, Span)> {
        match self.peeked.take() {
            Some(t) => Ok(t),
            None => self.token(),
        }
    }

    fn run(&self, from: usize, ok: impl Fn(char) -> Option<bool>) -> R<usize> {
        for (i, c) in self.src[from..].char_indices() {
            match ok(c) {
                Some(true) => {}
                Some(false) => return Ok(from + i),
                None => return Err(Stop::Unspecified),
            }
        }
        Ok(self.src.len())
    }

    fn token(&mut self) -> R<(T, Span)> {
        loop {
            let a = self.pos;
            let Some(c) = self.src[a..].chars().next() else {
                return Ok((T::Eof, Span { a, b: a }));
            };
            if let Some(p) = pat_at(&self.pats, self.src, a) {
                if !p.2 {
                    return err(self.tag.0, "tag interrupted by another");
                }
                if p.1 != self.tag.1 {
                    return err(a, "wrong end delimiter");
                }
                let r = (T::End(p.3), Span { a, b: a + p.0.len() });
                self.pos = r.1.b;
                return Ok(r);
            }
            let (t, b) = match c {
                ' ' | '\t' => {
                    self.pos = self.run(a, |c| Some(matches!(c, ' ' | '\t')))?;
                    continue;
                }
                '.' | '|' | ',' | ':' | '+' | '-' => (T::Sym(c), a + 1),
                '?' => {
                    if !self.src[a + 1..].starts_with('.') {
                        return err(a, "unexpected character");
                    }
                    (T::OptDot, a + 2)
                }
                '"' => {
                    let mut esc = false;
                    let mut end = None;
                    for (i, c) in self.src[a + 1..].char_indices() {
                        match c {
                            '\r' | '\n' => break,
                            '"' if !esc => {
                                end = Some(a + 1 + i + 1);
                                break;
                            }
                            c => esc = !esc && c == '\\',
                        }
                    }
                    match end {
                        Some(b) => (T::Str, b),
                        None => return err(a, "string is never closed"),
                    }
                }
                c if c.is_ascii_digit() => {
                    if self.path {
                        (T::Index, self.run(a, |c| Some(c.is_ascii_digit()))?)
                    } else {
                        let n = |c: char| Some(c.is_ascii_alphanumeric() || matches!(c, '_' | '.' | '+' | '-'));
                        (T::Number, self.run(a, n)?)
                    }
                }
                c => match name_char(c, true) {
                    Some(true) => (T::Word, self.run(a, |c| name_char(c, false))?),
                    Some(false) => return err(a, "unexpected character"),
                    None => return Err(Stop::Unspecified),
                },
            };
            let sp = Span { a, b };
            // Digits after a name are indexes until something else begins.
            match t {
                T::Word => self.path = !self.is_kw(sp),
                T::Sym('|' | ',' | ':') => self.path = false,
                _ => {}
            }
            self.pos = b;
            return Ok((t, sp));
        }
    }
}
