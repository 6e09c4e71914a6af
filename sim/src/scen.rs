//! A scenario: one complete simulated execution, as data.

use serde::{Deserialize, Serialize};

use crate::ast::{Node, SyntaxSpec};
use crate::conv::Made;
use crate::funcs::{FmtSpec, FnSpec};
use crate::model::RenderOp;
use crate::ser::Script;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Render(RenderOp),
    /// register a document (possibly damaged on its way from storage)
    Add { name: String, doc: usize, damage: Option<Damage>, owned: bool },
    Remove { name: String },
    Get { name: String },
    /// the panicking accessor, with a name that does not exist
    Missing { name: String },
    AddFn { name: String, f: FnSpec },
    RemoveFn { name: String },
    SetDepth(usize),
    SetFmt(FmtSpec),
    /// compile without registering; kept in the next slot when `keep`
    Compile { doc: usize, damage: Option<Damage>, keep: bool, render: Option<Box<RenderOp>>, owned: bool },
    /// compile in another engine, with other things under the same names, that
    /// is gone afterwards; kept in the next slot
    CompileAway { doc: usize },
    ToValue(Script),
    Convert(Made),
    /// the same operation many times in a row
    Repeat { op: Box<Op>, n: u32 },
}

/// What happened to the bytes of a template on the way in.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    Truncate(usize),
    Delete(usize, usize),
    Dup(usize, usize),
    /// head of this document, tail of another (torn write)
    Splice { other: usize, head: usize, tail: usize },
    Subst(usize, String),
    Insert(usize, String),
    /// the text is something else entirely
    Text(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Phase {
    /// one thread with exclusive access
    Seq(Vec<Op>),
    /// several threads sharing the engine
    Par { threads: Vec<Vec<Op>>, sched: SchedSpec },
    /// the same operations over and over, watching resources
    Cycle { ops: Vec<Op>, n: usize },
    /// render operations whose peak memory must not depend on the data size
    Scale { small: RenderOp, large: RenderOp, slack: usize },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SchedSpec {
    pub seed: u64,
    /// recorded decisions; when present they are replayed instead of drawn
    pub choices: Option<Vec<u32>>,
    /// mean number of allocations between preemptions inside the engine
    pub preempt: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub syntax: SyntaxSpec,
    pub docs: Vec<Vec<Node>>,
    pub phases: Vec<Phase>,
    /// the crate under test is built with these features only (all if absent)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub feats: Option<u8>,
    /// longer renders than usual
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub big: bool,
}

pub fn floor_char(s: &str, mut i: usize) -> usize {
    if i >= s.len() {
        return s.len();
    }
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

impl Damage {
    pub fn apply(&self, src: &str, other: &dyn Fn(usize) -> String) -> String {
        let f = |i: usize| floor_char(src, i);
        match self {
            Damage::Truncate(n) => src[..f(*n)].to_string(),
            Damage::Delete(a, b) => {
                let (a, b) = (f(*a.min(b)), f(*a.max(b)));
                format!("{}{}", &src[..a], &src[b..])
            }
            Damage::Dup(a, b) => {
                let (a, b) = (f(*a.min(b)), f(*a.max(b)));
                format!("{}{}", &src[..b], &src[a..])
            }
            Damage::Splice { other: o, head, tail } => {
                let t = other(*o);
                let k = floor_char(&t, *tail);
                format!("{}{}", &src[..f(*head)], &t[k..])
            }
            Damage::Subst(i, c) => {
                let a = f(*i);
                let b = src[a..].chars().next().map_or(a, |x| a + x.len_utf8());
                format!("{}{}{}", &src[..a], c, &src[b..])
            }
            Damage::Insert(i, c) => {
                let a = f(*i);
                format!("{}{}{}", &src[..a], c, &src[a..])
            }
            Damage::Text(t) => t.clone(),
        }
    }
}
