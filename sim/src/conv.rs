//! Building a template value: every way the crate offers, nested in each
//! other, with conversions of user types that can fail or panic, next to what
//! the result has to be.

use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering};

use serde::{Deserialize, Serialize};
use upon::Value;

use crate::alloc::Zone;
use crate::real::{classify, ser_point, sim_panic, Caught};
#[cfg(feature = "fs")]
use crate::ser::Ser;
use crate::ser::{self, Script, SerStop};
use crate::shapes;
use crate::val::Val;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Made {
    /// the variants themselves
    Enum(Val),
    Default,
    Unit,
    Absent,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    F32(f32),
    #[serde(with = "crate::val::float_text")]
    F64(f64),
    /// which of the string types
    Str(u8, String),
    Some(Box<Made>),
    Vec(Vec<Made>),
    Array(Vec<Made>),
    Iter(Vec<Made>),
    /// which type the keys have
    BTree(u8, Vec<(String, Made)>),
    Hash(u8, Vec<(String, Made)>),
    Pairs(u8, Vec<(String, Made)>),
    IterMap(u8, Vec<(String, Made)>),
    /// another serialization of a finished value
    Again(Box<Made>),
    Clone(Box<Made>),
    Ser(Script),
    Macro(usize, Vec<Made>),
    Panic(u64),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    Ser(SerStop),
    /// the macro has no way to return an error
    Macro,
    Panic(u64),
    /// there are several, and whichever is met first
    Any,
}

/// What the plan denotes, and how many parts of it are converted.
pub fn eval(m: &Made, visits: &mut u32) -> Result<Val, Stop> {
    *visits += 1;
    let list = |v: &[Made], visits: &mut u32| -> Result<Val, Stop> {
        let mut out = vec![];
        for m in v {
            out.push(eval(m, visits)?);
        }
        Ok(Val::List(out))
    };
    let map = |v: &[(String, Made)], visits: &mut u32| -> Result<Val, Stop> {
        let mut out = BTreeMap::new();
        for (k, m) in v {
            out.insert(k.clone(), eval(m, visits)?);
        }
        Ok(Val::Map(out))
    };
    Ok(match m {
        Made::Enum(v) => v.clone(),
        Made::Default | Made::Unit | Made::Absent => Val::None,
        Made::Bool(b) => Val::Bool(*b),
        Made::U8(i) => Val::Int(i64::from(*i)),
        Made::U16(i) => Val::Int(i64::from(*i)),
        Made::U32(i) => Val::Int(i64::from(*i)),
        Made::I8(i) => Val::Int(i64::from(*i)),
        Made::I16(i) => Val::Int(i64::from(*i)),
        Made::I32(i) => Val::Int(i64::from(*i)),
        Made::I64(i) => Val::Int(*i),
        Made::F32(f) => Val::Float(f64::from(*f)),
        Made::F64(f) => Val::Float(*f),
        Made::Str(_, s) => Val::str(s),
        Made::Some(m) | Made::Again(m) | Made::Clone(m) => eval(m, visits)?,
        Made::Vec(v) | Made::Array(v) | Made::Iter(v) => list(v, visits)?,
        Made::BTree(_, v) => map(&unique(v), visits)?,
        Made::Hash(_, v) => {
            let v = unique(v);
            if v.len() > 1 && v.iter().filter(|x| eval(&x.1, &mut 0).is_err()).count() > 1 {
                return Err(Stop::Any);
            }
            map(&v, visits)?
        }
        Made::Pairs(_, v) | Made::IterMap(_, v) => map(v, visits)?,
        Made::Ser(s) => ser::eval(s, visits).map_err(Stop::Ser)?,
        Made::Macro(i, h) => {
            let mut vals = vec![];
            for k in 0..holes(*i) {
                vals.push(match h.get(k) {
                    Some(m) => eval(m, visits).map_err(|e| match (m, e) {
                        (_, Stop::Ser(SerStop::Panic(id))) => Stop::Panic(id),
                        (Made::Ser(_), _) => Stop::Macro,
                        (_, e) => e,
                    })?,
                    None => Val::None,
                });
            }
            shapes::means(*i, &|k| vals[k].clone())
        }
        Made::Panic(id) => return Err(Stop::Panic(*id)),
    })
}

pub fn holes(i: usize) -> usize {
    shapes::HOLES.get(i).map_or(0, |n| usize::from(*n))
}

fn unique(v: &[(String, Made)]) -> Vec<(String, Made)> {
    let m: BTreeMap<&String, &Made> = v.iter().map(|(k, m)| (k, m)).collect();
    m.into_iter().map(|(k, m)| (k.clone(), m.clone())).collect()
}

/// An error on its way out of a conversion that cannot return it.
struct Thrown(upon::Error);

/// A user type.
pub struct Node<'a>(&'a Made, &'a AtomicU32);

impl<'a> From<Node<'a>> for Value {
    fn from(n: Node<'a>) -> Value {
        build(n.0, n.1)
    }
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Key(String);

impl From<Key> for String {
    fn from(k: Key) -> String {
        ser_point();
        k.0
    }
}

/// What stands in a hole of the macro.
#[cfg(feature = "fs")]
pub struct Hole<'a>(Option<&'a Made>, &'a AtomicU32);

#[cfg(feature = "fs")]
impl Serialize for Hole<'_> {
    fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            None => z.serialize_unit(),
            Some(Made::Ser(s)) => {
                self.1.fetch_add(1, Ordering::SeqCst);
                Ser { s, visits: self.1 }.serialize(z)
            }
            Some(m) => build(m, self.1).serialize(z),
        }
    }
}

struct Lazy<I>(I, bool);

impl<I: Iterator> Iterator for Lazy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        ser_point();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.1 {
            self.0.size_hint()
        } else {
            (0, None)
        }
    }
}

fn nodes<'a>(v: &'a [Made], n: &'a AtomicU32) -> Vec<Node<'a>> {
    v.iter().map(|m| Node(m, n)).collect()
}

fn build(m: &Made, n: &AtomicU32) -> Value {
    n.fetch_add(1, Ordering::SeqCst);
    ser_point();
    macro_rules! array {
        ($v:expr, $($n:literal)*) => {{
            let v = $v;
            match v.len() {
                $($n => { let a: [_; $n] = v.try_into().ok().unwrap(); Value::from(a) })*
                _ => v.into_iter().collect(),
            }
        }};
    }
    macro_rules! keyed {
        ($kind:expr, $v:expr, $f:ident) => {
            match $kind % 6 {
                0 => $f!($v.into_iter().map(|(k, m)| (k.to_string(), m))),
                1 => $f!($v.into_iter().map(|(k, m)| (k.as_str(), m))),
                2 => $f!($v.into_iter().map(|(k, m)| (Box::<str>::from(k.as_str()), m))),
                3 => $f!($v.into_iter().map(|(k, m)| (if k.len() % 2 == 0 { Cow::Borrowed(k.as_str()) } else { Cow::Owned(k.to_string()) }, m))),
                4 if $v.iter().all(|(k, _)| k.chars().count() == 1) => $f!($v.into_iter().map(|(k, m)| (k.chars().next().unwrap(), m))),
                _ => $f!($v.into_iter().map(|(k, m)| (Key(k.to_string()), m))),
            }
        };
    }
    macro_rules! btree {
        ($i:expr) => {
            Value::from($i.collect::<BTreeMap<_, _>>())
        };
    }
    macro_rules! hash {
        ($i:expr) => {
            Value::from($i.collect::<HashMap<_, _>>())
        };
    }
    macro_rules! pairs {
        ($i:expr) => {
            array!($i.collect::<Vec<_>>(), 0 1 2 3 4)
        };
    }
    macro_rules! iter {
        ($i:expr) => {
            Lazy($i, true).collect::<Value>()
        };
    }
    match m {
        Made::Enum(v) => v.to_upon(),
        Made::Default => Value::default(),
        Made::Unit => ().into(),
        Made::Absent => None::<u8>.into(),
        Made::Bool(b) => (*b).into(),
        Made::U8(i) => (*i).into(),
        Made::U16(i) => (*i).into(),
        Made::U32(i) => (*i).into(),
        Made::I8(i) => (*i).into(),
        Made::I16(i) => (*i).into(),
        Made::I32(i) => (*i).into(),
        Made::I64(i) => (*i).into(),
        Made::F32(f) => (*f).into(),
        Made::F64(f) => (*f).into(),
        Made::Str(k, s) => match k % 4 {
            0 => s.clone().into(),
            1 => s.as_str().into(),
            2 => Cow::Borrowed(s.as_str()).into(),
            _ => Cow::<str>::Owned(s.clone()).into(),
        },
        Made::Some(m) => Some(Node(m, n)).into(),
        Made::Vec(v) => nodes(v, n).into(),
        Made::Array(v) => array!(nodes(v, n), 0 1 2 3 4),
        Made::Iter(v) => Lazy(nodes(v, n).into_iter(), v.len() % 2 == 0).collect(),
        Made::BTree(k, v) => {
            let u = unique(v);
            let u: Vec<(&String, Node)> = u.iter().map(|(k, m)| (k, Node(m, n))).collect();
            keyed!(k, u, btree)
        }
        Made::Hash(k, v) => {
            let u = unique(v);
            let u: Vec<(&String, Node)> = u.iter().map(|(k, m)| (k, Node(m, n))).collect();
            keyed!(k, u, hash)
        }
        Made::Pairs(k, v) => {
            let u: Vec<(&String, Node)> = v.iter().map(|(k, m)| (k, Node(m, n))).collect();
            keyed!(k, u, pairs)
        }
        Made::IterMap(k, v) => {
            let u: Vec<(&String, Node)> = v.iter().map(|(k, m)| (k, Node(m, n))).collect();
            keyed!(k, u, iter)
        }
        Made::Clone(m) => build(m, n).clone(),
        #[cfg(feature = "fs")]
        Made::Again(m) => {
            let v = build(m, n);
            upon::to_value(&v).unwrap_or_else(|e| panic_any(Thrown(e)))
        }
        #[cfg(feature = "fs")]
        Made::Ser(s) => upon::to_value(Ser { s, visits: n }).unwrap_or_else(|e| panic_any(Thrown(e))),
        #[cfg(feature = "fs")]
        Made::Macro(i, h) => shapes::shape(*i, &|k| Hole(h.get(k), n)),
        #[cfg(not(feature = "fs"))]
        Made::Again(_) | Made::Ser(_) | Made::Macro(..) => unreachable!("no serde in this build"),
        Made::Panic(id) => sim_panic(*id),
    }
}

/// Does building it need the feature serde?
pub fn needs_serde(m: &Made) -> bool {
    match m {
        Made::Again(_) | Made::Ser(_) | Made::Macro(..) => true,
        Made::Some(m) | Made::Clone(m) => needs_serde(m),
        Made::Vec(v) | Made::Array(v) | Made::Iter(v) => v.iter().any(needs_serde),
        Made::BTree(_, v) | Made::Hash(_, v) | Made::Pairs(_, v) | Made::IterMap(_, v) => {
            v.iter().any(|x| needs_serde(&x.1))
        }
        _ => false,
    }
}

pub enum Got {
    Value(Value),
    Err(upon::Error),
    Panic(Caught),
}

pub fn make(m: &Made) -> (Got, u32) {
    let visits = AtomicU32::new(0);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _z = Zone::engine();
        build(m, &visits)
    }));
    let v = visits.load(Ordering::SeqCst);
    let g = match r {
        Ok(v) => Got::Value(v),
        Err(p) => match p.downcast::<Thrown>() {
            Ok(t) => Got::Err(t.0),
            Err(p) => Got::Panic(classify(p)),
        },
    };
    (g, v)
}
