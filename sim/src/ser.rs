//! Scripted serialization: a context value that makes an arbitrary sequence of
//! serializer calls and can fail or panic at any of them, and the documented
//! mapping of such a sequence to a value.

use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

use serde::ser::{
    SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant,
};
use serde::{Deserialize, Serialize};

use crate::val::Val;

pub const NAMES: &[&str] = &[
    "a", "b", "c", "name", "items", "x", "Var", "Other", "loop", "user", "名", "k0", "inner",
];

pub fn nm(i: usize) -> &'static str {
    NAMES[i % NAMES.len()]
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Script {
    Val(Val),
    I8(i8),
    I16(i16),
    I32(i32),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(f32),
    Char(char),
    Bytes(Vec<u8>),
    NoneOpt,
    Some(Box<Script>),
    Unit,
    UnitStruct,
    /// a type that has a form for people and one for machines
    Human(String),
    /// converted to a value first, while being serialized
    Early(Val),
    UnitVariant(usize),
    Newtype(Box<Script>),
    NewtypeVariant(usize, Box<Script>),
    /// length hint: 0 none, 1 exact
    Seq(u8, Vec<Script>),
    Tuple(Vec<Script>),
    TupleStruct(Vec<Script>),
    TupleVariant(usize, Vec<Script>),
    /// entries in one call or as separate key and value calls
    Map(bool, Vec<(Script, Script)>),
    Struct(Vec<(usize, Script)>),
    StructVariant(usize, Vec<(usize, Script)>),
    Collect(String),
    Fail(String),
    Panic(u64),
}

/// A script together with a counter of how often its parts were visited.
pub struct Ser<'a> {
    pub s: &'a Script,
    pub visits: &'a AtomicU32,
}

impl<'a> Ser<'a> {
    fn sub<'b>(&self, s: &'b Script) -> Ser<'b>
    where
        'a: 'b,
    {
        Ser { s, visits: self.visits }
    }
}

impl serde::Serialize for Ser<'_> {
    fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        self.visits.fetch_add(1, Ordering::SeqCst);
        crate::real::ser_point();
        match self.s {
            Script::Val(v) => ValSer(v).serialize(z),
            Script::I8(x) => z.serialize_i8(*x),
            Script::I16(x) => z.serialize_i16(*x),
            Script::I32(x) => z.serialize_i32(*x),
            Script::U8(x) => z.serialize_u8(*x),
            Script::U16(x) => z.serialize_u16(*x),
            Script::U32(x) => z.serialize_u32(*x),
            Script::U64(x) => z.serialize_u64(*x),
            Script::F32(x) => z.serialize_f32(*x),
            Script::Char(c) => z.serialize_char(*c),
            Script::Bytes(b) => z.serialize_bytes(b),
            Script::NoneOpt => z.serialize_none(),
            Script::Some(s) => z.serialize_some(&self.sub(s)),
            Script::Unit => z.serialize_unit(),
            Script::Human(s) => {
                if z.is_human_readable() {
                    z.serialize_str(s)
                } else {
                    z.serialize_u64(u64::MAX)
                }
            }
            Script::Early(v) => early(v, z),
            Script::UnitStruct => z.serialize_unit_struct("Unit"),
            Script::UnitVariant(i) => z.serialize_unit_variant("Enum", *i as u32, nm(*i)),
            Script::Newtype(s) => z.serialize_newtype_struct("New", &self.sub(s)),
            Script::NewtypeVariant(i, s) => {
                z.serialize_newtype_variant("Enum", *i as u32, nm(*i), &self.sub(s))
            }
            Script::Seq(h, v) => {
                let mut q = z.serialize_seq((*h == 1).then_some(v.len()))?;
                for s in v {
                    q.serialize_element(&self.sub(s))?;
                }
                q.end()
            }
            Script::Tuple(v) => {
                let mut q = z.serialize_tuple(v.len())?;
                for s in v {
                    q.serialize_element(&self.sub(s))?;
                }
                q.end()
            }
            Script::TupleStruct(v) => {
                let mut q = z.serialize_tuple_struct("T", v.len())?;
                for s in v {
                    q.serialize_field(&self.sub(s))?;
                }
                q.end()
            }
            Script::TupleVariant(i, v) => {
                let mut q = z.serialize_tuple_variant("Enum", *i as u32, nm(*i), v.len())?;
                for s in v {
                    q.serialize_field(&self.sub(s))?;
                }
                q.end()
            }
            Script::Map(split, v) => {
                let mut q = z.serialize_map((v.len() % 3 != 1).then_some(v.len()))?;
                for (k, s) in v {
                    if *split {
                        q.serialize_key(&self.sub(k))?;
                        q.serialize_value(&self.sub(s))?;
                    } else {
                        q.serialize_entry(&self.sub(k), &self.sub(s))?;
                    }
                }
                q.end()
            }
            Script::Struct(v) => {
                let mut q = z.serialize_struct("S", v.len())?;
                for (i, s) in v {
                    q.serialize_field(nm(*i), &self.sub(s))?;
                }
                q.end()
            }
            Script::StructVariant(i, v) => {
                let mut q = z.serialize_struct_variant("Enum", *i as u32, nm(*i), v.len())?;
                for (i, s) in v {
                    q.serialize_field(nm(*i), &self.sub(s))?;
                }
                q.end()
            }
            Script::Collect(s) => z.collect_str(s),
            Script::Fail(m) => Err(serde::ser::Error::custom(m)),
            Script::Panic(id) => crate::real::sim_panic(*id),
        }
    }
}

#[cfg(feature = "fs")]
fn early<S: serde::Serializer>(v: &Val, z: S) -> Result<S::Ok, S::Error> {
    upon::to_value(ValSer(v)).map_err(serde::ser::Error::custom)?.serialize(z)
}

#[cfg(not(feature = "fs"))]
fn early<S: serde::Serializer>(v: &Val, z: S) -> Result<S::Ok, S::Error> {
    ValSer(v).serialize(z)
}

/// Plain data, serialized the obvious way.
pub struct ValSer<'a>(pub &'a Val);

impl serde::Serialize for ValSer<'_> {
    fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            Val::None => z.serialize_none(),
            Val::Bool(b) => z.serialize_bool(*b),
            Val::Int(i) => z.serialize_i64(*i),
            Val::Float(f) => z.serialize_f64(*f),
            Val::Str(s) => z.serialize_str(s),
            Val::List(l) => {
                let mut q = z.serialize_seq(Some(l.len()))?;
                for v in l {
                    q.serialize_element(&ValSer(v))?;
                }
                q.end()
            }
            Val::Map(m) => {
                let mut q = z.serialize_map(Some(m.len()))?;
                for (k, v) in m {
                    q.serialize_entry(k, &ValSer(v))?;
                }
                q.end()
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum SerStop {
    /// the script's own error
    User(String),
    /// the data model has no place for this
    Engine,
    Panic(u64),
}

/// What the script means, and how many parts of it are visited.
pub fn eval(s: &Script, visits: &mut u32) -> Result<Val, SerStop> {
    *visits += 1;
    let list = |v: &[Script], visits: &mut u32| -> Result<Val, SerStop> {
        let mut out = Vec::new();
        for s in v {
            out.push(eval(s, visits)?);
        }
        Ok(Val::List(out))
    };
    let fields = |v: &[(usize, Script)], visits: &mut u32| -> Result<Val, SerStop> {
        let mut m = BTreeMap::new();
        for (i, s) in v {
            m.insert(nm(*i).to_string(), eval(s, visits)?);
        }
        Ok(Val::Map(m))
    };
    let single = |i: usize, v: Val| {
        let mut m = BTreeMap::new();
        m.insert(nm(i).to_string(), v);
        Val::Map(m)
    };
    Ok(match s {
        Script::Val(v) => v.clone(),
        Script::I8(x) => Val::Int(i64::from(*x)),
        Script::I16(x) => Val::Int(i64::from(*x)),
        Script::I32(x) => Val::Int(i64::from(*x)),
        Script::U8(x) => Val::Int(i64::from(*x)),
        Script::U16(x) => Val::Int(i64::from(*x)),
        Script::U32(x) => Val::Int(i64::from(*x)),
        Script::U64(x) => Val::Int(i64::try_from(*x).map_err(|_| SerStop::Engine)?),
        Script::F32(x) => Val::Float(f64::from(*x)),
        Script::Char(c) => Val::Str(c.to_string()),
        Script::Bytes(b) => Val::List(b.iter().map(|x| Val::Int(i64::from(*x))).collect()),
        Script::NoneOpt | Script::Unit | Script::UnitStruct => Val::None,
        Script::Some(s) | Script::Newtype(s) => eval(s, visits)?,
        Script::UnitVariant(i) => Val::str(nm(*i)),
        Script::NewtypeVariant(i, s) => single(*i, eval(s, visits)?),
        Script::Seq(_, v) | Script::Tuple(v) | Script::TupleStruct(v) => list(v, visits)?,
        Script::TupleVariant(i, v) => single(*i, list(v, visits)?),
        Script::Map(_, v) => {
            let mut m = BTreeMap::new();
            for (k, s) in v {
                let k = key(k, visits)?;
                m.insert(k, eval(s, visits)?);
            }
            Val::Map(m)
        }
        Script::Struct(v) => fields(v, visits)?,
        Script::StructVariant(i, v) => single(*i, fields(v, visits)?),
        Script::Collect(s) | Script::Human(s) => Val::str(s),
        Script::Early(v) => v.clone(),
        Script::Fail(m) => return Err(SerStop::User(m.clone())),
        Script::Panic(id) => return Err(SerStop::Panic(*id)),
    })
}

fn key(s: &Script, visits: &mut u32) -> Result<String, SerStop> {
    *visits += 1;
    Ok(match s {
        Script::Val(Val::Str(s)) | Script::Collect(s) | Script::Human(s) => s.clone(),
        Script::Val(Val::Int(i)) => i.to_string(),
        Script::I8(x) => x.to_string(),
        Script::I16(x) => x.to_string(),
        Script::I32(x) => x.to_string(),
        Script::U8(x) => x.to_string(),
        Script::U16(x) => x.to_string(),
        Script::U32(x) => x.to_string(),
        Script::U64(x) => x.to_string(),
        Script::Char(c) => c.to_string(),
        Script::UnitVariant(i) => nm(*i).to_string(),
        Script::Newtype(s) => key(s, visits)?,
        Script::Fail(m) => return Err(SerStop::User(m.clone())),
        Script::Panic(id) => return Err(SerStop::Panic(*id)),
        _ => return Err(SerStop::Engine),
    })
}
