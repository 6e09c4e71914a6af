//! The harness' own value type: what the model computes with.

use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Val {
    None,
    Bool(bool),
    Int(i64),
    #[serde(with = "float_text")]
    Float(f64),
    Str(String),
    List(Vec<Val>),
    Map(BTreeMap<String, Val>),
}

pub mod float_text {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(f: &f64, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{f:?}"))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::None, Val::None) => true,
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::Int(a), Val::Int(b)) => a == b,
            (Val::Float(a), Val::Float(b)) => a.to_bits() == b.to_bits(),
            (Val::Str(a), Val::Str(b)) => a == b,
            (Val::List(a), Val::List(b)) => a == b,
            (Val::Map(a), Val::Map(b)) => a == b,
            _ => false,
        }
    }
}

impl Val {
    pub fn truthy(&self) -> bool {
        match self {
            Val::None => false,
            Val::Bool(b) => *b,
            Val::Int(i) => *i != 0,
            Val::Float(f) => *f != 0.0,
            Val::Str(s) => !s.is_empty(),
            Val::List(l) => !l.is_empty(),
            Val::Map(m) => !m.is_empty(),
        }
    }

    /// What the documented default formatter prints; `None` if unformattable.
    pub fn display(&self) -> Option<String> {
        Some(match self {
            Val::None => String::new(),
            Val::Bool(b) => b.to_string(),
            Val::Int(i) => i.to_string(),
            Val::Float(f) => f.to_string(),
            Val::Str(s) => s.clone(),
            Val::List(_) | Val::Map(_) => return None,
        })
    }

    /// A compact unambiguous rendering used in traces.
    pub fn repr(&self) -> String {
        let mut s = String::new();
        self.repr_into(&mut s);
        s
    }

    fn repr_into(&self, s: &mut String) {
        use std::fmt::Write;
        match self {
            Val::None => s.push('~'),
            Val::Bool(b) => write!(s, "{b}").unwrap(),
            Val::Int(i) => write!(s, "{i}").unwrap(),
            Val::Float(f) => write!(s, "{f:?}f").unwrap(),
            Val::Str(x) if x.len() > 200 => {
                let mut h = crate::rng::Fnv::new();
                h.add(x.as_bytes());
                write!(s, "str[{};{:x}]", x.len(), h.0).unwrap()
            }
            Val::Str(x) => write!(s, "{x:?}").unwrap(),
            Val::List(l) => {
                s.push('[');
                for (i, v) in l.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    v.repr_into(s);
                }
                s.push(']');
            }
            Val::Map(m) => {
                s.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    write!(s, "{k:?}:").unwrap();
                    v.repr_into(s);
                }
                s.push('}');
            }
        }
    }

    pub fn to_upon(&self) -> upon::Value {
        match self {
            Val::None => upon::Value::None,
            Val::Bool(b) => upon::Value::Bool(*b),
            Val::Int(i) => upon::Value::Integer(*i),
            Val::Float(f) => upon::Value::Float(*f),
            Val::Str(s) => upon::Value::String(s.clone()),
            Val::List(l) => upon::Value::List(l.iter().map(Val::to_upon).collect()),
            Val::Map(m) => {
                upon::Value::Map(m.iter().map(|(k, v)| (k.clone(), v.to_upon())).collect())
            }
        }
    }

    pub fn from_upon(v: &upon::Value) -> Val {
        match v {
            upon::Value::None => Val::None,
            upon::Value::Bool(b) => Val::Bool(*b),
            upon::Value::Integer(i) => Val::Int(*i),
            upon::Value::Float(f) => Val::Float(*f),
            upon::Value::String(s) => Val::Str(s.clone()),
            upon::Value::List(l) => Val::List(l.iter().map(Val::from_upon).collect()),
            upon::Value::Map(m) => {
                Val::Map(m.iter().map(|(k, v)| (k.clone(), Val::from_upon(v))).collect())
            }
        }
    }

    pub fn size(&self) -> usize {
        match self {
            Val::Str(s) => 1 + s.len() / 16,
            Val::List(l) => 1 + l.iter().map(Val::size).sum::<usize>(),
            Val::Map(m) => 1 + m.values().map(|v| 2 + v.size()).sum::<usize>(),
            _ => 1,
        }
    }

    pub fn has_nan(&self) -> bool {
        match self {
            Val::Float(f) => f.is_nan(),
            Val::List(l) => l.iter().any(Val::has_nan),
            Val::Map(m) => m.values().any(Val::has_nan),
            _ => false,
        }
    }

    /// Almost the same.
    pub fn altered(&self, last: bool) -> Option<Val> {
        Some(match self {
            Val::None => Val::Bool(false),
            Val::Bool(b) if last => Val::Int(i64::from(*b)),
            Val::Bool(b) => Val::Bool(!b),
            Val::Int(i) if last => Val::Str(i.to_string()),
            Val::Int(i) => Val::Int(i.wrapping_add(1)),
            Val::Float(f) if f.is_finite() => Val::Float(f + f.abs() + 1.0),
            Val::Float(_) => Val::None,
            Val::Str(s) if last => Val::Str(format!("{s} ")),
            Val::Str(s) => Val::List(vec![Val::str(s)]),
            Val::List(l) if l.is_empty() => Val::Map(BTreeMap::new()),
            Val::List(l) => {
                let mut l = l.clone();
                let i = if last { l.len() - 1 } else { 0 };
                l[i] = l[i].altered(last)?;
                Val::List(l)
            }
            Val::Map(m) if m.is_empty() => Val::List(vec![]),
            Val::Map(m) => {
                let mut m = m.clone();
                let k = if last { m.keys().next_back() } else { m.keys().next() }?.clone();
                let v = m[&k].altered(last)?;
                m.insert(k, v);
                Val::Map(m)
            }
        })
    }

    pub fn map<const N: usize>(xs: [(&str, Val); N]) -> Val {
        Val::Map(xs.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }

    pub fn str(s: &str) -> Val {
        Val::Str(s.to_string())
    }
}
