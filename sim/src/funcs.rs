//! The filter and formatter stubs. Their behaviour is a pure function of their
//! arguments so that the reference interpreter can compute it too; what makes
//! the real ones real is that the engine converts the arguments, calls them,
//! and handles what they return.

use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};

use crate::avail;
use crate::val::Val;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Beh {
    Id,
    Upper,
    Cat,
    Wrap,
    Range,
    MkMap,
    Len,
    Repr,
    Not,
    First,
    NoneV,
    Big,
    Last,
    Nest,
}

pub const BEHS: &[Beh] = &[
    Beh::Id,
    Beh::Upper,
    Beh::Cat,
    Beh::Wrap,
    Beh::Range,
    Beh::MkMap,
    Beh::Len,
    Beh::Repr,
    Beh::Not,
    Beh::First,
    Beh::NoneV,
    Beh::Big,
    Beh::Last,
    Beh::Nest,
];

fn size(v: &Val) -> usize {
    match v {
        Val::Str(s) => 1 + s.len() / 16,
        Val::List(l) => 1 + l.iter().map(size).sum::<usize>(),
        Val::Map(m) => 1 + m.values().map(size).sum::<usize>(),
        _ => 1,
    }
}

pub fn apply(b: Beh, args: &[Val]) -> Val {
    let v = &args[0];
    if !matches!(b, Beh::Id | Beh::Len | Beh::Not | Beh::NoneV) {
        // Keep values bounded however often filters feed each other.
        let total: usize = args.iter().map(size).sum();
        if total > 2500 {
            return Val::Int(total as i64);
        }
    }
    let text = |v: &Val| v.display().unwrap_or_else(|| v.repr());
    match b {
        Beh::Id => v.clone(),
        Beh::Upper => Val::Str(text(v).to_uppercase()),
        Beh::Cat => Val::Str(args.iter().map(text).collect::<Vec<_>>().join("+")),
        Beh::Wrap => Val::List(args.to_vec()),
        Beh::Range => {
            let n = match v {
                Val::Int(i) => i.rem_euclid(7),
                Val::List(l) => l.len() as i64 % 7,
                Val::Str(s) => s.len() as i64 % 5,
                _ => 3,
            };
            Val::List((0..n).map(Val::Int).collect())
        }
        Beh::MkMap => {
            let mut m = BTreeMap::new();
            for (i, a) in args.iter().enumerate() {
                m.insert(format!("k{i}"), a.clone());
            }
            m.insert("name".into(), Val::Str(format!("m{}", args.len())));
            Val::Map(m)
        }
        Beh::Len => Val::Int(match v {
            Val::List(l) => l.len() as i64,
            Val::Map(m) => m.len() as i64,
            Val::Str(s) => s.chars().count() as i64,
            _ => -1,
        }),
        Beh::Repr => Val::Str(args.iter().map(Val::repr).collect::<Vec<_>>().join(";")),
        Beh::Not => Val::Bool(!v.truthy()),
        Beh::First => match v {
            Val::List(l) => l.first().cloned().unwrap_or(Val::None),
            Val::Map(m) => m.values().next().cloned().unwrap_or(Val::None),
            v => v.clone(),
        },
        Beh::NoneV => Val::None,
        Beh::Big => {
            let unit = "abcdefghij€klmno𝄞pq";
            let mut s = text(v);
            while s.len() < 9000 {
                s.push_str(unit);
            }
            Val::Str(s)
        }
        Beh::Last => args.last().unwrap().clone(),
        Beh::Nest => Val::map([
            ("name", Val::Str(text(v))),
            ("items", Val::List(args.to_vec())),
            ("inner", Val::map([("a", v.clone()), ("b", Val::Int(args.len() as i64))])),
        ]),
    }
}

/// Parameter types of a filter.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Val,
    ValRef,
    Str,
    StrRef,
    I64,
    I32,
    I16,
    I8,
    U8,
    U16,
    U32,
    U64,
    I128,
    U128,
    Usize,
    Isize,
    F64,
    F32,
    Bool,
    List,
    ListRef,
    Map,
    MapRef,
    Unit,
}

impl Ty {
    pub fn is_ref(self) -> bool {
        matches!(self, Ty::ValRef | Ty::StrRef | Ty::ListRef | Ty::MapRef)
    }

    /// The value as the filter sees it, `None` when it cannot be passed.
    pub fn convert(self, v: &Val) -> Option<Val> {
        let int = |lo: i128, hi: i128| match v {
            Val::Int(i) if (lo..=hi).contains(&i128::from(*i)) => Some(v.clone()),
            _ => None,
        };
        match self {
            Ty::Val | Ty::ValRef => Some(v.clone()),
            Ty::Str | Ty::StrRef => matches!(v, Val::Str(_)).then(|| v.clone()),
            Ty::I64 | Ty::I128 | Ty::Isize => int(i128::MIN, i128::MAX),
            Ty::I32 => int(i32::MIN.into(), i32::MAX.into()),
            Ty::I16 => int(i16::MIN.into(), i16::MAX.into()),
            Ty::I8 => int(i8::MIN.into(), i8::MAX.into()),
            Ty::U8 => int(0, u8::MAX.into()),
            Ty::U16 => int(0, u16::MAX.into()),
            Ty::U32 => int(0, u32::MAX.into()),
            Ty::U64 | Ty::U128 | Ty::Usize => int(0, i128::MAX),
            Ty::F64 => matches!(v, Val::Float(_)).then(|| v.clone()),
            Ty::F32 => match v {
                Val::Float(f) => Some(Val::Float(f64::from(*f as f32))),
                _ => None,
            },
            Ty::Bool => matches!(v, Val::Bool(_)).then(|| v.clone()),
            Ty::List | Ty::ListRef => matches!(v, Val::List(_)).then(|| v.clone()),
            Ty::Map | Ty::MapRef => matches!(v, Val::Map(_)).then(|| v.clone()),
            Ty::Unit => matches!(v, Val::None).then(|| v.clone()),
        }
    }
}

/// How a real argument becomes a harness value.
pub trait ToVal {
    fn to_val(self) -> Val;
}
macro_rules! to_val_int {
    ($($t:ty)*) => { $(impl ToVal for $t { fn to_val(self) -> Val { Val::Int(self as i64) } })* };
}
to_val_int! { i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize }
impl ToVal for f64 {
    fn to_val(self) -> Val {
        Val::Float(self)
    }
}
impl ToVal for f32 {
    fn to_val(self) -> Val {
        Val::Float(f64::from(self))
    }
}
impl ToVal for bool {
    fn to_val(self) -> Val {
        Val::Bool(self)
    }
}
impl ToVal for () {
    fn to_val(self) -> Val {
        Val::None
    }
}
impl ToVal for String {
    fn to_val(self) -> Val {
        Val::Str(self)
    }
}
impl ToVal for &str {
    fn to_val(self) -> Val {
        Val::Str(self.to_string())
    }
}
impl ToVal for upon::Value {
    fn to_val(self) -> Val {
        Val::from_upon(&self)
    }
}
impl ToVal for &upon::Value {
    fn to_val(self) -> Val {
        Val::from_upon(self)
    }
}
impl ToVal for Vec<upon::Value> {
    fn to_val(self) -> Val {
        Val::List(self.iter().map(Val::from_upon).collect())
    }
}
impl ToVal for &[upon::Value] {
    fn to_val(self) -> Val {
        Val::List(self.iter().map(Val::from_upon).collect())
    }
}
impl ToVal for BTreeMap<String, upon::Value> {
    fn to_val(self) -> Val {
        Val::Map(self.iter().map(|(k, v)| (k.clone(), Val::from_upon(v))).collect())
    }
}
impl ToVal for &BTreeMap<String, upon::Value> {
    fn to_val(self) -> Val {
        Val::Map(self.iter().map(|(k, v)| (k.clone(), Val::from_upon(v))).collect())
    }
}

/// What a registered name is.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FnSpec {
    Filter { shape: usize, beh: Beh, fallible: bool, ver: u32 },
    Fmt(FmtSpec),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FmtSpec {
    pub kind: FmtKind,
    /// replaces the error of a failed write with its own message
    pub remap: bool,
    pub ver: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FmtKind {
    /// the library's default formatter
    Def,
    /// several writes around the default formatter
    Angle,
    /// one character at a time
    Chars,
    /// pieces of a few bytes
    Chunks,
    /// the `write!` machinery with padding
    Fmt,
    /// formats lists and maps too
    Any,
    /// writes nothing
    Quiet,
    /// html escaping
    Esc,
}

pub const FMTS: &[FmtKind] = &[
    FmtKind::Def,
    FmtKind::Angle,
    FmtKind::Chars,
    FmtKind::Chunks,
    FmtKind::Fmt,
    FmtKind::Any,
    FmtKind::Quiet,
    FmtKind::Esc,
];

/// What one formatter call writes: pieces, then success or an engine error
/// (the default formatter cannot format lists and maps).
pub struct FmtScript {
    pub pieces: Vec<String>,
    pub engine_err: bool,
}

pub fn format_script(k: FmtKind, ver: u32, v: &Val) -> FmtScript {
    let ok = |pieces: Vec<String>| FmtScript { pieces, engine_err: false };
    let any = v.display().unwrap_or_else(|| v.repr());
    match k {
        FmtKind::Def => match v.display() {
            Some(s) => ok(vec![s]),
            None => FmtScript { pieces: vec![], engine_err: true },
        },
        FmtKind::Angle => match v.display() {
            Some(s) => ok(vec!["<".into(), s, format!("/{ver}>")]),
            None => FmtScript { pieces: vec!["<".into()], engine_err: true },
        },
        FmtKind::Chars => ok(any.chars().map(String::from).collect()),
        FmtKind::Chunks => {
            let mut out = Vec::new();
            let mut cur = String::new();
            for c in any.chars() {
                cur.push(c);
                if cur.len() >= 3 {
                    out.push(std::mem::take(&mut cur));
                }
            }
            out.push(cur);
            ok(out)
        }
        FmtKind::Fmt => ok(vec![format!("[{any:>6}|{ver:03}]")]),
        FmtKind::Any => ok(vec![any]),
        FmtKind::Quiet => ok(vec![]),
        FmtKind::Esc => ok(any
            .chars()
            .map(|c| match c {
                '<' => "&lt;".to_string(),
                '>' => "&gt;".to_string(),
                '&' => "&amp;".to_string(),
                '"' => "&quot;".to_string(),
                c => c.to_string(),
            })
            .collect()),
    }
}

macro_rules! shapes {
    ($( $idx:literal : $tys:tt ;)* more: $( $idm:literal : $tym:tt ;)*) => {
        /// Parameter types of each registrable filter shape.
        pub fn shape(i: usize) -> &'static [Ty] {
            match i {
                $( $idx => shapes!(@tys $tys), )*
                $( $idm => shapes!(@tys $tym), )*
                _ => &[Ty::Val],
            }
        }
        pub const N_SHAPES: usize = { let a: &[usize] = &[$($idx,)* $($idm),*]; a.len() };

        /// Register the real filter: a closure of that Rust type which hands
        /// its arguments to `call`.
        #[cfg(feature = "ff")]
        pub fn register<C>(
            e: &mut upon::Engine<'static>,
            name: String,
            i: usize,
            fallible: bool,
            call: C,
        ) -> Option<upon::EngineFn>
        where
            C: Fn(Vec<Val>) -> Result<Val, String> + Send + Sync + 'static,
        {
            match (i, fallible) {
                $(
                    ($idx, true) => shapes!(@reg e, name, call, $tys, upon::Value, String, |r: Result<Val, String>| r.map(|v| v.to_upon())),
                    ($idx, false) => shapes!(@reg1 e, name, call, $tys, upon::Value, |r: Result<Val, String>| r.map_or(upon::Value::None, |v| v.to_upon())),
                )*
                $(
                    #[cfg(feature = "more")]
                    ($idm, true) => shapes!(@reg e, name, call, $tym, upon::Value, String, |r: Result<Val, String>| r.map(|v| v.to_upon())),
                    #[cfg(feature = "more")]
                    ($idm, false) => shapes!(@reg1 e, name, call, $tym, upon::Value, |r: Result<Val, String>| r.map_or(upon::Value::None, |v| v.to_upon())),
                )*
                _ => register_ret(e, name, i, call),
            }
        }
    };
    (@tys ($($n:ident : $ty:ty => $t:ident),*)) => { &[$(Ty::$t),*] };
    (@reg $e:ident, $name:ident, $call:ident, ($($n:ident : $ty:ty => $t:ident),*), $r:ty, $er:ty, $f:expr) => {
        $e.add_filter($name, move |$($n: $ty),*| -> Result<$r, $er> { let f = $f; f($call(vec![$($n.to_val()),*])) })
    };
    (@reg1 $e:ident, $name:ident, $call:ident, ($($n:ident : $ty:ty => $t:ident),*), $r:ty, $f:expr) => {
        $e.add_filter($name, move |$($n: $ty),*| -> $r { let f = $f; f($call(vec![$($n.to_val()),*])) })
    };
}

shapes! {
    0: (a: upon::Value => Val);
    1: (a: &upon::Value => ValRef);
    2: (a: String => Str);
    3: (a: &str => StrRef);
    4: (a: i64 => I64);
    5: (a: u8 => U8);
    6: (a: f64 => F64);
    7: (a: bool => Bool);
    8: (a: Vec<upon::Value> => List);
    9: (a: &[upon::Value] => ListRef);
    10: (a: BTreeMap<String, upon::Value> => Map);
    11: (a: &BTreeMap<String, upon::Value> => MapRef);
    12: (a: () => Unit);
    13: (a: i32 => I32);
    14: (a: upon::Value => Val, b: upon::Value => Val);
    15: (a: &str => StrRef, b: &str => StrRef);
    16: (a: upon::Value => Val, b: &str => StrRef);
    17: (a: &upon::Value => ValRef, b: &str => StrRef);
    18: (a: i64 => I64, b: i64 => I64);
    19: (a: upon::Value => Val, b: u64 => U64);
    20: (a: &[upon::Value] => ListRef, b: usize => Usize);
    21: (a: &upon::Value => ValRef, b: upon::Value => Val);
    22: (a: upon::Value => Val, b: upon::Value => Val, c: upon::Value => Val);
    23: (a: &str => StrRef, b: &str => StrRef, c: &str => StrRef);
    24: (a: &upon::Value => ValRef, b: String => Str, c: bool => Bool);
    25: (a: upon::Value => Val, b: i8 => I8, c: &str => StrRef);
    26: (a: upon::Value => Val, b: upon::Value => Val, c: upon::Value => Val, d: upon::Value => Val);
    27: (a: &upon::Value => ValRef, b: upon::Value => Val, c: &str => StrRef, d: upon::Value => Val);
    28: (a: upon::Value => Val, b: upon::Value => Val, c: upon::Value => Val, d: upon::Value => Val, e: upon::Value => Val);
    29: (a: &str => StrRef, b: i64 => I64, c: upon::Value => Val, d: bool => Bool, e: &str => StrRef);
    30: (a: u16 => U16);
    31: (a: u32 => U32);
    32: (a: i16 => I16);
    33: (a: i128 => I128);
    34: (a: u128 => U128);
    35: (a: isize => Isize);
    36: (a: f32 => F32);
    37: (a: String => Str, b: f64 => F64);
    38: (a: BTreeMap<String, upon::Value> => Map, b: &str => StrRef);
    39: (a: Vec<upon::Value> => List, b: upon::Value => Val);
    40: (a: BTreeMap<String, upon::Value> => Map, b: u32 => U32);
    41: (a: f32 => F32, b: &str => StrRef);
    42: (a: &str => StrRef, b: f64 => F64);
    43: (a: &str => StrRef, b: &str => StrRef);
    44: (a: &[upon::Value] => ListRef, b: u16 => U16);
    45: (a: &[upon::Value] => ListRef, b: &str => StrRef);
    more:
    46: (a: &BTreeMap<String, upon::Value> => MapRef, b: usize => Usize);
    47: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef);
    48: (a: &upon::Value => ValRef, b: bool => Bool);
    49: (a: &upon::Value => ValRef, b: &str => StrRef);
    50: (a: upon::Value => Val, b: upon::Value => Val, c: i64 => I64);
    51: (a: i32 => I32, b: i8 => I8, c: &str => StrRef);
    52: (a: () => Unit, b: &str => StrRef, c: Vec<upon::Value> => List);
    53: (a: String => Str, b: &str => StrRef, c: &str => StrRef);
    54: (a: &str => StrRef, b: isize => Isize, c: u8 => U8);
    55: (a: &str => StrRef, b: i16 => I16, c: &str => StrRef);
    56: (a: &str => StrRef, b: &str => StrRef, c: u128 => U128);
    57: (a: &str => StrRef, b: &str => StrRef, c: &str => StrRef);
    58: (a: &[upon::Value] => ListRef, b: String => Str, c: u64 => U64);
    59: (a: &[upon::Value] => ListRef, b: i128 => I128, c: &str => StrRef);
    60: (a: &[upon::Value] => ListRef, b: &str => StrRef, c: upon::Value => Val);
    61: (a: &[upon::Value] => ListRef, b: &str => StrRef, c: &str => StrRef);
    62: (a: &BTreeMap<String, upon::Value> => MapRef, b: BTreeMap<String, upon::Value> => Map, c: u32 => U32);
    63: (a: &BTreeMap<String, upon::Value> => MapRef, b: f32 => F32, c: &str => StrRef);
    64: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef, c: f64 => F64);
    65: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef, c: &str => StrRef);
    66: (a: &upon::Value => ValRef, b: u16 => U16, c: usize => Usize);
    67: (a: &upon::Value => ValRef, b: bool => Bool, c: &str => StrRef);
    68: (a: &upon::Value => ValRef, b: &str => StrRef, c: upon::Value => Val);
    69: (a: &upon::Value => ValRef, b: &str => StrRef, c: &str => StrRef);
    70: (a: upon::Value => Val, b: i64 => I64, c: i32 => I32, d: i8 => I8);
    71: (a: () => Unit, b: Vec<upon::Value> => List, c: String => Str, d: &str => StrRef);
    72: (a: isize => Isize, b: u8 => U8, c: &str => StrRef, d: i16 => I16);
    73: (a: u128 => U128, b: String => Str, c: &str => StrRef, d: &str => StrRef);
    74: (a: u64 => U64, b: &str => StrRef, c: i128 => I128, d: upon::Value => Val);
    75: (a: BTreeMap<String, upon::Value> => Map, b: &str => StrRef, c: u32 => U32, d: &str => StrRef);
    76: (a: f32 => F32, b: &str => StrRef, c: &str => StrRef, d: f64 => F64);
    77: (a: u16 => U16, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef);
    78: (a: &str => StrRef, b: usize => Usize, c: bool => Bool, d: upon::Value => Val);
    79: (a: &str => StrRef, b: upon::Value => Val, c: i64 => I64, d: &str => StrRef);
    80: (a: &str => StrRef, b: i32 => I32, c: &str => StrRef, d: i8 => I8);
    81: (a: &str => StrRef, b: () => Unit, c: &str => StrRef, d: &str => StrRef);
    82: (a: &str => StrRef, b: &str => StrRef, c: Vec<upon::Value> => List, d: String => Str);
    83: (a: &str => StrRef, b: &str => StrRef, c: isize => Isize, d: &str => StrRef);
    84: (a: &str => StrRef, b: &str => StrRef, c: &str => StrRef, d: u8 => U8);
    85: (a: &str => StrRef, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef);
    86: (a: &[upon::Value] => ListRef, b: i16 => I16, c: u128 => U128, d: String => Str);
    87: (a: &[upon::Value] => ListRef, b: u64 => U64, c: i128 => I128, d: &str => StrRef);
    88: (a: &[upon::Value] => ListRef, b: upon::Value => Val, c: &str => StrRef, d: BTreeMap<String, upon::Value> => Map);
    89: (a: &[upon::Value] => ListRef, b: u32 => U32, c: &str => StrRef, d: &str => StrRef);
    90: (a: &[upon::Value] => ListRef, b: &str => StrRef, c: f32 => F32, d: f64 => F64);
    91: (a: &[upon::Value] => ListRef, b: &str => StrRef, c: u16 => U16, d: &str => StrRef);
    92: (a: &[upon::Value] => ListRef, b: &str => StrRef, c: &str => StrRef, d: usize => Usize);
    93: (a: &[upon::Value] => ListRef, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef);
    94: (a: &BTreeMap<String, upon::Value> => MapRef, b: bool => Bool, c: upon::Value => Val, d: upon::Value => Val);
    95: (a: &BTreeMap<String, upon::Value> => MapRef, b: i64 => I64, c: i32 => I32, d: &str => StrRef);
    96: (a: &BTreeMap<String, upon::Value> => MapRef, b: i8 => I8, c: &str => StrRef, d: () => Unit);
    97: (a: &BTreeMap<String, upon::Value> => MapRef, b: Vec<upon::Value> => List, c: &str => StrRef, d: &str => StrRef);
    98: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef, c: String => Str, d: isize => Isize);
    99: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef, c: u8 => U8, d: &str => StrRef);
    100: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef, c: &str => StrRef, d: i16 => I16);
    101: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef);
    102: (a: &upon::Value => ValRef, b: u128 => U128, c: String => Str, d: u64 => U64);
    103: (a: &upon::Value => ValRef, b: i128 => I128, c: upon::Value => Val, d: &str => StrRef);
    104: (a: &upon::Value => ValRef, b: BTreeMap<String, upon::Value> => Map, c: &str => StrRef, d: u32 => U32);
    105: (a: &upon::Value => ValRef, b: f32 => F32, c: &str => StrRef, d: &str => StrRef);
    106: (a: &upon::Value => ValRef, b: &str => StrRef, c: f64 => F64, d: u16 => U16);
    107: (a: &upon::Value => ValRef, b: &str => StrRef, c: usize => Usize, d: &str => StrRef);
    108: (a: &upon::Value => ValRef, b: &str => StrRef, c: &str => StrRef, d: bool => Bool);
    109: (a: &upon::Value => ValRef, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef);
    110: (a: upon::Value => Val, b: upon::Value => Val, c: i64 => I64, d: i32 => I32, e: i8 => I8);
    111: (a: () => Unit, b: Vec<upon::Value> => List, c: String => Str, d: isize => Isize, e: &str => StrRef);
    112: (a: u8 => U8, b: i16 => I16, c: u128 => U128, d: &str => StrRef, e: String => Str);
    113: (a: u64 => U64, b: i128 => I128, c: upon::Value => Val, d: &str => StrRef, e: &str => StrRef);
    114: (a: BTreeMap<String, upon::Value> => Map, b: u32 => U32, c: &str => StrRef, d: f32 => F32, e: f64 => F64);
    115: (a: u16 => U16, b: usize => Usize, c: &str => StrRef, d: bool => Bool, e: &str => StrRef);
    116: (a: upon::Value => Val, b: upon::Value => Val, c: &str => StrRef, d: &str => StrRef, e: i64 => I64);
    117: (a: i32 => I32, b: i8 => I8, c: &str => StrRef, d: &str => StrRef, e: &str => StrRef);
    118: (a: () => Unit, b: &str => StrRef, c: Vec<upon::Value> => List, d: String => Str, e: isize => Isize);
    119: (a: u8 => U8, b: &str => StrRef, c: i16 => I16, d: u128 => U128, e: &str => StrRef);
    120: (a: String => Str, b: &str => StrRef, c: u64 => U64, d: &str => StrRef, e: i128 => I128);
    121: (a: upon::Value => Val, b: &str => StrRef, c: BTreeMap<String, upon::Value> => Map, d: &str => StrRef, e: &str => StrRef);
    122: (a: u32 => U32, b: &str => StrRef, c: &str => StrRef, d: f32 => F32, e: f64 => F64);
    123: (a: u16 => U16, b: &str => StrRef, c: &str => StrRef, d: usize => Usize, e: &str => StrRef);
    124: (a: bool => Bool, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef, e: upon::Value => Val);
    125: (a: upon::Value => Val, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef, e: &str => StrRef);
    126: (a: &str => StrRef, b: i64 => I64, c: i32 => I32, d: i8 => I8, e: () => Unit);
    127: (a: &str => StrRef, b: Vec<upon::Value> => List, c: String => Str, d: isize => Isize, e: &str => StrRef);
    128: (a: &str => StrRef, b: u8 => U8, c: i16 => I16, d: &str => StrRef, e: u128 => U128);
    129: (a: &str => StrRef, b: String => Str, c: u64 => U64, d: &str => StrRef, e: &str => StrRef);
    130: (a: &str => StrRef, b: i128 => I128, c: &str => StrRef, d: upon::Value => Val, e: BTreeMap<String, upon::Value> => Map);
    131: (a: &str => StrRef, b: u32 => U32, c: &str => StrRef, d: f32 => F32, e: &str => StrRef);
    132: (a: &str => StrRef, b: f64 => F64, c: &str => StrRef, d: &str => StrRef, e: u16 => U16);
    133: (a: &str => StrRef, b: usize => Usize, c: &str => StrRef, d: &str => StrRef, e: &str => StrRef);
    134: (a: &str => StrRef, b: &str => StrRef, c: bool => Bool, d: upon::Value => Val, e: upon::Value => Val);
    135: (a: &str => StrRef, b: &str => StrRef, c: i64 => I64, d: i32 => I32, e: &str => StrRef);
    136: (a: &str => StrRef, b: &str => StrRef, c: i8 => I8, d: &str => StrRef, e: () => Unit);
    137: (a: &str => StrRef, b: &str => StrRef, c: Vec<upon::Value> => List, d: &str => StrRef, e: &str => StrRef);
    138: (a: &str => StrRef, b: &str => StrRef, c: &str => StrRef, d: String => Str, e: isize => Isize);
    139: (a: &str => StrRef, b: &str => StrRef, c: &str => StrRef, d: u8 => U8, e: &str => StrRef);
    140: (a: &str => StrRef, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef, e: i16 => I16);
    141: (a: &str => StrRef, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef, e: &str => StrRef);
    142: (a: &[upon::Value] => ListRef, b: u128 => U128, c: String => Str, d: u64 => U64, e: i128 => I128);
    143: (a: &[upon::Value] => ListRef, b: upon::Value => Val, c: BTreeMap<String, upon::Value> => Map, d: u32 => U32, e: &str => StrRef);
    144: (a: &[upon::Value] => ListRef, b: f32 => F32, c: f64 => F64, d: &str => StrRef, e: u16 => U16);
    145: (a: &[upon::Value] => ListRef, b: usize => Usize, c: bool => Bool, d: &str => StrRef, e: &str => StrRef);
    146: (a: &[upon::Value] => ListRef, b: upon::Value => Val, c: &str => StrRef, d: upon::Value => Val, e: i64 => I64);
    147: (a: &[upon::Value] => ListRef, b: i32 => I32, c: &str => StrRef, d: i8 => I8, e: &str => StrRef);
    148: (a: &[upon::Value] => ListRef, b: () => Unit, c: &str => StrRef, d: &str => StrRef, e: Vec<upon::Value> => List);
    149: (a: &[upon::Value] => ListRef, b: String => Str, c: &str => StrRef, d: &str => StrRef, e: &str => StrRef);
    150: (a: &[upon::Value] => ListRef, b: &str => StrRef, c: isize => Isize, d: u8 => U8, e: i16 => I16);
    151: (a: &[upon::Value] => ListRef, b: &str => StrRef, c: u128 => U128, d: String => Str, e: &str => StrRef);
    152: (a: &[upon::Value] => ListRef, b: &str => StrRef, c: u64 => U64, d: &str => StrRef, e: i128 => I128);
    153: (a: &[upon::Value] => ListRef, b: &str => StrRef, c: upon::Value => Val, d: &str => StrRef, e: &str => StrRef);
    154: (a: &[upon::Value] => ListRef, b: &str => StrRef, c: &str => StrRef, d: BTreeMap<String, upon::Value> => Map, e: u32 => U32);
    155: (a: &[upon::Value] => ListRef, b: &str => StrRef, c: &str => StrRef, d: f32 => F32, e: &str => StrRef);
    156: (a: &[upon::Value] => ListRef, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef, e: f64 => F64);
    157: (a: &[upon::Value] => ListRef, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef, e: &str => StrRef);
    158: (a: &BTreeMap<String, upon::Value> => MapRef, b: u16 => U16, c: usize => Usize, d: bool => Bool, e: upon::Value => Val);
    159: (a: &BTreeMap<String, upon::Value> => MapRef, b: upon::Value => Val, c: i64 => I64, d: i32 => I32, e: &str => StrRef);
    160: (a: &BTreeMap<String, upon::Value> => MapRef, b: i8 => I8, c: () => Unit, d: &str => StrRef, e: Vec<upon::Value> => List);
    161: (a: &BTreeMap<String, upon::Value> => MapRef, b: String => Str, c: isize => Isize, d: &str => StrRef, e: &str => StrRef);
    162: (a: &BTreeMap<String, upon::Value> => MapRef, b: u8 => U8, c: &str => StrRef, d: i16 => I16, e: u128 => U128);
    163: (a: &BTreeMap<String, upon::Value> => MapRef, b: String => Str, c: &str => StrRef, d: u64 => U64, e: &str => StrRef);
    164: (a: &BTreeMap<String, upon::Value> => MapRef, b: i128 => I128, c: &str => StrRef, d: &str => StrRef, e: upon::Value => Val);
    165: (a: &BTreeMap<String, upon::Value> => MapRef, b: BTreeMap<String, upon::Value> => Map, c: &str => StrRef, d: &str => StrRef, e: &str => StrRef);
    166: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef, c: u32 => U32, d: f32 => F32, e: f64 => F64);
    167: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef, c: u16 => U16, d: usize => Usize, e: &str => StrRef);
    168: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef, c: bool => Bool, d: &str => StrRef, e: upon::Value => Val);
    169: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef, c: upon::Value => Val, d: &str => StrRef, e: &str => StrRef);
    170: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef, c: &str => StrRef, d: i64 => I64, e: i32 => I32);
    171: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef, c: &str => StrRef, d: i8 => I8, e: &str => StrRef);
    172: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef, e: () => Unit);
    173: (a: &BTreeMap<String, upon::Value> => MapRef, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef, e: &str => StrRef);
    174: (a: &upon::Value => ValRef, b: Vec<upon::Value> => List, c: String => Str, d: isize => Isize, e: u8 => U8);
    175: (a: &upon::Value => ValRef, b: i16 => I16, c: u128 => U128, d: String => Str, e: &str => StrRef);
    176: (a: &upon::Value => ValRef, b: u64 => U64, c: i128 => I128, d: &str => StrRef, e: upon::Value => Val);
    177: (a: &upon::Value => ValRef, b: BTreeMap<String, upon::Value> => Map, c: u32 => U32, d: &str => StrRef, e: &str => StrRef);
    178: (a: &upon::Value => ValRef, b: f32 => F32, c: &str => StrRef, d: f64 => F64, e: u16 => U16);
    179: (a: &upon::Value => ValRef, b: usize => Usize, c: &str => StrRef, d: bool => Bool, e: &str => StrRef);
    180: (a: &upon::Value => ValRef, b: upon::Value => Val, c: &str => StrRef, d: &str => StrRef, e: upon::Value => Val);
    181: (a: &upon::Value => ValRef, b: i64 => I64, c: &str => StrRef, d: &str => StrRef, e: &str => StrRef);
    182: (a: &upon::Value => ValRef, b: &str => StrRef, c: i32 => I32, d: i8 => I8, e: () => Unit);
    183: (a: &upon::Value => ValRef, b: &str => StrRef, c: Vec<upon::Value> => List, d: String => Str, e: &str => StrRef);
    184: (a: &upon::Value => ValRef, b: &str => StrRef, c: isize => Isize, d: &str => StrRef, e: u8 => U8);
    185: (a: &upon::Value => ValRef, b: &str => StrRef, c: i16 => I16, d: &str => StrRef, e: &str => StrRef);
    186: (a: &upon::Value => ValRef, b: &str => StrRef, c: &str => StrRef, d: u128 => U128, e: String => Str);
    187: (a: &upon::Value => ValRef, b: &str => StrRef, c: &str => StrRef, d: u64 => U64, e: &str => StrRef);
    188: (a: &upon::Value => ValRef, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef, e: i128 => I128);
    189: (a: &upon::Value => ValRef, b: &str => StrRef, c: &str => StrRef, d: &str => StrRef, e: &str => StrRef);
    190: (a: u64 => U64);
    191: (a: usize => Usize);
    192: (a: i8 => I8);
    193: (a: upon::Value => Val, b: upon::Value => Val);
    194: (a: upon::Value => Val, b: String => Str);
    195: (a: upon::Value => Val, b: i64 => I64);
    196: (a: upon::Value => Val, b: i32 => I32);
    197: (a: upon::Value => Val, b: i16 => I16);
    198: (a: upon::Value => Val, b: i8 => I8);
    199: (a: upon::Value => Val, b: u8 => U8);
    200: (a: upon::Value => Val, b: u16 => U16);
    201: (a: upon::Value => Val, b: u32 => U32);
    202: (a: upon::Value => Val, b: u64 => U64);
    203: (a: upon::Value => Val, b: i128 => I128);
    204: (a: upon::Value => Val, b: u128 => U128);
    205: (a: upon::Value => Val, b: usize => Usize);
    206: (a: upon::Value => Val, b: isize => Isize);
    207: (a: upon::Value => Val, b: f64 => F64);
    208: (a: upon::Value => Val, b: f32 => F32);
    209: (a: upon::Value => Val, b: bool => Bool);
    210: (a: upon::Value => Val, b: Vec<upon::Value> => List);
    211: (a: upon::Value => Val, b: BTreeMap<String, upon::Value> => Map);
    212: (a: upon::Value => Val, b: () => Unit);
}

/// Shapes from here on take any value and differ in what they return.
pub const RETS: usize = 1000;
pub const N_RETS: usize = 34;

/// Shapes that the generators draw from when the shape itself does not matter.
pub const N_COMMON: usize = 40;
/// Builds with some features only have fewer shapes.
pub const N_FEW: usize = 46;

pub fn any_shape(r: &mut crate::rng::Rng) -> usize {
    match r.below(10) {
        0..=6 => r.below(if avail::has_all() { N_SHAPES } else { N_FEW }),
        _ => RETS + r.below(N_RETS),
    }
}

fn num(v: &Val) -> i64 {
    match v {
        Val::Int(i) => *i,
        v => v.repr().bytes().fold(7i64, |h, b| h.wrapping_mul(31).wrapping_add(i64::from(b))),
    }
}

fn some_text(v: &Val) -> String {
    v.display().unwrap_or_else(|| v.repr())
}

const TEXTS: [&str; 4] = ["", "static", "é€𝄞", "<a & \"b\">"];
fn static_text(v: &Val) -> &'static str {
    TEXTS[num(v).rem_euclid(4) as usize]
}

/// Whether a filter can report an error.
pub fn fallible(shape: usize, plain: bool) -> bool {
    if shape < RETS {
        plain
    } else {
        (26..=31).contains(&(shape - RETS))
    }
}

/// What a filter of a shape returns, given what its behaviour computes.
pub fn returned(shape: usize, v: Val) -> Val {
    if shape < RETS {
        return v;
    }
    let n = num(&v);
    let pair = |a: Val, b: Val| Val::Map([("k".to_string(), a), ("é".to_string(), b)].into_iter().collect());
    match shape - RETS {
        0 | 26 => Val::None,
        1 => Val::Bool(n % 2 == 0),
        2 => Val::Int((n as i8).into()),
        3 => Val::Int((n as i16).into()),
        4 => Val::Int((n as i32).into()),
        5 | 29 => Val::Int(n),
        6 => Val::Int((n as u8).into()),
        7 => Val::Int((n as u16).into()),
        8 => Val::Int((n as u32).into()),
        9 => Val::Float(f64::from((n % 1000) as f32 / 8.0)),
        10 => Val::Float((n % 100_000) as f64 / 16.0),
        11 | 30 => Val::Str(some_text(&v)),
        12 | 13 | 31 => Val::Str(static_text(&v).into()),
        14 => Val::List(vec![Val::Int(n), Val::Int(n.wrapping_add(1)), Val::Int(0)]),
        15 => Val::List(vec![v.clone(), Val::None, v]),
        16 => Val::List(vec![Val::Str(some_text(&v)), Val::Str(String::new())]),
        17 => Val::List(vec![Val::Int((n as u8).into()), Val::Int(3), Val::Int(255)]),
        18 | 19 => pair(Val::Int(n), Val::Int(-1)),
        20 => pair(v.clone(), Val::None),
        21 => pair(Val::Int((n as i32).into()), Val::Int(9)),
        22 => pair(Val::Int(n), Val::Int(9)),
        23 | 27 => if n % 2 == 0 { Val::None } else { Val::Int(n) },
        24 => if n % 2 == 0 { Val::None } else { Val::Str(some_text(&v)) },
        25 => if n % 2 == 0 { Val::None } else { Val::List(vec![v]) },
        28 => Val::List(vec![Val::None, Val::Int(n)]),
        32 => Val::List(vec![]),
        33 => Val::Map(BTreeMap::new()),
        _ => v,
    }
}

/// Filters with one parameter and return types of their own. What `call`
/// yields has already the form `returned` describes.
#[cfg(feature = "ff")]
fn register_ret<C>(e: &mut upon::Engine<'static>, name: String, shape: usize, call: C) -> Option<upon::EngineFn>
where
    C: Fn(Vec<Val>) -> Result<Val, String> + Send + Sync + 'static,
{
    use std::borrow::Cow;
    use std::collections::HashMap;
    use upon::Value;
    let int = |v: &Val| match v {
        Val::Int(i) => *i,
        _ => 0,
    };
    let float = |v: &Val| match v {
        Val::Float(f) => *f,
        _ => 0.0,
    };
    let text = |v: &Val| match v {
        Val::Str(s) => s.clone(),
        _ => String::new(),
    };
    let fixed = |v: &Val| -> &'static str {
        match v {
            Val::Str(s) => TEXTS.into_iter().find(|t| t == s).unwrap_or("?"),
            _ => "?",
        }
    };
    let list = |v: &Val| match v {
        Val::List(l) => l.clone(),
        _ => vec![],
    };
    let map = |v: &Val| match v {
        Val::Map(m) => m.clone(),
        _ => BTreeMap::new(),
    };
    let none = |v: &Val| *v == Val::None;
    let run = move |a: Value| call(vec![a.to_val()]);
    macro_rules! plain {
        ($t:ty, $f:expr) => {
            e.add_filter(name, move |a: Value| -> $t {
                let f = $f;
                f(run(a).unwrap_or(Val::None))
            })
        };
    }
    macro_rules! result {
        ($t:ty, $f:expr) => {
            e.add_filter(name, move |a: Value| -> Result<$t, &'static str> {
                let f = $f;
                match run(a) {
                    Ok(v) => Ok(f(v)),
                    Err(m) => Err(Box::leak(m.into_boxed_str())),
                }
            })
        };
    }
    match shape.saturating_sub(RETS) {
        0 => plain!((), |_: Val| ()),
        1 => plain!(bool, |v: Val| v == Val::Bool(true)),
        2 => plain!(i8, |v: Val| int(&v) as i8),
        3 => plain!(i16, |v: Val| int(&v) as i16),
        4 => plain!(i32, |v: Val| int(&v) as i32),
        5 => plain!(i64, |v: Val| int(&v)),
        6 => plain!(u8, |v: Val| int(&v) as u8),
        7 => plain!(u16, |v: Val| int(&v) as u16),
        8 => plain!(u32, |v: Val| int(&v) as u32),
        9 => plain!(f32, |v: Val| float(&v) as f32),
        10 => plain!(f64, |v: Val| float(&v)),
        11 => plain!(String, |v: Val| text(&v)),
        12 => plain!(&'static str, |v: Val| fixed(&v)),
        13 => plain!(Cow<'static, str>, |v: Val| if fixed(&v).is_empty() {
            Cow::Owned(String::new())
        } else {
            Cow::Borrowed(fixed(&v))
        }),
        14 => plain!(Vec<i64>, |v: Val| list(&v).iter().map(int).collect::<Vec<_>>()),
        15 => plain!(Vec<Value>, |v: Val| list(&v).iter().map(Val::to_upon).collect::<Vec<_>>()),
        16 => plain!(Vec<String>, |v: Val| list(&v).iter().map(text).collect::<Vec<_>>()),
        17 => plain!([u8; 3], |v: Val| {
            let l = list(&v);
            [int(&l[0]) as u8, int(&l[1]) as u8, int(&l[2]) as u8]
        }),
        18 => plain!(BTreeMap<String, i64>, |v: Val| map(&v)
            .into_iter()
            .map(|(k, v)| (k, int(&v)))
            .collect::<BTreeMap<_, _>>()),
        19 => plain!(HashMap<String, i64>, |v: Val| map(&v)
            .into_iter()
            .map(|(k, v)| (k, int(&v)))
            .collect::<HashMap<_, _>>()),
        20 => plain!(BTreeMap<&'static str, Value>, |v: Val| {
            let m = map(&v);
            ["k", "é"].into_iter().map(|k| (k, m[k].to_upon())).collect::<BTreeMap<_, _>>()
        }),
        21 => plain!([(&'static str, i32); 2], |v: Val| [("k", int(&map(&v)["k"]) as i32), ("é", 9)]),
        22 => plain!(Value, |v: Val| map(&v).into_iter().map(|(k, v)| (k, v.to_upon())).collect::<Value>()),
        23 => plain!(Option<i64>, |v: Val| if none(&v) { None } else { Some(int(&v)) }),
        24 => plain!(Option<String>, |v: Val| if none(&v) { None } else { Some(text(&v)) }),
        25 => plain!(Option<Vec<Value>>, |v: Val| if none(&v) {
            None
        } else {
            Some(list(&v).iter().map(Val::to_upon).collect())
        }),
        26 => result!((), |_: Val| ()),
        27 => result!(Option<i64>, |v: Val| if none(&v) { None } else { Some(int(&v)) }),
        28 => result!(Vec<Option<i64>>, |v: Val| list(&v)
            .iter()
            .map(|v| if none(v) { None } else { Some(int(v)) })
            .collect::<Vec<_>>()),
        29 => result!(i64, |v: Val| int(&v)),
        30 => result!(String, |v: Val| text(&v)),
        31 => result!(&'static str, |v: Val| fixed(&v)),
        32 => plain!(Vec<bool>, |_: Val| Vec::new()),
        33 => plain!(HashMap<String, Value>, |_: Val| HashMap::new()),
        _ => result!(Value, |v: Val| v.to_upon()),
    }
}
