#!/usr/bin/env python3
# Writes sim/src/shapes.rs: invocations of `upon::value!` with holes, next to
# what each of them denotes. The output is committed; run again only to change
# the set.
import random
r = random.Random(20240131)
KEYS = ["a", "b", "c", "name", "items", "x", "user", "k0", "inner", "type", "loop", "None", "Some", "_x", "aB", "if", "true_", "é"]

class S:
    def __init__(s):
        s.holes = 0
    def hole(s):
        s.holes += 1
        return s.holes - 1
    def scalar(s):
        k = r.randrange(17)
        if k < 5:
            i = s.hole()
            f = r.choice(["h({})", "h({})", "&h({})", "(h({}))", "&&h({})"])
            return f.format(i), f"g({i})"
        if k == 5:
            return "None", "Val::None"
        if k == 6:
            b = r.choice(["true", "false"])
            return b, f"Val::Bool({b})"
        if k == 7:
            return r.choice([("!true", "Val::Bool(false)"), ("1 < 2", "Val::Bool(true)"), ("(true)", "Val::Bool(true)"), ("1 == 2", "Val::Bool(false)")])
        if k in (8, 9):
            n = r.choice(["0", "1", "-1", "7", "255", "-129", "9_000_000_000_i64", "12u8", "i64::MIN", "0x7f", "i64::MAX"])
            v = {"0x7f": "127", "9_000_000_000_i64": "9_000_000_000", "12u8": "12"}.get(n, n)
            return n, f"Val::Int({v})"
        if k == 10:
            f = r.choice(["1.5", "-0.5", "0.0", "-0.0", "1e21", "f64::INFINITY", "2.5f32"])
            return f, f"Val::Float({f.replace('f32','')})"
        if k in (11, 12):
            t = r.choice(['""', '"text"', '"a\\"b"', '"é𝄞"', '"None"', '"{{ x }}"', '" "'])
            return r.choice([(t, f"Val::str({t})"), (f"{t}.to_string()", f"Val::str({t})"), (f"String::from({t})", f"Val::str({t})")])
        if k == 13:
            c = r.choice(["'c'", "'é'"])
            return c, f"Val::str(\"{c[1:-1]}\")"
        if k == 14:
            i = s.hole()
            return f"Some(h({i}))", f"g({i})"
        if k == 15:
            i, j = s.hole(), s.hole()
            return r.choice([(f"vec![h({i}), h({j})]", f"Val::List(vec![g({i}), g({j})])"), (f"(h({i}), h({j}))", f"Val::List(vec![g({i}), g({j})])"), (f"&[h({i}), h({j})][..]", f"Val::List(vec![g({i}), g({j})])")])
        return r.choice([("()", "Val::None"), ("Option::<u8>::None", "Val::None"), ("(1, true)", "Val::List(vec![Val::Int(1), Val::Bool(true)])"), ("if 1 > 2 { 3 } else { 4 }", "Val::Int(4)"), ("7 - 5", "Val::Int(2)"), ("std::cmp::max::<u8>(3, 4)", "Val::Int(4)"), ("[1, 2].iter().sum::<i32>()", None)])
    def any(s, d):
        if d < 3:
            k = r.randrange(10)
            if k < 2:
                return s.list(d + 1)
            if k < 4:
                t, v = s.map(d + 1)
                return "{" + t + "}", v
        while True:
            t, v = s.scalar()
            if v is not None:
                return t, v
    def list(s, d):
        xs = [s.any(d) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
        t = ", ".join(x[0] for x in xs)
        if xs and r.random() < .3:
            t += ","
        return "[" + t + "]", "Val::List(vec![" + ", ".join(x[1] for x in xs) + "])"
    def map(s, d):
        n = r.choice([0, 1, 1, 2, 3, 4])
        xs = []
        for _ in range(n):
            xs.append((r.choice(KEYS), s.any(d)))
        t = ", ".join(f"{k}: {x[0]}" for k, x in xs)
        if xs and r.random() < .4:
            t += ","
        v = "fields(vec![" + ", ".join(f'("{k}", {x[1]})' for k, x in xs) + "])"
        return t, v

out, want, holes = [], [], []
while len(out) < 160:
    s = S()
    t, v = s.map(0)
    if s.holes > 6 or len(t) > 400 or (t == "" and len(out) > 0):
        continue
    i = len(out)
    out.append(f"        {i} => upon::value! {{ {t} }},")
    want.append(f"        {i} => {v},")
    holes.append(str(s.holes))
src = f"""// Written by tools/mkshapes.py.
#![allow(clippy::all)]

use crate::val::Val;
#[cfg(feature = "fs")]
use crate::conv::Hole;

pub const HOLES: &[u8] = &[{", ".join(holes)}];

#[cfg(feature = "fs")]
pub fn shape<'a>(i: usize, h: &dyn Fn(usize) -> Hole<'a>) -> upon::Value {{
    match i {{
""" + "\n".join(out) + """
        _ => upon::value! {},
    }
}

fn fields(v: Vec<(&str, Val)>) -> Val {
    Val::Map(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

pub fn means(i: usize, g: &dyn Fn(usize) -> Val) -> Val {
    match i {
""" + "\n".join(want) + """
        _ => fields(vec![]),
    }
}
"""
open("sim/src/shapes.rs", "w").write(src)
