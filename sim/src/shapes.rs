// Written by tools/mkshapes.py.
#![allow(clippy::all)]

use crate::val::Val;
#[cfg(feature = "fs")]
use crate::conv::Hole;

pub const HOLES: &[u8] = &[0, 1, 2, 1, 1, 0, 2, 1, 3, 2, 1, 2, 0, 2, 1, 6, 0, 3, 2, 1, 0, 0, 1, 0, 1, 0, 0, 0, 2, 2, 1, 0, 0, 0, 0, 1, 5, 2, 5, 0, 0, 1, 4, 1, 1, 2, 0, 0, 2, 0, 0, 0, 2, 1, 0, 1, 2, 1, 0, 2, 1, 2, 4, 3, 0, 0, 1, 1, 0, 1, 2, 1, 1, 5, 4, 0, 1, 5, 3, 0, 1, 0, 2, 0, 0, 0, 3, 1, 0, 1, 5, 2, 3, 1, 0, 0, 0, 1, 4, 0, 1, 1, 0, 0, 1, 0, 3, 0, 2, 1, 0, 3, 3, 1, 1, 3, 3, 0, 0, 2, 1, 2, 4, 0, 5, 0, 0, 3, 3, 5, 2, 3, 2, 2, 2, 0, 6, 3, 0, 3, 2, 0, 6, 0, 5, 1, 0, 0, 2, 1, 1, 1, 0, 0, 5, 3, 1, 1, 0, 3];

#[cfg(feature = "fs")]
pub fn shape<'a>(i: usize, h: &dyn Fn(usize) -> Hole<'a>) -> upon::Value {
    match i {
        0 => upon::value! {  },
        1 => upon::value! { Some: &h(0) },
        2 => upon::value! { k0: None, type: &&h(0), aB: [false], items: &&h(1) },
        3 => upon::value! { aB: i64::MIN, b: String::from("{{ x }}"), aB: h(0), },
        4 => upon::value! { name: Some(h(0)), Some: None, type: {name: None, a: {é: None}}, },
        5 => upon::value! { Some: -0.0 },
        6 => upon::value! { Some: false, None: {aB: &[h(0), h(1)][..], x: [{k0: 255},]}, },
        7 => upon::value! { true_: !true, é: Some(h(0)), loop: 2.5f32, _x: [{None: 'é'}, ""] },
        8 => upon::value! { _x: 'c', loop: [[{name: None, name: &[h(0), h(1)][..], inner: &&h(2)}], " ", 'é',] },
        9 => upon::value! { _x: [vec![h(0), h(1)]], name: 0 },
        10 => upon::value! { b: [1.5, {inner: [i64::MIN, h(0)], user: [], inner: []}], a: [false], Some: {k0: {},}, aB: [0x7f], },
        11 => upon::value! { k0: h(0), type: 1 == 2, k0: &&h(1), },
        12 => upon::value! { loop: String::from("{{ x }}"), },
        13 => upon::value! { None: &&h(0), b: {true_: &h(1),}, items: {} },
        14 => upon::value! { Some: &h(0), é: -1 },
        15 => upon::value! { loop: (h(0)), inner: -1, é: {aB: h(1), k0: {x: vec![h(2), h(3)]}, if: &[h(4), h(5)][..]}, loop: i64::MIN, },
        16 => upon::value! { c: {_x: [], user: 1e21, inner: "{{ x }}".to_string(), c: 7 - 5,}, a: -0.5, },
        17 => upon::value! { Some: 'c', true_: [[h(0), h(1), Some(h(2)), {},],] },
        18 => upon::value! { name: {a: Some(h(0)), type: h(1), name: 12u8} },
        19 => upon::value! { k0: {aB: 12u8, c: 1, None: ["a\"b", h(0)],} },
        20 => upon::value! { true_: None },
        21 => upon::value! { name: -0.5 },
        22 => upon::value! { loop: Some(h(0)), true_: 1.5, é: None, },
        23 => upon::value! { Some: 1 < 2, Some: {}, inner: 255 },
        24 => upon::value! { x: Some(h(0)) },
        25 => upon::value! { name: "None" },
        26 => upon::value! { Some: 255, name: [] },
        27 => upon::value! { c: i64::MIN, },
        28 => upon::value! { x: {inner: (h(0)), name: [12u8, {_x: &&h(1), if: -0.0}, -0.5, [12u8, true, true, 1 < 2,]], if: {}}, type: 'c', aB: "None".to_string() },
        29 => upon::value! { type: vec![h(0), h(1)] },
        30 => upon::value! { é: [h(0)] },
        31 => upon::value! { None: 0 },
        32 => upon::value! { type: {}, },
        33 => upon::value! { type: 'c', inner: None, },
        34 => upon::value! { a: 0.0, },
        35 => upon::value! { Some: &&h(0), },
        36 => upon::value! { aB: [{if: [(h(0)),], b: [Some(h(1))]}, f64::INFINITY, h(2), (h(3))], x: (h(4)), aB: [] },
        37 => upon::value! { Some: 7 - 5, name: {_x: (h(0)), c: {}, a: 7, a: Some(h(1))} },
        38 => upon::value! { b: {if: [{user: !true, loop: Some(h(0)), c: &h(1)}, (h(2), h(3))], true_: &h(4), items: None}, },
        39 => upon::value! { inner: {aB: 0x7f} },
        40 => upon::value! { b: {inner: {}, b: {}}, name: 'é' },
        41 => upon::value! { c: None, items: {é: (h(0)), type: [{k0: true}], name: 1 == 2}, },
        42 => upon::value! { c: &h(0), items: (h(1)), x: (h(2), h(3)), items: String::from(" ") },
        43 => upon::value! { a: &&h(0) },
        44 => upon::value! { c: &&h(0), if: [] },
        45 => upon::value! { _x: {b: (h(0))}, b: (h(1)) },
        46 => upon::value! { b: true },
        47 => upon::value! { user: [String::from("None")] },
        48 => upon::value! { loop: h(0), if: h(1), },
        49 => upon::value! { k0: 1, items: 1e21, _x: 'c', c: " ".to_string() },
        50 => upon::value! { _x: true },
        51 => upon::value! { aB: {}, },
        52 => upon::value! { items: [{type: {name: 2.5f32, name: true, true_: 0x7f}, c: [&h(0),], é: if 1 > 2 { 3 } else { 4 }}, [String::from(""),], &&h(1), None,] },
        53 => upon::value! { b: {}, x: &&h(0), true_: None },
        54 => upon::value! { name: [1 == 2,] },
        55 => upon::value! { é: &&h(0), },
        56 => upon::value! { é: (h(0), h(1)), loop: 12u8, },
        57 => upon::value! { true_: Some(h(0)) },
        58 => upon::value! { _x: String::from("text") },
        59 => upon::value! { k0: h(0), c: 9_000_000_000_i64, aB: h(1), b: [None] },
        60 => upon::value! { _x: "{{ x }}", b: ["text"], if: &h(0) },
        61 => upon::value! { k0: &&h(0), b: String::from("é𝄞"), name: (h(1)), },
        62 => upon::value! { type: {user: h(0), a: Some(h(1)), name: 'c', Some: Some(h(2))}, x: &h(3) },
        63 => upon::value! { inner: h(0), x: {Some: 9_000_000_000_i64, true_: [0.0, ['é'], Some(h(1))]}, é: h(2), user: false, },
        64 => upon::value! { Some: None, None: (true) },
        65 => upon::value! { user: "{{ x }}".to_string() },
        66 => upon::value! { user: {c: ['c'], x: h(0), None: 'c'} },
        67 => upon::value! { user: [{k0: {_x: String::from("a\"b")}}, (h(0)), None], },
        68 => upon::value! { items: 7, },
        69 => upon::value! { _x: (h(0)), },
        70 => upon::value! { true_: " ", é: [h(0), {a: [&&h(1),]}, 9_000_000_000_i64], k0: [] },
        71 => upon::value! { aB: {b: {None: &h(0), k0: 0, type: {}, items: None}, true_: 1.5, aB: {}, Some: ['é',]}, if: 2.5f32, x: "None", k0: {k0: (1, true)}, },
        72 => upon::value! { _x: {loop: false, type: &&h(0), loop: -129, _x: None} },
        73 => upon::value! { c: [Option::<u8>::None, ["text"], &[h(0), h(1)][..], [[(h(2), h(3)), "a\"b", (h(4))]]], },
        74 => upon::value! { Some: h(0), b: h(1), b: [(h(2), h(3)),] },
        75 => upon::value! { aB: "text".to_string() },
        76 => upon::value! { a: Some(h(0)), },
        77 => upon::value! { a: {name: 7 - 5}, _x: (), loop: [[h(0), h(1), h(2), (h(3)),], &h(4),], },
        78 => upon::value! { true_: [[&[h(0), h(1)][..], {inner: true, é: 2.5f32,}, h(2), 1.5], None], if: 12u8 },
        79 => upon::value! { inner: "é𝄞", None: {b: {}}, if: [], b: 'é' },
        80 => upon::value! { if: Some(h(0)) },
        81 => upon::value! { inner: (1, true), },
        82 => upon::value! { Some: &[h(0), h(1)][..], },
        83 => upon::value! { type: [{aB: !true, loop: {None: -0.5, aB: if 1 > 2 { 3 } else { 4 }}}, {true_: 12u8}] },
        84 => upon::value! { c: {} },
        85 => upon::value! { None: {_x: i64::MAX}, k0: None },
        86 => upon::value! { a: [[{é: &h(0), _x: h(1), c: false,}, h(2), 'é', String::from(" ")]] },
        87 => upon::value! { user: &&h(0), type: 'é', _x: ["{{ x }}", 7], if: [9_000_000_000_i64], },
        88 => upon::value! { Some: std::cmp::max::<u8>(3, 4) },
        89 => upon::value! { name: "text", user: &&h(0), k0: [[], None], None: [] },
        90 => upon::value! { true_: 0.0, x: {None: [{loop: true}, h(0)], b: Some(h(1)), None: {aB: Some(h(2)), items: vec![h(3), h(4)], type: {aB: None, c: String::from("None"), Some: " ".to_string()},},} },
        91 => upon::value! { a: 1 == 2, é: String::from("text"), a: "text", true_: (h(0), h(1)) },
        92 => upon::value! { if: (h(0)), Some: [{Some: (h(1)), inner: 'c', loop: None, _x: h(2)}, 'é'], if: [] },
        93 => upon::value! { if: &&h(0) },
        94 => upon::value! { x: "".to_string(), },
        95 => upon::value! { name: None, name: 'c', _x: "text" },
        96 => upon::value! { user: [] },
        97 => upon::value! { Some: -1, c: {if: {None: Some(h(0)), Some: [0x7f, 1,],}, aB: String::from("text"), x: i64::MIN, x: -0.0,}, inner: [] },
        98 => upon::value! { Some: (h(0), h(1)), x: [std::cmp::max::<u8>(3, 4), {loop: 0.0}, [[&h(2), String::from("a\"b"),], 'c'],], x: [{é: &&h(3), _x: 'c',}], },
        99 => upon::value! { é: {}, },
        100 => upon::value! { if: Some(h(0)), },
        101 => upon::value! { x: Some(h(0)) },
        102 => upon::value! { a: i64::MAX, },
        103 => upon::value! { é: 255 },
        104 => upon::value! { a: 'c', loop: 0x7f, k0: h(0) },
        105 => upon::value! { b: "é𝄞" },
        106 => upon::value! { true_: 7, aB: {true_: h(0), Some: [h(1)], type: 7 - 5, Some: {c: &&h(2)},}, type: "None".to_string() },
        107 => upon::value! { None: -1, },
        108 => upon::value! { c: &[h(0), h(1)][..], if: Option::<u8>::None },
        109 => upon::value! { k0: (h(0)) },
        110 => upon::value! { x: f64::INFINITY, },
        111 => upon::value! { if: [{items: [(true), (h(0), h(1)), false, &h(2)]}, 1 == 2], },
        112 => upon::value! { a: {é: [1e21, (h(0)), 'c'], items: Some(h(1)), a: 1 < 2, user: [[std::cmp::max::<u8>(3, 4), &h(2), 255]]}, type: 'c', b: 1.5 },
        113 => upon::value! { inner: {true_: {_x: 0, b: String::from("é𝄞"), true_: {é: &&h(0), user: "".to_string(), if: 'é'}, type: !true,},} },
        114 => upon::value! { _x: false, items: &&h(0) },
        115 => upon::value! { b: {x: None, true_: {true_: Some(h(0))}, None: {None: [h(1),]}, a: (h(2))} },
        116 => upon::value! { aB: &[h(0), h(1)][..], c: 0x7f, inner: (h(2)), true_: {_x: Option::<u8>::None}, },
        117 => upon::value! { x: 0, },
        118 => upon::value! { b: 1 == 2, items: 'c', if: (), },
        119 => upon::value! { inner: [], k0: [[["".to_string()], 0.0], "text", {k0: {aB: 1, Some: (h(0))},}], aB: String::from(""), true_: {if: -0.0, a: h(1)} },
        120 => upon::value! { c: h(0), true_: true, type: "None".to_string(), x: true, },
        121 => upon::value! { type: [[], [[h(0), 'c'],], "é𝄞".to_string(), [(h(1)), {k0: true,}],] },
        122 => upon::value! { inner: Some(h(0)), x: ['c', (h(1)),], k0: (h(2)), if: (h(3)) },
        123 => upon::value! { if: {_x: {type: None,}}, },
        124 => upon::value! { loop: {é: {a: {None: Some(h(0)),},}, name: {}, c: &h(1), inner: &&h(2),}, aB: &[h(3), h(4)][..], name: "", },
        125 => upon::value! { _x: " ", c: {_x: [None], items: [[None, if 1 > 2 { 3 } else { 4 }, 9_000_000_000_i64, None,], None],}, },
        126 => upon::value! { Some: [], c: {name: true}, a: 9_000_000_000_i64, },
        127 => upon::value! { loop: {c: Some(h(0))}, items: 1, aB: [[vec![h(1), h(2)]], String::from("é𝄞")] },
        128 => upon::value! { items: {items: {loop: [], type: h(0), c: {_x: (1, true), inner: 1, c: Option::<u8>::None},}, x: (h(1)), items: i64::MIN,}, None: "{{ x }}", items: {k0: 1.5, Some: None}, true_: Some(h(2)) },
        129 => upon::value! { a: [[['c', i64::MIN, "None"], (h(0), h(1)),], h(2), &h(3), Some(h(4))], },
        130 => upon::value! { type: [(1, true), [{true_: h(0), c: -0.0, true_: &&h(1)},], None], x: 1.5 },
        131 => upon::value! { é: 'é', None: h(0), x: [[[1e21, 0,], {é: Option::<u8>::None, type: false, loop: h(1), x: 1.5,}, 'c',], true, "text", true], x: &&h(2), },
        132 => upon::value! { _x: h(0), inner: 'é', é: {loop: &&h(1), if: [(true), String::from("text")], _x: "text"} },
        133 => upon::value! { é: {b: f64::INFINITY,}, if: {x: None, if: false, é: (h(0), h(1)), name: {_x: 1,},}, },
        134 => upon::value! { loop: {é: 'é'}, Some: {b: {}, user: 1 < 2, true_: h(0), loop: [false]}, Some: (h(1)) },
        135 => upon::value! { user: if 1 > 2 { 3 } else { 4 }, type: None, x: true },
        136 => upon::value! { loop: &&h(0), true_: ["é𝄞".to_string(), vec![h(1), h(2)], None, 'c'], loop: 9_000_000_000_i64, name: {true_: &&h(3), user: "".to_string(), _x: &h(4), if: &h(5)} },
        137 => upon::value! { None: [{_x: 0,}, {inner: (h(0)), c: {k0: None, items: "None".to_string(),}, type: 9_000_000_000_i64}, (h(1), h(2))] },
        138 => upon::value! { items: None, None: String::from("{{ x }}"), },
        139 => upon::value! { name: (h(0)), aB: (1, true), items: {é: f64::INFINITY,}, None: &[h(1), h(2)][..], },
        140 => upon::value! { user: ['c', if 1 > 2 { 3 } else { 4 }], if: &[h(0), h(1)][..] },
        141 => upon::value! { b: None },
        142 => upon::value! { None: {_x: true, Some: {Some: [h(0), 0.0], x: [h(1), 12u8], true_: "{{ x }}".to_string(),}}, loop: {k0: {_x: [1e21, 1 == 2, 0, 12u8,], _x: &&h(2), user: None}, é: [false, [&[h(3), h(4)][..], &&h(5)], true]} },
        143 => upon::value! { k0: (true), true_: 1 < 2, _x: {} },
        144 => upon::value! { name: (h(0)), b: [(), [None, -1, (h(1), h(2)), "None",]], None: &&h(3), name: {k0: {x: h(4), loop: 0.0}, items: true,} },
        145 => upon::value! { c: !true, items: &&h(0), name: " " },
        146 => upon::value! { items: (1, true), },
        147 => upon::value! { aB: Option::<u8>::None, user: {user: 'c',}, type: f64::INFINITY },
        148 => upon::value! { true_: {true_: {inner: [(h(0)), 1 == 2], Some: 1 == 2, loop: ['é', &h(1), 0],},}, x: "None" },
        149 => upon::value! { None: &&h(0), inner: "a\"b", },
        150 => upon::value! { x: 'c', name: &&h(0) },
        151 => upon::value! { None: [{Some: (h(0)),}, {}, {inner: []}, 12u8,] },
        152 => upon::value! { x: "None", None: None, },
        153 => upon::value! { _x: 'é', },
        154 => upon::value! { loop: [[[h(0),], (h(1)), {_x: &h(2), None: h(3), loop: 7 - 5, _x: 1e21}, h(4),],], },
        155 => upon::value! { x: &[h(0), h(1)][..], k0: 2.5f32, x: {_x: None, b: {loop: (h(2)), _x: 255,}, c: 0x7f, k0: {}}, items: false },
        156 => upon::value! { é: h(0), é: false },
        157 => upon::value! { true_: {if: Some(h(0)), a: {}, loop: 1e21}, },
        158 => upon::value! { x: false },
        159 => upon::value! { é: h(0), true_: vec![h(1), h(2)] },
        _ => upon::value! {},
    }
}

fn fields(v: Vec<(&str, Val)>) -> Val {
    Val::Map(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

pub fn means(i: usize, g: &dyn Fn(usize) -> Val) -> Val {
    match i {
        0 => fields(vec![]),
        1 => fields(vec![("Some", g(0))]),
        2 => fields(vec![("k0", Val::None), ("type", g(0)), ("aB", Val::List(vec![Val::Bool(false)])), ("items", g(1))]),
        3 => fields(vec![("aB", Val::Int(i64::MIN)), ("b", Val::str("{{ x }}")), ("aB", g(0))]),
        4 => fields(vec![("name", g(0)), ("Some", Val::None), ("type", fields(vec![("name", Val::None), ("a", fields(vec![("é", Val::None)]))]))]),
        5 => fields(vec![("Some", Val::Float(-0.0))]),
        6 => fields(vec![("Some", Val::Bool(false)), ("None", fields(vec![("aB", Val::List(vec![g(0), g(1)])), ("x", Val::List(vec![fields(vec![("k0", Val::Int(255))])]))]))]),
        7 => fields(vec![("true_", Val::Bool(false)), ("é", g(0)), ("loop", Val::Float(2.5)), ("_x", Val::List(vec![fields(vec![("None", Val::str("é"))]), Val::str("")]))]),
        8 => fields(vec![("_x", Val::str("c")), ("loop", Val::List(vec![Val::List(vec![fields(vec![("name", Val::None), ("name", Val::List(vec![g(0), g(1)])), ("inner", g(2))])]), Val::str(" "), Val::str("é")]))]),
        9 => fields(vec![("_x", Val::List(vec![Val::List(vec![g(0), g(1)])])), ("name", Val::Int(0))]),
        10 => fields(vec![("b", Val::List(vec![Val::Float(1.5), fields(vec![("inner", Val::List(vec![Val::Int(i64::MIN), g(0)])), ("user", Val::List(vec![])), ("inner", Val::List(vec![]))])])), ("a", Val::List(vec![Val::Bool(false)])), ("Some", fields(vec![("k0", fields(vec![]))])), ("aB", Val::List(vec![Val::Int(127)]))]),
        11 => fields(vec![("k0", g(0)), ("type", Val::Bool(false)), ("k0", g(1))]),
        12 => fields(vec![("loop", Val::str("{{ x }}"))]),
        13 => fields(vec![("None", g(0)), ("b", fields(vec![("true_", g(1))])), ("items", fields(vec![]))]),
        14 => fields(vec![("Some", g(0)), ("é", Val::Int(-1))]),
        15 => fields(vec![("loop", g(0)), ("inner", Val::Int(-1)), ("é", fields(vec![("aB", g(1)), ("k0", fields(vec![("x", Val::List(vec![g(2), g(3)]))])), ("if", Val::List(vec![g(4), g(5)]))])), ("loop", Val::Int(i64::MIN))]),
        16 => fields(vec![("c", fields(vec![("_x", Val::List(vec![])), ("user", Val::Float(1e21)), ("inner", Val::str("{{ x }}")), ("c", Val::Int(2))])), ("a", Val::Float(-0.5))]),
        17 => fields(vec![("Some", Val::str("c")), ("true_", Val::List(vec![Val::List(vec![g(0), g(1), g(2), fields(vec![])])]))]),
        18 => fields(vec![("name", fields(vec![("a", g(0)), ("type", g(1)), ("name", Val::Int(12))]))]),
        19 => fields(vec![("k0", fields(vec![("aB", Val::Int(12)), ("c", Val::Int(1)), ("None", Val::List(vec![Val::str("a\"b"), g(0)]))]))]),
        20 => fields(vec![("true_", Val::None)]),
        21 => fields(vec![("name", Val::Float(-0.5))]),
        22 => fields(vec![("loop", g(0)), ("true_", Val::Float(1.5)), ("é", Val::None)]),
        23 => fields(vec![("Some", Val::Bool(true)), ("Some", fields(vec![])), ("inner", Val::Int(255))]),
        24 => fields(vec![("x", g(0))]),
        25 => fields(vec![("name", Val::str("None"))]),
        26 => fields(vec![("Some", Val::Int(255)), ("name", Val::List(vec![]))]),
        27 => fields(vec![("c", Val::Int(i64::MIN))]),
        28 => fields(vec![("x", fields(vec![("inner", g(0)), ("name", Val::List(vec![Val::Int(12), fields(vec![("_x", g(1)), ("if", Val::Float(-0.0))]), Val::Float(-0.5), Val::List(vec![Val::Int(12), Val::Bool(true), Val::Bool(true), Val::Bool(true)])])), ("if", fields(vec![]))])), ("type", Val::str("c")), ("aB", Val::str("None"))]),
        29 => fields(vec![("type", Val::List(vec![g(0), g(1)]))]),
        30 => fields(vec![("é", Val::List(vec![g(0)]))]),
        31 => fields(vec![("None", Val::Int(0))]),
        32 => fields(vec![("type", fields(vec![]))]),
        33 => fields(vec![("type", Val::str("c")), ("inner", Val::None)]),
        34 => fields(vec![("a", Val::Float(0.0))]),
        35 => fields(vec![("Some", g(0))]),
        36 => fields(vec![("aB", Val::List(vec![fields(vec![("if", Val::List(vec![g(0)])), ("b", Val::List(vec![g(1)]))]), Val::Float(f64::INFINITY), g(2), g(3)])), ("x", g(4)), ("aB", Val::List(vec![]))]),
        37 => fields(vec![("Some", Val::Int(2)), ("name", fields(vec![("_x", g(0)), ("c", fields(vec![])), ("a", Val::Int(7)), ("a", g(1))]))]),
        38 => fields(vec![("b", fields(vec![("if", Val::List(vec![fields(vec![("user", Val::Bool(false)), ("loop", g(0)), ("c", g(1))]), Val::List(vec![g(2), g(3)])])), ("true_", g(4)), ("items", Val::None)]))]),
        39 => fields(vec![("inner", fields(vec![("aB", Val::Int(127))]))]),
        40 => fields(vec![("b", fields(vec![("inner", fields(vec![])), ("b", fields(vec![]))])), ("name", Val::str("é"))]),
        41 => fields(vec![("c", Val::None), ("items", fields(vec![("é", g(0)), ("type", Val::List(vec![fields(vec![("k0", Val::Bool(true))])])), ("name", Val::Bool(false))]))]),
        42 => fields(vec![("c", g(0)), ("items", g(1)), ("x", Val::List(vec![g(2), g(3)])), ("items", Val::str(" "))]),
        43 => fields(vec![("a", g(0))]),
        44 => fields(vec![("c", g(0)), ("if", Val::List(vec![]))]),
        45 => fields(vec![("_x", fields(vec![("b", g(0))])), ("b", g(1))]),
        46 => fields(vec![("b", Val::Bool(true))]),
        47 => fields(vec![("user", Val::List(vec![Val::str("None")]))]),
        48 => fields(vec![("loop", g(0)), ("if", g(1))]),
        49 => fields(vec![("k0", Val::Int(1)), ("items", Val::Float(1e21)), ("_x", Val::str("c")), ("c", Val::str(" "))]),
        50 => fields(vec![("_x", Val::Bool(true))]),
        51 => fields(vec![("aB", fields(vec![]))]),
        52 => fields(vec![("items", Val::List(vec![fields(vec![("type", fields(vec![("name", Val::Float(2.5)), ("name", Val::Bool(true)), ("true_", Val::Int(127))])), ("c", Val::List(vec![g(0)])), ("é", Val::Int(4))]), Val::List(vec![Val::str("")]), g(1), Val::None]))]),
        53 => fields(vec![("b", fields(vec![])), ("x", g(0)), ("true_", Val::None)]),
        54 => fields(vec![("name", Val::List(vec![Val::Bool(false)]))]),
        55 => fields(vec![("é", g(0))]),
        56 => fields(vec![("é", Val::List(vec![g(0), g(1)])), ("loop", Val::Int(12))]),
        57 => fields(vec![("true_", g(0))]),
        58 => fields(vec![("_x", Val::str("text"))]),
        59 => fields(vec![("k0", g(0)), ("c", Val::Int(9_000_000_000)), ("aB", g(1)), ("b", Val::List(vec![Val::None]))]),
        60 => fields(vec![("_x", Val::str("{{ x }}")), ("b", Val::List(vec![Val::str("text")])), ("if", g(0))]),
        61 => fields(vec![("k0", g(0)), ("b", Val::str("é𝄞")), ("name", g(1))]),
        62 => fields(vec![("type", fields(vec![("user", g(0)), ("a", g(1)), ("name", Val::str("c")), ("Some", g(2))])), ("x", g(3))]),
        63 => fields(vec![("inner", g(0)), ("x", fields(vec![("Some", Val::Int(9_000_000_000)), ("true_", Val::List(vec![Val::Float(0.0), Val::List(vec![Val::str("é")]), g(1)]))])), ("é", g(2)), ("user", Val::Bool(false))]),
        64 => fields(vec![("Some", Val::None), ("None", Val::Bool(true))]),
        65 => fields(vec![("user", Val::str("{{ x }}"))]),
        66 => fields(vec![("user", fields(vec![("c", Val::List(vec![Val::str("c")])), ("x", g(0)), ("None", Val::str("c"))]))]),
        67 => fields(vec![("user", Val::List(vec![fields(vec![("k0", fields(vec![("_x", Val::str("a\"b"))]))]), g(0), Val::None]))]),
        68 => fields(vec![("items", Val::Int(7))]),
        69 => fields(vec![("_x", g(0))]),
        70 => fields(vec![("true_", Val::str(" ")), ("é", Val::List(vec![g(0), fields(vec![("a", Val::List(vec![g(1)]))]), Val::Int(9_000_000_000)])), ("k0", Val::List(vec![]))]),
        71 => fields(vec![("aB", fields(vec![("b", fields(vec![("None", g(0)), ("k0", Val::Int(0)), ("type", fields(vec![])), ("items", Val::None)])), ("true_", Val::Float(1.5)), ("aB", fields(vec![])), ("Some", Val::List(vec![Val::str("é")]))])), ("if", Val::Float(2.5)), ("x", Val::str("None")), ("k0", fields(vec![("k0", Val::List(vec![Val::Int(1), Val::Bool(true)]))]))]),
        72 => fields(vec![("_x", fields(vec![("loop", Val::Bool(false)), ("type", g(0)), ("loop", Val::Int(-129)), ("_x", Val::None)]))]),
        73 => fields(vec![("c", Val::List(vec![Val::None, Val::List(vec![Val::str("text")]), Val::List(vec![g(0), g(1)]), Val::List(vec![Val::List(vec![Val::List(vec![g(2), g(3)]), Val::str("a\"b"), g(4)])])]))]),
        74 => fields(vec![("Some", g(0)), ("b", g(1)), ("b", Val::List(vec![Val::List(vec![g(2), g(3)])]))]),
        75 => fields(vec![("aB", Val::str("text"))]),
        76 => fields(vec![("a", g(0))]),
        77 => fields(vec![("a", fields(vec![("name", Val::Int(2))])), ("_x", Val::None), ("loop", Val::List(vec![Val::List(vec![g(0), g(1), g(2), g(3)]), g(4)]))]),
        78 => fields(vec![("true_", Val::List(vec![Val::List(vec![Val::List(vec![g(0), g(1)]), fields(vec![("inner", Val::Bool(true)), ("é", Val::Float(2.5))]), g(2), Val::Float(1.5)]), Val::None])), ("if", Val::Int(12))]),
        79 => fields(vec![("inner", Val::str("é𝄞")), ("None", fields(vec![("b", fields(vec![]))])), ("if", Val::List(vec![])), ("b", Val::str("é"))]),
        80 => fields(vec![("if", g(0))]),
        81 => fields(vec![("inner", Val::List(vec![Val::Int(1), Val::Bool(true)]))]),
        82 => fields(vec![("Some", Val::List(vec![g(0), g(1)]))]),
        83 => fields(vec![("type", Val::List(vec![fields(vec![("aB", Val::Bool(false)), ("loop", fields(vec![("None", Val::Float(-0.5)), ("aB", Val::Int(4))]))]), fields(vec![("true_", Val::Int(12))])]))]),
        84 => fields(vec![("c", fields(vec![]))]),
        85 => fields(vec![("None", fields(vec![("_x", Val::Int(i64::MAX))])), ("k0", Val::None)]),
        86 => fields(vec![("a", Val::List(vec![Val::List(vec![fields(vec![("é", g(0)), ("_x", g(1)), ("c", Val::Bool(false))]), g(2), Val::str("é"), Val::str(" ")])]))]),
        87 => fields(vec![("user", g(0)), ("type", Val::str("é")), ("_x", Val::List(vec![Val::str("{{ x }}"), Val::Int(7)])), ("if", Val::List(vec![Val::Int(9_000_000_000)]))]),
        88 => fields(vec![("Some", Val::Int(4))]),
        89 => fields(vec![("name", Val::str("text")), ("user", g(0)), ("k0", Val::List(vec![Val::List(vec![]), Val::None])), ("None", Val::List(vec![]))]),
        90 => fields(vec![("true_", Val::Float(0.0)), ("x", fields(vec![("None", Val::List(vec![fields(vec![("loop", Val::Bool(true))]), g(0)])), ("b", g(1)), ("None", fields(vec![("aB", g(2)), ("items", Val::List(vec![g(3), g(4)])), ("type", fields(vec![("aB", Val::None), ("c", Val::str("None")), ("Some", Val::str(" "))]))]))]))]),
        91 => fields(vec![("a", Val::Bool(false)), ("é", Val::str("text")), ("a", Val::str("text")), ("true_", Val::List(vec![g(0), g(1)]))]),
        92 => fields(vec![("if", g(0)), ("Some", Val::List(vec![fields(vec![("Some", g(1)), ("inner", Val::str("c")), ("loop", Val::None), ("_x", g(2))]), Val::str("é")])), ("if", Val::List(vec![]))]),
        93 => fields(vec![("if", g(0))]),
        94 => fields(vec![("x", Val::str(""))]),
        95 => fields(vec![("name", Val::None), ("name", Val::str("c")), ("_x", Val::str("text"))]),
        96 => fields(vec![("user", Val::List(vec![]))]),
        97 => fields(vec![("Some", Val::Int(-1)), ("c", fields(vec![("if", fields(vec![("None", g(0)), ("Some", Val::List(vec![Val::Int(127), Val::Int(1)]))])), ("aB", Val::str("text")), ("x", Val::Int(i64::MIN)), ("x", Val::Float(-0.0))])), ("inner", Val::List(vec![]))]),
        98 => fields(vec![("Some", Val::List(vec![g(0), g(1)])), ("x", Val::List(vec![Val::Int(4), fields(vec![("loop", Val::Float(0.0))]), Val::List(vec![Val::List(vec![g(2), Val::str("a\"b")]), Val::str("c")])])), ("x", Val::List(vec![fields(vec![("é", g(3)), ("_x", Val::str("c"))])]))]),
        99 => fields(vec![("é", fields(vec![]))]),
        100 => fields(vec![("if", g(0))]),
        101 => fields(vec![("x", g(0))]),
        102 => fields(vec![("a", Val::Int(i64::MAX))]),
        103 => fields(vec![("é", Val::Int(255))]),
        104 => fields(vec![("a", Val::str("c")), ("loop", Val::Int(127)), ("k0", g(0))]),
        105 => fields(vec![("b", Val::str("é𝄞"))]),
        106 => fields(vec![("true_", Val::Int(7)), ("aB", fields(vec![("true_", g(0)), ("Some", Val::List(vec![g(1)])), ("type", Val::Int(2)), ("Some", fields(vec![("c", g(2))]))])), ("type", Val::str("None"))]),
        107 => fields(vec![("None", Val::Int(-1))]),
        108 => fields(vec![("c", Val::List(vec![g(0), g(1)])), ("if", Val::None)]),
        109 => fields(vec![("k0", g(0))]),
        110 => fields(vec![("x", Val::Float(f64::INFINITY))]),
        111 => fields(vec![("if", Val::List(vec![fields(vec![("items", Val::List(vec![Val::Bool(true), Val::List(vec![g(0), g(1)]), Val::Bool(false), g(2)]))]), Val::Bool(false)]))]),
        112 => fields(vec![("a", fields(vec![("é", Val::List(vec![Val::Float(1e21), g(0), Val::str("c")])), ("items", g(1)), ("a", Val::Bool(true)), ("user", Val::List(vec![Val::List(vec![Val::Int(4), g(2), Val::Int(255)])]))])), ("type", Val::str("c")), ("b", Val::Float(1.5))]),
        113 => fields(vec![("inner", fields(vec![("true_", fields(vec![("_x", Val::Int(0)), ("b", Val::str("é𝄞")), ("true_", fields(vec![("é", g(0)), ("user", Val::str("")), ("if", Val::str("é"))])), ("type", Val::Bool(false))]))]))]),
        114 => fields(vec![("_x", Val::Bool(false)), ("items", g(0))]),
        115 => fields(vec![("b", fields(vec![("x", Val::None), ("true_", fields(vec![("true_", g(0))])), ("None", fields(vec![("None", Val::List(vec![g(1)]))])), ("a", g(2))]))]),
        116 => fields(vec![("aB", Val::List(vec![g(0), g(1)])), ("c", Val::Int(127)), ("inner", g(2)), ("true_", fields(vec![("_x", Val::None)]))]),
        117 => fields(vec![("x", Val::Int(0))]),
        118 => fields(vec![("b", Val::Bool(false)), ("items", Val::str("c")), ("if", Val::None)]),
        119 => fields(vec![("inner", Val::List(vec![])), ("k0", Val::List(vec![Val::List(vec![Val::List(vec![Val::str("")]), Val::Float(0.0)]), Val::str("text"), fields(vec![("k0", fields(vec![("aB", Val::Int(1)), ("Some", g(0))]))])])), ("aB", Val::str("")), ("true_", fields(vec![("if", Val::Float(-0.0)), ("a", g(1))]))]),
        120 => fields(vec![("c", g(0)), ("true_", Val::Bool(true)), ("type", Val::str("None")), ("x", Val::Bool(true))]),
        121 => fields(vec![("type", Val::List(vec![Val::List(vec![]), Val::List(vec![Val::List(vec![g(0), Val::str("c")])]), Val::str("é𝄞"), Val::List(vec![g(1), fields(vec![("k0", Val::Bool(true))])])]))]),
        122 => fields(vec![("inner", g(0)), ("x", Val::List(vec![Val::str("c"), g(1)])), ("k0", g(2)), ("if", g(3))]),
        123 => fields(vec![("if", fields(vec![("_x", fields(vec![("type", Val::None)]))]))]),
        124 => fields(vec![("loop", fields(vec![("é", fields(vec![("a", fields(vec![("None", g(0))]))])), ("name", fields(vec![])), ("c", g(1)), ("inner", g(2))])), ("aB", Val::List(vec![g(3), g(4)])), ("name", Val::str(""))]),
        125 => fields(vec![("_x", Val::str(" ")), ("c", fields(vec![("_x", Val::List(vec![Val::None])), ("items", Val::List(vec![Val::List(vec![Val::None, Val::Int(4), Val::Int(9_000_000_000), Val::None]), Val::None]))]))]),
        126 => fields(vec![("Some", Val::List(vec![])), ("c", fields(vec![("name", Val::Bool(true))])), ("a", Val::Int(9_000_000_000))]),
        127 => fields(vec![("loop", fields(vec![("c", g(0))])), ("items", Val::Int(1)), ("aB", Val::List(vec![Val::List(vec![Val::List(vec![g(1), g(2)])]), Val::str("é𝄞")]))]),
        128 => fields(vec![("items", fields(vec![("items", fields(vec![("loop", Val::List(vec![])), ("type", g(0)), ("c", fields(vec![("_x", Val::List(vec![Val::Int(1), Val::Bool(true)])), ("inner", Val::Int(1)), ("c", Val::None)]))])), ("x", g(1)), ("items", Val::Int(i64::MIN))])), ("None", Val::str("{{ x }}")), ("items", fields(vec![("k0", Val::Float(1.5)), ("Some", Val::None)])), ("true_", g(2))]),
        129 => fields(vec![("a", Val::List(vec![Val::List(vec![Val::List(vec![Val::str("c"), Val::Int(i64::MIN), Val::str("None")]), Val::List(vec![g(0), g(1)])]), g(2), g(3), g(4)]))]),
        130 => fields(vec![("type", Val::List(vec![Val::List(vec![Val::Int(1), Val::Bool(true)]), Val::List(vec![fields(vec![("true_", g(0)), ("c", Val::Float(-0.0)), ("true_", g(1))])]), Val::None])), ("x", Val::Float(1.5))]),
        131 => fields(vec![("é", Val::str("é")), ("None", g(0)), ("x", Val::List(vec![Val::List(vec![Val::List(vec![Val::Float(1e21), Val::Int(0)]), fields(vec![("é", Val::None), ("type", Val::Bool(false)), ("loop", g(1)), ("x", Val::Float(1.5))]), Val::str("c")]), Val::Bool(true), Val::str("text"), Val::Bool(true)])), ("x", g(2))]),
        132 => fields(vec![("_x", g(0)), ("inner", Val::str("é")), ("é", fields(vec![("loop", g(1)), ("if", Val::List(vec![Val::Bool(true), Val::str("text")])), ("_x", Val::str("text"))]))]),
        133 => fields(vec![("é", fields(vec![("b", Val::Float(f64::INFINITY))])), ("if", fields(vec![("x", Val::None), ("if", Val::Bool(false)), ("é", Val::List(vec![g(0), g(1)])), ("name", fields(vec![("_x", Val::Int(1))]))]))]),
        134 => fields(vec![("loop", fields(vec![("é", Val::str("é"))])), ("Some", fields(vec![("b", fields(vec![])), ("user", Val::Bool(true)), ("true_", g(0)), ("loop", Val::List(vec![Val::Bool(false)]))])), ("Some", g(1))]),
        135 => fields(vec![("user", Val::Int(4)), ("type", Val::None), ("x", Val::Bool(true))]),
        136 => fields(vec![("loop", g(0)), ("true_", Val::List(vec![Val::str("é𝄞"), Val::List(vec![g(1), g(2)]), Val::None, Val::str("c")])), ("loop", Val::Int(9_000_000_000)), ("name", fields(vec![("true_", g(3)), ("user", Val::str("")), ("_x", g(4)), ("if", g(5))]))]),
        137 => fields(vec![("None", Val::List(vec![fields(vec![("_x", Val::Int(0))]), fields(vec![("inner", g(0)), ("c", fields(vec![("k0", Val::None), ("items", Val::str("None"))])), ("type", Val::Int(9_000_000_000))]), Val::List(vec![g(1), g(2)])]))]),
        138 => fields(vec![("items", Val::None), ("None", Val::str("{{ x }}"))]),
        139 => fields(vec![("name", g(0)), ("aB", Val::List(vec![Val::Int(1), Val::Bool(true)])), ("items", fields(vec![("é", Val::Float(f64::INFINITY))])), ("None", Val::List(vec![g(1), g(2)]))]),
        140 => fields(vec![("user", Val::List(vec![Val::str("c"), Val::Int(4)])), ("if", Val::List(vec![g(0), g(1)]))]),
        141 => fields(vec![("b", Val::None)]),
        142 => fields(vec![("None", fields(vec![("_x", Val::Bool(true)), ("Some", fields(vec![("Some", Val::List(vec![g(0), Val::Float(0.0)])), ("x", Val::List(vec![g(1), Val::Int(12)])), ("true_", Val::str("{{ x }}"))]))])), ("loop", fields(vec![("k0", fields(vec![("_x", Val::List(vec![Val::Float(1e21), Val::Bool(false), Val::Int(0), Val::Int(12)])), ("_x", g(2)), ("user", Val::None)])), ("é", Val::List(vec![Val::Bool(false), Val::List(vec![Val::List(vec![g(3), g(4)]), g(5)]), Val::Bool(true)]))]))]),
        143 => fields(vec![("k0", Val::Bool(true)), ("true_", Val::Bool(true)), ("_x", fields(vec![]))]),
        144 => fields(vec![("name", g(0)), ("b", Val::List(vec![Val::None, Val::List(vec![Val::None, Val::Int(-1), Val::List(vec![g(1), g(2)]), Val::str("None")])])), ("None", g(3)), ("name", fields(vec![("k0", fields(vec![("x", g(4)), ("loop", Val::Float(0.0))])), ("items", Val::Bool(true))]))]),
        145 => fields(vec![("c", Val::Bool(false)), ("items", g(0)), ("name", Val::str(" "))]),
        146 => fields(vec![("items", Val::List(vec![Val::Int(1), Val::Bool(true)]))]),
        147 => fields(vec![("aB", Val::None), ("user", fields(vec![("user", Val::str("c"))])), ("type", Val::Float(f64::INFINITY))]),
        148 => fields(vec![("true_", fields(vec![("true_", fields(vec![("inner", Val::List(vec![g(0), Val::Bool(false)])), ("Some", Val::Bool(false)), ("loop", Val::List(vec![Val::str("é"), g(1), Val::Int(0)]))]))])), ("x", Val::str("None"))]),
        149 => fields(vec![("None", g(0)), ("inner", Val::str("a\"b"))]),
        150 => fields(vec![("x", Val::str("c")), ("name", g(0))]),
        151 => fields(vec![("None", Val::List(vec![fields(vec![("Some", g(0))]), fields(vec![]), fields(vec![("inner", Val::List(vec![]))]), Val::Int(12)]))]),
        152 => fields(vec![("x", Val::str("None")), ("None", Val::None)]),
        153 => fields(vec![("_x", Val::str("é"))]),
        154 => fields(vec![("loop", Val::List(vec![Val::List(vec![Val::List(vec![g(0)]), g(1), fields(vec![("_x", g(2)), ("None", g(3)), ("loop", Val::Int(2)), ("_x", Val::Float(1e21))]), g(4)])]))]),
        155 => fields(vec![("x", Val::List(vec![g(0), g(1)])), ("k0", Val::Float(2.5)), ("x", fields(vec![("_x", Val::None), ("b", fields(vec![("loop", g(2)), ("_x", Val::Int(255))])), ("c", Val::Int(127)), ("k0", fields(vec![]))])), ("items", Val::Bool(false))]),
        156 => fields(vec![("é", g(0)), ("é", Val::Bool(false))]),
        157 => fields(vec![("true_", fields(vec![("if", g(0)), ("a", fields(vec![])), ("loop", Val::Float(1e21))]))]),
        158 => fields(vec![("x", Val::Bool(false))]),
        159 => fields(vec![("é", g(0)), ("true_", Val::List(vec![g(1), g(2)]))]),
        _ => fields(vec![]),
    }
}
