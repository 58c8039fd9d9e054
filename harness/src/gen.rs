//! Workload generators: value trees, strings, numbers, names, formatting configurations.

use crate::model::{N, T, V};
use crate::rng::Rng;
#[cfg(feature = "format")]
use kserd::fmt::FormattingConfig;

#[derive(Clone, Copy)]
pub struct Prof {
    pub max_depth: usize,
    pub max_items: usize,
    /// budget of nodes
    pub nodes: usize,
    /// chance in 8 of an identity on a node
    pub id8: usize,
    /// plain strings only
    pub plain: bool,
}

impl Prof {
    pub fn small() -> Prof {
        Prof { max_depth: 3, max_items: 3, nodes: 10, id8: 3, plain: false }
    }
    pub fn mid() -> Prof {
        Prof { max_depth: 5, max_items: 5, nodes: 40, id8: 3, plain: false }
    }
    pub fn wide() -> Prof {
        Prof { max_depth: 3, max_items: 24, nodes: 120, id8: 2, plain: false }
    }
    pub fn deep() -> Prof {
        Prof { max_depth: 12, max_items: 2, nodes: 60, id8: 3, plain: true }
    }
    pub fn pick(r: &mut Rng) -> Prof {
        let mut p = match r.below(10) {
            0..=4 => Prof::small(),
            5..=7 => Prof::mid(),
            8 => Prof::wide(),
            _ => Prof::deep(),
        };
        if r.chance(1, 3) {
            p.plain = true;
        }
        p.id8 = *r.pick(&[0, 2, 4, 8]);
        p
    }
}

pub const NAMES: &[&str] = &[
    "a", "b", "c", "x1", "foo", "bar-baz", "snake_case", "Camel", "_", "_under", "A-Name", "e", "E1",
    "inf", "NaN", "nan", "infinity", "true", "false", "trueish", "falsey-x", "str", "string", "strx",
    "b91", "None", "Some", "Ok", "Err", "i32", "f64", "u8", "bool", "Vec", "key", "list", "in-line",
    "n", "N", "i", "f", "e5", "ei-n", "a-very-long-field-name-that-takes-up-columns", "Z9",
];

pub fn name(r: &mut Rng) -> String {
    if r.chance(2, 3) {
        r.pick(NAMES).to_string()
    } else {
        const FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
        const REST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789-";
        let mut s = String::new();
        s.push(*r.pick(FIRST) as char);
        let n = if r.chance(1, 150) { long(r, 9) } else { r.below(8) };
        for _ in 0..n {
            s.push(*r.pick(REST) as char);
        }
        s
    }
}

/// A length past the usual, up to the power of two, the larger the rarer.
pub fn long(r: &mut Rng, log: usize) -> usize {
    let e = r.range(5, log + 1);
    match r.below(4) {
        0 => (1usize << e) - 1 + r.below(3),
        _ => r.range(1 << (e - 1), 1 << e),
    }
}

/// A name usable as an identity: `true` and `false` are reserved words of the text format.
pub fn ident(r: &mut Rng) -> String {
    loop {
        let n = name(r);
        if n != "true" && n != "false" {
            return n;
        }
    }
}

const STR_BITS: &[&str] = &[
    "", " ", "\n", "\t", "\r\n", "\r", "\"", "'", "#", "`", "=", "|", "*", "^", "!", "%", "~", "&",
    "_", "\\", "/", ":", "<", ">", "(", ")", "[", "]", "{", "}", ",", ".", ";", "$", "@", "?", "+",
    "-", "a = ", "a =", "[x]", "[[x]]", ":id", "true", "12", "inf", "NaN", "é", "❤", "😀", "\u{0}",
    "\u{301}", "\u{2028}", "\u{feff}", "\\n", "\\\"", "b91'", "str'", "str", "hello", "()", "{}",
    "    ", "x: ", "<id>", "\u{7f}", "߷",
];

pub const DELIMS: &str = "\"'#`=|*^!%~&_\\/:<>()";

pub fn string(r: &mut Rng, plain: bool) -> String {
    if plain {
        return r
            .pick(&["", "a", "hello", "Hello, world!", "x y z", "lorem ipsum dolor sit amet", "0"])
            .to_string();
    }
    if r.chance(1, 300) {
        // long, of a few parts over and over
        let n = long(r, 12);
        let parts: Vec<&str> = (0..r.range(1, 8)).map(|_| *r.pick(STR_BITS)).chain(Some("lorem")).collect();
        let mut s = String::new();
        while s.len() < n {
            s.push_str(r.pick(&parts));
        }
        s.push_str(r.pick(STR_BITS));
        return s;
    }
    match r.below(12) {
        0 => String::new(),
        1..=6 => {
            let n = r.below(6);
            (0..n).map(|_| *r.pick(STR_BITS)).collect()
        }
        7 => {
            // uses up a prefix of the usual delimiters, plus noise
            let n = r.below(DELIMS.chars().count() + 1);
            let mut s: String = DELIMS.chars().take(n).collect();
            for _ in 0..r.below(4) {
                s.push_str(r.pick(STR_BITS));
            }
            s
        }
        8 => {
            // a random subset of the delimiters
            let mut s = String::new();
            for c in DELIMS.chars() {
                if !r.chance(1, 8) {
                    s.push(c);
                    if r.chance(1, 6) {
                        s.push_str(r.pick(STR_BITS));
                    }
                }
            }
            s
        }
        9 => (0..r.below(24))
            .map(|_| char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{fffd}'))
            .collect(),
        10 => (0..r.below(80)).map(|_| (32 + r.below(95)) as u8 as char).collect(),
        _ => (0..r.below(12)).map(|_| r.below(128) as u8 as char).collect(),
    }
}

/// A text that is nearly `s`: a character more or less, another case, blanks around it.
pub fn near(r: &mut Rng, s: &str) -> String {
    const MORE: &[char] = &[
        ' ', '\n', '\t', '\r', '\0', 'a', 's', '_', '-', '0', '1', '\'', '"', ':', '\u{301}', '\u{fe0f}', '\u{200d}', '\u{feff}', '\u{a0}', '\u{e9}',
        '\u{1f600}', '\u{85}', '\u{2028}',
    ];
    let mut c: Vec<char> = s.chars().collect();
    match r.below(8) {
        0 | 1 => c.push(*r.pick(MORE)),
        2 => c.insert(0, *r.pick(MORE)),
        3 if !c.is_empty() => {
            let i = r.below(c.len());
            c.remove(i);
        }
        4 => return s.to_uppercase(),
        5 => return s.to_lowercase(),
        6 if !c.is_empty() => {
            let i = r.below(c.len());
            c.insert(i, c[i]);
        }
        _ => {
            let i = r.below(c.len() + 1);
            c.insert(i, *r.pick(MORE));
        }
    }
    c.into_iter().collect()
}

pub fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => r.below(8),
        4 => r.below(40),
        _ if r.chance(1, 30) => long(r, 13),
        _ => r.below(200),
    };
    let mut b = match r.below(4) {
        0 => vec![0; n],
        1 => vec![255; n],
        _ => (0..n).map(|_| r.next() as u8).collect(),
    };
    if r.chance(1, 6) {
        let same = r.below(n + 1);
        let end = *r.pick(&[0, 255, b'\n', b'=']);
        b[same..].fill(end);
    }
    b
}

pub fn float(r: &mut Rng) -> f64 {
    const SPECIAL: &[f64] = &[
        0.0, -0.0, 1.0, -1.0, 0.5, 3.14, -2.5, 1e-10, 1e10, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 1e38,
        1e39, 1e100, 1e300, -1e300, 5e-324, 2.2250738585072014e-308, f64::MAX, f64::MIN, f64::EPSILON,
        9007199254740992.0, 9007199254740993.0, -9007199254740992.0, 18446744073709551616.0,
        170141183460469231731687303715884105728.0, -170141183460469231731687303715884105728.0,
        340282366920938463463374607431768211456.0, 340282366920938425684442744474606501888.0,
        0.1, 0.30000000000000004, 3.00000000005, 2.99999999995, 100.0, 99.99, 1e-300, 1.5e300,
        123456789012345680.0, 4503599627370496.5, 0.1e-6, -170141183460469269510619166673045815296.0,
    ];
    match r.below(10) {
        0 => f64::NAN,
        1 => f64::from_bits(0xfff8_0000_0000_0001 | (r.next() & 0xffff)),
        2 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY]),
        3..=5 => *r.pick(SPECIAL),
        6 => f64::from_bits(r.next()),
        7 => (r.below(2000) as f64 - 1000.0) / 8.0,
        8 => {
            let x = (r.next() >> r.below(64)) as f64;
            let x = if r.bool() { x } else { -x };
            x + *r.pick(&[0.0, 0.5, 1e-11, 5e-11, -5e-11, 1e-9])
        }
        _ => {
            let e = r.below(280) as i32 - 140;
            (1.0 + r.below(1000) as f64 / 1000.0) * 2f64.powi(e) * if r.bool() { 1.0 } else { -1.0 }
        }
    }
}

pub fn uint(r: &mut Rng) -> u128 {
    match r.below(6) {
        0 => *r.pick(&[
            0, 1, 2, 3, 100, 255, 256, 65535, 65536, u32::MAX as u128, u64::MAX as u128,
            u64::MAX as u128 + 1, u128::MAX, u128::MAX - 1, i128::MAX as u128, i128::MAX as u128 + 1,
            1 << 53, (1 << 53) + 1, (1 << 53) - 1, 1 << 127, (1 << 64) + 1,
        ]),
        1 => r.below(10) as u128,
        2 => r.below(100000) as u128,
        3 => {
            // next to a power of two
            let e = r.below(128);
            let d = r.below(3) as u128;
            (1u128 << e).wrapping_add(d).wrapping_sub(1)
        }
        _ => r.u128() >> r.below(128),
    }
}

pub fn int(r: &mut Rng) -> i128 {
    match r.below(6) {
        0 => *r.pick(&[
            0, -1, 1, i8::MIN as i128, i8::MAX as i128, i16::MIN as i128, i32::MIN as i128,
            i64::MIN as i128, i64::MIN as i128 - 1, i128::MIN, i128::MAX, i128::MIN + 1,
            -(1 << 53), -(1 << 53) - 1, (1 << 53) + 1,
        ]),
        1 => r.below(20) as i128 - 10,
        2 => r.below(200000) as i128 - 100000,
        3 => {
            let e = r.below(127);
            let v = (1i128 << e).wrapping_add(r.below(3) as i128 - 1);
            if r.bool() { v } else { v.wrapping_neg() }
        }
        _ => (r.u128() as i128) >> r.below(128),
    }
}

pub fn num(r: &mut Rng) -> N {
    match r.below(6) {
        0 | 1 => N::U(uint(r)),
        2 | 3 => N::I(int(r)),
        _ => N::F(float(r)),
    }
}

pub fn tree(r: &mut Rng, p: Prof) -> T {
    let mut left = p.nodes;
    node(r, &p, p.max_depth, &mut left, true)
}

fn opt_id(r: &mut Rng, p: &Prof) -> Option<String> {
    if r.below(8) < p.id8 {
        Some(ident(r))
    } else {
        None
    }
}

fn node(r: &mut Rng, p: &Prof, depth: usize, left: &mut usize, root: bool) -> T {
    *left = left.saturating_sub(1);
    let id = opt_id(r, p);
    let leaf = depth == 0 || *left == 0 || (!root && r.chance(2, 5));
    if leaf {
        let v = match r.below(12) {
            0 => V::Unit,
            1 => V::Bool(r.bool()),
            2..=4 => V::Num(num(r)),
            5..=8 => V::Str(string(r, p.plain)),
            9 => V::Barr(bytes(r)),
            10 => V::Tuple(vec![]),
            _ => match r.below(3) {
                0 => V::Seq(vec![]),
                1 => V::Map(vec![]),
                _ => V::Cntr(vec![]),
            },
        };
        return T { id, v };
    }
    let n = if r.chance(1, 12) { 0 } else { r.range(1, p.max_items + 1) };
    let v = match r.below(if root { 10 } else { 8 }) {
        0 | 1 => V::Tuple((0..n).map(|_| node(r, p, depth - 1, left, false)).collect()),
        2 | 3 => V::Seq((0..n).map(|_| node(r, p, depth - 1, left, false)).collect()),
        4 | 5 => {
            let kd = if r.chance(1, 4) { depth - 1 } else { 0 };
            V::Map(
                (0..n)
                    .map(|_| (node(r, p, kd, left, false), node(r, p, depth - 1, left, false)))
                    .collect(),
            )
        }
        _ => {
            let mut fs: Vec<(String, T)> = Vec::new();
            for _ in 0..n {
                let k = name(r);
                if fs.iter().all(|(x, _)| *x != k) {
                    fs.push((k, node(r, p, depth - 1, left, false)));
                }
            }
            V::Cntr(fs)
        }
    };
    T { id, v }
}

#[cfg(feature = "format")]
pub fn config(r: &mut Rng) -> FormattingConfig {
    FormattingConfig {
        id_on_primitives: r.bool(),
        id_on_tuples: r.chance(2, 3),
        id_on_containers: r.chance(2, 3),
        id_on_seqs: r.bool(),
        id_on_maps: r.bool(),
        width_limit: match r.below(8) {
            0 => None,
            1 | 2 => Some(0),
            3 => Some(60),
            4 => Some(u16::MAX),
            5 => Some(r.below(20) as u16),
            _ => Some(r.below(120) as u16),
        },
    }
}

/// A leaf that is longer than usual.
fn long_leaf(r: &mut Rng) -> T {
    let id = if r.chance(1, 3) { Some(ident(r)) } else { None };
    let v = match r.below(4) {
        0 => V::Barr((0..r.below(3000)).map(|_| r.next() as u8).collect()),
        1 => V::Str("long text ".repeat(r.below(200))),
        2 => {
            let n = r.below(60);
            V::Str((0..n).map(|_| string(r, false)).collect())
        }
        _ => {
            let n = r.below(120);
            V::Str((0..n).map(|_| if r.chance(1, 9) { '\n' } else { 'x' }).collect())
        }
    };
    T { id, v }
}

fn some_leaf(r: &mut Rng) -> T {
    let p = Prof { max_depth: 0, max_items: 0, nodes: 1, id8: 2, plain: r.bool() };
    tree(r, p)
}

/// More than 65536 of something, alone or between others. With long lists a navigator takes too long,
/// as it checks itself in the monitors' build.
pub fn huge(r: &mut Rng, lists: bool) -> T {
    let n = *r.pick(&[65_531, 65_536, 70_000, 131_072]) + r.below(10);
    let leaf = |i: usize| T::new(V::Num(N::U(i as u128 % 10)));
    let t = T::new(match if lists { r.below(7) } else { 4 + r.below(3) } {
        0 => V::Seq((0..n).map(leaf).collect()),
        1 => V::Tuple((0..n).map(leaf).collect()),
        2 => V::Cntr((0..n).map(|i| (format!("f{i}"), leaf(i))).collect()),
        3 => V::Map((0..n).map(|i| (T::new(V::Num(N::U(i as u128))), leaf(i))).collect()),
        4 => V::Str((0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect()),
        5 => V::Str((0..n).map(|i| if i % 3 == 2 { '\n' } else { '\u{e9}' }).collect()),
        _ => V::Barr((0..n).map(|i| (i % 251) as u8).collect()),
    });
    match r.below(3) {
        0 => t,
        1 => T { id: Some(ident(r)), ..t },
        _ => T::new(V::Tuple(vec![leaf(1), t, leaf(2)])),
    }
}

/// A value of any profile, now and then a large one.
pub fn any(r: &mut Rng) -> T {
    if r.chance(1, 64) {
        big(r)
    } else {
        let p = Prof::pick(r);
        tree(r, p)
    }
}

/// Trees that are unusually long, deep or have long leaves and names.
pub fn big(r: &mut Rng) -> T {
    let p = Prof { max_depth: 2, max_items: 3, nodes: 6, id8: 2, plain: true };
    match r.below(9) {
        0 | 1 | 2 => {
            let n = *r.pick(&[17, 33, 40, 65, 100, 130, 257, 300, 520]);
            let n = n + r.below(4);
            let kind = r.below(4);
            let rich = n < 140 && r.bool();
            let item = |r: &mut Rng| if rich { tree(r, p) } else { some_leaf(r) };
            let v = match kind {
                0 => V::Tuple((0..n).map(|_| item(r)).collect()),
                1 => V::Seq((0..n).map(|_| item(r)).collect()),
                2 => V::Cntr((0..n).map(|i| (format!("{}{i}", r.pick(&["a", "k", "Z-", "_"])), item(r))).collect()),
                _ => V::Map(
                    (0..n)
                        .map(|i| {
                            let k = if r.bool() { V::Num(N::U(i as u128)) } else { V::Str(format!("k{i}")) };
                            (T::new(k), item(r))
                        })
                        .collect(),
                ),
            };
            let id = if r.bool() { Some(ident(r)) } else { None };
            let t = T { id, v };
            if r.chance(1, 4) {
                T::new(V::Cntr(vec![("long".into(), t), ("z".into(), some_leaf(r))]))
            } else {
                t
            }
        }
        3..=5 => {
            let d = *r.pick(&[8, 9, 13, 16, 17, 20, 24, 31, 33, 40, 50, 64, 66, 80, 100]);
            chain(r, d)
        }
        6 => {
            // long names and identities
            let n = r.range(1, 5);
            let long = |r: &mut Rng| {
                let mut s = ident(r);
                for _ in 0..r.below(12) {
                    s.push_str(*r.pick(&["-abcdefghij", "_x", "0123456789", "ABC"]));
                }
                s
            };
            let mut fs: Vec<(String, T)> = Vec::new();
            for i in 0..n {
                let mut t = tree(r, p);
                if r.bool() {
                    t.id = Some(long(r));
                }
                fs.push((format!("{}{i}", long(r)), t));
            }
            T { id: Some(long(r)), v: V::Cntr(fs) }
        }
        _ => {
            let leaf = long_leaf(r);
            match r.below(7) {
                0 => leaf,
                1 => T::new(V::Seq(vec![leaf, some_leaf(r)])),
                2 => T::new(V::Tuple(vec![some_leaf(r), leaf])),
                3 => T::new(V::Map(vec![(leaf, some_leaf(r))])),
                4 => T::new(V::Map(vec![(some_leaf(r), leaf)])),
                _ => T::new(V::Cntr(vec![("a".into(), leaf), ("b".into(), long_leaf(r))])),
            }
        }
    }
}

/// A tree nested `d` levels deep with a few siblings on the way.
pub fn chain(r: &mut Rng, d: usize) -> T {
    let only = if r.chance(1, 3) { Some(r.below(5)) } else { None };
    let bare = r.chance(1, 3);
    let mut t = some_leaf(r);
    for _ in 0..d {
        let mut sib: Vec<T> = Vec::new();
        if !bare && r.chance(1, 5) {
            sib.push(some_leaf(r));
        }
        let before = r.bool();
        let list = |mut sib: Vec<T>, t: T| {
            if before {
                sib.insert(0, t);
            } else {
                sib.push(t);
            }
            sib
        };
        let v = match only.unwrap_or_else(|| r.below(5)) {
            0 => V::Tuple(list(sib, t)),
            1 => V::Seq(list(sib, t)),
            2 | 3 => {
                let mut fs = vec![("m".to_string(), t)];
                if let Some(s) = sib.pop() {
                    fs.push((if before { "a" } else { "z" }.to_string(), s));
                }
                V::Cntr(fs)
            }
            _ => V::Map(vec![(if r.chance(1, 8) { some_leaf(r) } else { T::new(V::Num(N::U(1))) }, t)]),
        };
        let id = if !bare && r.chance(1, 5) { Some(ident(r)) } else { None };
        t = T { id, v };
    }
    t
}
