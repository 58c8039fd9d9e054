//! Data of randomly made types, driven through serde by a schema.
//!
//! `S` is a type, `D` a datum of it. `D` serialises as a derived type would; `S` deserialises as one
//! would. `mirror` is what the encoding must be, `reference` what decoding must give.

use crate::gen;
use crate::model::{N, T, V};
use crate::rng::Rng;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Serialize, Serializer};
use std::fmt;

pub type Names = &'static [&'static str];

#[derive(Clone, Debug)]
pub enum S {
    Bool,
    U8,
    U16,
    U32,
    U64,
    U128,
    I8,
    I16,
    I32,
    I64,
    I128,
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Unit,
    Opt(Box<S>),
    UnitStruct(&'static str),
    Newtype(&'static str, Box<S>),
    Seq(Box<S>),
    Tuple(Vec<S>),
    TupleStruct(&'static str, Vec<S>),
    Map(Box<S>, Box<S>),
    Struct(&'static str, Names, Vec<S>),
    Enum(&'static str, Names, Vec<Var>),
}

#[derive(Clone, Debug)]
pub enum Var {
    Unit,
    New(S),
    Tuple(Vec<S>),
    Struct(Names, Vec<S>),
}

#[derive(Clone, Debug)]
pub enum D {
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<D>),
    UnitStruct(&'static str),
    Newtype(&'static str, Box<D>),
    Seq(Vec<D>),
    Tuple(Vec<D>),
    TupleStruct(&'static str, Vec<D>),
    Map(Vec<(D, D)>),
    Struct(&'static str, Names, Vec<D>),
    UnitVar(&'static str, u32, &'static str),
    NewVar(&'static str, u32, &'static str, Box<D>),
    TupleVar(&'static str, u32, &'static str, Vec<D>),
    StructVar(&'static str, u32, &'static str, Names, Vec<D>),
}

// ---------------------------------------------------------------- making types and data

const TYPES: Names = &[
    "Point", "Config", "A", "B2", "my-type", "_x", "trueish", "inf", "Vec", "str", "b91", "Ok", "Err", "nan", "Unit", "f64", "i32",
    "Long-Type-Name-Of-Many-Letters", "e5", "strange", "x",
];
const VARIANTS: Names = &[
    "A", "B", "Some", "None", "Ok", "Err", "inf", "nan", "str", "b91", "true1", "Unit", "Point", "C-D", "_e", "u8", "char", "barr", "Z",
    "Variant_With_A_Long_Name", "e",
];
const FIELDS: Names = &[
    "a", "b", "c", "id", "val", "some", "none", "inf", "true", "str", "strx", "b91", "type", "nan", "_", "x1", "a-b", "false", "e5", "z",
    "a_very_long_field_name_for_wide_lines", "key", "value",
];

fn slice(r: &mut Rng, from: Names, n: usize) -> Names {
    let at = r.below(from.len() - n + 1);
    &from[at..at + n]
}

fn prim(r: &mut Rng) -> S {
    match r.below(17) {
        0 => S::Bool,
        1 => S::U8,
        2 => S::U16,
        3 => S::U32,
        4 => S::U64,
        5 => S::U128,
        6 => S::I8,
        7 => S::I16,
        8 => S::I32,
        9 => S::I64,
        10 => S::I128,
        11 => S::F32,
        12 => S::F64,
        13 => S::Char,
        14 => S::Bytes,
        15 => S::Unit,
        _ => S::Str,
    }
}

pub fn schema(r: &mut Rng, depth: usize) -> S {
    schema_in(r, depth, false)
}

fn many(r: &mut Rng, n: usize, depth: usize, key: bool) -> Vec<S> {
    (0..n).map(|_| schema_in(r, depth, key)).collect()
}

/// A `key` holds no enum: two variants of equal content are one key (known finding).
fn schema_in(r: &mut Rng, depth: usize, key: bool) -> S {
    if depth == 0 || r.chance(1, 4) {
        return prim(r);
    }
    let d = depth - 1;
    if !key && r.chance(1, 25) {
        return wide(r);
    }
    match r.below(if key { 8 } else { 11 }) {
        0 => S::Opt(Box::new(schema_in(r, d, key))),
        1 => S::UnitStruct(r.pick(TYPES)),
        2 => S::Newtype(r.pick(TYPES), Box::new(schema_in(r, d, key))),
        3 => S::Seq(Box::new(schema_in(r, d, key))),
        4 => {
            let n = r.below(4);
            S::Tuple(many(r, n, d, key))
        }
        5 => {
            let n = if r.chance(1, 6) { 0 } else { 2 + r.below(3) };
            S::TupleStruct(r.pick(TYPES), many(r, n, d, key))
        }
        6 => S::Map(Box::new(schema_in(r, d.min(2), true)), Box::new(schema_in(r, d, key))),
        7 | 8 => {
            let n = r.below(5);
            S::Struct(r.pick(TYPES), slice(r, FIELDS, n), many(r, n, d, key))
        }
        _ => {
            let n = 1 + r.below(4);
            let vars = (0..n)
                .map(|_| match r.below(4) {
                    0 => Var::Unit,
                    1 => Var::New(schema_in(r, d, false)),
                    2 => {
                        let n = if r.chance(1, 6) { 0 } else { 2 + r.below(2) };
                        Var::Tuple(many(r, n, d, false))
                    }
                    _ => {
                        let n = r.below(4);
                        Var::Struct(slice(r, FIELDS, n), many(r, n, d, false))
                    }
                })
                .collect();
            S::Enum(r.pick(TYPES), slice(r, VARIANTS, n), vars)
        }
    }
}

/// Types with many elements, fields or variants.
fn wide(r: &mut Rng) -> S {
    match r.below(4) {
        0 => {
            let n = gen::long(r, 7);
            S::Tuple(many(r, n, 0, false))
        }
        1 => {
            let n = r.range(2, 40);
            S::TupleStruct(r.pick(TYPES), many(r, n, 0, false))
        }
        2 => {
            let n = r.range(5, FIELDS.len() + 1);
            S::Struct(r.pick(TYPES), slice(r, FIELDS, n), many(r, n, 0, false))
        }
        _ => {
            let n = r.range(5, VARIANTS.len() + 1);
            let vars = (0..n)
                .map(|_| match r.below(4) {
                    0 => Var::Unit,
                    1 => Var::New(prim(r)),
                    2 => {
                        let n = r.range(2, 20);
                        Var::Tuple(many(r, n, 0, false))
                    }
                    _ => {
                        let n = r.range(1, FIELDS.len() + 1);
                        Var::Struct(slice(r, FIELDS, n), many(r, n, 0, false))
                    }
                })
                .collect();
            S::Enum(r.pick(TYPES), slice(r, VARIANTS, n), vars)
        }
    }
}

fn f64_no_nan(r: &mut Rng) -> f64 {
    gen::float(r)
}

macro_rules! edge {
    ($r:expr, $t:ty) => {{
        let r: &mut Rng = $r;
        match r.below(6) {
            0 => <$t>::MAX,
            1 => <$t>::MIN,
            2 => 0,
            3 => <$t>::MAX - (r.below(3) as $t),
            4 => r.below(100) as $t,
            _ => r.u128() as $t,
        }
    }};
}

pub fn data(r: &mut Rng, s: &S, size: usize) -> D {
    let all = |r: &mut Rng, x: &[S]| x.iter().map(|s| data(r, s, size)).collect::<Vec<_>>();
    match s {
        S::Bool => D::Bool(r.bool()),
        S::U8 => D::U8(edge!(r, u8)),
        S::U16 => D::U16(edge!(r, u16)),
        S::U32 => D::U32(edge!(r, u32)),
        S::U64 => D::U64(edge!(r, u64)),
        S::U128 => D::U128(edge!(r, u128)),
        S::I8 => D::I8(edge!(r, i8)),
        S::I16 => D::I16(edge!(r, i16)),
        S::I32 => D::I32(edge!(r, i32)),
        S::I64 => D::I64(edge!(r, i64)),
        S::I128 => D::I128(edge!(r, i128)),
        S::F32 => D::F32(if r.bool() { f64_no_nan(r) as f32 } else { f32::from_bits(r.next() as u32) }),
        S::F64 => D::F64(f64_no_nan(r)),
        S::Char => D::Char(match r.below(3) {
            0 => *r.pick(&['a', '"', '\'', '\n', '\\', '\0', '\u{e9}', '\u{1F600}', ' ', '(', '=', ':', '#']),
            1 => (32 + r.below(95)) as u8 as char,
            _ => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x'),
        }),
        S::Str => D::Str(gen::string(r, false)),
        S::Bytes => D::Bytes(gen::bytes(r)),
        S::Unit => D::Unit,
        S::Opt(s) => {
            if r.chance(1, 3) {
                D::None
            } else {
                D::Some(Box::new(data(r, s, size)))
            }
        }
        S::UnitStruct(n) => D::UnitStruct(n),
        S::Newtype(n, s) => D::Newtype(n, Box::new(data(r, s, size))),
        S::Seq(s) => {
            let n = if leaf(s) && r.chance(1, 50) { gen::long(r, 9) } else { r.below(size + 1) };
            D::Seq((0..n).map(|_| data(r, s, size / 2 + 1)).collect())
        }
        S::Tuple(x) => D::Tuple(all(r, x)),
        S::TupleStruct(n, x) => D::TupleStruct(n, all(r, x)),
        S::Map(k, v) => {
            let n = if leaf(k) && leaf(v) && r.chance(1, 50) { gen::long(r, 7) } else { r.below(size + 1) };
            let mut m: Vec<(D, D)> = Vec::new();
            for _ in 0..n {
                let kk = data(r, k, 2);
                let mk = crate::text::canon_plain(&mirror(&kk));
                if m.iter().all(|(o, _)| crate::text::canon_plain(&mirror(o)) != mk) {
                    m.push((kk, data(r, v, size / 2 + 1)));
                }
            }
            D::Map(m)
        }
        S::Struct(n, f, x) => D::Struct(n, f, all(r, x)),
        S::Enum(n, names, vars) => {
            let i = r.below(vars.len());
            let v = names[i];
            match &vars[i] {
                Var::Unit => D::UnitVar(n, i as u32, v),
                Var::New(s) => D::NewVar(n, i as u32, v, Box::new(data(r, s, size))),
                Var::Tuple(x) => D::TupleVar(n, i as u32, v, all(r, x)),
                Var::Struct(f, x) => D::StructVar(n, i as u32, v, f, all(r, x)),
            }
        }
    }
}

fn leaf(s: &S) -> bool {
    match s {
        S::Opt(s) | S::Newtype(_, s) => leaf(s),
        S::Seq(_) | S::Tuple(_) | S::TupleStruct(..) | S::Map(..) | S::Struct(..) | S::Enum(..) => false,
        _ => true,
    }
}

pub fn same(a: &D, b: &D) -> bool {
    let all = |x: &[D], y: &[D]| x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b));
    match (a, b) {
        (D::Bool(a), D::Bool(b)) => a == b,
        (D::U8(a), D::U8(b)) => a == b,
        (D::U16(a), D::U16(b)) => a == b,
        (D::U32(a), D::U32(b)) => a == b,
        (D::U64(a), D::U64(b)) => a == b,
        (D::U128(a), D::U128(b)) => a == b,
        (D::I8(a), D::I8(b)) => a == b,
        (D::I16(a), D::I16(b)) => a == b,
        (D::I32(a), D::I32(b)) => a == b,
        (D::I64(a), D::I64(b)) => a == b,
        (D::I128(a), D::I128(b)) => a == b,
        (D::F32(a), D::F32(b)) => a == b || (a.is_nan() && b.is_nan()),
        (D::F64(a), D::F64(b)) => a == b || (a.is_nan() && b.is_nan()),
        (D::Char(a), D::Char(b)) => a == b,
        (D::Str(a), D::Str(b)) => a == b,
        (D::Bytes(a), D::Bytes(b)) => a == b,
        (D::Unit, D::Unit) | (D::None, D::None) => true,
        (D::Some(a), D::Some(b)) => same(a, b),
        (D::UnitStruct(_), D::UnitStruct(_)) => true,
        (D::Newtype(_, a), D::Newtype(_, b)) => same(a, b),
        (D::Seq(a), D::Seq(b)) | (D::Tuple(a), D::Tuple(b)) => all(a, b),
        (D::TupleStruct(_, a), D::TupleStruct(_, b)) | (D::Struct(_, _, a), D::Struct(_, _, b)) => all(a, b),
        (D::Map(a), D::Map(b)) => {
            // order is that of the encoding, not of the data
            a.len() == b.len()
                && a.iter().all(|(k, v)| b.iter().filter(|(k2, v2)| same(k, k2) && same(v, v2)).count() >= 1)
                && b.iter().all(|(k, v)| a.iter().filter(|(k2, v2)| same(k, k2) && same(v, v2)).count() >= 1)
        }
        (D::UnitVar(_, i, _), D::UnitVar(_, j, _)) => i == j,
        (D::NewVar(_, i, _, a), D::NewVar(_, j, _, b)) => i == j && same(a, b),
        (D::TupleVar(_, i, _, a), D::TupleVar(_, j, _, b)) => i == j && all(a, b),
        (D::StructVar(_, i, _, _, a), D::StructVar(_, j, _, _, b)) => i == j && all(a, b),
        _ => false,
    }
}

// ---------------------------------------------------------------- serialising

impl Serialize for D {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            D::Bool(x) => z.serialize_bool(*x),
            D::U8(x) => z.serialize_u8(*x),
            D::U16(x) => z.serialize_u16(*x),
            D::U32(x) => z.serialize_u32(*x),
            D::U64(x) => z.serialize_u64(*x),
            D::U128(x) => z.serialize_u128(*x),
            D::I8(x) => z.serialize_i8(*x),
            D::I16(x) => z.serialize_i16(*x),
            D::I32(x) => z.serialize_i32(*x),
            D::I64(x) => z.serialize_i64(*x),
            D::I128(x) => z.serialize_i128(*x),
            D::F32(x) => z.serialize_f32(*x),
            D::F64(x) => z.serialize_f64(*x),
            D::Char(x) => z.serialize_char(*x),
            D::Str(x) => z.serialize_str(x),
            D::Bytes(x) => z.serialize_bytes(x),
            D::Unit => z.serialize_unit(),
            D::None => z.serialize_none(),
            D::Some(x) => z.serialize_some(&**x),
            D::UnitStruct(n) => z.serialize_unit_struct(n),
            D::Newtype(n, x) => z.serialize_newtype_struct(n, &**x),
            D::Seq(x) => {
                // with and without a length up front
                let len = if x.len() % 3 == 2 { None } else { Some(x.len()) };
                let mut s = z.serialize_seq(len)?;
                for e in x {
                    s.serialize_element(e)?;
                }
                s.end()
            }
            D::Tuple(x) => {
                let mut s = z.serialize_tuple(x.len())?;
                for e in x {
                    s.serialize_element(e)?;
                }
                s.end()
            }
            D::TupleStruct(n, x) => {
                let mut s = z.serialize_tuple_struct(n, x.len())?;
                for e in x {
                    s.serialize_field(e)?;
                }
                s.end()
            }
            D::Map(x) => {
                let mut s = z.serialize_map(if x.len() % 2 == 1 { None } else { Some(x.len()) })?;
                for (i, (k, v)) in x.iter().enumerate() {
                    if i % 2 == 0 {
                        s.serialize_entry(k, v)?;
                    } else {
                        s.serialize_key(k)?;
                        s.serialize_value(v)?;
                    }
                }
                s.end()
            }
            D::Struct(n, f, x) => {
                let mut s = z.serialize_struct(n, x.len())?;
                for (f, e) in f.iter().zip(x) {
                    s.serialize_field(f, e)?;
                }
                s.end()
            }
            D::UnitVar(n, i, v) => z.serialize_unit_variant(n, *i, v),
            D::NewVar(n, i, v, x) => z.serialize_newtype_variant(n, *i, v, &**x),
            D::TupleVar(n, i, v, x) => {
                let mut s = z.serialize_tuple_variant(n, *i, v, x.len())?;
                for e in x {
                    s.serialize_field(e)?;
                }
                s.end()
            }
            D::StructVar(n, i, v, f, x) => {
                let mut s = z.serialize_struct_variant(n, *i, v, x.len())?;
                for (f, e) in f.iter().zip(x) {
                    s.serialize_field(f, e)?;
                }
                s.end()
            }
        }
    }
}

/// What the encoding of a datum must be.
pub fn mirror(d: &D) -> T {
    let all = |x: &[D]| x.iter().map(mirror).collect::<Vec<_>>();
    let named = |f: Names, x: &[D]| {
        let mut v: Vec<(String, T)> = f.iter().map(|f| f.to_string()).zip(x.iter().map(mirror)).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    };
    match d {
        D::Bool(x) => T::id("bool", V::Bool(*x)),
        D::U8(x) => T::id("u8", V::Num(N::U(*x as u128))),
        D::U16(x) => T::id("u16", V::Num(N::U(*x as u128))),
        D::U32(x) => T::id("u32", V::Num(N::U(*x as u128))),
        D::U64(x) => T::id("u64", V::Num(N::U(*x as u128))),
        D::U128(x) => T::id("u128", V::Num(N::U(*x))),
        D::I8(x) => T::id("i8", V::Num(N::I(*x as i128))),
        D::I16(x) => T::id("i16", V::Num(N::I(*x as i128))),
        D::I32(x) => T::id("i32", V::Num(N::I(*x as i128))),
        D::I64(x) => T::id("i64", V::Num(N::I(*x as i128))),
        D::I128(x) => T::id("i128", V::Num(N::I(*x))),
        // the float with the same shortest digits
        D::F32(x) => T::id("f32", V::Num(N::F(x.to_string().parse().unwrap()))),
        D::F64(x) => T::id("f64", V::Num(N::F(*x))),
        D::Char(x) => T::id("char", V::Str(x.to_string())),
        D::Str(x) => T::id("str", V::Str(x.clone())),
        D::Bytes(x) => T::id("barr", V::Barr(x.clone())),
        D::Unit => T::new(V::Unit),
        D::None => T::id("None", V::Tuple(vec![])),
        D::Some(x) => T::id("Some", V::Tuple(vec![mirror(x)])),
        D::UnitStruct(n) => T::id(n, V::Tuple(vec![])),
        D::Newtype(n, x) => T::id(n, V::Tuple(vec![mirror(x)])),
        D::Seq(x) => T::new(V::Seq(all(x))),
        D::Tuple(x) => T::new(V::Tuple(all(x))),
        D::TupleStruct(n, x) => T::id(n, V::Tuple(all(x))),
        D::Map(x) => T::new(V::Map(x.iter().map(|(k, v)| (mirror(k), mirror(v))).collect())),
        D::Struct(n, f, x) => T::id(n, V::Cntr(named(f, x))),
        D::UnitVar(_, _, v) => T::id(v, V::Tuple(vec![])),
        D::NewVar(_, _, v, x) => T::id(v, V::Tuple(vec![mirror(x)])),
        D::TupleVar(_, _, v, x) => T::id(v, V::Tuple(all(x))),
        D::StructVar(_, _, v, f, x) => T::id(v, V::Cntr(named(f, x))),
    }
}

// ---------------------------------------------------------------- deserialising

/// A field or variant name, by position.
struct Which(Names);
struct WhichV(Names, bool);

impl<'de> DeserializeSeed<'de> for Which {
    type Value = Option<usize>;
    fn deserialize<Z: Deserializer<'de>>(self, z: Z) -> Result<Option<usize>, Z::Error> {
        z.deserialize_identifier(WhichV(self.0, true))
    }
}
struct Variant(Names);
impl<'de> DeserializeSeed<'de> for Variant {
    type Value = usize;
    fn deserialize<Z: Deserializer<'de>>(self, z: Z) -> Result<usize, Z::Error> {
        Ok(z.deserialize_identifier(WhichV(self.0, false))?.expect("a variant"))
    }
}
impl<'de> Visitor<'de> for WhichV {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a name")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Option<usize>, E> {
        match self.0.iter().position(|x| *x == s) {
            Some(i) => Ok(Some(i)),
            None if self.1 => Ok(None),
            None => Err(E::unknown_variant(s, self.0)),
        }
    }
}

struct Ve<'s>(&'s S);

fn exact<'de, A: SeqAccess<'de>>(what: &[S], mut a: A) -> Result<Vec<D>, A::Error> {
    let mut o = Vec::new();
    for (i, s) in what.iter().enumerate() {
        match a.next_element_seed(s)? {
            Some(d) => o.push(d),
            None => return Err(de::Error::invalid_length(i, &"more elements")),
        }
    }
    Ok(o)
}

fn fields<'de, A: MapAccess<'de>>(names: Names, what: &[S], mut a: A) -> Result<Vec<D>, A::Error> {
    let mut o: Vec<Option<D>> = what.iter().map(|_| None).collect();
    while let Some(w) = a.next_key_seed(Which(names))? {
        match w {
            Some(i) => {
                if o[i].is_some() {
                    return Err(de::Error::duplicate_field(names[i]));
                }
                o[i] = Some(a.next_value_seed(&what[i])?)
            }
            None => {
                a.next_value::<de::IgnoredAny>()?;
            }
        }
    }
    o.into_iter()
        .enumerate()
        .map(|(i, x)| match (x, &what[i]) {
            (Some(x), _) => Ok(x),
            (None, S::Opt(_)) => Ok(D::None), // as derived code does
            (None, _) => Err(de::Error::missing_field(names[i])),
        })
        .collect()
}

struct Fields<'s>(Names, &'s [S]);
impl<'de, 's> Visitor<'de> for Fields<'s> {
    type Value = Vec<D>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("fields")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<D>, A::Error> {
        exact(self.1, a)
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Vec<D>, A::Error> {
        fields(self.0, self.1, a)
    }
}
struct Elements<'s>(&'s [S]);
impl<'de, 's> Visitor<'de> for Elements<'s> {
    type Value = Vec<D>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("elements")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<D>, A::Error> {
        exact(self.0, a)
    }
}

impl<'de, 's> DeserializeSeed<'de> for &'s S {
    type Value = D;
    fn deserialize<Z: Deserializer<'de>>(self, z: Z) -> Result<D, Z::Error> {
        Ok(match self {
            S::Bool => D::Bool(bool::deserialize(z)?),
            S::U8 => D::U8(u8::deserialize(z)?),
            S::U16 => D::U16(u16::deserialize(z)?),
            S::U32 => D::U32(u32::deserialize(z)?),
            S::U64 => D::U64(u64::deserialize(z)?),
            S::U128 => D::U128(u128::deserialize(z)?),
            S::I8 => D::I8(i8::deserialize(z)?),
            S::I16 => D::I16(i16::deserialize(z)?),
            S::I32 => D::I32(i32::deserialize(z)?),
            S::I64 => D::I64(i64::deserialize(z)?),
            S::I128 => D::I128(i128::deserialize(z)?),
            S::F32 => D::F32(f32::deserialize(z)?),
            S::F64 => D::F64(f64::deserialize(z)?),
            S::Char => D::Char(char::deserialize(z)?),
            S::Str => D::Str(String::deserialize(z)?),
            S::Unit => {
                <()>::deserialize(z)?;
                D::Unit
            }
            S::Bytes => return z.deserialize_byte_buf(Ve(self)),
            S::Opt(_) => return z.deserialize_option(Ve(self)),
            S::UnitStruct(n) => return z.deserialize_unit_struct(n, Ve(self)),
            S::Newtype(n, _) => return z.deserialize_newtype_struct(n, Ve(self)),
            S::Seq(_) => return z.deserialize_seq(Ve(self)),
            S::Tuple(x) => D::Tuple(z.deserialize_tuple(x.len(), Elements(x))?),
            S::TupleStruct(n, x) => D::TupleStruct(n, z.deserialize_tuple_struct(n, x.len(), Elements(x))?),
            S::Map(..) => return z.deserialize_map(Ve(self)),
            S::Struct(n, f, x) => D::Struct(n, f, z.deserialize_struct(n, f, Fields(f, x))?),
            S::Enum(n, v, _) => return z.deserialize_enum(n, v, Ve(self)),
        })
    }
}

impl<'de, 's> Visitor<'de> for Ve<'s> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<D, E> {
        match self.0 {
            S::Bytes => Ok(D::Bytes(b.to_vec())),
            _ => Err(E::invalid_type(de::Unexpected::Bytes(b), &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<D, E> {
        match self.0 {
            S::Opt(_) => Ok(D::None),
            _ => Err(E::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<D, E> {
        match self.0 {
            S::Opt(_) => Ok(D::None),
            S::UnitStruct(n) => Ok(D::UnitStruct(n)),
            _ => Err(E::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_some<Z: Deserializer<'de>>(self, z: Z) -> Result<D, Z::Error> {
        match self.0 {
            S::Opt(s) => Ok(D::Some(Box::new(s.deserialize(z)?))),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<Z: Deserializer<'de>>(self, z: Z) -> Result<D, Z::Error> {
        match self.0 {
            S::Newtype(n, s) => Ok(D::Newtype(n, Box::new(s.deserialize(z)?))),
            _ => Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        match self.0 {
            S::Newtype(n, s) => match a.next_element_seed(&**s)? {
                Some(x) => Ok(D::Newtype(n, Box::new(x))),
                None => Err(de::Error::invalid_length(0, &"one element")),
            },
            S::Seq(s) => {
                let mut o = Vec::new();
                while let Some(x) = a.next_element_seed(&**s)? {
                    o.push(x);
                }
                Ok(D::Seq(o))
            }
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        match self.0 {
            S::Map(k, v) => {
                let mut o = Vec::new();
                while let Some(x) = a.next_key_seed(&**k)? {
                    o.push((x, a.next_value_seed(&**v)?));
                }
                Ok(D::Map(o))
            }
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<D, A::Error> {
        match self.0 {
            S::Enum(n, names, vars) => {
                let (i, va) = a.variant_seed(Variant(names))?;
                let (ix, v) = (i as u32, names[i]);
                Ok(match &vars[i] {
                    Var::Unit => {
                        va.unit_variant()?;
                        D::UnitVar(n, ix, v)
                    }
                    Var::New(s) => D::NewVar(n, ix, v, Box::new(va.newtype_variant_seed(s)?)),
                    Var::Tuple(x) => D::TupleVar(n, ix, v, va.tuple_variant(x.len(), Elements(x))?),
                    Var::Struct(f, x) => D::StructVar(n, ix, v, f, va.struct_variant(f, Fields(f, x))?),
                })
            }
            _ => Err(de::Error::invalid_type(de::Unexpected::Enum, &self)),
        }
    }
}

// ---------------------------------------------------------------- what decoding must give

/// None: undecided (the documented tolerance of float to integer leaves it open).
pub type Ref = Result<D, &'static str>;

fn whole(t: &T, signed: bool) -> Option<Result<N, ()>> {
    match &t.v {
        V::Num(n) => crate::props::num::whole(n, signed),
        _ => Some(Err(())),
    }
}

enum Shape<'t> {
    Seq(Vec<&'t T>),
    None,
    Some(&'t T),
    New(&'t T),
    Other,
}

fn shape<'t>(t: &'t T) -> Shape<'t> {
    match &t.v {
        V::Seq(x) => Shape::Seq(x.iter().collect()),
        V::Tuple(x) => match (x.len(), t.id.as_deref()) {
            (0, Some("None")) => Shape::None,
            (1, Some("Some")) => Shape::Some(&x[0]),
            (1, Some(_)) => Shape::New(&x[0]),
            _ => Shape::Seq(x.iter().collect()),
        },
        _ => Shape::Other,
    }
}

fn ref_exact(what: &[S], x: &[&T]) -> Option<Result<Vec<D>, &'static str>> {
    if what.len() != x.len() {
        return Some(Err("wrong number of elements"));
    }
    let mut o = Vec::new();
    for (s, t) in what.iter().zip(x) {
        match reference(s, t)? {
            Ok(d) => o.push(d),
            Err(e) => return Some(Err(e)),
        }
    }
    Some(Ok(o))
}

fn ref_fields(names: Names, what: &[S], f: &[(&str, &T)]) -> Option<Result<Vec<D>, &'static str>> {
    let mut o = Vec::new();
    for (n, s) in names.iter().zip(what) {
        match f.iter().find(|x| x.0 == *n) {
            Some(x) => match reference(s, x.1)? {
                Ok(d) => o.push(d),
                Err(e) => return Some(Err(e)),
            },
            None if matches!(s, S::Opt(_)) => o.push(D::None),
            None => return Some(Err("missing field")),
        }
    }
    Some(Ok(o))
}

fn ref_struct(names: Names, what: &[S], t: &T) -> Option<Result<Vec<D>, &'static str>> {
    match &t.v {
        V::Unit if names.is_empty() => Some(Ok(vec![])),
        V::Cntr(f) => ref_fields(names, what, &f.iter().map(|(n, t)| (n.as_str(), t)).collect::<Vec<_>>()),
        V::Map(m) => {
            let mut f = Vec::new();
            for (k, t) in m {
                match &k.v {
                    V::Str(s) => f.push((s.as_str(), t)),
                    _ => return Some(Err("wrong kind of key")),
                }
            }
            ref_fields(names, what, &f)
        }
        _ => match shape(t) {
            Shape::Seq(x) => ref_exact(what, &x),
            _ => Some(Err("wrong kind")),
        },
    }
}

macro_rules! ref_int {
    ($t:expr, $signed:expr, $ty:ty, $d:path) => {
        match whole($t, $signed)? {
            Ok(N::U(x)) => <$ty>::try_from(x).map($d).map_err(|_| "number out of range"),
            Ok(N::I(x)) => <$ty>::try_from(x).map($d).map_err(|_| "number out of range"),
            _ => Err("not a whole number"),
        }
    };
}

pub fn reference(s: &S, t: &T) -> Option<Ref> {
    Some(match s {
        S::Bool => match &t.v {
            V::Bool(b) => Ok(D::Bool(*b)),
            _ => Err("wrong kind"),
        },
        S::U8 => ref_int!(t, false, u8, D::U8),
        S::U16 => ref_int!(t, false, u16, D::U16),
        S::U32 => ref_int!(t, false, u32, D::U32),
        S::U64 => ref_int!(t, false, u64, D::U64),
        S::U128 => ref_int!(t, false, u128, D::U128),
        S::I8 => ref_int!(t, true, i8, D::I8),
        S::I16 => ref_int!(t, true, i16, D::I16),
        S::I32 => ref_int!(t, true, i32, D::I32),
        S::I64 => ref_int!(t, true, i64, D::I64),
        S::I128 => ref_int!(t, true, i128, D::I128),
        S::F32 => match &t.v {
            V::Num(n) => Ok(D::F32(crate::props::num::nearest32(n))),
            _ => Err("wrong kind"),
        },
        S::F64 => match &t.v {
            V::Num(n) => Ok(D::F64(crate::props::num::nearest(n))),
            _ => Err("wrong kind"),
        },
        S::Char => match &t.v {
            V::Str(x) if x.chars().count() == 1 => Ok(D::Char(x.chars().next().unwrap())),
            _ => Err("wrong kind"),
        },
        S::Str => match &t.v {
            V::Str(x) => Ok(D::Str(x.clone())),
            V::Barr(b) => String::from_utf8(b.clone()).map(D::Str).map_err(|_| "not text"),
            _ => Err("wrong kind"),
        },
        S::Bytes => match &t.v {
            V::Barr(b) => Ok(D::Bytes(b.clone())),
            _ => Err("wrong kind"),
        },
        S::Unit => match &t.v {
            V::Unit => Ok(D::Unit),
            _ => Err("wrong kind"),
        },
        S::Opt(s) => match (&t.v, shape(t)) {
            (V::Unit, _) => Ok(D::None),
            (_, Shape::None) => Ok(D::None),
            (_, Shape::Some(x)) => reference(s, x)?.map(|x| D::Some(Box::new(x))),
            _ => Err("wrong kind"),
        },
        S::UnitStruct(n) => match &t.v {
            V::Unit => Ok(D::UnitStruct(n)),
            V::Tuple(x) if x.is_empty() => Ok(D::UnitStruct(n)),
            _ => Err("wrong kind"),
        },
        S::Newtype(n, s) => match shape(t) {
            Shape::New(x) => reference(s, x)?.map(|x| D::Newtype(n, Box::new(x))),
            Shape::Seq(x) if x.len() == 1 => reference(s, x[0])?.map(|x| D::Newtype(n, Box::new(x))),
            Shape::Seq(_) => Err("wrong number of elements"),
            _ => Err("wrong kind"),
        },
        S::Seq(s) => match shape(t) {
            Shape::Seq(x) => {
                let mut o = Vec::new();
                for x in x {
                    match reference(s, x)? {
                        Ok(x) => o.push(x),
                        Err(e) => return Some(Err(e)),
                    }
                }
                Ok(D::Seq(o))
            }
            _ => Err("wrong kind"),
        },
        S::Tuple(x) => match (&t.v, shape(t)) {
            (V::Unit, _) if x.is_empty() => Ok(D::Tuple(vec![])),
            (_, Shape::Seq(y)) => ref_exact(x, &y)?.map(D::Tuple),
            _ => Err("wrong kind"),
        },
        S::TupleStruct(n, x) => match (&t.v, shape(t)) {
            (V::Unit, _) if x.is_empty() => Ok(D::TupleStruct(n, vec![])),
            (_, Shape::Seq(y)) => ref_exact(x, &y)?.map(|d| D::TupleStruct(n, d)),
            _ => Err("wrong kind"),
        },
        S::Struct(n, f, x) => ref_struct(f, x, t)?.map(|d| D::Struct(n, f, d)),
        S::Map(k, v) => match &t.v {
            V::Map(m) => {
                let mut o = Vec::new();
                for (a, b) in m {
                    match (reference(k, a)?, reference(v, b)?) {
                        (Ok(a), Ok(b)) => o.push((a, b)),
                        (Err(e), _) | (_, Err(e)) => return Some(Err(e)),
                    }
                }
                Ok(D::Map(o))
            }
            V::Cntr(f) => {
                let mut o = Vec::new();
                for (a, b) in f {
                    let key = match &**k {
                        S::Str => Ok(D::Str(a.clone())),
                        S::Char if a.chars().count() == 1 => Ok(D::Char(a.chars().next().unwrap())),
                        S::Enum(..) => return None,
                        _ => Err("wrong kind of key"),
                    };
                    match (key, reference(v, b)?) {
                        (Ok(a), Ok(b)) => o.push((a, b)),
                        (Err(e), _) | (_, Err(e)) => return Some(Err(e)),
                    }
                }
                Ok(D::Map(o))
            }
            _ => Err("wrong kind"),
        },
        S::Enum(n, names, vars) => {
            let Some(i) = names.iter().position(|x| Some(*x) == t.id.as_deref()) else {
                return Some(Err("unknown or missing variant name"));
            };
            let (ix, v) = (i as u32, names[i]);
            match (&vars[i], &t.v) {
                (Var::Unit, V::Unit) => Ok(D::UnitVar(n, ix, v)),
                (Var::Unit, V::Tuple(x)) if x.is_empty() => Ok(D::UnitVar(n, ix, v)),
                (Var::New(s), V::Tuple(x)) if x.len() == 1 => reference(s, &x[0])?.map(|d| D::NewVar(n, ix, v, Box::new(d))),
                (Var::Tuple(s), V::Tuple(x)) if x.len() == s.len() => {
                    ref_exact(s, &x.iter().collect::<Vec<_>>())?.map(|d| D::TupleVar(n, ix, v, d))
                }
                (Var::Struct(f, s), V::Cntr(c)) => {
                    ref_fields(f, s, &c.iter().map(|(n, t)| (n.as_str(), t)).collect::<Vec<_>>())?.map(|d| D::StructVar(n, ix, v, f, d))
                }
                (Var::Struct(f, _), V::Tuple(x)) if x.is_empty() && f.is_empty() => Ok(D::StructVar(n, ix, v, f, vec![])),
                (Var::Struct(..), V::Tuple(x)) if x.is_empty() => Err("missing field"),
                (Var::New(_) | Var::Tuple(_), V::Tuple(_)) => Err("wrong number of elements"),
                _ => Err("wrong kind"),
            }
        }
    })
}
