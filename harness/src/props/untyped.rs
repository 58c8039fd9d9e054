//! Decoding into something that takes whatever comes.

use crate::ensure;
use crate::gen;
use crate::model;
use crate::mon::*;
use crate::props::convert::mixed;
use kserd::encode::Decoder;
use kserd::{Kserd, Number, Value};
use serde::de::{self, Deserialize, Deserializer, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use std::borrow::Cow;
use std::fmt;

/// What is presented.
#[derive(Debug, PartialEq, Clone)]
enum Seen {
    Unit,
    Bool(bool),
    U64(u64),
    U128(u128),
    I64(i64),
    I128(i128),
    /// by its bits
    F64(u64),
    /// and whether it is borrowed
    Str(String, bool),
    Bytes(Vec<u8>, bool),
    None,
    Some(Box<Seen>),
    Newtype(Box<Seen>),
    Seq(Vec<Seen>),
    Map(Vec<(Seen, Seen)>),
    /// announced another number of items than came
    Miscounted(String),
    /// presented in another way
    Other(&'static str),
}

struct Taker;

impl<'de> Deserialize<'de> for Seen {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Seen, D::Error> {
        d.deserialize_any(Taker)
    }
}

macro_rules! others {
    ($($f:ident $t:ty),*) => {
        $(fn $f<E: de::Error>(self, _: $t) -> Result<Seen, E> { Ok(Seen::Other(stringify!($f))) })*
    };
}

impl<'de> Visitor<'de> for Taker {
    type Value = Seen;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    others! { visit_u8 u8, visit_u16 u16, visit_u32 u32, visit_i8 i8, visit_i16 i16, visit_i32 i32, visit_f32 f32, visit_char char }
    fn visit_bool<E>(self, x: bool) -> Result<Seen, E> {
        Ok(Seen::Bool(x))
    }
    fn visit_u64<E>(self, x: u64) -> Result<Seen, E> {
        Ok(Seen::U64(x))
    }
    fn visit_u128<E>(self, x: u128) -> Result<Seen, E> {
        Ok(Seen::U128(x))
    }
    fn visit_i64<E>(self, x: i64) -> Result<Seen, E> {
        Ok(Seen::I64(x))
    }
    fn visit_i128<E>(self, x: i128) -> Result<Seen, E> {
        Ok(Seen::I128(x))
    }
    fn visit_f64<E>(self, x: f64) -> Result<Seen, E> {
        Ok(float(x))
    }
    fn visit_str<E>(self, _: &str) -> Result<Seen, E> {
        Ok(Seen::Other("visit_str"))
    }
    fn visit_borrowed_str<E>(self, x: &'de str) -> Result<Seen, E> {
        Ok(Seen::Str(x.into(), true))
    }
    fn visit_string<E>(self, x: String) -> Result<Seen, E> {
        Ok(Seen::Str(x, false))
    }
    fn visit_bytes<E>(self, _: &[u8]) -> Result<Seen, E> {
        Ok(Seen::Other("visit_bytes"))
    }
    fn visit_borrowed_bytes<E>(self, x: &'de [u8]) -> Result<Seen, E> {
        Ok(Seen::Bytes(x.into(), true))
    }
    fn visit_byte_buf<E>(self, x: Vec<u8>) -> Result<Seen, E> {
        Ok(Seen::Bytes(x, false))
    }
    fn visit_unit<E>(self) -> Result<Seen, E> {
        Ok(Seen::Unit)
    }
    fn visit_none<E>(self) -> Result<Seen, E> {
        Ok(Seen::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Seen, D::Error> {
        Ok(Seen::Some(Box::new(Seen::deserialize(d)?)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Seen, D::Error> {
        Ok(Seen::Newtype(Box::new(Seen::deserialize(d)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Seen, A::Error> {
        let n = a.size_hint();
        let mut o = vec![];
        loop {
            let left = a.size_hint();
            if let (Some(n), Some(left)) = (n, left) {
                if left + o.len() != n {
                    return Ok(Seen::Miscounted(format!("{n} announced, {left} left after {}", o.len())));
                }
            }
            match a.next_element()? {
                Some(x) => o.push(x),
                None => break,
            }
        }
        if n.map(|n| n != o.len()).unwrap_or(false) {
            return Ok(Seen::Miscounted(format!("{n:?} announced, {} came", o.len())));
        }
        Ok(Seen::Seq(o))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Seen, A::Error> {
        let n = a.size_hint();
        let mut o = vec![];
        while let Some(e) = a.next_entry()? {
            o.push(e);
        }
        if n.map(|n| n != o.len()).unwrap_or(false) {
            return Ok(Seen::Miscounted(format!("{n:?} announced, {} came", o.len())));
        }
        Ok(Seen::Map(o))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, _: A) -> Result<Seen, A::Error> {
        Ok(Seen::Other("visit_enum"))
    }
}

/// All that are not a number are one.
fn float(x: f64) -> Seen {
    Seen::F64(if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() })
}

/// What should be presented, read from the value itself.
fn want(k: &Kserd) -> Seen {
    let text = |s: &Cow<str>| Seen::Str(s.to_string(), matches!(s, Cow::Borrowed(_)));
    let items = |x: &[Kserd]| Seen::Seq(x.iter().map(want).collect());
    match &k.val {
        Value::Unit => Seen::Unit,
        Value::Bool(x) => Seen::Bool(*x),
        Value::Num(Number::Uint(x)) if *x <= u64::MAX as u128 => Seen::U64(*x as u64),
        Value::Num(Number::Uint(x)) => Seen::U128(*x),
        Value::Num(Number::Int(x)) if *x >= i64::MIN as i128 && *x <= i64::MAX as i128 => Seen::I64(*x as i64),
        Value::Num(Number::Int(x)) => Seen::I128(*x),
        Value::Num(Number::Float(x)) => float(*x),
        Value::Str(x) => text(&x.inner),
        Value::Barr(x) => Seen::Bytes(x.inner.to_vec(), matches!(x.inner, Cow::Borrowed(_))),
        Value::Tuple(x) => match (x.len(), k.id()) {
            (0, Some("None")) => Seen::None,
            (1, Some("Some")) => Seen::Some(Box::new(want(&x[0]))),
            (1, Some(_)) => Seen::Newtype(Box::new(want(&x[0]))),
            _ => items(x),
        },
        Value::Seq(x) => items(x),
        Value::Cntr(x) => Seen::Map(x.iter().map(|(f, k)| (text(&f.inner), want(k))).collect()),
        Value::Map(x) => Seen::Map(x.iter().map(|(k, v)| (want(k), want(v))).collect()),
    }
}

fn count(ctx: &mut Ctx, s: &Seen) {
    ctx.hit(match s {
        Seen::Unit => "units",
        Seen::Bool(_) => "booleans",
        Seen::U64(_) => "unsigned of 64 bits",
        Seen::U128(_) => "unsigned beyond 64 bits",
        Seen::I64(_) => "signed of 64 bits",
        Seen::I128(_) => "signed beyond 64 bits",
        Seen::F64(_) => "floats",
        Seen::Str(_, true) => "borrowed text",
        Seen::Str(_, false) => "owned text",
        Seen::Bytes(_, true) => "borrowed bytes",
        Seen::Bytes(_, false) => "owned bytes",
        Seen::None => "empty options",
        Seen::Some(_) => "filled options",
        Seen::Newtype(_) => "newtypes",
        Seen::Seq(_) => "lists",
        Seen::Map(_) => "maps",
        Seen::Miscounted(_) | Seen::Other(_) => "others",
    });
    match s {
        Seen::Some(x) | Seen::Newtype(x) => count(ctx, x),
        Seen::Seq(x) => x.iter().for_each(|x| count(ctx, x)),
        Seen::Map(x) => x.iter().for_each(|(k, v)| {
            count(ctx, k);
            count(ctx, v)
        }),
        _ => (),
    }
}

/// Names that options have, where they make a difference and where they do not.
fn name(t: &mut model::T, r: &mut crate::rng::Rng) {
    use model::V;
    if r.chance(1, 6) {
        t.id = Some(r.pick(&["Some", "None", "Option", "some", "Somebody", "none"]).to_string());
        if r.chance(1, 4) {
            t.v = V::Tuple(vec![]);
        }
    }
    match &mut t.v {
        V::Tuple(x) | V::Seq(x) => {
            if r.chance(1, 4) {
                x.truncate(1);
            }
            x.iter_mut().for_each(|t| name(t, r))
        }
        V::Cntr(x) => x.iter_mut().for_each(|(_, t)| name(t, r)),
        V::Map(x) => x.iter_mut().for_each(|(_, t)| name(t, r)),
        _ => (),
    }
}

fn c39(ctx: &mut Ctx, _case: u64) -> R {
    let mut t = gen::any(&mut ctx.r);
    if ctx.r.bool() {
        name(&mut t, &mut ctx.r);
    }
    let own = *ctx.r.pick(&[0, 4, 8]);
    let k = mixed(&mut ctx.r, &t, own);
    let want = want(&k);
    count(ctx, &want);
    let say = || format!("{t:?}");
    let how = ctx.r.below(4);
    let (from, got) = match how {
        0 => ("a value", calm("untyped decoding", say, || Seen::deserialize(Decoder(k)))?),
        1 => ("a value made a decoder", calm("untyped decoding", say, || Seen::deserialize(k.into_deserializer()))?),
        2 => ("decoding", calm("untyped decoding", say, || k.decode::<Seen>())?),
        _ => ("an ignoring type", calm("untyped decoding", say, || de::IgnoredAny::deserialize(Decoder(k)).map(|_| want.clone()))?),
    };
    match got {
        Ok(g) => ensure!(g == want, "untyped decoding presents something else", "from {from}\ngot  {g:?}\nwant {want:?}\n{t:?}"),
        Err(e) => return fail("untyped decoding is refused", format!("from {from}: {e}\n{t:?}")),
    }
    ctx.hit(from);
    ctx.state(model::shape(&t, 5));
    ctx.sample(|| format!("{want:?}"));
    Ok(())
}

pub static C39: Prop = Prop {
    id: "C39",
    quick: 1_500_000,
    thorough: 30_000_000,
    rule: "a random value, its text owned, borrowed or mixed, is decoded by a taker that accepts every kind and writes down how it is presented; compared with what the value holds; distinct: by kinds and nesting down to five levels",
    required: &[
        "units", "booleans", "unsigned of 64 bits", "unsigned beyond 64 bits", "signed of 64 bits", "signed beyond 64 bits", "floats",
        "borrowed text", "owned text", "borrowed bytes", "owned bytes", "empty options", "filled options", "newtypes", "lists", "maps",
        "a value", "a value made a decoder", "decoding", "an ignoring type",
    ],
    bounded: false,
    assumptions: &["counts of items need not be announced, but are right when they are"],
    run: c39,
};
