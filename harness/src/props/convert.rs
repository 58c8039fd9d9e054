//! Direct conversion into values, and who owns the text after decoding.

use crate::ensure;
use crate::fixed::{Arb, Blob};
use crate::gen::{self, Prof};
use crate::model::{self, N, T, V};
use crate::mon::*;
use crate::rng::Rng;
use kserd::encode::Decoder;
use kserd::{parse, Kserd, Kstr, ToKserd, ToKserdErr, Value};
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::{self, Debug};

/// Where a piece of text lives: address, length, owned?
type Place = (usize, usize, bool);

// ---------------------------------------------------------------- C16

/// What conversion has to give, and where the text lives before.
trait Ex {
    fn ex(&self) -> T;
    fn places(&self, _: &mut Vec<Place>) {}
}

macro_rules! ex_num {
    ($($t:ident $n:ident $w:ty;)*) => {$(
        impl Ex for $t {
            fn ex(&self) -> T {
                T::id(stringify!($t), V::Num(N::$n(*self as $w)))
            }
        }
    )*};
}
ex_num! { u8 U u128; u16 U u128; u32 U u128; u64 U u128; u128 U u128; usize U u128;
i8 I i128; i16 I i128; i32 I i128; i64 I i128; i128 I i128; isize I i128; f64 F f64; }
impl Ex for f32 {
    fn ex(&self) -> T {
        T::id("f32", V::Num(N::F(self.to_string().parse().unwrap())))
    }
}
impl Ex for () {
    fn ex(&self) -> T {
        T::new(V::Unit)
    }
}
impl Ex for bool {
    fn ex(&self) -> T {
        T::id("bool", V::Bool(*self))
    }
}
impl Ex for char {
    fn ex(&self) -> T {
        T::id("char", V::Str(self.to_string()))
    }
}
impl Ex for String {
    fn ex(&self) -> T {
        T::id("String", V::Str(self.clone()))
    }
    fn places(&self, o: &mut Vec<Place>) {
        o.push((self.as_ptr() as usize, self.len(), true));
    }
}
impl Ex for &str {
    fn ex(&self) -> T {
        T::id("str", V::Str(self.to_string()))
    }
    fn places(&self, o: &mut Vec<Place>) {
        o.push((self.as_ptr() as usize, self.len(), false));
    }
}
impl<X: Ex> Ex for Vec<X> {
    fn ex(&self) -> T {
        T::id("Vec", V::Seq(self.iter().map(X::ex).collect()))
    }
    fn places(&self, o: &mut Vec<Place>) {
        self.iter().for_each(|x| x.places(o));
    }
}
impl<X: Ex, const N: usize> Ex for [X; N] {
    fn ex(&self) -> T {
        T::id("array", V::Seq(self.iter().map(X::ex).collect()))
    }
    fn places(&self, o: &mut Vec<Place>) {
        self.iter().for_each(|x| x.places(o));
    }
}
impl<X: Ex> Ex for Box<X> {
    fn ex(&self) -> T {
        (**self).ex()
    }
    fn places(&self, o: &mut Vec<Place>) {
        (**self).places(o)
    }
}
impl<X: Ex> Ex for Option<X> {
    fn ex(&self) -> T {
        match self {
            Some(x) => x.ex(),
            None => T::id("None", V::Tuple(vec![])),
        }
    }
    fn places(&self, o: &mut Vec<Place>) {
        self.iter().for_each(|x| x.places(o));
    }
}
impl<X: Ex, Y: Ex> Ex for Result<X, Y> {
    fn ex(&self) -> T {
        match self {
            Ok(x) => T::id("Ok", V::Tuple(vec![x.ex()])),
            Err(x) => T::id("Err", V::Tuple(vec![x.ex()])),
        }
    }
    fn places(&self, o: &mut Vec<Place>) {
        match self {
            Ok(x) => x.places(o),
            Err(x) => x.places(o),
        }
    }
}
macro_rules! ex_tup {
    ($(($($t:ident $i:tt)*))*) => {$(
        impl<$($t: Ex),*> Ex for ($($t,)*) {
            fn ex(&self) -> T {
                T::new(V::Tuple(vec![$(self.$i.ex()),*]))
            }
            fn places(&self, o: &mut Vec<Place>) {
                $(self.$i.places(o);)*
            }
        }
    )*};
}
ex_tup!((A 0) (A 0 B 1) (A 0 B 1 C 2) (A 0 B 1 C 2 D 3) (A 0 B 1 C 2 D 3 E 4) (A 0 B 1 C 2 D 3 E 4 F 5)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6) (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7) (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9) (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11));

const POOL: &[&str] = &["", "a", "hello", "x = 1\n", "\u{e9}\u{1F600}", "( [ { <", "\"'#", "a longer piece of text that is borrowed"];
impl Arb for &'static str {
    fn arb(r: &mut Rng) -> &'static str {
        r.pick(POOL)
    }
}

/// A value itself; converting it changes nothing.
struct Own(Kserd<'static>);
impl Ex for Own {
    fn ex(&self) -> T {
        model::of(&self.0)
    }
}
impl ToKserd<'static> for Own {
    fn into_kserd(self) -> Result<Kserd<'static>, ToKserdErr> {
        self.0.into_kserd()
    }
}
impl Arb for Own {
    fn arb(r: &mut Rng) -> Own {
        Own(gen::tree(r, Prof::small()).build())
    }
}
impl Debug for Own {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", model::of(&self.0))
    }
}

fn texts(k: &Kserd, o: &mut Vec<Place>) {
    match &k.val {
        Value::Str(s) => {
            if k.id.as_ref().map(|x| &*x.inner) != Some("char") {
                o.push((s.inner.as_ptr() as usize, s.inner.len(), matches!(s.inner, Cow::Owned(_))));
            }
        }
        Value::Tuple(x) | Value::Seq(x) => x.iter().for_each(|k| texts(k, o)),
        _ => (),
    }
}

fn convert<X: Arb + Ex + ToKserd<'static> + Debug>(ctx: &mut Ctx, name: &'static str) -> R {
    let x = X::arb(&mut ctx.r);
    let d = format!("{name} {x:?}");
    let want = x.ex();
    let mut before = vec![];
    x.places(&mut before);
    let k = match calm("converting", || d.clone(), || x.into_kserd())? {
        Ok(k) => k,
        Err(e) => return fail("supported data is refused by conversion", format!("{e:?}\n{d}")),
    };
    let got = model::of(&k);
    if let Err(e) = model::identical(&want, &got) {
        return fail("converted data differs", format!("{e}\n{d}\ngot {got:?}"));
    }
    if !before.is_empty() && !name.contains("Own") {
        let mut after = vec![];
        texts(&k, &mut after);
        ensure!(after.len() == before.len(), "converted text is lost", "{d}: {before:?} {after:?}");
        for (b, a) in before.iter().zip(&after) {
            ensure!(a.2 == b.2, "conversion changes who owns text", "{d}: {b:?} becomes {a:?}");
            ensure!(a.0 == b.0 || a.1 == 0, "conversion copies text", "{d}: {b:?} becomes {a:?}");
            ctx.hit(if b.2 { "owned text moved" } else { "borrowed text kept" });
        }
    }
    ctx.state_s(&d);
    ctx.sample(|| d.clone());
    Ok(())
}

/// Types which conversion and encoding represent alike give equal values.
fn alike<X: Arb + Ex + ToKserd<'static> + Serialize + Debug>(ctx: &mut Ctx, name: &'static str) -> R {
    let x = X::arb(&mut ctx.r);
    let d = format!("{name} {x:?}");
    let e = match calm("encoding", || d.clone(), || Kserd::enc(&x))? {
        Ok(e) => e,
        Err(e) => return fail("supported data is refused by the encoder", format!("{e:?}\n{d}")),
    };
    let k = match calm("converting", || d.clone(), || x.into_kserd())? {
        Ok(k) => k,
        Err(e) => return fail("supported data is refused by conversion", format!("{e:?}\n{d}")),
    };
    let (a, b) = (model::of(&e), model::of(&k));
    ensure!(model::order(&a.v, &b.v) == Ordering::Equal, "conversion and encoding disagree", "{d}\nencoded {a:?}\nconverted {b:?}");
    ctx.hit("equal to the encoding");
    convert::<X>(ctx, name)
}

/// An element that cannot be converted makes the whole conversion fail.
#[derive(Clone)]
struct Bad(Option<String>);
impl ToKserd<'static> for Bad {
    fn into_kserd(self) -> Result<Kserd<'static>, ToKserdErr> {
        match self.0 {
            Some(id) => Ok(Kserd::with_id(id, Value::Unit)?),
            None => Ok(Kserd::new_unit()),
        }
    }
}
fn refusals(ctx: &mut Ctx, _: &'static str) -> R {
    let n = 1 + ctx.r.below(6);
    let at = ctx.r.below(n);
    let id = format!("b{}d", ctx.r.pick(&["(", ")", " ", ",", ".", "=", "/", "[", "]", "{", "}", "<", ">", "\\"]));
    let v: Vec<Bad> = (0..n).map(|i| Bad((i == at).then(|| id.clone()))).collect();
    let one = v[at].clone();
    let ok = Bad(None);
    let all = calm("converting", || id.clone(), || {
        vec![
            ("list", v.into_kserd()),
            ("option", Some(one.clone()).into_kserd()),
            ("box", Box::new(one.clone()).into_kserd()),
            ("array", [ok.clone(), one.clone(), ok.clone()].into_kserd()),
            ("tuple", (ok.clone(), 1u8, one.clone()).into_kserd()),
            ("ok", Ok::<Bad, u8>(one.clone()).into_kserd()),
            ("err", Err::<u8, Bad>(one.clone()).into_kserd()),
            ("nested", vec![(ok.clone(), Some([one.clone()]))].into_kserd()),
        ]
    })?;
    for (n, got) in all {
        match got {
            Ok(k) => return fail("an element that cannot be converted is dropped", format!("{n} with {id:?}: {:?}", model::of(&k))),
            Err(e) => ensure!(e.to_string().contains(&id), "a refused conversion does not name the identity", "{n} {id:?}: {e}"),
        }
    }
    ctx.hit("refused elements");
    Ok(())
}

macro_rules! convs {
    ($($f:ident: $($t:ty),*;)*) => { &[$($((stringify!($t), $f::<$t> as fn(&mut Ctx, &'static str) -> R),)*)*] };
}
#[rustfmt::skip]
static CONVS: &[(&str, fn(&mut Ctx, &'static str) -> R)] = convs! {
    alike: u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, char, (), String, &'static str,
        Vec<u8>, Vec<String>, Vec<&'static str>, Vec<Vec<String>>, Vec<()>, Box<u8>, Box<String>, Box<Vec<Box<String>>>, Vec<(u8, String)>,
        Result<u8, String>, Result<String, &'static str>, Result<(), Vec<u8>>, Vec<Result<u8, ()>>,
        (u8,), (u8, String), (u8, String, &'static str), (f32, f64, bool, char), (u8, i8, u16, i16, String), (u8, u8, u8, u8, u8, String),
        (u8, (), u8, u8, u8, u8, String), (u8, u8, String, u8, u8, u8, u8, i128), (u8, u8, u8, u8, bool, u8, u8, u8, String),
        (u8, u8, u8, f64, u8, u8, u8, u8, u8, String), (u8, u8, u8, u8, u8, &'static str, u8, u8, u8, u8, String),
        (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool, String), ((u8,), (u8, (String, Vec<u8>))), Vec<(Vec<u8>, Result<u8, u8>)>;
    convert: [u8; 1], [u8; 2], [String; 3], [u16; 4], [&'static str; 5], [u8; 6], [bool; 7], [char; 8], [u8; 9], [i8; 10], [String; 11],
        [u8; 12], [u8; 13], [u8; 14], [u8; 15], [String; 16], [u8; 17], [u8; 18], [u8; 19], [u8; 20], [f64; 21], [u8; 22], [u8; 23], [u8; 24],
        [u8; 25], [u8; 26], [u8; 27], [u8; 28], [u8; 29], [u8; 30], [&'static str; 31], [String; 32], [[String; 2]; 3], [(); 4],
        Option<u8>, Option<String>, Option<Option<u8>>, Option<Vec<Option<String>>>, Vec<Option<()>>, [Option<u8>; 2], (Option<u8>, Option<String>),
        Box<Option<Box<u8>>>, Result<Option<u8>, [String; 2]>, Own, Vec<Own>, (Own, u8, Own), Option<Own>, [Own; 2], Result<Own, String>;
};

fn c16(ctx: &mut Ctx, case: u64) -> R {
    if case % 60 == 7 {
        return refusals(ctx, "");
    }
    let (name, f) = ctx.r.pick(CONVS);
    f(ctx, name)
}

pub static C16: Prop = Prop {
    id: "C16",
    quick: 10_000_000,
    thorough: 180_000_000,
    rule: "a random value of one of about a hundred types (all tuple arities and array lengths) is converted; the result is compared node by node with what it must be, and the addresses of its text with those before; distinct: by data",
    required: &["owned text moved", "borrowed text kept", "equal to the encoding", "refused elements"],
    bounded: false,
    assumptions: &[],
    run: c16,
};

// ---------------------------------------------------------------- C17

/// Build the value with text borrowed from the model or owned, at random.
pub fn mixed<'t>(r: &mut Rng, t: &'t T, own8: usize) -> Kserd<'t> {
    let s = |r: &mut Rng, s: &'t str| {
        if r.chance(own8, 8) {
            Kstr::owned(s.to_string())
        } else {
            Kstr::brwed(s)
        }
    };
    Kserd {
        id: t.id.as_deref().map(|x| s(r, x)),
        val: match &t.v {
            V::Unit => Value::Unit,
            V::Bool(b) => Value::Bool(*b),
            V::Num(n) => Value::Num(n.to()),
            V::Str(x) => Value::Str(s(r, x)),
            V::Barr(b) => {
                if r.chance(own8, 8) {
                    Value::new_barrv(b.clone())
                } else {
                    Value::new_barr(b)
                }
            }
            V::Tuple(x) => Value::Tuple(x.iter().map(|t| mixed(r, t, own8)).collect()),
            V::Seq(x) => Value::Seq(x.iter().map(|t| mixed(r, t, own8)).collect()),
            V::Cntr(x) => Value::Cntr(x.iter().map(|(f, t)| (s(r, f), mixed(r, t, own8))).collect()),
            V::Map(x) => Value::Map(x.iter().map(|(k, t)| (mixed(r, k, own8), mixed(r, t, own8))).collect()),
        },
    }
}

fn all_texts(k: &Kserd, o: &mut Vec<Place>) {
    match &k.val {
        Value::Str(s) => o.push((s.inner.as_ptr() as usize, s.inner.len(), matches!(s.inner, Cow::Owned(_)))),
        Value::Barr(s) => o.push((s.inner.as_ptr() as usize, s.inner.len(), matches!(s.inner, Cow::Owned(_)))),
        Value::Tuple(x) | Value::Seq(x) => x.iter().for_each(|k| all_texts(k, o)),
        Value::Cntr(m) => m.iter().for_each(|(f, k)| {
            o.push((f.inner.as_ptr() as usize, f.inner.len(), matches!(f.inner, Cow::Owned(_))));
            all_texts(k, o)
        }),
        Value::Map(m) => m.iter().for_each(|(k, v)| {
            all_texts(k, o);
            all_texts(v, o)
        }),
        _ => (),
    }
}

/// How a piece of text was handed over. Moved text is kept alive to keep its address.
enum Got<'de> {
    Lent(&'de [u8]),
    Moved(Vec<u8>),
    Copied,
}

/// Decodes any value, asking for each node in the way a type of its kind (or no type) does.
struct Any<'t>(&'t T, u64);

fn mix(x: u64) -> u64 {
    (x ^ (x >> 29)).wrapping_mul(0xbf58476d1ce4e5b9).rotate_left(17)
}

impl<'de, 't> DeserializeSeed<'de> for Any<'t> {
    type Value = Vec<Got<'de>>;
    fn deserialize<Z: Deserializer<'de>>(self, z: Z) -> Result<Self::Value, Z::Error> {
        let m = mix(self.1) % 4;
        match &self.0.v {
            V::Str(_) if m == 0 => z.deserialize_str(self),
            V::Str(_) if m == 1 => z.deserialize_string(self),
            V::Str(_) if m == 2 => z.deserialize_identifier(self),
            V::Barr(_) if m == 0 => z.deserialize_bytes(self),
            V::Barr(_) if m == 1 => z.deserialize_byte_buf(self),
            V::Seq(_) if m < 2 => z.deserialize_seq(self),
            V::Tuple(x) | V::Seq(x) if m == 2 => z.deserialize_tuple(x.len(), self),
            V::Tuple(x) if m == 1 => z.deserialize_tuple_struct("X", x.len(), self),
            V::Map(_) if m < 2 => z.deserialize_map(self),
            V::Cntr(_) if m == 0 => z.deserialize_map(self),
            V::Cntr(_) if m == 1 => z.deserialize_struct("X", &["a"], self),
            _ => z.deserialize_any(self),
        }
    }
}

impl<'de, 't> Visitor<'de> for Any<'t> {
    type Value = Vec<Got<'de>>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, _: bool) -> Result<Self::Value, E> {
        Ok(vec![])
    }
    fn visit_u64<E>(self, _: u64) -> Result<Self::Value, E> {
        Ok(vec![])
    }
    fn visit_i64<E>(self, _: i64) -> Result<Self::Value, E> {
        Ok(vec![])
    }
    fn visit_u128<E>(self, _: u128) -> Result<Self::Value, E> {
        Ok(vec![])
    }
    fn visit_i128<E>(self, _: i128) -> Result<Self::Value, E> {
        Ok(vec![])
    }
    fn visit_f64<E>(self, _: f64) -> Result<Self::Value, E> {
        Ok(vec![])
    }
    fn visit_unit<E>(self) -> Result<Self::Value, E> {
        Ok(vec![])
    }
    fn visit_none<E>(self) -> Result<Self::Value, E> {
        Ok(vec![])
    }
    fn visit_some<Z: Deserializer<'de>>(self, z: Z) -> Result<Self::Value, Z::Error> {
        self.visit_newtype_struct(z)
    }
    fn visit_newtype_struct<Z: Deserializer<'de>>(self, z: Z) -> Result<Self::Value, Z::Error> {
        match &self.0.v {
            V::Tuple(x) if x.len() == 1 => Any(&x[0], self.1.wrapping_add(1)).deserialize(z),
            _ => Err(de::Error::custom("not a value of one element")),
        }
    }
    fn visit_str<E>(self, _: &str) -> Result<Self::Value, E> {
        Ok(vec![Got::Copied])
    }
    fn visit_borrowed_str<E>(self, s: &'de str) -> Result<Self::Value, E> {
        Ok(vec![Got::Lent(s.as_bytes())])
    }
    fn visit_string<E>(self, s: String) -> Result<Self::Value, E> {
        Ok(vec![Got::Moved(s.into_bytes())])
    }
    fn visit_bytes<E>(self, _: &[u8]) -> Result<Self::Value, E> {
        Ok(vec![Got::Copied])
    }
    fn visit_borrowed_bytes<E>(self, s: &'de [u8]) -> Result<Self::Value, E> {
        Ok(vec![Got::Lent(s)])
    }
    fn visit_byte_buf<E>(self, s: Vec<u8>) -> Result<Self::Value, E> {
        Ok(vec![Got::Moved(s)])
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let (V::Tuple(x) | V::Seq(x)) = &self.0.v else {
            return Err(de::Error::custom("not a list"));
        };
        let mut o = vec![];
        for (i, t) in x.iter().enumerate() {
            match a.next_element_seed(Any(t, mix(self.1.wrapping_add(31 * i as u64 + 1))))? {
                Some(g) => o.extend(g),
                None => return Err(de::Error::custom("an element is missing")),
            }
        }
        Ok(o)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let name = T::new(V::Str(String::new()));
        let pairs: Vec<(&T, &T)> = match &self.0.v {
            V::Cntr(x) => x.iter().map(|x| (&name, &x.1)).collect(),
            V::Map(x) => x.iter().map(|x| (&x.0, &x.1)).collect(),
            _ => return Err(de::Error::custom("not a map")),
        };
        let mut o = vec![];
        for (i, (k, v)) in pairs.into_iter().enumerate() {
            match a.next_key_seed(Any(k, mix(self.1.wrapping_add(31 * i as u64 + 1))))? {
                Some(g) => o.extend(g),
                None => return Err(de::Error::custom("an entry is missing")),
            }
            o.extend(a.next_value_seed(Any(v, mix(self.1.wrapping_add(37 * i as u64 + 2))))?);
        }
        Ok(o)
    }
}

fn handed(ctx: &mut Ctx, how: &str, t: &T, salt: u64, before: &[Place], got: &[Got]) -> R {
    let d = || format!("{how} (salt {salt})\n{t:?}");
    ensure!(before.len() == got.len(), "decoding drops text", "{}\n{} of {}", d(), got.len(), before.len());
    for (i, (b, g)) in before.iter().zip(got).enumerate() {
        match (g, b.2) {
            (Got::Lent(s), false) => {
                ensure!(s.as_ptr() as usize == b.0 && s.len() == b.1, "borrowed text is handed on from elsewhere", "{} text {i}", d());
                ctx.hit("borrowed text lent");
            }
            (Got::Moved(s), true) => {
                ensure!(s.len() == b.1, "moved text changes its length", "{} text {i}", d());
                ensure!(s.as_ptr() as usize == b.0 || b.1 == 0, "owned text is copied, not moved", "{} text {i}", d());
                ctx.hit("owned text moved");
            }
            (Got::Copied, false) => return fail("borrowed text is not lent to the type", format!("{} text {i}", d())),
            (Got::Copied, true) => return fail("owned text is not moved to the type", format!("{} text {i}", d())),
            (Got::Moved(_), false) => return fail("borrowed text is copied though it could be lent", format!("{} text {i}", d())),
            (Got::Lent(_), true) => return fail("owned text is lent beyond its life", format!("{} text {i}", d())),
        }
    }
    Ok(())
}

fn general(ctx: &mut Ctx) -> R {
    let t = gen::any(&mut ctx.r);
    let own8 = *ctx.r.pick(&[0, 8, 4, 1]);
    let salt = ctx.r.next() >> 40;
    let k = mixed(&mut ctx.r, &t, own8);
    let m = model::of(&k); // maps sort and merge their keys
    let mut before = vec![];
    all_texts(&k, &mut before);
    // a view of it lends everything, from the memory of the original
    {
        let lent: Vec<Place> = before.iter().map(|b| (b.0, b.1, false)).collect();
        let view = k.mk_brw();
        let got = calm("decoding a view", || format!("{m:?}"), || Any(&m, salt).deserialize(Decoder(view)))?;
        match got {
            Ok(g) => handed(ctx, "borrowed view", &m, salt, &lent, &g)?,
            Err(e) => return fail("a borrowed view does not decode", format!("{e}\n{m:?}")),
        }
        ctx.hit("views decoded");
    }
    let got = calm("decoding", || format!("{m:?}"), || Any(&m, salt).deserialize(Decoder(k)))?;
    match got {
        Ok(g) => handed(ctx, "value", &m, salt, &before, &g)?,
        Err(e) => return fail("a value does not decode into a type that takes anything", format!("{e}\n{m:?}")),
    }
    if !before.is_empty() {
        ctx.state_s(&format!("{own8} {m:?}"));
    }
    Ok(())
}

#[derive(Deserialize, Debug, PartialEq)]
struct Lent<'a> {
    a: &'a str,
    #[serde(borrow)]
    b: Option<&'a str>,
    #[serde(borrow)]
    c: Vec<&'a str>,
    d: (&'a str, &'a [u8]),
    #[serde(borrow)]
    e: BTreeMap<&'a str, &'a str>,
    #[serde(borrow)]
    f: LentEnum<'a>,
    #[serde(borrow)]
    g: LentNew<'a>,
    #[serde(borrow)]
    h: BTreeMap<&'a str, u8>,
}
#[derive(Deserialize, Debug, PartialEq)]
struct LentNew<'a>(&'a str);
#[derive(Deserialize, Debug, PartialEq)]
enum LentEnum<'a> {
    One(&'a str),
    Two(&'a str, #[serde(borrow)] Option<&'a str>),
    Fields {
        x: &'a str,
        y: &'a [u8],
    },
    Unit,
}
#[derive(Deserialize, Debug, PartialEq)]
struct Owner {
    a: String,
    b: Option<String>,
    c: Vec<String>,
    d: (String, Blob),
    e: BTreeMap<String, String>,
    f: OwnerEnum,
    g: OwnerNew,
    h: BTreeMap<String, u8>,
}
#[derive(Deserialize, Debug, PartialEq)]
struct OwnerNew(String);
#[derive(Deserialize, Debug, PartialEq)]
enum OwnerEnum {
    One(String),
    Two(String, Option<String>),
    Fields { x: String, y: Blob },
    Unit,
}

/// The texts of both, in one order: fields by name, entries by key.
fn lent_texts(l: &Lent) -> Vec<(usize, Vec<u8>)> {
    let mut o: Vec<&[u8]> = vec![l.a.as_bytes()];
    o.extend(l.b.iter().map(|x| x.as_bytes()));
    o.extend(l.c.iter().map(|x| x.as_bytes()));
    o.extend([l.d.0.as_bytes(), l.d.1]);
    l.e.iter().for_each(|(k, v)| o.extend([k.as_bytes(), v.as_bytes()]));
    match &l.f {
        LentEnum::One(x) => o.push(x.as_bytes()),
        LentEnum::Two(x, y) => {
            o.push(x.as_bytes());
            o.extend(y.iter().map(|x| x.as_bytes()));
        }
        LentEnum::Fields { x, y } => o.extend([x.as_bytes(), y]),
        LentEnum::Unit => (),
    }
    o.push(l.g.0.as_bytes());
    l.h.keys().for_each(|k| o.push(k.as_bytes()));
    o.into_iter().map(|x| (x.as_ptr() as usize, x.to_vec())).collect()
}
fn owner_texts(l: &Owner) -> Vec<(usize, Vec<u8>)> {
    let mut o: Vec<&[u8]> = vec![l.a.as_bytes()];
    o.extend(l.b.iter().map(|x| x.as_bytes()));
    o.extend(l.c.iter().map(|x| x.as_bytes()));
    o.extend([l.d.0.as_bytes(), &l.d.1 .0]);
    l.e.iter().for_each(|(k, v)| o.extend([k.as_bytes(), v.as_bytes()]));
    match &l.f {
        OwnerEnum::One(x) => o.push(x.as_bytes()),
        OwnerEnum::Two(x, y) => {
            o.push(x.as_bytes());
            o.extend(y.iter().map(|x| x.as_bytes()));
        }
        OwnerEnum::Fields { x, y } => o.extend([x.as_bytes(), &y.0]),
        OwnerEnum::Unit => (),
    }
    o.push(l.g.0.as_bytes());
    l.h.keys().for_each(|k| o.push(k.as_bytes()));
    o.into_iter().map(|x| (x.as_ptr() as usize, x.to_vec())).collect()
}

fn fitting(r: &mut Rng, bytes: bool) -> T {
    let s = |r: &mut Rng| T::id("str", V::Str(gen::string(r, false)));
    let b = |r: &mut Rng| T::id("barr", V::Barr(if bytes { gen::bytes(r) } else { vec![] }));
    let opt = |r: &mut Rng| {
        if r.bool() {
            T::id("None", V::Tuple(vec![]))
        } else {
            T::id("Some", V::Tuple(vec![s(r)]))
        }
    };
    let mut keys: Vec<String> = (0..r.below(4)).map(|_| gen::string(r, false)).collect();
    keys.sort();
    keys.dedup();
    let mut names: Vec<String> = (0..r.below(4)).map(|_| gen::name(r)).collect();
    names.sort();
    names.dedup();
    let h = T::new(V::Cntr(names.into_iter().map(|n| (n, T::new(V::Num(N::U(r.below(256) as u128))))).collect()));
    let h = if h.is_zst() { T::new(V::Map(vec![])) } else { h };
    let mut f = vec![("a", s(r)), ("b", opt(r))];
    f.push(("c", T::new(V::Seq((0..r.below(4)).map(|_| s(r)).collect()))));
    f.push(("d", T::new(V::Tuple(vec![s(r), b(r)]))));
    f.push(("e", T::new(V::Map(keys.into_iter().map(|k| (T::new(V::Str(k)), s(r))).collect()))));
    f.push((
        "f",
        match r.below(4) {
            0 => T::id("One", V::Tuple(vec![s(r)])),
            1 => T::id("Two", V::Tuple(vec![s(r), opt(r)])),
            2 => T::id("Fields", V::Cntr(vec![("x".into(), s(r)), ("y".into(), b(r))])),
            _ => T::id("Unit", V::Tuple(vec![])),
        },
    ));
    f.push(("g", T::id("LentNew", V::Tuple(vec![s(r)]))));
    f.push(("h", h));
    T::id("Lent", V::Cntr(f.into_iter().map(|(n, t)| (n.to_string(), t)).collect()))
}

/// The texts the types hold: those of the values, and the names of the container of numbers.
fn held(k: &Kserd) -> Vec<Place> {
    let mut o = vec![];
    fn go(k: &Kserd, names: bool, o: &mut Vec<Place>) {
        match &k.val {
            Value::Str(s) => o.push((s.inner.as_ptr() as usize, s.inner.len(), matches!(s.inner, Cow::Owned(_)))),
            Value::Barr(s) => o.push((s.inner.as_ptr() as usize, s.inner.len(), matches!(s.inner, Cow::Owned(_)))),
            Value::Tuple(x) | Value::Seq(x) => x.iter().for_each(|k| go(k, false, o)),
            Value::Cntr(m) => m.iter().for_each(|(f, k)| {
                if names {
                    o.push((f.inner.as_ptr() as usize, f.inner.len(), matches!(f.inner, Cow::Owned(_))));
                }
                go(k, &*f.inner == "h", o)
            }),
            Value::Map(m) => m.iter().for_each(|(k, v)| {
                go(k, false, o);
                go(v, false, o)
            }),
            _ => (),
        }
    }
    go(k, false, &mut o);
    o
}

fn typed(ctx: &mut Ctx) -> R {
    let t = fitting(&mut ctx.r, true);
    let d = || format!("{t:?}");
    let lent = |what: &'static str, k: Kserd, places: &[Place]| -> R {
        let want: Vec<usize> = places.iter().map(|x| x.0).collect();
        match calm("decoding", d, || k.decode::<Lent>().map(|l| lent_texts(&l)))? {
            Ok(got) => {
                ensure!(got.len() == want.len(), "decoded borrowed text is not all there", "{what} {}", d());
                for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                    ensure!(g.0 == *w, "a decoded reference is not to the memory of the value", "{what} text {i} {:?}\n{}", g.1, d());
                }
                Ok(())
            }
            Err(e) => fail(what, format!("{e}\n{}", d())),
        }
    };
    let owner = |k: Kserd| match calm("decoding", d, || k.decode::<Owner>())? {
        Ok(x) => Ok(x),
        Err(e) => fail("a value does not decode into a type that owns", format!("{e}\n{}", d())),
    };
    // lent to lent
    let k = t.build_brw();
    let places = held(&k);
    lent("a value that borrows does not decode into a type that borrows", k.clone(), &places)?;
    ctx.hit("borrowed into borrowing");
    // lent to owned: copies
    let o = owner(k)?;
    for ((a, x), p) in owner_texts(&o).iter().zip(&places) {
        ensure!(x.is_empty() || *a != p.0, "an owning type shares memory it does not own", "{x:?}\n{}", d());
    }
    ctx.hit("borrowed into owning");
    // owned to owned: moves
    let k = t.build();
    let places = held(&k);
    // a view of an owned value decodes into a type that borrows
    lent("a borrowed view does not decode into a type that borrows", k.mk_brw(), &places)?;
    ctx.hit("view into borrowing");
    let o = owner(k)?;
    let got = owner_texts(&o);
    ensure!(got.len() == places.len(), "decoded owned text is not all there", "{}", d());
    for (i, ((a, x), p)) in got.iter().zip(&places).enumerate() {
        ensure!(x.len() == p.1 && (x.is_empty() || *a == p.0), "owned text is not moved into an owning type", "text {i} {x:?}\n{}", d());
    }
    ctx.hit("owned into owning");
    // any one owned text: refused by a type that borrows
    let own8 = *ctx.r.pick(&[1, 1, 2, 8]);
    let k = mixed(&mut ctx.r, &t, own8);
    let places = held(&k);
    if places.iter().any(|p| p.2) {
        match calm("decoding", d, || k.decode::<Lent>().map(|l| format!("{l:?}")))? {
            Ok(l) => return fail("owned text decodes into a type that borrows it", format!("{l}\n{}", d())),
            Err(_) => ctx.hit("owned into borrowing refused"),
        }
    } else {
        lent("a value that borrows what is needed does not decode into a type that borrows", k, &places)?;
    }
    ctx.state_s(&d());
    Ok(())
}

/// Parsed values borrow from the text they were parsed from.
fn parsed(ctx: &mut Ctx) -> R {
    let t = fitting(&mut ctx.r, false);
    let mut c = crate::props::serdes::shown_config(&mut ctx.r);
    c.id_on_primitives &= ctx.r.bool();
    let text = calm("formatting", || format!("{t:?}"), || t.build().as_str_with_config(c))?;
    let k = match calm("parsing", || text.clone(), || parse::parse(&text))? {
        Ok(k) => k,
        Err(_) => return Ok(()), // not a matter of this property
    };
    let range = text.as_ptr() as usize..text.as_ptr() as usize + text.len();
    let mut places = vec![];
    all_texts(&k, &mut places);
    // bytes are decoded from text and owned
    let owned = places.iter().filter(|p| p.2 && p.1 > 0).count();
    ensure!(owned == 0, "parsed text is copied", "{owned} texts\n{text}");
    let got = calm("decoding", || text.clone(), || k.mk_brw().decode::<Lent>().map(|l| lent_texts(&l)))?;
    match got {
        Ok(l) => {
            for (a, x) in l {
                ensure!(x.is_empty() || range.contains(&a), "text decoded from parsed text is not part of it", "{x:?}\n{text}");
            }
            ctx.hit("parsed text lent");
        }
        Err(e) => return fail("a borrowed view of parsed text does not decode into a type that borrows", format!("{e}\n{text}")),
    }
    ctx.state_s(&text);
    Ok(())
}

fn roots(ctx: &mut Ctx) -> R {
    let s = gen::string(&mut ctx.r, false);
    let b = gen::bytes(&mut ctx.r);
    let d = || format!("{s:?} {b:?}");
    let at = |s: &[u8]| s.as_ptr() as usize;
    let e = "decoding a bare string or bytes";
    let ok = calm(e, d, || {
        let sb = Kserd::new_str(&s).decode::<&str>().map(|x| at(x.as_bytes()) == at(s.as_bytes()) && x == s) == Ok(true);
        let bb = Kserd::new_barr(&b).decode::<&[u8]>().map(|x| at(x) == at(&b) && x == b) == Ok(true);
        let so = Kserd::new_str(&s).decode::<String>().as_deref() == Ok(&s);
        let bo = Kserd::new_barr(&b).decode::<Blob>().map(|x| x.0 == b) == Ok(true);
        sb && bb && so && bo
    })?;
    ensure!(ok, "borrowed text or bytes do not decode as documented", "{}", d());
    let ok = calm(e, d, || {
        let s2 = s.clone();
        let p = at(s2.as_bytes());
        let so = Kserd::new_string(s2).decode::<String>().map(|x| (x.is_empty() || at(x.as_bytes()) == p) && x == s) == Ok(true);
        let b2 = b.clone();
        let p = at(&b2);
        let bo = Kserd::new_barrv(b2).decode::<Blob>().map(|x| (x.0.is_empty() || at(&x.0) == p) && x.0 == b) == Ok(true);
        let sr = Kserd::new_string(s.clone()).decode::<&str>().is_err();
        let br = Kserd::new_barrv(b.clone()).decode::<&[u8]>().is_err();
        let k = Kserd::new_string(s.clone());
        let sv = k.mk_brw().decode::<&str>().map(|x| x == s && k.str().map(|y| at(y.as_bytes()) == at(x.as_bytes())) == Some(true)) == Ok(true);
        so && bo && sr && br && sv
    })?;
    ensure!(ok, "owned text or bytes do not decode as documented", "{}", d());
    ctx.hit("bare text and bytes");
    Ok(())
}

fn c17(ctx: &mut Ctx, case: u64) -> R {
    match case % 8 {
        0..=2 => general(ctx),
        3..=5 => typed(ctx),
        6 => parsed(ctx),
        _ => roots(ctx),
    }
}

pub static C17: Prop = Prop {
    id: "C17",
    quick: 2_000_000,
    thorough: 36_000_000,
    rule: "a value with a random mixture of borrowed and owned text is decoded into a type that takes anything, or a typed one into borrowing and owning types; the address of every text after is compared with that before; distinct: by value",
    required: &[
        "borrowed text lent", "owned text moved", "views decoded", "borrowed into borrowing", "borrowed into owning", "view into borrowing",
        "owned into owning", "owned into borrowing refused", "parsed text lent", "bare text and bytes",
    ],
    bounded: false,
    assumptions: &["empty text has no address"],
    run: c17,
};
