//! Values of derived and standard library types, through serde as users write it.

use crate::gen;
use crate::model;
use crate::mon::*;
use crate::props::serdes::written;
use crate::rng::Rng;
use kserd::fmt::FormattingConfig;
use kserd::{parse, Kserd};
use serde::de::{self, DeserializeOwned, Visitor};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::*;
use std::ffi::{CString, OsString};
use std::fmt::{self, Debug};
use std::marker::PhantomData;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::num::*;
use std::ops::{Bound, Range, RangeFrom, RangeInclusive};
use std::path::PathBuf;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub trait Arb: Sized {
    fn arb(r: &mut Rng) -> Self;
}

fn n(r: &mut Rng) -> usize {
    if r.chance(1, 500) {
        return 8 + r.below(300);
    }
    *r.pick(&[0, 1, 1, 2, 2, 3, 4, 7])
}
pub fn coll<X: Arb, C: FromIterator<X>>(r: &mut Rng) -> C {
    let n = n(r);
    (0..n).map(|_| X::arb(r)).collect()
}

macro_rules! ints {
    ($($t:ty)*) => {$(
        impl Arb for $t {
            fn arb(r: &mut Rng) -> $t {
                match r.below(6) {
                    0 => <$t>::MAX,
                    1 => <$t>::MIN,
                    2 => 0,
                    3 => <$t>::MIN.wrapping_add(r.below(3) as $t),
                    4 => r.below(100) as $t,
                    _ => r.u128() as $t,
                }
            }
        }
    )*};
}
ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
macro_rules! non_zero {
    ($($t:ty, $i:ty;)*) => {$(
        impl Arb for $t {
            fn arb(r: &mut Rng) -> $t {
                loop {
                    if let Some(x) = <$t>::new(<$i>::arb(r)) {
                        return x;
                    }
                }
            }
        }
    )*};
}
non_zero! { NonZeroU8, u8; NonZeroI8, i8; NonZeroU64, u64; NonZeroI128, i128; NonZeroUsize, usize; }
impl Arb for f64 {
    fn arb(r: &mut Rng) -> f64 {
        loop {
            let f = gen::float(r);
            if !f.is_nan() {
                return f;
            }
        }
    }
}
impl Arb for f32 {
    fn arb(r: &mut Rng) -> f32 {
        loop {
            let f = if r.bool() { f32::from_bits(r.next() as u32) } else { gen::float(r) as f32 };
            if !f.is_nan() {
                return f;
            }
        }
    }
}
impl Arb for bool {
    fn arb(r: &mut Rng) -> bool {
        r.bool()
    }
}
impl Arb for char {
    fn arb(r: &mut Rng) -> char {
        match r.below(3) {
            0 => *r.pick(&['"', '\'', '\n', '\\', '\0', '\u{e9}', '\u{1F600}', ' ', '(', '=', ':', '#']),
            1 => (32 + r.below(95)) as u8 as char,
            _ => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x'),
        }
    }
}
impl Arb for () {
    fn arb(_: &mut Rng) {}
}
impl Arb for String {
    fn arb(r: &mut Rng) -> String {
        gen::string(r, false)
    }
}
impl Arb for Box<str> {
    fn arb(r: &mut Rng) -> Box<str> {
        gen::string(r, false).into()
    }
}
impl Arb for Cow<'static, str> {
    fn arb(r: &mut Rng) -> Cow<'static, str> {
        gen::string(r, false).into()
    }
}
impl Arb for PathBuf {
    fn arb(r: &mut Rng) -> PathBuf {
        gen::string(r, false).into()
    }
}
impl Arb for OsString {
    fn arb(r: &mut Rng) -> OsString {
        gen::string(r, false).into()
    }
}
impl Arb for CString {
    fn arb(r: &mut Rng) -> CString {
        let b: Vec<u8> = gen::bytes(r).into_iter().filter(|x| *x != 0).collect();
        CString::new(b).unwrap()
    }
}
impl<X: Arb> Arb for Option<X> {
    fn arb(r: &mut Rng) -> Option<X> {
        (!r.chance(1, 3)).then(|| X::arb(r))
    }
}
impl<X: Arb, Y: Arb> Arb for Result<X, Y> {
    fn arb(r: &mut Rng) -> Result<X, Y> {
        if r.bool() {
            Ok(X::arb(r))
        } else {
            Err(Y::arb(r))
        }
    }
}
impl<X: Arb> Arb for Box<X> {
    fn arb(r: &mut Rng) -> Box<X> {
        Box::new(X::arb(r))
    }
}
impl<X: Arb> Arb for Box<[X]> {
    fn arb(r: &mut Rng) -> Box<[X]> {
        coll::<X, Vec<X>>(r).into()
    }
}
impl<X: Arb> Arb for Cell<X> {
    fn arb(r: &mut Rng) -> Cell<X> {
        Cell::new(X::arb(r))
    }
}
impl<X: Arb> Arb for RefCell<X> {
    fn arb(r: &mut Rng) -> RefCell<X> {
        RefCell::new(X::arb(r))
    }
}
macro_rules! colls {
    ($($c:ident [$($b:tt)*])*) => {$(
        impl<X: Arb + $($b)*> Arb for $c<X> {
            fn arb(r: &mut Rng) -> $c<X> {
                coll(r)
            }
        }
    )*};
}
colls!(Vec [Sized] VecDeque [Sized] LinkedList [Sized] BTreeSet [Ord] HashSet [Eq + std::hash::Hash]);
impl<K: Arb + Ord, X: Arb> Arb for BTreeMap<K, X> {
    fn arb(r: &mut Rng) -> Self {
        coll(r)
    }
}
impl<K: Arb + Eq + std::hash::Hash, X: Arb> Arb for HashMap<K, X> {
    fn arb(r: &mut Rng) -> Self {
        coll(r)
    }
}
macro_rules! tups {
    ($(($($t:ident)*))*) => {$(
        impl<$($t: Arb),*> Arb for ($($t,)*) {
            fn arb(r: &mut Rng) -> Self {
                ($($t::arb(r),)*)
            }
        }
    )*};
}
tups!((A) (A B) (A B C) (A B C D) (A B C D E) (A B C D E F) (A B C D E F G) (A B C D E F G H) (A B C D E F G H I) (A B C D E F G H I J)
    (A B C D E F G H I J K) (A B C D E F G H I J K L));
impl<X: Arb, const N: usize> Arb for [X; N] {
    fn arb(r: &mut Rng) -> [X; N] {
        std::array::from_fn(|_| X::arb(r))
    }
}
macro_rules! wrap {
    ($($w:ident)*) => {$(
        impl<X: Arb> Arb for $w<X> {
            fn arb(r: &mut Rng) -> $w<X> {
                $w(X::arb(r))
            }
        }
    )*};
}
wrap!(Wrapping Saturating Reverse);
impl Arb for Duration {
    fn arb(r: &mut Rng) -> Duration {
        Duration::new(u64::arb(r), r.below(1_000_000_000) as u32)
    }
}
impl Arb for SystemTime {
    fn arb(r: &mut Rng) -> SystemTime {
        UNIX_EPOCH + Duration::new(r.below(1 << 40) as u64, r.below(1_000_000_000) as u32)
    }
}
impl<X: Arb> Arb for Range<X> {
    fn arb(r: &mut Rng) -> Self {
        X::arb(r)..X::arb(r)
    }
}
impl<X: Arb> Arb for RangeInclusive<X> {
    fn arb(r: &mut Rng) -> Self {
        X::arb(r)..=X::arb(r)
    }
}
impl<X: Arb> Arb for RangeFrom<X> {
    fn arb(r: &mut Rng) -> Self {
        X::arb(r)..
    }
}
impl<X: Arb> Arb for Bound<X> {
    fn arb(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(X::arb(r)),
            _ => Bound::Excluded(X::arb(r)),
        }
    }
}
impl<X> Arb for PhantomData<X> {
    fn arb(_: &mut Rng) -> Self {
        PhantomData
    }
}
impl Arb for IpAddr {
    fn arb(r: &mut Rng) -> IpAddr {
        if r.bool() {
            IpAddr::V4(Ipv4Addr::from(u32::arb(r)))
        } else {
            IpAddr::V6(Ipv6Addr::from(u128::arb(r)))
        }
    }
}
impl Arb for SocketAddr {
    fn arb(r: &mut Rng) -> SocketAddr {
        SocketAddr::new(IpAddr::arb(r), u16::arb(r))
    }
}

/// Bytes that are written as bytes, not as a list of numbers.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct Blob(pub Vec<u8>);
impl Debug for Blob {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "bytes{:?}", self.0)
    }
}
impl Serialize for Blob {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Blob, D::Error> {
        struct Vis;
        impl Visitor<'_> for Vis {
            type Value = Blob;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<Blob, E> {
                Ok(Blob(b.to_vec()))
            }
            fn visit_byte_buf<E: de::Error>(self, b: Vec<u8>) -> Result<Blob, E> {
                Ok(Blob(b))
            }
        }
        d.deserialize_byte_buf(Vis)
    }
}
impl Arb for Blob {
    fn arb(r: &mut Rng) -> Blob {
        Blob(gen::bytes(r))
    }
}

macro_rules! st {
    ($(#[$m:meta])* $name:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
        $(#[$m])*
        pub struct $name { $($(#[$fm])* $f: $t),* }
        impl Arb for $name {
            fn arb(_r: &mut Rng) -> Self {
                $name { $($f: Arb::arb(_r)),* }
            }
        }
    };
}
macro_rules! ts {
    ($(#[$m:meta])* $name:ident ( $($t:ty),* $(,)? )) => {
        #[derive(Serialize, Deserialize, PartialEq, PartialOrd, Debug, Clone)]
        $(#[$m])*
        pub struct $name($($t),*);
        impl Arb for $name {
            fn arb(_r: &mut Rng) -> Self {
                $name($(<$t>::arb(_r)),*)
            }
        }
    };
}

st!(Empty {});
st!(One { a: u8 });
st!(Point { x: f64, y: f64 });
st!(Person { name: String, age: u8, email: Option<String>, tags: Vec<String>, home: Point });
st!(
    #[serde(rename = "re-named", rename_all = "kebab-case")]
    Renamed { first_field: i32, second_field: Option<Box<Renamed2>>, #[serde(rename = "type")] kind: Kind }
);
st!(#[serde(rename_all = "SCREAMING_SNAKE_CASE")] Renamed2 { aa: u64, bb_cc: String });
st!(Skips {
    #[serde(default, skip_serializing_if = "Option::is_none")] a: Option<i32>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")] b: Vec<u8>,
    #[serde(default)] c: String,
});
st!(#[serde(deny_unknown_fields)] Strict { a: u8, b: Option<u16> });
st!(Ints { a: u8, b: u16, c: u32, d: u64, e: u128, f: usize, g: i8, h: i16, i: i32, j: i64, k: i128, l: isize });
st!(Leaves { a: bool, b: char, c: f32, d: f64, e: (), f: Blob, g: String });
st!(Colls {
    a: Vec<u8>, b: [u8; 3], c: (u8, i8), d: BTreeMap<String, u8>, e: BTreeSet<i16>, f: VecDeque<bool>, g: HashMap<u8, Vec<u8>>,
    h: [String; 2], i: Option<Vec<Option<u8>>>, j: Vec<Vec<Vec<i8>>>
});
st!(Nest { a: Vec<Shape>, b: BTreeMap<u8, Shape>, c: (Shape, Unit), d: Option<Shape>, e: Box<Person>, f: Meters });
st!(Flat { a: u8, #[serde(flatten)] inner: FlatInner, z: String });
st!(FlatInner { b: i32, c: Option<bool>, d: Vec<u16>, e: String });
ts!(#[derive(Eq, Ord, Hash)] Meters(i64));
ts!(Pair(u8, String));
ts!(Triple(Option<u8>, Vec<i32>, (u8, u8)));
ts!(NoFields());
ts!(#[serde(transparent)] Clear(Vec<u8>));
ts!(Deep(Meters2));
ts!(Meters2(Meters));
ts!(NewOpt(Option<u8>));
ts!(NewVec(Vec<NewOpt>));
ts!(NewTuple((u8, u8)));
ts!(NewUnit(()));
ts!(NewMap(BTreeMap<Meters, String>));
ts!(NewBlob(Blob));

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Unit;
impl Arb for Unit {
    fn arb(_: &mut Rng) -> Unit {
        Unit
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Gen<A, B> {
    a: A,
    b: Vec<B>,
    c: Option<(A, B)>,
}
impl<A: Arb, B: Arb> Arb for Gen<A, B> {
    fn arb(r: &mut Rng) -> Self {
        Gen { a: A::arb(r), b: Arb::arb(r), c: Arb::arb(r) }
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub enum Kind {
    First,
    Second,
    #[serde(rename = "third-one")]
    Third,
}
impl Arb for Kind {
    fn arb(r: &mut Rng) -> Kind {
        match r.below(3) {
            0 => Kind::First,
            1 => Kind::Second,
            _ => Kind::Third,
        }
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub enum Shape {
    Nothing,
    Circle(f64),
    Rect(f64, f64),
    Named { name: String, at: Option<Point> },
    Group(Vec<Shape>),
    NoneAtAll(),
    NoFields {},
    Opt(Option<Box<Shape>>),
    Unit(()),
    Tup((u8, i8)),
    Map(BTreeMap<String, Kind>),
    Blob(Blob),
}
impl Arb for Shape {
    fn arb(r: &mut Rng) -> Shape {
        match r.below(14) {
            0 => Shape::Nothing,
            1 => Shape::Circle(Arb::arb(r)),
            2 => Shape::Rect(Arb::arb(r), Arb::arb(r)),
            3 => Shape::Named { name: Arb::arb(r), at: Arb::arb(r) },
            4 => Shape::Group((0..r.below(3)).map(|_| Arb::arb(r)).collect()),
            5 => Shape::NoneAtAll(),
            6 => Shape::NoFields {},
            7 => Shape::Opt(r.bool().then(|| Arb::arb(r))),
            8 => Shape::Unit(()),
            9 => Shape::Tup(Arb::arb(r)),
            10 => Shape::Map(Arb::arb(r)),
            _ => Shape::Blob(Arb::arb(r)),
        }
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub enum Expr {
    Num(i64),
    Neg(Box<Expr>),
    Add(Box<Expr>, Box<Expr>),
    Let { var: String, val: Box<Expr>, body: Box<Expr> },
    Call(String, Vec<Expr>),
}
fn expr(r: &mut Rng, d: usize) -> Expr {
    match if d == 0 { 0 } else { r.below(5) } {
        0 => Expr::Num(Arb::arb(r)),
        1 => Expr::Neg(Box::new(expr(r, d - 1))),
        2 => Expr::Add(Box::new(expr(r, d - 1)), Box::new(expr(r, d - 1))),
        3 => Expr::Let { var: Arb::arb(r), val: Box::new(expr(r, d - 1)), body: Box::new(expr(r, d - 1)) },
        _ => Expr::Call(Arb::arb(r), (0..r.below(3)).map(|_| expr(r, d - 1)).collect()),
    }
}
impl Arb for Expr {
    fn arb(r: &mut Rng) -> Expr {
        expr(r, 4)
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Tree {
    val: i32,
    kids: Vec<Tree>,
}
fn tree(r: &mut Rng, d: usize) -> Tree {
    let n = if d == 0 { 0 } else { r.below(4) };
    Tree { val: Arb::arb(r), kids: (0..n).map(|_| tree(r, d - 1)).collect() }
}
impl Arb for Tree {
    fn arb(r: &mut Rng) -> Tree {
        tree(r, 4)
    }
}

/// Tagged by a field. The fields are plain: identities do not outlive serde's buffering.
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "kind")]
pub enum Inside {
    A { x: u8, y: String },
    B { z: Vec<i32> },
    C,
}
impl Arb for Inside {
    fn arb(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Inside::A { x: Arb::arb(r), y: Arb::arb(r) },
            1 => Inside::B { z: Arb::arb(r) },
            _ => Inside::C,
        }
    }
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "t", content = "c")]
pub enum Beside {
    A { x: u8, y: String },
    B(Vec<i32>),
    C(u8, i8),
    D,
}
impl Arb for Beside {
    fn arb(r: &mut Rng) -> Self {
        match r.below(4) {
            0 => Beside::A { x: Arb::arb(r), y: Arb::arb(r) },
            1 => Beside::B(Arb::arb(r)),
            2 => Beside::C(Arb::arb(r), Arb::arb(r)),
            _ => Beside::D,
        }
    }
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(untagged)]
pub enum Bare {
    Flag(bool),
    Int(i64),
    Text(String),
    List(Vec<i32>),
    Fields { x: u8, y: String },
}
impl Arb for Bare {
    fn arb(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => Bare::Flag(Arb::arb(r)),
            1 => Bare::Int(Arb::arb(r)),
            2 => Bare::Text(Arb::arb(r)),
            3 => Bare::List(Arb::arb(r)),
            _ => Bare::Fields { x: Arb::arb(r), y: Arb::arb(r) },
        }
    }
}

// ---------------------------------------------------------------- the trips

fn start<X: Arb + Serialize + Debug>(ctx: &mut Ctx, name: &str) -> Result<(X, Kserd<'static>), Fail> {
    let x = X::arb(&mut ctx.r);
    let k = match calm("encoding", || format!("{name} {x:?}"), || Kserd::enc(&x))? {
        Ok(k) => k,
        Err(e) => return fail("supported data is refused by the encoder", format!("{e}\n{name} {x:?}")),
    };
    Ok((x, k))
}

fn back<X: DeserializeOwned + PartialEq + Debug>(how: &str, name: &str, x: &X, k: Kserd) -> R {
    let t = model::of(&k);
    match calm("decoding", || format!("{how}\n{name} {x:?}"), || k.decode::<X>())? {
        Ok(got) if got == *x => Ok(()),
        Ok(got) => fail("decoded data differs", format!("{how}\n{name} {x:?}\ngot {got:?}\nfrom {t:?}")),
        Err(e) => fail("encoded data does not decode", format!("{how}: {e}\n{name} {x:?}\nfrom {t:?}")),
    }
}

fn direct<X: Arb + Serialize + DeserializeOwned + PartialEq + Debug>(ctx: &mut Ctx, name: &'static str) -> R {
    let (x, k) = start::<X>(ctx, name)?;
    back("borrowed view", name, &x, k.mk_brw())?;
    back("copy", name, &x, k.clone())?;
    back("owned copy", name, &x, k.mk_brw().into_owned())?;
    if !model::of(&k).is_prim() {
        ctx.state_s(&format!("{name} {x:?}"));
    }
    ctx.sample(|| format!("{name} {x:?}"));
    ctx.add("decodes", 4);
    back("encoding itself", name, &x, k)
}

fn through<X: Arb + Serialize + DeserializeOwned + PartialEq + Debug>(ctx: &mut Ctx, name: &'static str, c: FormattingConfig) -> R {
    let (x, k) = start::<X>(ctx, name)?;
    let detail = || format!("{c:?}\n{name} {x:?}");
    let Some(text) = written(&k, c, detail)? else {
        ctx.hit("skipped: keys spelled alike");
        return Ok(());
    };
    let k2 = match calm("parsing", || format!("{}\n--- text\n{text}", detail()), || parse::parse(&text))? {
        Ok(k) => k,
        Err(e) => return fail("text of encoded data is refused", format!("{}\n{}\n--- text\n{text}", e.backtrace(), detail())),
    };
    if !model::of(&k).is_prim() {
        ctx.state_s(&text);
    }
    ctx.sample(|| format!("{text:?}"));
    back(&format!("{c:?}\n--- text\n{text}\n---"), name, &x, k2)
}

pub type Direct = fn(&mut Ctx, &'static str) -> R;
pub type Through = fn(&mut Ctx, &'static str, FormattingConfig) -> R;

macro_rules! all {
    ($($t:ty,)*) => {
        &[$((stringify!($t), direct::<$t>, through::<$t>),)*]
    };
}

pub static ALL: &[(&str, Direct, Through)] = all! {
    u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, char, (), String, Box<str>, Cow<'static, str>,
    PathBuf, OsString, CString, Blob,
    Option<()>, Option<Option<()>>, Option<Option<Option<u8>>>, Option<String>, Option<Vec<Option<()>>>, Option<Unit>, Option<Empty>,
    Option<NoFields>, Option<Shape>, Option<Meters>, Option<(u8,)>, Option<Blob>,
    Result<u8, String>, Result<(), ()>, Result<Option<u8>, Vec<()>>, Result<Result<u8, u8>, Shape>,
    Box<u8>, Box<Option<Box<u8>>>, Box<[u16]>, Cell<u8>, RefCell<Vec<u8>>,
    Vec<u8>, Vec<()>, Vec<Vec<()>>, Vec<Option<u8>>, Vec<(u8,)>, Vec<(u8, String)>, Vec<Unit>, Vec<Empty>, Vec<Shape>, Vec<Blob>,
    Vec<f32>, Vec<f64>, Vec<char>, Vec<bool>, Vec<String>, Vec<[u8; 2]>, Vec<BTreeMap<u8, u8>>, Vec<HashMap<String, Vec<u8>>>,
    VecDeque<u8>, LinkedList<String>, BTreeSet<u8>, BTreeSet<String>, BTreeSet<Vec<u8>>, HashSet<i64>, HashSet<char>,
    BTreeMap<u8, u8>, BTreeMap<String, String>, BTreeMap<bool, ()>, BTreeMap<char, char>, BTreeMap<i128, u128>,
    BTreeMap<(u8, String), Vec<u8>>, BTreeMap<Vec<u8>, Shape>, BTreeMap<Meters, Person>, BTreeMap<Option<u8>, u8>, BTreeMap<[u8; 2], ()>,
    BTreeMap<BTreeMap<u8, u8>, BTreeMap<u8, u8>>, BTreeMap<Blob, Blob>, BTreeMap<(), u8>, HashMap<String, f64>, HashMap<u64, HashMap<u8, Unit>>,
    (u8,), (String,), ((),), ((u8,),), (Vec<u8>,), (Option<u8>,), (u8, i8), (u8, (u8, (u8, (u8,)))), (u8, String, bool),
    (f64, f32, char, ()), (u8, u16, u32, u64, u128), (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool, String),
    [u8; 0], [u8; 1], [u8; 3], [u8; 32], [String; 2], [[u8; 2]; 3], [(); 4], [Option<u8>; 2], [Shape; 2],
    Wrapping<u8>, Saturating<i32>, Reverse<String>, NonZeroU8, NonZeroI8, NonZeroU64, NonZeroI128, NonZeroUsize,
    Duration, SystemTime, Range<u8>, Range<f64>, RangeInclusive<i64>, RangeFrom<char>, Bound<u8>, Bound<String>, PhantomData<u8>,
    IpAddr, SocketAddr, (IpAddr, Duration),
    Empty, One, Point, Person, Renamed, Renamed2, Skips, Strict, Ints, Leaves, Colls, Nest, Flat, FlatInner, Unit, Meters, Pair, Triple,
    NoFields, Clear, Deep, Meters2, NewOpt, NewVec, NewTuple, NewUnit, NewMap, NewBlob, Kind, Shape, Expr, Tree, Inside, Beside, Bare,
    Gen<u8, String>, Gen<Unit, ()>, Gen<Shape, Kind>, Gen<Gen<u8, u8>, Option<Gen<bool, char>>>, Gen<Vec<u8>, BTreeMap<String, Shape>>,
    Vec<Inside>, Vec<Beside>, Vec<Bare>, Option<Inside>, BTreeMap<String, Inside>, Vec<Gen<u8, Bare>>, Vec<Tree>, Vec<Expr>, Vec<Flat>,
    BTreeMap<String, BTreeMap<String, BTreeMap<String, i32>>>, BTreeMap<u8, Vec<BTreeMap<u8, Vec<Kind>>>>, Vec<Vec<Vec<Person>>>,
};
