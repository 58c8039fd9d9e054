//! What refusals and debug output say about the data at hand.

use crate::ensure;
use crate::gen::{self, Prof};
use crate::model::{self, N, T, V};
use crate::mon::*;
use crate::rng::Rng;
use crate::props::parsing;
use kserd::fmt::{Formatter, FormattingConfig};
use kserd::nav::Navigator;
use kserd::{parse, Kserd};
use serde::de::Error as _;
use serde::ser::{Error as _, SerializeMap, SerializeSeq, SerializeStruct, SerializeTupleVariant};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::{BTreeMap, HashMap};
use std::fmt;

// ---------------------------------------------------------------- C34

#[derive(Deserialize)]
#[allow(dead_code)]
struct Holds<A> {
    before: String,
    held: A,
    zafter: String,
}

#[derive(Deserialize)]
#[allow(dead_code)]
struct Wrap<A>(A);

#[derive(Deserialize)]
#[allow(dead_code)]
struct Pair<A>(String, A);

#[derive(Deserialize)]
#[allow(dead_code)]
enum Of<A> {
    New(A),
    Two(String, A),
    Named { before: String, held: A },
}

#[derive(Deserialize)]
struct Nothing;

#[derive(Deserialize)]
#[allow(dead_code)]
struct Three {
    alpha: String,
    beta: String,
    gamma: String,
}

#[derive(Deserialize)]
#[allow(dead_code)]
struct Tri(String, String, String);

#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct Strict {
    alpha: String,
}

#[derive(Deserialize)]
#[allow(dead_code)]
enum Var {
    Empty,
    One(String),
    Two(String, String),
    Rec { alpha: String, beta: String },
}

/// Refuses whatever it is made from, in its own words.
struct Moody;
const MOOD: &str = "not today <{[\"";

impl<'de> Deserialize<'de> for Moody {
    fn deserialize<D: Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
        Err(D::Error::custom(MOOD))
    }
}

type Go = fn(&Kserd) -> Option<String>;

fn go<A: serde::de::DeserializeOwned>(k: &Kserd) -> Option<String> {
    k.clone().decode::<A>().err().map(|e| e.to_string())
}

/// A type at the root and inside others.
fn places<A: serde::de::DeserializeOwned>() -> Vec<Go> {
    vec![
        go::<A>,
        go::<Vec<A>>,
        go::<Option<A>>,
        go::<Holds<A>>,
        go::<Wrap<A>>,
        go::<Pair<A>>,
        go::<(String, A, String)>,
        go::<BTreeMap<String, A>>,
        go::<Of<A>>,
        go::<Of<A>>,
        go::<Of<A>>,
        go::<Vec<Option<Holds<A>>>>,
    ]
}

fn text(s: &str) -> T {
    T::new(V::Str(s.into()))
}

fn named(id: &str, v: V) -> T {
    T { id: Some(id.into()), v }
}

/// The value in the place, with neighbours that are in order.
fn placed(i: usize, t: T, near: &str) -> T {
    let holds = |t: T| {
        named("Holds", V::Cntr(vec![("before".into(), text(near)), ("held".into(), t), ("zafter".into(), text(near))]))
    };
    match i {
        0 => t,
        1 => T::new(V::Seq(vec![t])),
        2 => named("Some", V::Tuple(vec![t])),
        3 => holds(t),
        4 => named("Wrap", V::Tuple(vec![t])),
        5 => named("Pair", V::Tuple(vec![text(near), t])),
        6 => T::new(V::Tuple(vec![text(near), t, text(near)])),
        7 => T::new(V::Map(vec![(text(near), t)])),
        8 => named("New", V::Tuple(vec![t])),
        9 => named("Two", V::Tuple(vec![text(near), t])),
        10 => named("Named", V::Cntr(vec![("before".into(), text(near)), ("held".into(), t)])),
        _ => T::new(V::Seq(vec![named("None", V::Tuple(vec![])), named("Some", V::Tuple(vec![holds(t)]))])),
    }
}

struct Want {
    name: &'static str,
    /// one of these is how the expectation is put
    put: &'static [&'static str],
    /// kinds which may fit
    fits: &'static [&'static str],
    places: fn() -> Vec<Go>,
}

const INT: &[&str] = &["num"];

static WANTS: &[Want] = &[
    Want { name: "u8", put: &["u8"], fits: INT, places: places::<u8> },
    Want { name: "u16", put: &["u16"], fits: INT, places: places::<u16> },
    Want { name: "u32", put: &["u32"], fits: INT, places: places::<u32> },
    Want { name: "u64", put: &["u64"], fits: INT, places: places::<u64> },
    Want { name: "u128", put: &["u128"], fits: INT, places: places::<u128> },
    Want { name: "usize", put: &["usize", "u64"], fits: INT, places: places::<usize> },
    Want { name: "i8", put: &["i8"], fits: INT, places: places::<i8> },
    Want { name: "i16", put: &["i16"], fits: INT, places: places::<i16> },
    Want { name: "i32", put: &["i32"], fits: INT, places: places::<i32> },
    Want { name: "i64", put: &["i64"], fits: INT, places: places::<i64> },
    Want { name: "i128", put: &["i128"], fits: INT, places: places::<i128> },
    Want { name: "isize", put: &["isize", "i64"], fits: INT, places: places::<isize> },
    Want { name: "f32", put: &["f32"], fits: INT, places: places::<f32> },
    Want { name: "f64", put: &["f64"], fits: INT, places: places::<f64> },
    Want { name: "bool", put: &["a boolean", "bool"], fits: &["bool"], places: places::<bool> },
    Want { name: "char", put: &["char", "a character"], fits: &[], places: places::<char> },
    Want { name: "string", put: &["a string"], fits: &["str", "barr"], places: places::<String> },
    Want { name: "unit", put: &["unit"], fits: &["unit"], places: places::<()> },
    Want { name: "unit struct", put: &["unit struct"], fits: &["unit", "tuple"], places: places::<Nothing> },
    Want { name: "list", put: &["a sequence"], fits: &["tuple", "seq"], places: places::<Vec<u8>> },
    Want { name: "map", put: &["a map"], fits: &["map", "cntr"], places: places::<BTreeMap<String, u8>> },
    Want { name: "struct", put: &["struct Three"], fits: &["cntr", "map", "tuple", "seq"], places: places::<Three> },
    Want { name: "tuple", put: &["a tuple of size 2"], fits: &["tuple", "seq"], places: places::<(u8, u8)> },
];

/// How the text may put what was found.
fn put(v: &V) -> Vec<String> {
    let all = |x: &[&str]| x.iter().map(|s| s.to_string()).collect();
    match v {
        V::Unit => all(&["unit"]),
        V::Bool(b) => vec![format!("boolean `{b}`")],
        V::Num(N::U(x)) => vec![format!("integer `{x}`")],
        V::Num(N::I(x)) => vec![format!("integer `{x}`")],
        V::Num(N::F(x)) => vec![format!("floating point `{x}`"), format!("floating point `{x}.0`")],
        V::Str(s) => vec![format!("string {s:?}")],
        V::Barr(_) => all(&["byte array"]),
        V::Tuple(_) => all(&["tuple", "sequence", "newtype struct", "Option value"]),
        V::Cntr(_) => all(&["container", "map"]),
        V::Seq(_) => all(&["sequence"]),
        V::Map(_) => all(&["map"]),
    }
}

fn wide(v: &V) -> bool {
    match v {
        V::Num(N::U(x)) => u64::try_from(*x).is_err(),
        V::Num(N::I(x)) => i64::try_from(*x).is_err(),
        _ => false,
    }
}

/// A value of any kind, leaves as often as collections.
fn found(r: &mut Rng) -> T {
    let deep = r.below(2);
    let p = Prof { nodes: 3, max_depth: deep, max_items: 3, id8: 3, plain: r.chance(1, 4) };
    gen::tree(r, p)
}

fn wrong_kind(ctx: &mut Ctx, near: &str) -> R {
    let w = ctx.r.pick(WANTS);
    let t = found(&mut ctx.r);
    let one_char = matches!(&t.v, V::Str(s) if s.chars().count() == 1);
    if w.fits.contains(&t.v.kind()) || (w.name == "char" && one_char) {
        ctx.hit("may fit");
        return Ok(());
    }
    let mut i = ctx.r.below(12);
    if i == 2 || i == 11 || i == 4 {
        // seen as the option or the wrapper itself
        if let V::Tuple(_) | V::Unit = t.v {
            i = 3;
        }
    }
    let whole = placed(i, t.clone(), near);
    let k = whole.build();
    let got = calm("decoding", || format!("{whole:?} as {}", w.name), || ((w.places)()[i])(&k))?;
    let Some(e) = got else {
        // whether it should have been refused is another property's business
        ctx.hit("accepted");
        return Ok(());
    };
    let Some((found, expected)) = e.split_once(", expected ").map(|_| e.rsplit_once(", expected ").unwrap()) else {
        return fail("a refusal does not say what was expected", format!("{e:?}\n{whole:?} as {}", w.name));
    };
    let quoted = put(&t.v).iter().any(|x| found.contains(x.as_str()));
    let unquoted = wide(&t.v) && !found.contains('`') && found.contains("integer");
    ensure!(quoted || unquoted, "a refusal does not say what was found", "{e:?}\n{t:?}\n{whole:?} as {}", w.name);
    ensure!(w.put.iter().any(|x| expected.contains(x)), "a refusal names another expectation", "{e:?}\nexpected {}\n{whole:?}", w.name);
    if !matches!(&t.v, V::Str(s) if s.contains(near)) {
        ensure!(!e.contains(near), "a refusal names a neighbour", "{e:?}\n{whole:?} as {}", w.name);
    }
    ctx.hit("wrong kinds");
    if let V::Str(_) | V::Num(_) | V::Bool(_) = t.v {
        ctx.hit("quoted content");
    }
    if i > 0 {
        ctx.hit("inside others");
    }
    ctx.state_s(&format!("{i} {} {found}", w.name));
    ctx.sample(|| format!("{i} {}: {e}", w.name));
    Ok(())
}

fn refused<A: serde::de::DeserializeOwned>(t: &T, what: &str, says: &[String]) -> R {
    let k = t.build();
    match calm("decoding", || format!("{t:?}"), || go::<A>(&k))? {
        None => Ok(()),
        Some(e) => {
            ensure!(says.iter().all(|s| e.contains(s.as_str())), format!("a refusal for {what} does not name it"), "{e:?}\nshould name {says:?}\n{t:?}");
            Ok(())
        }
    }
}

fn wrong_parts(ctx: &mut Ctx, near: &str) -> R {
    let r = &mut ctx.r;
    let texts = |n: usize| (0..n).map(|_| text(near)).collect::<Vec<_>>();
    let other = |r: &mut Rng, not: &[&str]| loop {
        let n = gen::ident(r);
        if !not.contains(&n.as_str()) {
            return n;
        }
    };
    match r.below(8) {
        0 => {
            // too few or too many elements
            let n = *r.pick(&[0, 2, 4, 5, 9, 40]);
            let says = [format!("length {n}")];
            let seq = if r.bool() { V::Seq(texts(n)) } else { V::Tuple(texts(n)) };
            let t = T { id: if n > 1 && r.bool() { Some("Tri".into()) } else { None }, v: seq };
            refused::<Tri>(&t, "a wrong length", &says)?;
            refused::<(String, String, String)>(&t, "a wrong length", &says)?;
            refused::<[String; 3]>(&t, "a wrong length", &says)?;
            ctx.hit("lengths");
        }
        1 => {
            let n = *r.pick(&[0, 1, 3, 4, 17]);
            refused::<Var>(&named("Two", V::Tuple(texts(n))), "a wrong length", &[format!("length {n}")])?;
            let n = *r.pick(&[0, 2, 3, 4, 17]);
            refused::<Var>(&named("One", V::Tuple(texts(n))), "a wrong length", &[format!("length {n}")])?;
            ctx.hit("lengths");
        }
        2 => {
            // a field is missing
            let names = ["alpha", "beta", "gamma"];
            let gone = r.below(3);
            let mut f: Vec<(String, T)> = names.iter().enumerate().filter(|x| x.0 != gone).map(|x| (x.1.to_string(), text(near))).collect();
            if r.bool() {
                f.push((other(r, &names), text(near)));
            }
            let id = if r.bool() { Some("Three".into()) } else { None };
            refused::<Three>(&T { id, v: V::Cntr(f) }, "a missing field", &[format!("missing field `{}`", names[gone])])?;
            ctx.hit("missing fields");
        }
        3 => {
            let names = ["alpha", "beta"];
            let gone = r.below(2);
            let f = vec![(names[1 - gone].to_string(), text(near))];
            refused::<Vec<Var>>(&T::new(V::Seq(vec![named("Rec", V::Cntr(f))])), "a missing field", &[format!("missing field `{}`", names[gone])])?;
            ctx.hit("missing fields");
        }
        4 => {
            let v = other(r, &["Empty", "One", "Two", "Rec"]);
            let inner = found(r).v;
            refused::<Var>(&named(&v, inner), "an unknown variant", &[format!("`{v}`"), "`Empty`".into(), "`Rec`".into()])?;
            ctx.hit("variants");
        }
        5 => {
            let inner = found(r).v;
            refused::<Var>(&T::new(inner), "a missing variant", &["identity".into()])?;
            ctx.hit("variants");
        }
        6 => {
            // a variant of another form
            let inner = found(r).v;
            let (v, fits, form): (&str, &[&str], &str) = match r.below(4) {
                0 => ("Empty", &["unit", "tuple"], "unit"),
                1 => ("One", &["tuple"], "newtype"),
                2 => ("Two", &["tuple"], "tuple"),
                _ => ("Rec", &["cntr", "tuple"], "struct"),
            };
            if !fits.contains(&inner.kind()) && !wide(&inner) {
                let k = named(v, inner.clone()).build();
                if let Some(e) = calm("decoding", || format!("{inner:?}"), || go::<Var>(&k))? {
                    let (found, expected) = e.rsplit_once(", expected ").unwrap_or((&e, ""));
                    ensure!(put(&inner).iter().any(|x| found.contains(x.as_str())), "a refusal does not say what was found", "{e:?}\n{inner:?} as {v}");
                    ensure!(expected.contains(form), "a refusal names another expectation", "{e:?}\n{inner:?} as {v}");
                    ctx.hit("variants");
                }
            }
        }
        _ => {
            let n = other(r, &["alpha"]);
            let f = vec![("alpha".to_string(), text(near)), (n.clone(), text(near))];
            refused::<Strict>(&T::new(V::Cntr(f)), "an unknown field", &[format!("`{n}`"), "`alpha`".into()])?;
            ctx.hit("unknown fields");
        }
    }
    Ok(())
}

/// Data whose own code refuses at one place.
enum Ser {
    Fails(String),
    Leaf(u32),
    List(Vec<Ser>),
    Keyed(Vec<(u32, Ser)>),
    /// the failing one as a key
    Key(Box<Ser>),
    Fields(Vec<Ser>),
    Some(Box<Ser>),
    New(Box<Ser>),
    NewVar(Box<Ser>),
    Var(Vec<Ser>),
}

const FIELDS: [&str; 4] = ["p", "q", "r", "s"];

impl Serialize for Ser {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Ser::Fails(m) => Err(S::Error::custom(m)),
            Ser::Leaf(n) => s.serialize_u32(*n),
            Ser::List(x) => {
                let mut q = s.serialize_seq(None)?;
                x.iter().try_for_each(|x| q.serialize_element(x))?;
                q.end()
            }
            Ser::Keyed(x) => {
                let mut q = s.serialize_map(None)?;
                x.iter().try_for_each(|(k, v)| q.serialize_entry(k, v))?;
                q.end()
            }
            Ser::Key(x) => {
                let mut q = s.serialize_map(Some(1))?;
                q.serialize_key(x)?;
                q.serialize_value(&1)?;
                q.end()
            }
            Ser::Fields(x) => {
                let mut q = s.serialize_struct("Fields", x.len())?;
                x.iter().zip(FIELDS).try_for_each(|(x, n)| q.serialize_field(n, x))?;
                q.end()
            }
            Ser::Some(x) => s.serialize_some(x),
            Ser::New(x) => s.serialize_newtype_struct("New", x),
            Ser::NewVar(x) => s.serialize_newtype_variant("E", 0, "NewVar", x),
            Ser::Var(x) => {
                let mut q = s.serialize_tuple_variant("E", 1, "Var", x.len())?;
                x.iter().try_for_each(|x| q.serialize_field(x))?;
                q.end()
            }
        }
    }
}

fn around(r: &mut Rng, x: Ser) -> Ser {
    let many = |r: &mut Rng, x: Ser| {
        let mut v: Vec<Ser> = (0..r.below(4)).map(|n| Ser::Leaf(n as u32)).collect();
        let at = r.below(v.len() + 1);
        v.insert(at, x);
        v
    };
    match r.below(8) {
        0 => Ser::List(many(r, x)),
        1 => Ser::Keyed(many(r, x).into_iter().enumerate().map(|(i, x)| (i as u32, x)).collect()),
        2 => Ser::Key(Box::new(x)),
        3 => Ser::Fields(many(r, x)),
        4 => Ser::Some(Box::new(x)),
        5 => Ser::New(Box::new(x)),
        6 => Ser::NewVar(Box::new(x)),
        _ => Ser::Var(many(r, x)),
    }
}

fn own_words(ctx: &mut Ctx, near: &str) -> R {
    if ctx.r.bool() {
        let said = format!("{}{}", gen::string(&mut ctx.r, false), near);
        let mut x = Ser::Fails(said.clone());
        let depth = ctx.r.below(6);
        for _ in 0..depth {
            x = around(&mut ctx.r, x);
        }
        match calm("encoding", || said.clone(), || Kserd::enc(&x))? {
            Ok(k) => return fail("data that refuses to be encoded is encoded", format!("{:?}\n{said:?} at depth {depth}", model::of(&k))),
            Err(e) => ensure!(e.to_string().contains(&said), "the words of the refusing type are lost", "{e}\n{said:?}"),
        }
        ctx.hit("own words encoding");
    } else {
        let t = found(&mut ctx.r);
        let i = ctx.r.below(12);
        let whole = placed(i, t, near);
        let k = whole.build();
        match calm("decoding", || format!("{whole:?}"), || places::<Moody>()[i](&k))? {
            None => return fail("a type that refuses to be decoded is decoded", format!("{whole:?}")),
            Some(e) => ensure!(e.contains(MOOD), "the words of the refusing type are lost", "{e}\n{whole:?}"),
        }
        ctx.hit("own words decoding");
    }
    Ok(())
}

fn c34(ctx: &mut Ctx, case: u64) -> R {
    let near = format!("near-{:x}", ctx.r.next() | 1 << 60);
    match case % 8 {
        0..=4 => wrong_kind(ctx, &near),
        5 | 6 => wrong_parts(ctx, &near),
        _ => own_words(ctx, &near),
    }
}

pub static C34: Prop = Prop {
    id: "C34",
    quick: 4_000_000,
    thorough: 60_000_000,
    rule: "values of the wrong kind, length, field or variant names decoded into types at the root and inside others, types which refuse in their own words; the message is searched for what was found and expected; distinct: by place, type and what was found",
    required: &["wrong kinds", "quoted content", "inside others", "lengths", "missing fields", "variants", "unknown fields", "own words encoding", "own words decoding"],
    bounded: false,
    assumptions: &["whether a value is refused at all is judged by another property", "an integer beyond 64 bits need not be quoted"],
    run: c34,
};

// ---------------------------------------------------------------- C35

/// The tree in the notation of derived debug output.
struct Dbg<'a>(&'a T);
struct DbgV<'a>(&'a V);
struct Raw(String);

impl fmt::Debug for Raw {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl fmt::Debug for Dbg<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_struct("Kserd").field("id", &self.0.id).field("val", &DbgV(&self.0.v)).finish()
    }
}

impl fmt::Debug for DbgV<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.0 {
            V::Unit => f.write_str("Unit"),
            V::Bool(b) => f.debug_tuple("Bool").field(b).finish(),
            V::Num(n) => {
                let n = match n {
                    N::U(x) => format!("Uint({x})"),
                    N::I(x) => format!("Int({x})"),
                    N::F(x) => format!("Float({x:?})"),
                };
                f.debug_tuple("Num").field(&Raw(n)).finish()
            }
            V::Str(s) => f.debug_tuple("Str").field(s).finish(),
            V::Barr(b) => f.debug_tuple("Barr").field(&Raw(format!("{b:?}"))).finish(),
            V::Tuple(x) => {
                let mut d = f.debug_tuple("Tuple");
                x.iter().for_each(|x| {
                    d.field(&Dbg(x));
                });
                d.finish()
            }
            V::Cntr(x) => {
                let mut d = f.debug_struct("Cntr");
                x.iter().for_each(|(n, x)| {
                    d.field(n, &Dbg(x));
                });
                d.finish()
            }
            V::Seq(x) => f.debug_list().entries(x.iter().map(Dbg)).finish(),
            V::Map(x) => f.debug_map().entries(x.iter().map(|(k, x)| (Dbg(k), Dbg(x)))).finish(),
        }
    }
}

/// Without blanks, line ends and commas, by which the indented form differs.
fn dense(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && *c != ',').collect()
}

fn c35(ctx: &mut Ctx, case: u64) -> R {
    let t = if case % 40_000 == 16 { gen::huge(&mut ctx.r, false) } else { gen::any(&mut ctx.r) };
    let k = t.build();
    // in the order of the value
    let t = model::of(&k);
    let want = format!("{:?}", Dbg(&t));
    let (how, like) = match ctx.r.below(3) {
        0 => (" of a copy", k.clone()),
        1 => (" of a view", k.mk_brw()),
        _ => (" of an owned copy", k.clone().into_owned()),
    };
    for (how, k) in [("", &k), (how, &like)] {
        let got = calm("debug output", || format!("{t:?}"), || format!("{k:?}"))?;
        ensure!(got == want, format!("debug output{how} is not that of the content"), "{got}\n{want}");
        let got = calm("debug output", || format!("{t:?}"), || format!("{:?}", k.val))?;
        ensure!(got == format!("{:?}", DbgV(&t.v)), format!("debug output{how} is not that of the content"), "{got}\n{want}");
    }
    let got = calm("debug output", || format!("{t:?}"), || format!("{k:#?}"))?;
    ensure!(dense(&got) == dense(&want), "indented debug output is not that of the content", "{got}\n{want}");
    ctx.hit("values");
    if let Some(c) = k.val.cntr() {
        let got = calm("debug output", || format!("{t:?}"), || format!("{c:?}"))?;
        if let V::Cntr(x) = &t.v {
            for (n, x) in x {
                ensure!(got.contains(&format!("{n:?}: {:?}", Dbg(x))), "debug output of an accessor lacks a field", "{got}\n{n} {x:?}");
            }
        }
        ctx.hit("accessors");
    }
    let nav = Navigator::new(&k);
    for n in nav.nodes() {
        let got = calm("debug output", || format!("{t:?}"), || format!("{n:?}"))?;
        let of = model::of(n.kserd());
        let kind = match &of.v {
            V::Tuple(_) => "Tuple",
            V::Cntr(_) => "Cntr",
            V::Seq(_) => "Seq",
            V::Map(_) => "Map",
            _ => "Primitive",
        };
        let mut says = vec![
            format!("{:?}", of.id),
            format!("{kind:?}"),
            format!("index: {:?}", n.index()),
            format!("parent: {:?}", n.parent().map(|x| x.index())),
            format!("is_key: {:?}", n.is_key()),
            format!("idx_in_parent: {:?}", n.idx_in_parent()),
        ];
        if kind == "Primitive" {
            says.push(format!("{:?}", DbgV(&of.v)));
        }
        for s in says {
            ensure!(got.contains(&s), "debug output of a node lacks a part", "{got}\nlacks {s}");
        }
        ctx.hit("nodes");
    }
    if ctx.r.chance(1, 4) {
        // values that differ are told apart
        let mut seen: HashMap<String, &T> = HashMap::new();
        let mut all = Vec::new();
        t.walk(&mut |n| all.push(n.clone()));
        for n in &all {
            let s = format!("{:?}", n.build());
            if let Some(o) = seen.get(&s) {
                ensure!(model::identical(o, n).is_ok(), "debug output of unlike values is the same", "{s}\n{o:?}\n{n:?}");
            }
            seen.insert(s, n);
        }
    }
    ctx.state_s(&want);
    ctx.sample(|| want.clone());
    Ok(())
}

pub static C35: Prop = Prop {
    id: "C35",
    quick: 500_000,
    thorough: 8_000_000,
    rule: "debug output of random values, views, copies, accessors and nodes compared with that of an independent tree; distinct: by output",
    required: &["values", "accessors", "nodes"],
    bounded: false,
    assumptions: &["the indented form is compared without blanks and commas"],
    run: c35,
};

// ---------------------------------------------------------------- C36

/// The defaults as they are documented.
const DOCUMENTED: FormattingConfig = FormattingConfig {
    id_on_primitives: false,
    id_on_tuples: true,
    id_on_containers: true,
    id_on_seqs: false,
    id_on_maps: false,
    width_limit: Some(60),
};

fn c36(ctx: &mut Ctx, case: u64) -> R {
    let mut t = gen::any(&mut ctx.r);
    if case % 2 == 0 {
        // about as wide as the limit
        let one = t.build().as_str_with_config(FormattingConfig { width_limit: None, ..DOCUMENTED }).chars().count();
        let room = 58 + ctx.r.below(5);
        if one + 15 < room {
            let id = if ctx.r.bool() { Some("Wide".to_string()) } else { None };
            let around = 18 + id.as_ref().map_or(0, |x| x.len() + 1);
            t = T { id, v: V::Cntr(vec![("fill".into(), text(&"w".repeat((room + 1).saturating_sub(one + around)))), ("t".into(), t)]) };
        }
    }
    let k = t.build();
    let want = calm("formatting", || format!("{t:?}"), || k.as_str_with_config(DOCUMENTED))?;
    let all = calm("formatting", || format!("{t:?}"), || {
        let mut own = Formatter::new(&k);
        own.apply_config(FormattingConfig::default());
        [
            ("formatting by default", k.as_str()),
            ("printing", k.to_string()),
            ("printing among other text", format!("{k}|").trim_end_matches('|').to_string()),
            ("formatting with the default configuration", k.as_str_with_config(Default::default())),
            ("a formatter with the default configuration", own.write_string(String::new())),
            ("printing a copy", k.clone().into_owned().to_string()),
        ]
    })?;
    for (how, got) in all {
        if how.contains("among") && want.ends_with('|') {
            continue;
        }
        ensure!(got == want, format!("{how} is not that of the documented defaults"), "{got}\n{want}\n{t:?}");
        ctx.hit("texts compared");
    }
    match want.lines().map(|l| l.chars().count()).max() {
        Some(60) => ctx.hit("exactly the default width"),
        _ if want.contains('\n') => ctx.hit("over several lines"),
        _ => (),
    }
    ctx.state_s(&want);
    ctx.sample(|| want.clone());
    Ok(())
}

pub static C36: Prop = Prop {
    id: "C36",
    quick: 1_000_000,
    thorough: 20_000_000,
    rule: "random values, half of them about as wide as the default limit, printed in every way that uses the defaults and with the documented ones spelled out; distinct: by text",
    required: &["texts compared", "exactly the default width", "over several lines"],
    bounded: false,
    assumptions: &[],
    run: c36,
};

// ---------------------------------------------------------------- C37

fn c37(ctx: &mut Ctx, case: u64) -> R {
    let s = parsing::refusable(&mut ctx.r, case);
    let e = match calm("parsing", || s.clone(), || parse::parse(&s))? {
        Ok(_) => {
            ctx.hit("accepted");
            return Ok(());
        }
        Err(e) => e,
    };
    if s.is_empty() {
        return Ok(());
    }
    let mut starts = vec![0];
    starts.extend(s.match_indices('\n').map(|x| x.0 + 1));
    let place = |t: &parse::Trace| starts[t.line - 1] + t.col - 1;
    let traces: Vec<_> = e.iter().collect();
    ensure!(!traces.is_empty(), "an error without a trace", "{s:?}");
    for (i, p) in traces.windows(2).enumerate() {
        ensure!(place(&p[0]) >= place(&p[1]), "an outer construct starts behind an inner one", "{i}: {:?}\n{:?}\n{s:?}\n{}", p[0], p[1], e.backtrace());
        ctx.hit("nested traces");
    }
    for t in &traces {
        let Some(of) = t.msg.strip_prefix("in ") else { continue };
        let (before, behind) = s.split_at(place(t));
        let last = before.chars().next_back();
        let open = match of {
            _ if of.ends_with(" tuple") => Some('('),
            _ if of.ends_with(" container") && of != "nested container" => Some('('),
            _ if of.ends_with(" sequence") => Some('['),
            _ if of.ends_with(" map") => Some('{'),
            _ => None,
        };
        if let Some(c) = open {
            ensure!(last == Some(c), "a construct is reported where it does not start", "{t:?}\n{s:?}");
            ctx.hit("brackets");
            if c == '(' {
                // fields are told from items by a name and an equals sign
                let first = behind.trim_start_matches([' ', '\t', '\n']);
                let name = first.trim_start_matches(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-');
                let fields = first.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && name.trim_start_matches([' ', '\t']).starts_with('=');
                if of.ends_with(" container") {
                    ensure!(behind.contains('='), "a tuple is reported as a container", "{t:?}\n{s:?}");
                } else {
                    ensure!(!fields, "a container is reported as a tuple", "{t:?}\n{s:?}");
                }
                ctx.hit("containers and tuples");
            }
        }
        if of.contains("concise") && !of.contains("pair") {
            let line = behind.trim_start_matches([' ', '\t']);
            ensure!(line.is_empty() || line.starts_with(['\n', '\r']), "a construct on one line is reported as one of several", "{t:?}\n{s:?}");
            ctx.hit("several lines");
        }
        if of == "string" {
            // only one that is not closed is in error
            let mut c = behind.chars();
            let delim = c.next();
            ensure!(delim.is_some_and(|d| !c.as_str().contains(d)), "a closed string is reported", "{t:?}\n{s:?}");
            ctx.hit("strings");
        }
    }
    ctx.max("traces", traces.len() as u64);
    ctx.state_s(&e.backtrace());
    ctx.sample(|| e.backtrace());
    Ok(())
}

pub static C37: Prop = Prop {
    id: "C37",
    quick: 1_000_000,
    thorough: 20_000_000,
    rule: "errors of hostile and defective text; the traces are compared with each other and with the text in front of them; distinct: by backtrace",
    required: &["nested traces", "brackets", "containers and tuples", "several lines", "strings"],
    bounded: false,
    assumptions: &[],
    run: c37,
};
