//! Data -> value -> data.

use crate::dynser::{self, data, mirror, reference, same, schema, D, S};
use crate::ensure;
use crate::fixed;
use crate::gen;
use crate::model::{self, N, T, V};
use crate::mon::*;
use crate::props::roundtrip::shows;
use crate::rng::Rng;
use crate::text;
use kserd::encode::Decoder;
use kserd::fmt::FormattingConfig;
use kserd::{parse, Kserd};
use serde::de::DeserializeSeed;
use std::collections::BTreeMap;

pub fn pick(r: &mut Rng) -> (S, usize) {
    let depth = *r.pick(&[0, 1, 2, 2, 3, 3, 4, 5]);
    let size = *r.pick(&[1, 2, 3, 3, 5, 9]);
    (schema(r, depth), size)
}

fn kinds(ctx: &mut Ctx, d: &D) {
    fn all(ctx: &mut Ctx, x: &[D]) {
        x.iter().for_each(|d| kinds(ctx, d))
    }
    match d {
        D::Bool(_) | D::Unit | D::Char(_) | D::Str(_) | D::Bytes(_) => ctx.hit("simple leaves"),
        D::U8(_) | D::U16(_) | D::U32(_) | D::U64(_) | D::U128(_) => ctx.hit("unsigned leaves"),
        D::I8(_) | D::I16(_) | D::I32(_) | D::I64(_) | D::I128(_) => ctx.hit("signed leaves"),
        D::F32(_) | D::F64(_) => ctx.hit("float leaves"),
        D::None => ctx.hit("none"),
        D::Some(x) => {
            ctx.hit("some");
            kinds(ctx, x)
        }
        D::UnitStruct(_) => ctx.hit("unit structs"),
        D::Newtype(_, x) => {
            ctx.hit("newtypes");
            kinds(ctx, x)
        }
        D::Seq(x) => {
            ctx.hit("lists");
            all(ctx, x)
        }
        D::Tuple(x) => {
            ctx.hit("tuples");
            all(ctx, x)
        }
        D::TupleStruct(_, x) => {
            ctx.hit("tuple structs");
            all(ctx, x)
        }
        D::Map(x) => {
            ctx.hit("maps");
            x.iter().for_each(|(k, v)| {
                kinds(ctx, k);
                kinds(ctx, v)
            })
        }
        D::Struct(_, _, x) => {
            ctx.hit("structs");
            all(ctx, x)
        }
        D::UnitVar(..) => ctx.hit("unit variants"),
        D::NewVar(.., x) => {
            ctx.hit("newtype variants");
            kinds(ctx, x)
        }
        D::TupleVar(.., x) => {
            ctx.hit("tuple variants");
            all(ctx, x)
        }
        D::StructVar(.., x) => {
            ctx.hit("struct variants");
            all(ctx, x)
        }
    }
}

const KINDS: &[&str] = &[
    "simple leaves", "unsigned leaves", "signed leaves", "float leaves", "none", "some", "unit structs", "newtypes", "lists", "tuples",
    "tuple structs", "maps", "structs", "unit variants", "newtype variants", "tuple variants", "struct variants",
];

fn show(s: &S, d: &D) -> String {
    format!("type {s:?}\ndata {d:?}")
}

/// Encode; every datum of a supported type encodes.
fn enc(s: &S, d: &D) -> Result<Kserd<'static>, Fail> {
    match calm("encoding", || show(s, d), || Kserd::enc(d))? {
        Ok(k) => Ok(k),
        Err(e) => fail("supported data is refused by the encoder", format!("{e}\n{}", show(s, d))),
    }
}

fn back(how: &str, s: &S, d: &D, k: Kserd) -> R {
    let t = model::of(&k);
    match calm("decoding", || format!("{how}\n{}", show(s, d)), || s.deserialize(Decoder(k)))? {
        Ok(got) if same(&got, d) => Ok(()),
        Ok(got) => fail("decoded data differs", format!("{how}\n{}\ngot {got:?}\nfrom {t:?}", show(s, d))),
        Err(e) => fail("encoded data does not decode", format!("{how}: {e}\n{}\nfrom {t:?}", show(s, d))),
    }
}

fn c11(ctx: &mut Ctx, case: u64) -> R {
    if case % 4 == 3 {
        let (name, f, _) = ctx.r.pick(fixed::ALL);
        ctx.hit("values of derived and std types");
        return f(ctx, name);
    }
    let (mut s, size) = pick(&mut ctx.r);
    let mut d = data(&mut ctx.r, &s, size);
    if case % 150_000 == 1 {
        // more elements than usual
        let n = 65_531 + ctx.r.below(10);
        (s, d) = match ctx.r.below(3) {
            0 => (S::Seq(Box::new(S::U32)), D::Seq((0..n).map(|i| D::U32(i as u32)).collect())),
            1 => (S::Str, D::Str((0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect())),
            _ => (S::Bytes, D::Bytes((0..n).map(|i| (i % 251) as u8).collect())),
        };
    }
    let k = enc(&s, &d)?;
    ctx.max("nodes", model::of(&k).nodes() as u64);
    kinds(ctx, &d);
    if !model::of(&k).is_prim() {
        ctx.state_s(&format!("{d:?}"));
    }
    ctx.sample(|| format!("{d:?}"));
    back("borrowed view", &s, &d, k.mk_brw())?;
    back("copy", &s, &d, k.clone())?;
    back("owned copy", &s, &d, k.clone().into_owned())?;
    back("owned copy of a borrowed view", &s, &d, k.mk_brw().into_owned())?;
    back("copy of a borrowed view", &s, &d, k.mk_brw().clone())?;
    back("encoding itself", &s, &d, k)?;
    ctx.add("decodes", 6);
    Ok(())
}

pub static C11: Prop = Prop {
    id: "C11",
    quick: 5_000_000,
    thorough: 80_000_000,
    rule: "data of a randomly made type (or of one of the derived and standard types) is encoded, decoded in six forms and compared with itself; non-trivial: the value is a collection; distinct: by data",
    required: &[
        "simple leaves", "unsigned leaves", "signed leaves", "float leaves", "none", "some", "unit structs", "newtypes", "lists",
        "tuples", "tuple structs", "maps", "structs", "unit variants", "newtype variants", "tuple variants", "struct variants",
        "values of derived and std types",
    ],
    bounded: false,
    assumptions: &[
        "enums are externally tagged, or hold plain fields when tagged otherwise",
        "enum variants are not used as map keys (known finding)",
        "structs of one element are not named Some and structs without elements not None",
    ],
    run: c11,
};

pub fn shown_config(r: &mut Rng) -> FormattingConfig {
    let mut c = gen::config(r);
    c.id_on_tuples = true;
    c.id_on_containers = true;
    c
}

/// The text of an encoding, unless it has keys that are spelled alike.
pub fn written(k: &Kserd, c: FormattingConfig, detail: impl FnOnce() -> String) -> Result<Option<String>, Fail> {
    let t = model::of(k);
    if text::keys_collide(&t, &|t| shows(&c, t)) {
        return Ok(None);
    }
    calm("formatting", detail, || k.as_str_with_config(c)).map(Some)
}

fn c12(ctx: &mut Ctx, case: u64) -> R {
    let c = shown_config(&mut ctx.r);
    if case % 4 == 3 {
        let (name, _, f) = ctx.r.pick(fixed::ALL);
        ctx.hit("values of derived and std types");
        return f(ctx, name, c);
    }
    let (s, size) = pick(&mut ctx.r);
    let d = data(&mut ctx.r, &s, size);
    let k = enc(&s, &d)?;
    let detail = || format!("{c:?}\n{}", show(&s, &d));
    let Some(text) = written(&k, c, detail)? else {
        ctx.hit("skipped: keys spelled alike");
        return Ok(());
    };
    let k2 = match calm("parsing", || format!("{}\n--- text\n{text}", detail()), || parse::parse(&text))? {
        Ok(k) => k,
        Err(e) => return fail("text of encoded data is refused", format!("{}\n{}\n--- text\n{text}", e.backtrace(), detail())),
    };
    kinds(ctx, &d);
    ctx.max("text lines", text.lines().count() as u64);
    ctx.hit(if text.contains('\n') { "multi-line text" } else { "one-line text" });
    if !model::of(&k).is_prim() {
        ctx.state_s(&text);
    }
    let how = format!("{c:?}\n--- text\n{text}\n---");
    back(&how, &s, &d, k2.mk_brw())?;
    if ctx.r.bool() {
        back(&how, &s, &d, k2.clone().into_owned())?;
    }
    back(&how, &s, &d, k2)?;
    ctx.sample(|| format!("{text:?}"));
    Ok(())
}

pub static C12: Prop = Prop {
    id: "C12",
    quick: 3_000_000,
    thorough: 50_000_000,
    rule: "data of a randomly made type is encoded, written under a random configuration that shows tuple and container identities, parsed, decoded and compared; non-trivial: the value is a collection; distinct: by text",
    required: &[
        "simple leaves", "unsigned leaves", "signed leaves", "float leaves", "none", "some", "unit structs", "newtypes", "lists",
        "tuples", "tuple structs", "maps", "structs", "unit variants", "newtype variants", "tuple variants", "struct variants",
        "values of derived and std types", "multi-line text", "one-line text",
    ],
    bounded: false,
    assumptions: &["as for C11", "keys of one map that are spelled alike are left out"],
    run: c12,
};

// ---------------------------------------------------------------- numbers into types

fn text_of(e: impl std::fmt::Display) -> String {
    e.to_string()
}

/// The float `k` steps away.
fn step(f: f64, k: i64) -> f64 {
    f64::from_bits((f.to_bits() as i64 + k) as u64)
}

fn edge_num(r: &mut Rng) -> N {
    let bits = *r.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
    let delta = r.range(0, 4) as i128 - 2;
    let at = if bits == 128 { u128::MAX } else { 1u128 << bits };
    match r.below(14) {
        8 => N::U(r.u128() >> r.below(128)),
        9 => N::I((r.u128() as i128) >> r.below(127)),
        10 | 11 => {
            // half way between two floats, or just beside
            let m = 25 + 29 * r.below(2);
            let mid = (r.u128() >> (128 - m)) | 1 | (1 << (m - 1));
            let at = (mid << r.below(129 - m)) as i128;
            match r.below(3) {
                0 => N::U(at.wrapping_add(delta) as u128),
                1 => N::I(at.wrapping_add(delta)),
                _ => N::I(at.wrapping_neg().wrapping_add(delta)),
            }
        }
        12 => N::F(f64::from_bits(r.next())),
        0 => N::U(at.wrapping_add(delta as u128)),
        1 => N::I((at as i128).wrapping_add(delta)),
        2 => N::I((at as i128).wrapping_neg().wrapping_add(delta)),
        3 => N::F(step(at as f64, delta as i64)),
        4 => N::F(-step(at as f64, delta as i64)),
        5 => N::F((at as f64) + delta as f64),
        6 => N::F(delta as f64 + *r.pick(&[0.0, 1e-11, -1e-11, 0.5, 1e-9, -1e-9, 0.999])),
        7 => N::I(delta),
        _ => gen::num(r),
    }
}

fn c13(ctx: &mut Ctx, _: u64) -> R {
    let n = edge_num(&mut ctx.r);
    let t = T { id: ctx.r.bool().then(|| "x".to_string()), v: V::Num(n) };
    ctx.state_s(&format!("{n:?}"));
    ctx.hit(match n {
        N::U(_) => "unsigned",
        N::I(_) => "signed",
        N::F(_) => "float",
    });
    ctx.sample(|| format!("{n:?}"));

    fn wrap(how: usize, t: T) -> T {
        match how {
            0 => t,
            1 => T::new(V::Seq(vec![t.clone(), t])),
            2 => T::id("Some", V::Tuple(vec![t])),
            3 => T::new(V::Tuple(vec![t.clone(), t])),
            4 => T::new(V::Map(vec![(t.clone(), t)])),
            5 => T::id("New", V::Tuple(vec![t])),
            6 => T::id("St", V::Cntr(vec![("a".into(), t)])),
            _ => T::id("A", V::Tuple(vec![t])),
        }
    }
    #[derive(serde::Deserialize)]
    struct New<X>(X);
    #[derive(serde::Deserialize)]
    struct St<X> {
        a: X,
    }
    #[derive(serde::Deserialize)]
    enum En<X> {
        A(X),
    }
    fn dec<X: serde::de::DeserializeOwned + Ord + Clone>(how: usize, t: &T) -> Result<X, String> {
        let k = t.build();
        Ok(match how {
            0 => k.decode::<X>().map_err(text_of)?,
            1 => k.decode::<Vec<X>>().map_err(text_of)?[1].clone(),
            2 => k.decode::<Option<X>>().map_err(text_of)?.ok_or("none")?,
            3 => k.decode::<(X, X)>().map_err(text_of)?.1,
            4 => k.decode::<BTreeMap<X, X>>().map_err(text_of)?.into_iter().next().ok_or("empty")?.0,
            5 => k.decode::<New<X>>().map_err(text_of)?.0,
            6 => k.decode::<St<X>>().map_err(text_of)?.a,
            _ => match k.decode::<En<X>>().map_err(text_of)? {
                En::A(x) => x,
            },
        })
    }
    let how = ctx.r.below(8);
    let w = wrap(how, t.clone());
    macro_rules! ints {
        ($($ty:ty, $signed:expr;)*) => {$(
            let got = calm("decoding", || format!("{w:?} as {}", stringify!($ty)), || dec::<$ty>(how, &w))?;
            let want: Option<Option<$ty>> = crate::props::num::whole(&n, $signed).map(|x| match x {
                Ok(N::U(x)) => <$ty>::try_from(x).ok(),
                Ok(N::I(x)) => <$ty>::try_from(x).ok(),
                _ => None,
            });
            match (&got, &want) {
                (_, None) => ctx.hit("either is fine"),
                (Ok(g), Some(Some(x))) if g == x => ctx.hit("exact"),
                (Err(_), Some(None)) => ctx.hit("refused"),
                _ => return fail(
                    "a number decodes to an integer it is not, or is wrongly refused",
                    format!("{w:?} as {}: got {got:?}, want {want:?}", stringify!($ty)),
                ),
            }
        )*};
    }
    ints! {
        u8, false; u16, false; u32, false; u64, false; u128, false; usize, false;
        i8, true; i16, true; i32, true; i64, true; i128, true; isize, true;
    }
    // non-zero integers refuse zero as well
    let nz = calm("decoding", || format!("{w:?} as non-zero"), || dec::<std::num::NonZeroI64>(how, &w))?;
    if let Some(want) = crate::props::num::whole(&n, true) {
        let want = match want {
            Ok(N::U(x)) => i64::try_from(x).ok(),
            Ok(N::I(x)) => i64::try_from(x).ok(),
            _ => None,
        }
        .filter(|x| *x != 0);
        ensure!(
            nz.as_ref().ok().map(|x| x.get()) == want,
            "a number decodes to a non-zero integer it is not, or is wrongly refused",
            "{w:?}: got {nz:?}, want {want:?}"
        );
    }
    macro_rules! floats {
        ($($ty:ty, $f:path;)*) => {$(
            let want = $f(&n);
            let k = w.build();
            let got: Result<$ty, String> = calm("decoding", || format!("{w:?} as {}", stringify!($ty)), || {
                Ok(match how {
                    0 => k.decode::<$ty>().map_err(text_of)?,
                    1 => k.decode::<Vec<$ty>>().map_err(text_of)?[1],
                    2 => k.decode::<Option<$ty>>().map_err(text_of)?.ok_or("none")?,
                    3 => k.decode::<($ty, $ty)>().map_err(text_of)?.1,
                    4 => k.decode::<std::collections::HashMap<u8, $ty>>().map_or(want, |m| m.into_iter().next().map_or(want, |x| x.1)),
                    5 => k.decode::<New<$ty>>().map_err(text_of)?.0,
                    6 => k.decode::<St<$ty>>().map_err(text_of)?.a,
                    _ => match k.decode::<En<$ty>>().map_err(text_of)? {
                        En::A(x) => x,
                    },
                })
            })?;
            match got {
                Ok(g) if g == want || (g.is_nan() && want.is_nan()) => ctx.hit("nearest float"),
                g => return fail("a number does not decode to its nearest float", format!("{w:?} as {}: got {g:?}, want {want:?}", stringify!($ty))),
            }
        )*};
    }
    floats! { f64, crate::props::num::nearest; f32, crate::props::num::nearest32; }
    // a number is no other kind of data
    if how == 0 {
        let k = || w.build();
        let other = calm("decoding", || format!("{w:?}"), || {
            k().decode::<bool>().is_ok()
                || k().decode::<char>().is_ok()
                || k().decode::<String>().is_ok()
                || k().decode::<()>().is_ok()
                || k().decode::<Vec<u8>>().is_ok()
                || k().decode::<(u8,)>().is_ok()
                || k().decode::<Option<u8>>().is_ok()
                || k().decode::<BTreeMap<u8, u8>>().is_ok()
                || k().decode::<New<u8>>().is_ok()
                || k().decode::<St<u8>>().is_ok()
                || k().decode::<En<u8>>().is_ok()
        })?;
        ensure!(!other, "a number decodes as another kind of data", "{w:?}");
        ctx.hit("refused as other kinds");
    }
    Ok(())
}

pub static C13: Prop = Prop {
    id: "C13",
    quick: 8_000_000,
    thorough: 120_000_000,
    rule: "a number near the bounds of some integer width (or any number) is decoded into all twelve integer types, a non-zero one and both floats, bare or nested; non-trivial: always; distinct: by number",
    required: &["unsigned", "signed", "float", "exact", "refused", "nearest float", "refused as other kinds"],
    bounded: false,
    assumptions: &["distances to a whole number between 0.99e-10 and 1.01e-10 are left open", "floats just below zero as unsigned are left open"],
    run: c13,
};

// ---------------------------------------------------------------- the wrong shape

fn other_kind(r: &mut Rng) -> V {
    match r.below(9) {
        0 => V::Unit,
        1 => V::Bool(r.bool()),
        2 => V::Num(gen::num(r)),
        3 => V::Str(gen::string(r, true)),
        4 => V::Barr(gen::bytes(r)),
        5 => V::Tuple(vec![]),
        6 => V::Cntr(vec![("a".into(), T::new(V::Num(N::U(1))))]),
        7 => V::Seq(vec![T::new(V::Num(N::U(1)))]),
        _ => V::Map(vec![(T::new(V::Str("a".into())), T::new(V::Num(N::U(1))))]),
    }
}

fn nth<'a>(t: &'a mut T, n: &mut usize) -> Option<&'a mut T> {
    if *n == 0 {
        return Some(t);
    }
    *n -= 1;
    match &mut t.v {
        V::Tuple(x) | V::Seq(x) => x.iter_mut().find_map(|t| nth(t, n)),
        V::Cntr(x) => x.iter_mut().find_map(|(_, t)| nth(t, n)),
        V::Map(x) => x.iter_mut().find_map(|(k, t)| {
            if let Some(x) = nth(k, n) {
                return Some(x);
            }
            nth(t, n)
        }),
        _ => None,
    }
}

/// One change somewhere in the tree.
fn mutate(r: &mut Rng, t: &mut T) -> &'static str {
    let n = t.nodes();
    let mut at = r.below(n);
    let Some(t) = nth(t, &mut at) else { return "none" };
    for _ in 0..20 {
        let roll = r.below(10);
        match (roll, &mut t.v) {
            (0, _) => {
                t.v = other_kind(r);
                return "kind";
            }
            (1, _) => {
                t.id = match (r.below(3), &t.id) {
                    (0, _) => None,
                    (1, Some(i)) => Some(gen::near(r, i)).filter(|i| !i.is_empty() && !i.contains(' ')),
                    _ => Some(gen::ident(r)),
                };
                return "identity";
            }
            (2 | 3, V::Tuple(x) | V::Seq(x)) if !x.is_empty() => {
                let i = r.below(x.len());
                x.remove(i);
                return "one less";
            }
            (4 | 5, V::Tuple(x) | V::Seq(x)) => {
                let e = x.first().cloned().unwrap_or(T::new(V::Num(N::U(1))));
                for _ in 0..if r.chance(1, 4) { 1 + r.below(3) } else { 1 } {
                    let i = r.below(x.len() + 1);
                    x.insert(i, e.clone());
                }
                return "one more";
            }
            (2, V::Cntr(x)) if !x.is_empty() => {
                let i = r.below(x.len());
                x.remove(i);
                return "one less field";
            }
            (3, V::Cntr(x)) => {
                let e = x.first().map(|x| x.1.clone()).unwrap_or(T::new(V::Num(N::U(1))));
                x.push((gen::name(r), e));
                return "one more field";
            }
            (4 | 5, V::Cntr(x)) if !x.is_empty() => {
                let i = r.below(x.len());
                x[i].0 = match r.bool() {
                    true => gen::name(r),
                    false => gen::near(r, &x[i].0),
                };
                return "field name";
            }
            (2, V::Map(x)) if !x.is_empty() => {
                let i = r.below(x.len());
                x.remove(i);
                return "one less entry";
            }
            (2, V::Num(n)) => {
                t.v = V::Str(n.to().to_string());
                return "number as text";
            }
            (2, V::Bool(b)) => {
                t.v = match r.below(3) {
                    0 => V::Str(b.to_string()),
                    1 => V::Num(N::U(*b as u128)),
                    _ => V::Num(N::I(*b as i128)),
                };
                return "boolean as something else";
            }
            (3, V::Num(N::U(x @ 0..=1))) => {
                t.v = V::Bool(*x == 1);
                return "number as boolean";
            }
            (_, V::Num(n)) if roll > 1 => {
                *n = edge_num(r);
                return "number";
            }
            (_, V::Str(s)) if roll > 1 => {
                *s = match r.bool() {
                    true => gen::string(r, true),
                    false => gen::near(r, s),
                };
                return "string";
            }
            (6, V::Tuple(x)) => {
                t.v = V::Seq(std::mem::take(x));
                return "tuple to sequence";
            }
            (6, V::Seq(x)) => {
                t.v = V::Tuple(std::mem::take(x));
                return "sequence to tuple";
            }
            (7, V::Cntr(x)) => {
                t.v = V::Tuple(std::mem::take(x).into_iter().map(|x| x.1).collect());
                return "container to tuple";
            }
            (8, V::Cntr(x)) => {
                t.v = V::Map(std::mem::take(x).into_iter().map(|x| (T::new(V::Str(x.0)), x.1)).collect());
                return "container to map";
            }
            (9, _) => {
                let inner = T { id: None, v: std::mem::replace(&mut t.v, V::Unit) };
                t.v = V::Tuple(vec![inner]);
                return "wrapped";
            }
            _ => (),
        }
    }
    "none"
}

/// A serialized struct shows each field once; where a container and its data disagree is left open.
fn judge(ctx: &mut Ctx, how: &'static str, s: &S, k: Kserd) -> R {
    let t = model::of(&k);
    let want = reference(s, &t);
    let detail = || format!("{how}\ntype {s:?}\nfrom {t:?}");
    let got = calm("decoding", detail, || s.deserialize(Decoder(k)))?;
    match (&got, &want) {
        (_, None) => ctx.hit("left open"),
        (Ok(g), Some(Ok(w))) if same(g, w) => {
            ctx.hit("fits: decoded");
            // what was decoded is what the value holds: encode it again
            let again = calm("encoding", detail, || Kserd::enc(g))?;
            match again {
                Ok(k) => {
                    let k = model::sorted(&model::of(&k));
                    if let Err(e) = model::identical(&k, &model::sorted(&mirror(g))) {
                        if !enum_keys(s) {
                            return fail("decoded data encodes to something else", format!("{e}\n{}", detail()));
                        }
                    }
                }
                Err(e) => return fail("decoded data is refused by the encoder", format!("{e}\n{}", detail())),
            }
        }
        (Err(_), Some(Err(e))) => {
            ctx.hit("refused");
            ctx.hit(match *e {
                "wrong number of elements" => "refused: wrong number of elements",
                "missing field" => "refused: missing field",
                "unknown or missing variant name" => "refused: unknown or missing variant name",
                "number out of range" => "refused: number out of range",
                "not a whole number" => "refused: not a whole number",
                "not text" => "refused: not text",
                "wrong kind of key" => "refused: wrong kind of key",
                _ => "refused: wrong kind",
            });
        }
        (Ok(g), Some(Err(e))) => return fail(format!("data of the wrong shape is accepted: {e}"), format!("{}\ngot {g:?}", detail())),
        (Ok(g), Some(Ok(w))) => return fail("decoded data is not that of the value", format!("{}\ngot  {g:?}\nwant {w:?}", detail())),
        (Err(e), Some(Ok(w))) => return fail("data that fits is refused", format!("{e}\n{}\nwant {w:?}", detail())),
    }
    ctx.state_s(&format!("{s:?}{t:?}"));
    ctx.sample(|| format!("{how}: {s:?} from {t:?}"));
    Ok(())
}

/// Decoding can make equal keys out of different ones (2 and 2.0), which encode as one.
fn enum_keys(s: &S) -> bool {
    match s {
        S::Map(..) => true,
        S::Opt(s) | S::Newtype(_, s) | S::Seq(s) => enum_keys(s),
        S::Tuple(x) | S::TupleStruct(_, x) | S::Struct(_, _, x) => x.iter().any(enum_keys),
        S::Enum(_, _, v) => v.iter().any(|v| match v {
            dynser::Var::Unit => false,
            dynser::Var::New(s) => enum_keys(s),
            dynser::Var::Tuple(x) | dynser::Var::Struct(_, x) => x.iter().any(enum_keys),
        }),
        _ => false,
    }
}

fn c14(ctx: &mut Ctx, case: u64) -> R {
    let (s, size) = pick(&mut ctx.r);
    let (how, t): (_, T) = match case % 8 {
        0 => ("random value", gen::any(&mut ctx.r)),
        1 => {
            let (s2, size) = pick(&mut ctx.r);
            ("data of another type", mirror(&data(&mut ctx.r, &s2, size)))
        }
        _ => {
            let mut t = mirror(&data(&mut ctx.r, &s, size));
            let mut how = mutate(&mut ctx.r, &mut t);
            if ctx.r.chance(1, 8) {
                mutate(&mut ctx.r, &mut t);
                how = "several changes";
            }
            (how, t)
        }
    };
    ctx.hit(match how {
        "random value" => "random value",
        "data of another type" => "data of another type",
        _ => "changed data",
    });
    match ctx.r.below(3) {
        0 => judge(ctx, how, &s, t.build_brw()),
        1 => judge(ctx, how, &s, t.build().mk_brw()),
        _ => judge(ctx, how, &s, t.build()),
    }
}

pub static C14: Prop = Prop {
    id: "C14",
    quick: 5_000_000,
    thorough: 80_000_000,
    rule: "a random value, data of another type or data with a change of kind, name, length or number is decoded into a randomly made type and compared with what a model of decoding says; distinct: by type and value",
    required: &[
        "random value", "data of another type", "changed data", "fits: decoded", "refused: wrong number of elements", "refused: missing field",
        "refused: unknown or missing variant name", "refused: number out of range", "refused: not a whole number", "refused: wrong kind",
        "refused: wrong kind of key",
    ],
    bounded: false,
    assumptions: &["container names decoded as enum map keys are left open", "near-whole floats are left open as in C13"],
    run: c14,
};

fn c15(ctx: &mut Ctx, _: u64) -> R {
    let (s, size) = pick(&mut ctx.r);
    let d = data(&mut ctx.r, &s, size);
    let k = enc(&s, &d)?;
    let got = model::sorted(&model::of(&k));
    let want = model::sorted(&mirror(&d));
    if let Err(e) = model::identical(&want, &got) {
        return fail("the encoding is not the shape of the data", format!("{e}\n{}\ngot {got:?}", show(&s, &d)));
    }
    kinds(ctx, &d);
    ctx.max("nodes", got.nodes() as u64);
    ctx.max("depth", got.depth() as u64);
    if !got.is_prim() {
        ctx.state_s(&format!("{d:?}"));
    }
    ctx.sample(|| format!("{d:?}"));
    Ok(())
}

pub static C15: Prop = Prop {
    id: "C15",
    quick: 8_000_000,
    thorough: 120_000_000,
    rule: "data of a randomly made type is encoded and compared node by node with the tree the scheme prescribes; non-trivial: the value is a collection; distinct: by data",
    required: KINDS,
    bounded: false,
    assumptions: &["enum variants are not used as map keys (known finding)"],
    run: c15,
};
