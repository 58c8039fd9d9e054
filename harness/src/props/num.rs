//! Numbers: order, equality and hashing, conversions, text.

use crate::ensure;
use crate::gen;
use crate::model::{Pt, N};
use crate::mon::*;
use crate::rng::Rng;
use kserd::ds::NumberType;
use kserd::{parse, Kserd, Number, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

fn step(f: f64, d: i64) -> f64 {
    if !f.is_finite() {
        return f;
    }
    // order preserving integer picture of the bits
    let b = f.to_bits() as i64;
    let o = if b < 0 { i64::MIN.wrapping_sub(b) } else { b };
    let o = o.wrapping_add(d);
    let b = if o < 0 { i64::MIN.wrapping_sub(o) } else { o };
    f64::from_bits(b as u64)
}

/// A number on or close to `n`, in any representation.
pub fn near(r: &mut Rng, n: N) -> N {
    let f = match n {
        N::U(x) => x as f64,
        N::I(x) => x as f64,
        N::F(x) => x,
    };
    match r.below(9) {
        0 => n,
        1 => N::F(f),
        2 => N::F(step(f, r.below(5) as i64 - 2)),
        3 => N::U(f as u128),
        4 => N::I(f as i128),
        5 => match n {
            N::U(x) => N::I(x as i128),
            N::I(x) => N::U(x as u128),
            N::F(x) => N::F(-x),
        },
        6 => match n {
            N::U(x) => N::U(x.wrapping_add(r.below(5) as u128).wrapping_sub(2)),
            N::I(x) => N::I(x.wrapping_add(r.below(5) as i128 - 2)),
            N::F(x) => N::F(x + *r.pick(&[0.5, -0.5, 1.0, -1.0, 1e-10])),
        },
        7 => match n {
            N::U(x) => N::I((x as i128).wrapping_neg()),
            N::I(x) => N::I(x.wrapping_neg()),
            N::F(x) => N::I((x as i128).wrapping_add(r.below(3) as i128 - 1)),
        },
        _ => N::U((f as u128).wrapping_add(r.below(3) as u128).wrapping_sub(1)),
    }
}

fn any(r: &mut Rng) -> N {
    gen::num(r)
}

fn pair(r: &mut Rng) -> (N, N) {
    let a = any(r);
    let b = if r.chance(3, 4) { near(r, a) } else { any(r) };
    (a, b)
}

fn kind(n: &N) -> u8 {
    match n {
        N::U(_) => 0,
        N::I(_) => 1,
        N::F(_) => 2,
    }
}

fn bits(n: &N) -> u64 {
    match *n {
        N::U(x) => (x as u64) ^ ((x >> 64) as u64).rotate_left(7) ^ 1,
        N::I(x) => (x as u64) ^ ((x >> 64) as u64).rotate_left(7) ^ 0x55,
        N::F(x) => x.to_bits().rotate_left(3) ^ 0x1234567,
    }
}

const PAIRS: [[&str; 3]; 3] = [
    ["unsigned with unsigned", "unsigned with signed", "unsigned with float"],
    ["signed with unsigned", "signed with signed", "signed with float"],
    ["float with unsigned", "float with signed", "float with float"],
];

macro_rules! prim_cmp {
    ($a:expr, $b:expr, $ctx:expr, $($t:ty),*) => { $(
        // only when the primitive denotes the same point
        if let Some(p) = exact::<$t>($b) {
            let want = $a.line_cmp($b);
            let n = $a.to();
            $ctx.hit("compared with a primitive");
            ensure!(PartialOrd::partial_cmp(&n, &p) == Some(want), "number compares wrongly with a primitive",
                "{:?} ? {:?}{}: want {want:?} got {:?}", $a, p, stringify!($t), PartialOrd::partial_cmp(&n, &p));
            ensure!((n < p) == (want == Ordering::Less) && (n > p) == (want == Ordering::Greater)
                && (n <= p) == (want != Ordering::Greater) && (n >= p) == (want != Ordering::Less),
                "operators with a primitive disagree", "{:?} ? {:?}{}", $a, p, stringify!($t));
        }
    )* };
}

macro_rules! prim_eq {
    ($a:expr, $b:expr, $ctx:expr, $($t:ty),*) => { $(
        if let Some(p) = exact::<$t>($b) {
            let want = $a.line_cmp($b) == Ordering::Equal;
            let n = $a.to();
            $ctx.hit("equated with a primitive");
            ensure!((n == p) == want && (n != p) == !want, "number equality with a primitive is wrong",
                "{:?} == {:?}{}: want {want}", $a, p, stringify!($t));
        }
    )* };
}

/// The primitive of type P at exactly this point, if there is one.
fn exact<P: Prim>(n: &N) -> Option<P> {
    P::at(n)
}

trait Prim: Sized {
    fn at(n: &N) -> Option<Self>;
}
macro_rules! prim_int {
    ($($t:ty),*) => { $( impl Prim for $t {
        fn at(n: &N) -> Option<$t> {
            match *n {
                N::U(x) => <$t>::try_from(x).ok(),
                N::I(x) => <$t>::try_from(x).ok(),
                N::F(_) => None,
            }
        }
    } )* };
}
prim_int!(usize, u8, u16, u32, u64, u128, isize, i8, i16, i32, i64, i128);
impl Prim for f64 {
    fn at(n: &N) -> Option<f64> {
        match *n {
            N::F(x) => Some(x),
            _ => None,
        }
    }
}
impl Prim for f32 {
    // only floats with few binary digits, where every decimal detour is exact
    fn at(n: &N) -> Option<f32> {
        match *n {
            N::F(x) if x.is_nan() => Some(f32::NAN),
            N::F(x) if x.is_infinite() => Some(x as f32),
            N::F(x) if x.abs() < 65536.0 && (x * 256.0).fract() == 0.0 => Some(x as f32),
            _ => None,
        }
    }
}

fn c18(ctx: &mut Ctx, case: u64) -> R {
    if case % 16 == 3 {
        // a whole list
        let n = 3 + ctx.r.below(14);
        let mut ns: Vec<N> = Vec::new();
        for _ in 0..n {
            let x = if ns.is_empty() || ctx.r.chance(1, 3) {
                any(&mut ctx.r)
            } else {
                let b = *ctx.r.pick(&ns);
                near(&mut ctx.r, b)
            };
            ns.push(x);
        }
        let mut s: Vec<Number> = ns.iter().map(|x| x.to()).collect();
        s.sort();
        for w in s.windows(2) {
            ensure!(
                N::of(&w[0]).line_cmp(&N::of(&w[1])) != Ordering::Greater,
                "sorted numbers are out of order",
                "{ns:?} => {s:?}"
            );
        }
        let set: BTreeSet<Number> = ns.iter().map(|x| x.to()).collect();
        let mut pts: Vec<N> = ns.clone();
        pts.sort_by(|a, b| a.line_cmp(b));
        pts.dedup_by(|a, b| a.line_cmp(b) == Ordering::Equal);
        ensure!(set.len() == pts.len(), "ordered set holds the wrong number of points", "{ns:?} => {set:?}");
        for (a, b) in set.iter().zip(&pts) {
            ensure!(N::of(a).line_cmp(b) == Ordering::Equal, "ordered set differs", "{ns:?} => {set:?}");
        }
        let want = *pts.last().unwrap();
        let max = ns.iter().map(|x| x.to()).max().unwrap();
        ensure!(N::of(&max).line_cmp(&want) == Ordering::Equal, "maximum is not the largest", "{ns:?} => {max:?}");
        ctx.hit("lists sorted");
        ctx.state(ns.iter().fold(7, |h, x| h ^ bits(x).rotate_left(11)));
        return Ok(());
    }
    let (a, b) = pair(&mut ctx.r);
    let (x, y) = (a.to(), b.to());
    let want = a.line_cmp(&b);
    let got = x.cmp(&y);
    ensure!(got == want, "order differs from the number line", "{a:?} ? {b:?}: want {want:?} got {got:?}");
    ensure!(y.cmp(&x) == want.reverse(), "order is not antisymmetric", "{b:?} ? {a:?}: got {:?}", y.cmp(&x));
    ensure!(x.partial_cmp(&y) == Some(want), "partial order differs", "{a:?} ? {b:?}");
    ensure!(
        (x < y) == (want == Ordering::Less)
            && (x > y) == (want == Ordering::Greater)
            && (x <= y) == (want != Ordering::Greater)
            && (x >= y) == (want != Ordering::Less)
            && (x == y) == (want == Ordering::Equal)
            && (x != y) == (want != Ordering::Equal),
        "comparison operators disagree with the order",
        "{a:?} ? {b:?}: {want:?}"
    );
    let (mx, mn) = (N::of(&x.max(y)), N::of(&x.min(y)));
    let (wx, wn) = if want == Ordering::Greater { (a, b) } else { (b, a) };
    ensure!(
        mx.line_cmp(&wx) == Ordering::Equal && mn.line_cmp(&wn) == Ordering::Equal,
        "max or min differs",
        "{a:?} {b:?}: {mx:?} {mn:?}"
    );
    ensure!(
        x.cmp(&x) == Ordering::Equal && y.cmp(&y) == Ordering::Equal,
        "a number does not compare equal to itself",
        "{a:?} {b:?}"
    );
    prim_cmp!(a, &b, ctx, usize, u8, u16, u32, u64, u128, isize, i8, i16, i32, i64, i128, f32, f64);
    ctx.hit(PAIRS[kind(&a) as usize][kind(&b) as usize]);
    match want {
        Ordering::Less => ctx.hit("less"),
        Ordering::Equal => ctx.hit("equal"),
        Ordering::Greater => ctx.hit("greater"),
    }
    if kind(&a) != kind(&b) || !matches!(want, Ordering::Equal) {
        ctx.state(bits(&a).wrapping_mul(31) ^ bits(&b));
    }
    ctx.sample(|| format!("{a:?} ? {b:?} = {want:?}"));
    Ok(())
}

pub static C18: Prop = Prop {
    id: "C18",
    quick: 30_000_000,
    thorough: 500_000_000,
    rule: "pairs of numbers close together in all representations (and every 16th case a list to sort) compared against an exact model of the number line; non-trivial: different representations or different points; distinct: by the pair",
    required: &[
        "unsigned with unsigned", "unsigned with signed", "unsigned with float", "signed with unsigned",
        "signed with signed", "signed with float", "float with unsigned", "float with signed", "float with float",
        "less", "equal", "greater", "lists sorted", "compared with a primitive",
    ],
    bounded: false,
    assumptions: &[],
    run: c18,
};

struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

fn hash2(n: &Number) -> (u64, u64) {
    let mut d = DefaultHasher::new();
    n.hash(&mut d);
    let mut s = Sum(0xcbf29ce484222325);
    n.hash(&mut s);
    (d.finish(), s.finish())
}

fn c19(ctx: &mut Ctx, case: u64) -> R {
    if case % 16 == 5 {
        let n = 2 + ctx.r.below(12);
        let mut ns: Vec<N> = Vec::new();
        for _ in 0..n {
            let x = if ns.is_empty() || ctx.r.chance(1, 3) {
                any(&mut ctx.r)
            } else {
                let b = *ctx.r.pick(&ns);
                near(&mut ctx.r, b)
            };
            ns.push(x);
        }
        let hm: HashMap<Number, usize> = ns.iter().enumerate().map(|(i, x)| (x.to(), i)).collect();
        let bm: BTreeMap<Number, usize> = ns.iter().enumerate().map(|(i, x)| (x.to(), i)).collect();
        let hs: HashSet<Number> = ns.iter().map(|x| x.to()).collect();
        let mut distinct = 0;
        for (i, x) in ns.iter().enumerate() {
            if ns[..i].iter().all(|y| y.line_cmp(x) != Ordering::Equal) {
                distinct += 1;
            }
        }
        ensure!(
            hm.len() == distinct && bm.len() == distinct && hs.len() == distinct,
            "collections hold the wrong number of keys",
            "{ns:?}: want {distinct}, hashed {}, ordered {}, set {}",
            hm.len(),
            bm.len(),
            hs.len()
        );
        for x in ns.iter() {
            for _ in 0..2 {
                let q = near(&mut ctx.r, *x);
                // the last entry written at this point
                let want = ns.iter().rposition(|y| y.line_cmp(&q) == Ordering::Equal);
                let h = hm.get(&q.to()).copied();
                let b = bm.get(&q.to()).copied();
                ensure!(h == want, "hashed lookup differs", "{q:?} in {ns:?}: want {want:?} got {h:?}");
                ensure!(b == want, "ordered lookup differs", "{q:?} in {ns:?}: want {want:?} got {b:?}");
                ensure!(hs.contains(&q.to()) == want.is_some(), "set lookup differs", "{q:?} in {ns:?}");
                ctx.hit(if want.is_some() { "lookups that find" } else { "lookups that miss" });
            }
        }
        ctx.state(ns.iter().fold(3, |h, x| h ^ bits(x).rotate_left(11)));
        return Ok(());
    }
    let (a, b) = pair(&mut ctx.r);
    let (x, y) = (a.to(), b.to());
    let want = a.line_cmp(&b) == Ordering::Equal;
    ensure!((x == y) == want, "equality differs from the number line", "{a:?} == {b:?}: want {want}");
    ensure!((y == x) == want, "equality is not symmetric", "{b:?} == {a:?}: want {want}");
    ensure!(x == x && y == y, "a number is not equal to itself", "{a:?} {b:?}");
    ensure!((x != y) == !want, "!= disagrees with ==", "{a:?} {b:?}");
    let (hx, hy) = (hash2(&x), hash2(&y));
    ensure!(hx == hash2(&x), "hash changes between calls", "{a:?}");
    if want {
        ensure!(hx == hy, "equal numbers hash differently", "{a:?} {b:?}: {hx:?} {hy:?}");
        ctx.hit("equal pairs");
        if kind(&a) != kind(&b) {
            ctx.hit("equal pairs of different representation");
        }
        // transitivity through a third
        let c = near(&mut ctx.r, b);
        let z = c.to();
        ensure!((x == z) == (y == z), "equality is not transitive", "{a:?} {b:?} {c:?}");
    } else {
        ctx.hit("unequal pairs");
    }
    prim_eq!(a, &b, ctx, usize, u8, u16, u32, u64, u128, isize, i8, i16, i32, i64, i128, f32, f64);
    // numbers inside values
    if case % 8 == 0 {
        let (p, q) = (Kserd::new(Value::Num(x)), Kserd::new(Value::Num(y)));
        ensure!((p == q) == want, "equality of number values differs", "{a:?} {b:?}");
    }
    if kind(&a) != kind(&b) || !want {
        ctx.state(bits(&a).wrapping_mul(31) ^ bits(&b));
    }
    ctx.sample(|| format!("{a:?} == {b:?} : {want}, hashes {:x} {:x}", hx.0, hy.0));
    Ok(())
}

pub static C19: Prop = Prop {
    id: "C19",
    quick: 20_000_000,
    thorough: 350_000_000,
    rule: "pairs of numbers close together in all representations, and sets of them with lookups, compared against an exact model; non-trivial: different representations or different points; distinct: by the pair or set",
    required: &[
        "equal pairs", "equal pairs of different representation", "unequal pairs", "lookups that find",
        "lookups that miss", "equated with a primitive",
    ],
    bounded: false,
    assumptions: &[],
    run: c19,
};

/// What reading a number as an integer has to give: None = refused, Some(None) = either is fine.
pub fn int_of(n: &N, signed: bool) -> Result<Option<(bool, u128)>, ()> {
    let fits = |neg: bool, m: u128| {
        if signed {
            if neg {
                m <= 1 << 127
            } else {
                m < 1 << 127
            }
        } else {
            !neg
        }
    };
    match n.pt() {
        Pt::Int(neg, m) => Ok(Some((neg, m)).filter(|_| fits(neg, m))),
        Pt::Flt(f) if f.abs() < 1e30 => {
            let w = f.round();
            let d = (w - f).abs();
            if d > 1.01e-10 {
                Ok(None)
            } else if d > 0.99e-10 {
                Err(())
            } else {
                let p = (w < 0.0, w.abs() as u128);
                if f < 0.0 && !signed {
                    // just below zero: refusing and rounding to zero are both reasonable
                    if w == 0.0 {
                        Err(())
                    } else {
                        Ok(None)
                    }
                } else {
                    Ok(Some(p).filter(|p| fits(p.0, p.1)))
                }
            }
        }
        _ => Ok(None),
    }
}

/// As `int_of`: None = either is fine.
pub fn whole(n: &N, signed: bool) -> Option<Result<N, ()>> {
    match int_of(n, signed) {
        Err(()) => None,
        Ok(None) => Some(Err(())),
        Ok(Some((false, m))) => Some(Ok(N::U(m))),
        Ok(Some((true, m))) => Some(Ok(N::I((m as i128).wrapping_neg()))),
    }
}

pub fn nearest(n: &N) -> f64 {
    match *n {
        N::U(x) => x as f64,
        N::I(x) => x as f64,
        N::F(x) => x,
    }
}

pub fn nearest32(n: &N) -> f32 {
    match *n {
        N::U(x) => x as f32,
        N::I(x) => x as f32,
        N::F(x) => x as f32,
    }
}

fn tol_float(r: &mut Rng) -> f64 {
    let base = match r.below(4) {
        0 => r.below(10) as f64,
        1 => r.below(1000) as f64,
        2 => (r.below(200_000)) as f64,
        _ => 0.0,
    };
    let d = match r.below(6) {
        0 => 5e-11,
        1 => 9e-11,
        2 => 1.2e-10,
        3 => 2e-10,
        4 => 1e-9 * (1 + r.below(1000)) as f64,
        _ => r.below(1000) as f64 * 1e-12,
    };
    let x = if r.bool() { base + d } else { base - d };
    if r.bool() {
        x
    } else {
        -x
    }
}

macro_rules! from_prim {
    ($ctx:expr, $($t:ty: $v:expr),*) => { $( {
        let p: $t = $v;
        let n = Number::from(p);
        let want = N::from_int(p as i128, p as u128, p < 0 as $t);
        ensure!(N::of(&n).line_cmp(&want) == Ordering::Equal, "a number differs from its primitive", "{p}{} => {n:?}", stringify!($t));
        ensure!(NumberType::identity(&p) == stringify!($t), "wrong type name", "{} for {}", NumberType::identity(&p), stringify!($t));
        let k = Kserd::new_num(p);
        ensure!(k.id() == Some(stringify!($t)), "wrong identity on a number value", "{:?} for {}", k.id(), stringify!($t));
        match (&k.val, Value::new_num(p)) {
            (Value::Num(a), Value::Num(b)) => {
                ensure!(N::of(a).line_cmp(&want) == Ordering::Equal && N::of(&b).line_cmp(&want) == Ordering::Equal,
                    "a number value differs from its primitive", "{p}{} => {a:?} {b:?}", stringify!($t));
            }
            _ => return fail("number constructor made another kind", format!("{p}{}", stringify!($t))),
        }
        $ctx.hit(concat!("made from ", stringify!($t)));
    } )* };
}

impl N {
    fn from_int(i: i128, u: u128, neg: bool) -> N {
        if neg {
            N::I(i)
        } else {
            N::U(u)
        }
    }
}

fn c20(ctx: &mut Ctx, _: u64) -> R {
    let r = &mut ctx.r;
    let n = match r.below(4) {
        0 => N::F(tol_float(r)),
        1 => {
            let a = any(r);
            near(r, a)
        }
        2 => {
            // around the integer limits
            let l = *r.pick(&[0u128, 1 << 127, u128::MAX, (1 << 127) - 1, 1 << 64, 1 << 53]);
            let b = *r.pick(&[N::U(l), N::I(l as i128), N::F(l as f64), N::F(-(l as f64))]);
            near(r, b)
        }
        _ => any(r),
    };
    let x = n.to();
    for signed in [false, true] {
        let got: Option<(bool, u128)> = if signed {
            x.as_i128().ok().map(|v| (v < 0, v.unsigned_abs()))
        } else {
            x.as_u128().ok().map(|v| (false, v))
        };
        let name = if signed { "signed" } else { "unsigned" };
        match int_of(&n, signed) {
            Err(()) => {
                ctx.hit("on the edge of the tolerance");
            }
            Ok(want) => {
                ensure!(got == want, format!("reading as {name} integer is wrong"), "{n:?}: want {want:?} got {got:?} (negative, magnitude)");
                ctx.hit(match (want.is_some(), matches!(n.pt(), Pt::Flt(_))) {
                    (true, true) => "rounded within the tolerance",
                    (true, false) => "exact integers",
                    (false, _) => "refused",
                });
            }
        }
    }
    // typed accessors of values give the same answers
    let v = Value::Num(x);
    ensure!(
        v.uint() == x.as_u128().ok() && v.int() == x.as_i128().ok() && v.float().map(f64::to_bits) == Some(x.as_f64().to_bits()),
        "value accessors disagree with the number",
        "{n:?}"
    );
    let f = x.as_f64();
    let want = match n {
        N::U(u) => u.to_string().parse::<f64>().unwrap(),
        N::I(i) => i.to_string().parse::<f64>().unwrap(),
        N::F(f) => f,
    };
    ensure!(
        f.to_bits() == want.to_bits() || (f.is_nan() && want.is_nan()),
        "reading as a float is not the nearest float",
        "{n:?}: want {want:e} got {f:e}"
    );

    let u = gen::uint(&mut ctx.r);
    let i = gen::int(&mut ctx.r);
    match ctx.r.below(14) {
        0 => from_prim!(ctx, u8: u as u8),
        1 => from_prim!(ctx, u16: u as u16),
        2 => from_prim!(ctx, u32: u as u32),
        3 => from_prim!(ctx, u64: u as u64),
        4 => from_prim!(ctx, u128: u),
        5 => from_prim!(ctx, usize: u as usize),
        6 => from_prim!(ctx, i8: i as i8),
        7 => from_prim!(ctx, i16: i as i16),
        8 => from_prim!(ctx, i32: i as i32),
        9 => from_prim!(ctx, i64: i as i64),
        10 => from_prim!(ctx, i128: i),
        11 => from_prim!(ctx, isize: i as isize),
        12 => {
            let f = gen::float(&mut ctx.r);
            let k = Kserd::new_num(f);
            let n = Number::from(f);
            ensure!(N::of(&n).identical(&N::F(f)), "float changes on the way in", "{f:e} => {n:?}");
            ensure!(k.id() == Some("f64") && NumberType::identity(&f) == "f64", "wrong type name", "{:?}", k.id());
            ctx.hit("made from f64");
        }
        _ => {
            let f = f32::from_bits(ctx.r.next() as u32);
            let f = if ctx.r.bool() { f } else { gen::float(&mut ctx.r) as f32 };
            let k = Kserd::new_num(f);
            let back = Number::from(f).as_f64() as f32;
            ensure!(
                back == f || (back.is_nan() && f.is_nan()),
                "single precision float changes on the way in",
                "{f:e} => {:?}",
                Number::from(f)
            );
            ensure!(k.id() == Some("f32") && NumberType::identity(&f) == "f32", "wrong type name", "{:?}", k.id());
            ctx.hit("made from f32");
        }
    }
    ctx.state(bits(&n) ^ kind(&n) as u64);
    ctx.sample(|| format!("{n:?}: {:?} {:?} {:?}", x.as_u128(), x.as_i128(), x.as_f64()));
    Ok(())
}

pub static C20: Prop = Prop {
    id: "C20",
    quick: 60_000_000,
    thorough: 1_000_000_000,
    rule: "a number near a limit or tolerance is read as unsigned, signed and float and compared with an exact model, and a random primitive is made into a number; distinct: by number",
    required: &[
        "exact integers", "rounded within the tolerance", "refused", "made from u8", "made from u16", "made from u32",
        "made from u64", "made from u128", "made from usize", "made from i8", "made from i16", "made from i32",
        "made from i64", "made from i128", "made from isize", "made from f32", "made from f64",
    ],
    bounded: false,
    assumptions: &[
        "a single precision float keeps its value when it reads back as the same single precision float",
        "floats within one percent of the tolerance, or less than the tolerance below zero for unsigned, may go either way",
    ],
    run: c20,
};

fn digits(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}

fn spelling(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(6) {
        0 | 1 => s.push('-'),
        2 if r.chance(1, 3) => s.push('+'),
        _ => (),
    }
    if r.chance(1, 10) {
        let n = if r.bool() { r.below(6) } else { r.below(90) };
        s.push_str(&"0".repeat(n));
    }
    match r.below(12) {
        0..=3 => {
            let n = match r.below(5) {
                0 => r.below(4),
                1 => r.below(20),
                2 => r.below(40),
                3 => 36 + r.below(6),
                _ => r.below(100),
            };
            s.push_str(&digits(r, n));
        }
        4 => s.push_str(*r.pick(&["inf", "nan", "NaN", "infinity", "INF", "Inf", "in", "infx", "nan1", "NAN", "na"])),
        5 => {
            // limits of 128 bits, plus or minus a little
            let b = *r.pick(&["340282366920938463463374607431768211", "170141183460469231731687303715884105"]);
            s.push_str(b);
            s.push_str(&format!("{:03}", *r.pick(&[455u32, 456, 454, 727, 728, 729, 0, 999])));
        }
        _ => {
            let n = *r.pick(&[0, 1, 1, 2, 3, 8, 17, 20, 25]);
            s.push_str(&digits(r, n));
            if r.chance(3, 4) {
                s.push('.');
                let n = *r.pick(&[0, 1, 1, 2, 3, 8, 17, 20, 30]);
                s.push_str(&digits(r, n));
            }
        }
    }
    if r.chance(1, 3) {
        s.push(*r.pick(&['e', 'E']));
        match r.below(3) {
            0 => s.push('-'),
            1 => s.push('+'),
            _ => (),
        }
        let n = *r.pick(&[0, 1, 1, 2, 2, 3, 4]);
        s.push_str(&digits(r, n));
    }
    if r.chance(1, 6) {
        // a stray character somewhere
        let at = r.below(s.len() + 1);
        s.insert(at, *r.pick(&[' ', '-', '+', '.', 'e', 'x', '0', '\u{e9}', ',', '/', 'a', 'n', '\n', 'f']));
    }
    s
}

/// What the text denotes: None = not a number, Err = either way is fine.
fn denotes(s: &str) -> Result<Option<N>, ()> {
    let neg = s.starts_with('-');
    let d = if neg { &s[1..] } else { s };
    if s.contains('_') {
        return Err(());
    }
    if d.is_empty() {
        return Ok(None);
    }
    if d.bytes().all(|b| b.is_ascii_digit()) {
        return Ok(if neg {
            s.parse::<i128>().ok().map(N::I)
        } else {
            s.parse::<u128>().ok().map(N::U)
        });
    }
    Ok(s.parse::<f64>().ok().map(N::F))
}

fn c21(ctx: &mut Ctx, case: u64) -> R {
    if case % 2 == 0 {
        let n = {
            let a = any(&mut ctx.r);
            if ctx.r.bool() {
                a
            } else {
                near(&mut ctx.r, a)
            }
        };
        let x = n.to();
        let s = x.to_string();
        ensure!(!s.is_empty() && s.is_ascii() && !s.contains(char::is_whitespace), "number prints as odd text", "{n:?} => {s:?}");
        let back = s.parse::<Number>();
        match &back {
            Ok(b) => {
                ensure!(N::of(b).line_cmp(&n) == Ordering::Equal, "number text reads back as another number", "{n:?} => {s:?} => {b:?}")
            }
            Err(_) => return fail("number text is refused", format!("{n:?} => {s:?}")),
        }
        // the text denotes the number to an independent reader too
        match denotes(&s) {
            Ok(Some(d)) => ensure!(d.line_cmp(&n) == Ordering::Equal, "number text denotes another number", "{n:?} => {s:?}"),
            Ok(None) => return fail("printed text is not a number", format!("{n:?} => {s:?}")),
            Err(()) => (),
        }
        if case % 8 == 0 {
            let k = Kserd::new(Value::Num(x));
            let t = k.as_str();
            match parse::parse(&t).map(|k| k.val) {
                Ok(Value::Num(b)) => {
                    ensure!(N::of(&b).line_cmp(&n) == Ordering::Equal, "number value reads back as another number", "{n:?} => {t:?} => {b:?}")
                }
                o => return fail("number value does not read back as a number", format!("{n:?} => {t:?} => {o:?}")),
            }
            ctx.hit("read back through the text form of a value");
        }
        ctx.hit("printed and read back");
        ctx.state(bits(&n));
        ctx.sample(|| format!("{n:?} => {s}"));
    } else {
        let s = spelling(&mut ctx.r);
        let got = s.parse::<Number>();
        match denotes(&s) {
            Err(()) => ctx.hit("spellings with digit separators (not judged)"),
            Ok(None) => {
                ensure!(got.is_err(), "text that is not a number (or does not fit) is read as one", "{s:?} => {:?}", got.ok());
                ctx.hit("refused spellings");
            }
            Ok(Some(w)) => {
                match &got {
                    Ok(g) => ensure!(
                        N::of(g).line_cmp(&w) == Ordering::Equal && (matches!(w, N::F(_)) || !matches!(g, Number::Float(_))),
                        "text is read as another number",
                        "{s:?}: want {w:?} got {g:?}"
                    ),
                    Err(_) => return fail("a number is refused", format!("{s:?}: want {w:?}")),
                }
                ctx.hit(if matches!(w, N::F(_)) { "float spellings" } else { "integer spellings" });
                // in a value text too: refused or the same number
                if case % 8 == 1 {
                    if let Ok(k) = parse::parse(&s) {
                        match &k.val {
                            Value::Num(b) => ensure!(N::of(b).line_cmp(&w) == Ordering::Equal, "value text is read as another number", "{s:?}: want {w:?} got {b:?}"),
                            _ => return fail("number text is read as another kind", format!("{s:?} => {k:?}")),
                        }
                        ctx.hit("value spellings");
                    } else {
                        ctx.hit("value spellings refused");
                    }
                }
                ctx.state_s(&s);
            }
        }
        ctx.sample(|| format!("{s:?} => {got:?}"));
    }
    Ok(())
}

pub static C21: Prop = Prop {
    id: "C21",
    quick: 30_000_000,
    thorough: 500_000_000,
    rule: "half the cases print a number and read it back, half read a random spelling and compare with the standard library's exact integer and nearest-float readers; distinct: by number or accepted spelling",
    required: &[
        "printed and read back", "read back through the text form of a value", "refused spellings", "float spellings",
        "integer spellings", "value spellings",
    ],
    bounded: false,
    assumptions: &["digit separators (underscores) are not judged", "integers beyond 128 bits are refused"],
    run: c21,
};
