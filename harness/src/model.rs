//! An independent picture of a value tree, built from plain std types.
//!
//! Monitors never use the equality, ordering, hashing or formatting of the code under test: they
//! read a value node by node through the public variants into this model and compare models.

use kserd::{Kserd, Kstr, Number, Value};
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub struct T {
    pub id: Option<String>,
    pub v: V,
}

#[derive(Clone, Debug)]
pub enum V {
    Unit,
    Bool(bool),
    Num(N),
    Str(String),
    Barr(Vec<u8>),
    Tuple(Vec<T>),
    Cntr(Vec<(String, T)>),
    Seq(Vec<T>),
    Map(Vec<(T, T)>),
}

#[derive(Clone, Copy, Debug)]
pub enum N {
    U(u128),
    I(i128),
    F(f64),
}

impl N {
    pub fn of(n: &Number) -> N {
        match *n {
            Number::Uint(x) => N::U(x),
            Number::Int(x) => N::I(x),
            Number::Float(x) => N::F(x),
        }
    }
    pub fn to(self) -> Number {
        match self {
            N::U(x) => Number::Uint(x),
            N::I(x) => Number::Int(x),
            N::F(x) => Number::Float(x),
        }
    }
    /// Bit-for-bit identity (NaNs compared as one class).
    pub fn identical(&self, o: &N) -> bool {
        match (self, o) {
            (N::U(a), N::U(b)) => a == b,
            (N::I(a), N::I(b)) => a == b,
            (N::F(a), N::F(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            _ => false,
        }
    }
}

/// A point on the extended number line, in a form that can be compared exactly.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pt {
    NegInf,
    /// finite float that is an integer of magnitude >= 2^128, or any non-integral float
    Flt(f64),
    /// exact integer: negative?, magnitude (zero is never negative)
    Int(bool, u128),
    PosInf,
    Nan,
}

pub const TWO128: f64 = 340282366920938463463374607431768211456.0;

impl N {
    pub fn pt(&self) -> Pt {
        match *self {
            N::U(x) => Pt::Int(false, x),
            N::I(x) => Pt::Int(x < 0, x.unsigned_abs()),
            N::F(f) => {
                if f.is_nan() {
                    Pt::Nan
                } else if f == f64::INFINITY {
                    Pt::PosInf
                } else if f == f64::NEG_INFINITY {
                    Pt::NegInf
                } else if f == f.trunc() && f.abs() < TWO128 {
                    Pt::Int(f < 0.0, f.abs() as u128)
                } else {
                    Pt::Flt(f)
                }
            }
        }
    }

    /// Exact comparison on `[-inf .. 0 .. +inf, NaN]`.
    pub fn line_cmp(&self, o: &N) -> Ordering {
        self.pt().cmp(&o.pt())
    }
}

impl Pt {
    pub fn cmp(&self, o: &Pt) -> Ordering {
        use Ordering::*;
        fn rank(p: &Pt) -> u8 {
            match p {
                Pt::NegInf => 0,
                Pt::Flt(_) | Pt::Int(..) => 1,
                Pt::PosInf => 2,
                Pt::Nan => 3,
            }
        }
        match (self, o) {
            (Pt::Flt(a), Pt::Flt(b)) => a.partial_cmp(b).unwrap(),
            (Pt::Int(na, a), Pt::Int(nb, b)) => match (na, nb) {
                (false, false) => a.cmp(b),
                (true, true) => b.cmp(a),
                (true, false) => Less,
                (false, true) => Greater,
            },
            (Pt::Flt(f), Pt::Int(n, m)) => {
                if *f >= TWO128 {
                    Greater
                } else if *f <= -TWO128 {
                    Less
                } else {
                    // not an integer: compare with floor(f)
                    let fl = f.floor();
                    let p = Pt::Int(fl < 0.0, fl.abs() as u128);
                    // f > i  iff floor(f) >= i
                    match p.cmp(&Pt::Int(*n, *m)) {
                        Less => Less,
                        _ => Greater,
                    }
                }
            }
            (Pt::Int(..), Pt::Flt(_)) => o.cmp(self).reverse(),
            _ => rank(self).cmp(&rank(o)),
        }
    }
}

pub fn of(k: &Kserd) -> T {
    T {
        id: k.id.as_ref().map(|x| x.inner.to_string()),
        v: ofv(&k.val),
    }
}

pub fn ofv(v: &Value) -> V {
    match v {
        Value::Unit => V::Unit,
        Value::Bool(b) => V::Bool(*b),
        Value::Num(n) => V::Num(N::of(n)),
        Value::Str(s) => V::Str(s.inner.to_string()),
        Value::Barr(b) => V::Barr(b.inner.to_vec()),
        Value::Tuple(x) => V::Tuple(x.iter().map(of).collect()),
        Value::Seq(x) => V::Seq(x.iter().map(of).collect()),
        Value::Cntr(m) => V::Cntr(m.iter().map(|(k, v)| (k.inner.to_string(), of(v))).collect()),
        Value::Map(m) => V::Map(m.iter().map(|(k, v)| (of(k), of(v))).collect()),
    }
}

impl T {
    pub fn new(v: V) -> T {
        T { id: None, v }
    }
    pub fn id(id: &str, v: V) -> T {
        T {
            id: Some(id.to_string()),
            v,
        }
    }

    /// Build the real value (owned).
    pub fn build(&self) -> Kserd<'static> {
        Kserd {
            id: self.id.clone().map(Kstr::owned),
            val: self.v.build(),
        }
    }

    /// Build the real value, borrowing strings and bytes from the model.
    pub fn build_brw(&self) -> Kserd<'_> {
        Kserd {
            id: self.id.as_deref().map(Kstr::brwed),
            val: match &self.v {
                V::Unit => Value::Unit,
                V::Bool(b) => Value::Bool(*b),
                V::Num(n) => Value::Num(n.to()),
                V::Str(s) => Value::new_str(s),
                V::Barr(b) => Value::new_barr(b),
                V::Tuple(x) => Value::Tuple(x.iter().map(T::build_brw).collect()),
                V::Seq(x) => Value::Seq(x.iter().map(T::build_brw).collect()),
                V::Cntr(x) => Value::Cntr(
                    x.iter()
                        .map(|(k, v)| (Kstr::brwed(k), v.build_brw()))
                        .collect(),
                ),
                V::Map(x) => {
                    Value::Map(x.iter().map(|(k, v)| (k.build_brw(), v.build_brw())).collect())
                }
            },
        }
    }

    pub fn nodes(&self) -> usize {
        1 + match &self.v {
            V::Tuple(x) | V::Seq(x) => x.iter().map(T::nodes).sum(),
            V::Cntr(x) => x.iter().map(|(_, v)| v.nodes()).sum(),
            V::Map(x) => x.iter().map(|(k, v)| k.nodes() + v.nodes()).sum(),
            _ => 0,
        }
    }

    pub fn depth(&self) -> usize {
        1 + match &self.v {
            V::Tuple(x) | V::Seq(x) => x.iter().map(T::depth).max().unwrap_or(0),
            V::Cntr(x) => x.iter().map(|(_, v)| v.depth()).max().unwrap_or(0),
            V::Map(x) => x
                .iter()
                .map(|(k, v)| k.depth().max(v.depth()))
                .max()
                .unwrap_or(0),
            _ => 0,
        }
    }

    pub fn is_zst(&self) -> bool {
        match &self.v {
            V::Unit => true,
            V::Tuple(x) => x.is_empty(),
            V::Cntr(x) => x.is_empty(),
            _ => false,
        }
    }

    pub fn is_prim(&self) -> bool {
        matches!(
            self.v,
            V::Unit | V::Bool(_) | V::Num(_) | V::Str(_) | V::Barr(_)
        )
    }

    /// Pre-order walk over every node, keys included (key before its value).
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a T)) {
        f(self);
        match &self.v {
            V::Tuple(x) | V::Seq(x) => x.iter().for_each(|t| t.walk(f)),
            V::Cntr(x) => x.iter().for_each(|(_, t)| t.walk(f)),
            V::Map(x) => x.iter().for_each(|(k, t)| {
                k.walk(f);
                t.walk(f)
            }),
            _ => (),
        }
    }
}

impl V {
    pub fn kind(&self) -> &'static str {
        match self {
            V::Unit => "unit",
            V::Bool(_) => "bool",
            V::Num(_) => "num",
            V::Str(_) => "str",
            V::Barr(_) => "barr",
            V::Tuple(_) => "tuple",
            V::Cntr(_) => "cntr",
            V::Seq(_) => "seq",
            V::Map(_) => "map",
        }
    }

    pub fn build(&self) -> Value<'static> {
        match self {
            V::Unit => Value::Unit,
            V::Bool(b) => Value::Bool(*b),
            V::Num(n) => Value::Num(n.to()),
            V::Str(s) => Value::new_string(s.clone()),
            V::Barr(b) => Value::new_barrv(b.clone()),
            V::Tuple(x) => Value::Tuple(x.iter().map(T::build).collect()),
            V::Seq(x) => Value::Seq(x.iter().map(T::build).collect()),
            V::Cntr(x) => Value::Cntr(
                x.iter()
                    .map(|(k, v)| (Kstr::owned(k.clone()), v.build()))
                    .collect(),
            ),
            V::Map(x) => Value::Map(x.iter().map(|(k, v)| (k.build(), v.build())).collect()),
        }
    }
}

/// Places of the nine kinds among each other, as seen in the code under test: which kind comes
/// first is its own choice.
pub static RANK: std::sync::OnceLock<[u8; 9]> = std::sync::OnceLock::new();

/// Order of values by content: identities ignored, an empty container being an empty tuple.
pub fn order(a: &V, b: &V) -> Ordering {
    fn rank(v: &V) -> u8 {
        let i = match v {
            V::Unit => 0,
            V::Bool(_) => 1,
            V::Num(_) => 2,
            V::Str(_) => 3,
            V::Barr(_) => 4,
            V::Tuple(_) => 5,
            V::Cntr(x) if x.is_empty() => 5,
            V::Cntr(_) => 6,
            V::Seq(_) => 7,
            V::Map(_) => 8,
        };
        RANK.get().map_or(i as u8, |r| r[i])
    }
    fn list(a: &[T], b: &[T]) -> Ordering {
        for (a, b) in a.iter().zip(b) {
            match order(&a.v, &b.v) {
                Ordering::Equal => (),
                o => return o,
            }
        }
        a.len().cmp(&b.len())
    }
    match (a, b) {
        (V::Bool(a), V::Bool(b)) => a.cmp(b),
        (V::Num(a), V::Num(b)) => a.line_cmp(b),
        (V::Str(a), V::Str(b)) => a.as_bytes().cmp(b.as_bytes()),
        (V::Barr(a), V::Barr(b)) => a.cmp(b),
        (V::Tuple(a), V::Tuple(b)) | (V::Seq(a), V::Seq(b)) => list(a, b),
        (V::Tuple(a), V::Cntr(b)) if b.is_empty() => a.len().cmp(&0),
        (V::Cntr(a), V::Tuple(b)) if a.is_empty() => 0.cmp(&b.len()),
        (V::Cntr(a), V::Cntr(b)) => {
            for ((f, a), (g, b)) in a.iter().zip(b) {
                match f.as_bytes().cmp(g.as_bytes()).then_with(|| order(&a.v, &b.v)) {
                    Ordering::Equal => (),
                    o => return o,
                }
            }
            a.len().cmp(&b.len())
        }
        (V::Map(a), V::Map(b)) => {
            for ((f, a), (g, b)) in a.iter().zip(b) {
                match order(&f.v, &g.v).then_with(|| order(&a.v, &b.v)) {
                    Ordering::Equal => (),
                    o => return o,
                }
            }
            a.len().cmp(&b.len())
        }
        (a, b) => rank(a).cmp(&rank(b)),
    }
}

/// The same tree with the entries of every map in the order of this model.
pub fn sorted(t: &T) -> T {
    let all = |x: &[T]| x.iter().map(sorted).collect::<Vec<_>>();
    T {
        id: t.id.clone(),
        v: match &t.v {
            V::Tuple(x) => V::Tuple(all(x)),
            V::Seq(x) => V::Seq(all(x)),
            V::Cntr(x) => V::Cntr(x.iter().map(|(n, t)| (n.clone(), sorted(t))).collect()),
            V::Map(x) => {
                let mut m: Vec<(T, T)> = x.iter().map(|(k, t)| (sorted(k), sorted(t))).collect();
                m.sort_by(|a, b| order(&a.0.v, &b.0.v));
                V::Map(m)
            }
            v => v.clone(),
        },
    }
}

/// Structural identity: variants, contents, numbers bit for bit, identities, order of entries.
pub fn identical(a: &T, b: &T) -> Result<(), String> {
    cmp_path(a, b, true, "$")
}

/// As `identical` but identities are ignored.
pub fn identical_no_id(a: &T, b: &T) -> Result<(), String> {
    cmp_path(a, b, false, "$")
}

fn cmp_path(a: &T, b: &T, ids: bool, p: &str) -> Result<(), String> {
    if ids && a.id != b.id {
        return Err(format!("{p}: identity {:?} vs {:?}", a.id, b.id));
    }
    match (&a.v, &b.v) {
        (V::Unit, V::Unit) => Ok(()),
        (V::Bool(x), V::Bool(y)) if x == y => Ok(()),
        (V::Num(x), V::Num(y)) if x.identical(y) => Ok(()),
        (V::Str(x), V::Str(y)) if x == y => Ok(()),
        (V::Barr(x), V::Barr(y)) if x == y => Ok(()),
        (V::Tuple(x), V::Tuple(y)) | (V::Seq(x), V::Seq(y)) => {
            if x.len() != y.len() {
                return Err(format!("{p}: {} items vs {}", x.len(), y.len()));
            }
            for (i, (x, y)) in x.iter().zip(y).enumerate() {
                cmp_path(x, y, ids, &format!("{p}[{i}]"))?;
            }
            Ok(())
        }
        (V::Cntr(x), V::Cntr(y)) => {
            if x.len() != y.len() {
                return Err(format!("{p}: {} fields vs {}", x.len(), y.len()));
            }
            for ((kx, x), (ky, y)) in x.iter().zip(y) {
                if kx != ky {
                    return Err(format!("{p}: field {kx:?} vs {ky:?}"));
                }
                cmp_path(x, y, ids, &format!("{p}.{kx}"))?;
            }
            Ok(())
        }
        (V::Map(x), V::Map(y)) => {
            if x.len() != y.len() {
                return Err(format!("{p}: {} entries vs {}", x.len(), y.len()));
            }
            for (i, ((kx, x), (ky, y))) in x.iter().zip(y).enumerate() {
                cmp_path(kx, ky, ids, &format!("{p}{{key {i}}}"))?;
                cmp_path(x, y, ids, &format!("{p}{{{i}}}"))?;
            }
            Ok(())
        }
        (x, y) => Err(format!("{p}: {} vs {}", short(x), short(y))),
    }
}

pub fn short(v: &V) -> String {
    let s = match v {
        V::Tuple(x) => format!("tuple of {}", x.len()),
        V::Seq(x) => format!("seq of {}", x.len()),
        V::Cntr(x) => format!("cntr of {}", x.len()),
        V::Map(x) => format!("map of {}", x.len()),
        v => format!("{:?}", v),
    };
    s.chars().take(160).collect()
}

/// Stable signature of the shape of a tree (kinds and nesting to a bound), used to count distinct
/// states observed.
pub fn shape(t: &T, depth: usize) -> u64 {
    fn go(t: &T, depth: usize, out: &mut String) {
        out.push_str(&t.v.kind()[..2]);
        if t.id.is_some() {
            out.push('#');
        }
        if depth == 0 {
            return;
        }
        match &t.v {
            V::Tuple(x) | V::Seq(x) => {
                out.push('(');
                x.iter().take(6).for_each(|t| go(t, depth - 1, out));
                out.push(')');
            }
            V::Cntr(x) => {
                out.push('{');
                x.iter().take(6).for_each(|(_, t)| go(t, depth - 1, out));
                out.push('}');
            }
            V::Map(x) => {
                out.push('<');
                x.iter().take(6).for_each(|(k, t)| {
                    go(k, depth - 1, out);
                    out.push(':');
                    go(t, depth - 1, out)
                });
                out.push('>');
            }
            _ => (),
        }
    }
    let mut s = String::new();
    go(t, depth, &mut s);
    crate::rng::fnv(s.as_bytes())
}
