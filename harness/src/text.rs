//! What a value must look like after a trip through text.

use crate::model::{Pt, T, V};
use std::fmt::Write;

/// Canonical picture of the value that text carrying `t` has to parse back to.
///
/// * numbers are points on the number line (3 and 3.0 have one spelling);
/// * the three empty product values (unit, tuple of none, container of none) have one spelling,
///   `()`, so they are one class, told apart only by their displayed identity;
/// * an identity is kept when `shown` says it was displayed and is absent otherwise;
/// * map entries are unordered.
pub fn canon(t: &T, shown: &dyn Fn(&T) -> bool) -> String {
    let mut s = String::new();
    go(t, shown, IDS, &mut s);
    s
}

/// As `canon`, without identities at all.
pub fn canon_plain(t: &T) -> String {
    let mut s = String::new();
    go(t, &|_| false, NAMED, &mut s);
    s
}

const IDS: bool = true;
const NAMED: bool = false;

/// As `canon`, without identities except to tell `Name()` from `()`.
pub fn canon_value(t: &T, shown: &dyn Fn(&T) -> bool) -> String {
    let mut s = String::new();
    go(t, shown, NAMED, &mut s);
    s
}

fn go(t: &T, shown: &dyn Fn(&T) -> bool, ids: bool, o: &mut String) {
    let id = t.id.as_deref().filter(|_| shown(t));
    if ids {
        if let Some(id) = id {
            write!(o, "<{id}>").unwrap();
        }
    }
    if t.is_zst() {
        o.push_str(if id.is_some() { "zst-named" } else { "zst" });
        return;
    }
    match &t.v {
        V::Unit => unreachable!(),
        V::Bool(b) => write!(o, "{b}").unwrap(),
        V::Num(n) => match n.pt() {
            Pt::Int(neg, m) => write!(o, "n{}{m}", if neg { "-" } else { "+" }).unwrap(),
            Pt::Flt(f) => write!(o, "f{:016x}", f.to_bits()).unwrap(),
            Pt::NegInf => o.push_str("-inf"),
            Pt::PosInf => o.push_str("+inf"),
            Pt::Nan => o.push_str("nan"),
        },
        V::Str(s) => write!(o, "s{s:?}").unwrap(),
        V::Barr(b) => write!(o, "b{b:?}").unwrap(),
        V::Tuple(x) => {
            o.push_str("T(");
            for t in x {
                go(t, shown, ids, o);
                o.push(',');
            }
            o.push(')');
        }
        V::Seq(x) => {
            o.push_str("S[");
            for t in x {
                go(t, shown, ids, o);
                o.push(',');
            }
            o.push(']');
        }
        V::Cntr(x) => {
            o.push_str("C(");
            for (k, t) in x {
                write!(o, "{k:?}=").unwrap();
                go(t, shown, ids, o);
                o.push(',');
            }
            o.push(')');
        }
        V::Map(x) => {
            let mut es: Vec<String> = x
                .iter()
                .map(|(k, v)| {
                    let mut s = String::new();
                    go(k, shown, ids, &mut s);
                    s.push(':');
                    go(v, shown, ids, &mut s);
                    s
                })
                .collect();
            es.sort();
            o.push_str("M{");
            for e in es {
                o.push_str(&e);
                o.push(',');
            }
            o.push('}');
        }
    }
}

/// True when two keys of one map would be spelled as equal values, so that text cannot carry both.
pub fn keys_collide(t: &T, shown: &dyn Fn(&T) -> bool) -> bool {
    let mut bad = false;
    t.walk(&mut |n| {
        if let V::Map(x) = &n.v {
            let mut ks: Vec<String> = x.iter().map(|(k, _)| canon_value(k, shown)).collect();
            ks.sort();
            bad |= ks.windows(2).any(|w| w[0] == w[1]);
        }
    });
    bad
}

/// First place where two canonical pictures differ.
pub fn diff(a: &str, b: &str) -> String {
    let i = a
        .char_indices()
        .zip(b.char_indices())
        .find(|((_, x), (_, y))| x != y)
        .map(|((i, _), _)| i)
        .unwrap_or_else(|| a.len().min(b.len()));
    let cut = |s: &str| -> String {
        let lo = s[..i.min(s.len())]
            .char_indices()
            .rev()
            .nth(20)
            .map(|x| x.0)
            .unwrap_or(0);
        s[lo..].chars().take(70).collect()
    };
    format!("expected ..{} got ..{}", cut(a), cut(b))
}
