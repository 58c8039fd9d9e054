//! Operations whose results are compared between builds, each where the build has it.

#[cfg(feature = "encode")]
use crate::dynser::{data, schema, D, S};
use crate::gen;
use crate::model::{T, V};
use crate::rng::Rng;
#[cfg(feature = "encode")]
use kserd::encode::Decoder;
#[cfg(feature = "format")]
use kserd::fmt::{Formatter, FormattingConfig};
use kserd::nav::Navigator;
#[cfg(feature = "parse")]
use kserd::parse;
use kserd::{Barr, Kserd, Kstr, Number, ToKserd, Value};
#[cfg(feature = "encode")]
use serde::de::DeserializeSeed;
use std::fmt::Write as _;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Input {
    pub a: T,
    pub b: T,
    pub texts: Vec<String>,
    pub asks: u64,
    #[cfg(feature = "encode")]
    pub s: S,
    #[cfg(feature = "encode")]
    pub d: D,
    #[cfg(feature = "format")]
    pub c: FormattingConfig,
}

impl Input {
    /// The same in every build: each part from a stream of its own.
    pub fn new(seed: u64, texts: Vec<String>) -> Input {
        let r = |n| Rng::stream(seed, "input", n);
        let a = gen::any(&mut r(0));
        let b = if r(1).bool() { a.clone() } else { gen::any(&mut r(2)) };
        #[cfg(feature = "encode")]
        let (s, d) = {
            let mut r = r(3);
            let depth = r.below(4);
            let s = schema(&mut r, depth);
            let d = data(&mut r, &s, 3);
            (s, d)
        };
        Input {
            a,
            b,
            texts,
            asks: r(4).next(),
            #[cfg(feature = "encode")]
            s,
            #[cfg(feature = "encode")]
            d,
            #[cfg(feature = "format")]
            c: gen::config(&mut r(5)),
        }
    }
}

pub struct Held<'i> {
    i: &'i Input,
    a: Kserd<'i>,
    b: Kserd<'i>,
}

type Op = fn(&Held) -> String;

#[cfg(feature = "parse")]
fn read(t: &str) -> String {
    match parse::parse(t) {
        Ok(k) => format!("{k:?}"),
        Err(e) => {
            let mut s = format!("{} {e:?} {}", e.len(), e.backtrace());
            for n in 0..e.len() {
                write!(s, " {:?}", e.get(n)).ok();
            }
            s
        }
    }
}

const CORE: &[(&str, Op)] = &[
    ("comparing", |h| {
        let (a, b) = (&h.a, &h.b);
        let mut o = format!("{:?} {:?} {:?} {:?} {:?}", a == b, a.cmp(b), b.cmp(a), a.partial_cmp(b), a.val == b.val);
        let (x, y) = (nodes(a), nodes(b));
        for (n, x) in x.iter().enumerate().take(40) {
            let y = y[n % y.len()];
            write!(o, " {:?}", x.cmp(&y)).ok();
        }
        o
    }),
    ("hashing", |h| {
        let mut s = DefaultHasher::new();
        for k in nodes(&h.a) {
            match &k.val {
                Value::Str(x) => x.hash(&mut s),
                Value::Num(x) => x.hash(&mut s),
                Value::Barr(x) => x.hash(&mut s),
                _ => k.id().hash(&mut s),
            }
        }
        s.finish().to_string()
    }),
    ("navigating", |h| {
        let n = Navigator::new(&h.a);
        let mut o = format!("{} ", n.len());
        for (at, x) in n.nodes().enumerate() {
            let p = x.parent().map(|p| p.index());
            let v: Vec<usize> = x.value_children().map(|x| x.index()).collect();
            let k: Vec<usize> = x.key_children().map(|x| x.index()).collect();
            write!(o, "{} {p:?} {} {} {v:?} {k:?};", x.index(), x.is_key(), x.idx_in_parent()).ok();
            if at < 20 {
                let d: Vec<usize> = x.descendants_depth().into_iter().map(|x| x.index()).collect();
                let b: Vec<usize> = x.descendants_breadth().into_iter().map(|x| x.index()).collect();
                write!(o, " {d:?} {b:?} {x:?}").ok();
            }
        }
        o
    }),
    ("copying", |h| {
        let (c, v, o) = (h.a.clone(), h.a.mk_brw(), h.a.to_owned());
        format!("{c:?}{v:?}{o:?}{:?}", h.b.clone().into_owned())
    }),
    ("debug output", |h| format!("{:?}{:#?}", h.a, h.b)),
    ("converting", |h| {
        let t: Vec<&str> = h.i.texts.iter().map(|s| s.as_str()).collect();
        let n = h.i.asks;
        match (t, n, Some(n as f32), n as i8, [n as u16; 3], h.a.clone().to_owned()).into_kserd() {
            Ok(k) => format!("{k:?}"),
            Err(e) => format!("{e:?}"),
        }
    }),
    ("numbers", |h| {
        let mut o = String::new();
        let mut all = |n: Number| {
            write!(o, "{n} {n:?} {:?} {:?} {} {:?};", n.as_u128(), n.as_i128(), n.as_f64(), n.to_string().parse::<Number>().ok()).ok();
        };
        h.i.a.walk(&mut |t| {
            if let V::Num(n) = &t.v {
                all(n.to());
            }
        });
        let mut r = Rng::new(h.i.asks);
        for _ in 0..6 {
            all(gen::num(&mut r).to());
        }
        o
    }),
    ("reading numbers", |h| {
        let mut o = String::new();
        for w in h.i.texts.iter().flat_map(|t| t.split(|c: char| c.is_whitespace() || ",:()[]{}=".contains(c))).take(60) {
            match w.parse::<Number>() {
                Ok(n) => write!(o, "{n:?};").ok(),
                Err(e) => write!(o, "{e:?}{e};").ok(),
            };
        }
        o
    }),
    ("constructing", |h| {
        let mut o = String::new();
        for t in h.i.texts.iter().flat_map(|t| t.split(' ')).take(30) {
            match Kserd::with_id(t, Value::Unit) {
                Ok(k) => write!(o, "{k:?};").ok(),
                Err(e) => write!(o, "{e};").ok(),
            };
            match Kserd::new_cntr(vec![(t, h.a.mk_brw()), ("z", h.b.mk_brw())]) {
                Ok(k) => write!(o, "{:?};", k.cntr().map(|c| c.len())).ok(),
                Err(e) => write!(o, "{e};").ok(),
            };
        }
        write!(o, "{:?}", Kserd::new_map(vec![(h.a.mk_brw(), h.b.mk_brw()), (h.b.mk_brw(), h.a.mk_brw())])).ok();
        o
    }),
    ("looking into values", |h| {
        let mut o = String::new();
        for k in nodes(&h.a).into_iter().take(60) {
            write!(o, "{:?} {} {:?} {:?} {:?} {:?} {:?}", k.id(), k.unit(), k.bool(), k.ch(), k.uint(), k.int(), k.float()).ok();
            write!(o, " {:?} {:?} {:?} {:?}", k.str(), k.barr(), k.tuple_or_seq().map(|x| x.len()), k.map().map(|x| x.len())).ok();
            if let Some(c) = k.cntr() {
                for (f, _) in c.iter() {
                    write!(o, " {:?} {:?} {:?} {:?}", c.get_num(f), c.get_str(f), c.get_bool(f), c.get_seq(f).map(|x| x.len())).ok();
                }
            }
        }
        o
    }),
    ("wrappers", |h| {
        let (x, y) = (&h.i.texts[0], &h.i.texts[1]);
        let (a, b) = (Kstr::brwed(x), Kstr::owned(y.clone()));
        let (c, d) = (Barr::brwed(x.as_bytes()), Barr::owned(y.clone().into_bytes()));
        let mut e = b.clone();
        e.to_mut().push('x');
        format!("{a} {b:?} {:?} {:?} {} {:?} {:?} {:?} {e}", a.cmp(&b), a == b, a.len(), c.cmp(&d), c == d, d)
    }),
];

#[cfg(feature = "format")]
const FORMAT: &[(&str, Op)] = &[
    ("default formatting", |h| h.a.as_str()),
    ("printing", |h| format!("{}", h.a)),
    ("formatting", |h| h.a.as_str_with_config(h.i.c)),
    ("formatting the other", |h| h.b.as_str_with_config(h.i.c)),
    ("formatting to no width", |h| h.a.as_str_with_config(FormattingConfig { width_limit: Some(0), ..h.i.c })),
    ("formatting to full width", |h| h.a.as_str_with_config(FormattingConfig { width_limit: Some(u16::MAX), ..h.i.c })),
    ("formatting on one line", |h| h.a.as_str_with_config(FormattingConfig { width_limit: None, ..h.i.c })),
    ("layout requests", |h| {
        let mut f = Formatter::new(&h.a);
        let mut r = Rng::new(h.i.asks);
        let mut o = String::new();
        for _ in 0..10 {
            let i = r.below(f.len() + 1);
            let got = match r.below(9) {
                0 | 1 => f.inline(i),
                2 | 3 => f.concise(i),
                4 | 5 => f.verbose(i),
                6 | 7 => f.id(i, r.bool()),
                _ => {
                    f.apply_config(h.i.c);
                    Ok(())
                }
            };
            write!(o, "{got:?};").ok();
        }
        write!(o, "{:?}", f.fmts()).ok();
        f.write_string(o)
    }),
];
#[cfg(not(feature = "format"))]
const FORMAT: &[(&str, Op)] = &[];

#[cfg(feature = "parse")]
const PARSE: &[(&str, Op)] = &[
    ("parsing written text", |h| read(&h.i.texts[0])),
    ("parsing hostile text", |h| read(&h.i.texts[1])),
    ("parsing other hostile text", |h| read(&h.i.texts[2])),
];
#[cfg(not(feature = "parse"))]
const PARSE: &[(&str, Op)] = &[];

#[cfg(feature = "encode")]
const ENCODE: &[(&str, Op)] = &[
    ("encoding", |h| match Kserd::enc(&h.i.d) {
        Ok(k) => format!("{k:?}"),
        Err(e) => e.to_string(),
    }),
    ("decoding", |h| match Kserd::enc(&h.i.d) {
        Ok(k) => match h.i.s.deserialize(Decoder(k)) {
            Ok(d) => format!("{d:?}"),
            Err(e) => e.to_string(),
        },
        Err(e) => e.to_string(),
    }),
    ("decoding another value", |h| match h.i.s.deserialize(Decoder(h.a.mk_brw())) {
        Ok(d) => format!("{d:?}"),
        Err(e) => e.to_string(),
    }),
];
#[cfg(not(feature = "encode"))]
const ENCODE: &[(&str, Op)] = &[];

/// The places in the list are the same in every build.
const GROUPS: &[(usize, &[(&str, Op)])] = &[(0, CORE), (100, FORMAT), (200, PARSE), (300, ENCODE)];

/// The value and all below it.
fn nodes<'b, 'k>(k: &'b Kserd<'k>) -> Vec<&'b Kserd<'k>> {
    let mut o = vec![k];
    let mut at = 0;
    while at < o.len() {
        match &o[at].val {
            Value::Tuple(x) | Value::Seq(x) => o.extend(x.iter()),
            Value::Cntr(x) => o.extend(x.values()),
            Value::Map(x) => x.iter().for_each(|(k, v)| o.extend([k, v])),
            _ => (),
        }
        at += 1;
    }
    o
}

pub fn name(op: usize) -> &'static str {
    GROUPS.iter().find(|g| g.0 == op / 100 * 100).and_then(|g| g.1.get(op % 100)).map(|x| x.0).unwrap_or("?")
}

/// Every operation of this build with what came out.
pub fn results(i: &Input) -> Vec<(usize, String)> {
    let h = if i.asks % 2 == 0 {
        Held { i, a: i.a.build(), b: i.b.build() }
    } else {
        Held { i, a: i.a.build_brw(), b: i.b.build_brw() }
    };
    let mut o = vec![];
    for (at, ops) in GROUPS {
        for (n, (_, f)) in ops.iter().enumerate() {
            let got = catch_unwind(AssertUnwindSafe(|| f(&h))).unwrap_or_else(|_| "panicked".into());
            o.push((at + n, got));
        }
    }
    o
}
