//! Results depend on the arguments alone, and all memory is given back.

use crate::alloc;
use crate::dynser::{data, schema, D, S};
use crate::ensure;
use crate::gen::{self, Prof};
use crate::model::{self, T, V};
use crate::mon::*;
use crate::props::parsing;
use crate::rng::{fnv, Rng};
use kserd::encode::Decoder;
use kserd::fmt::{Formatter, FormattingConfig};
use kserd::nav::Navigator;
use kserd::{parse, Kserd, ToKserd};
use serde::de::DeserializeSeed;
use serde::ser::{SerializeSeq, SerializeStruct};
use serde::{Serialize, Serializer};
use std::fmt::Write as _;
use std::hash::{DefaultHasher, Hash, Hasher};

/// Everything the operations work on.
pub struct Input {
    a: T,
    b: T,
    texts: Vec<String>,
    s: S,
    d: D,
    c: FormattingConfig,
    asks: u64,
}

pub fn input(r: &mut Rng, case: u64) -> Input {
    let a = gen::any(r);
    let b = if r.bool() { a.clone() } else { gen::any(r) };
    let mut texts = vec![parsing::written(r, case)];
    while texts.len() < 3 {
        let (t, kind) = parsing::hostile(r, case);
        // how deep the stack reaches is another property's business
        if kind != "deep nesting" && kind != "long token soup" {
            texts.push(t);
        }
    }
    let depth = r.below(4);
    let s = schema(r, depth);
    let d = data(r, &s, 3);
    Input { a, b, texts, s, d, c: gen::config(r), asks: r.next() }
}

/// The values made from the input; equal but separate ones can be made.
pub struct Held<'i> {
    i: &'i Input,
    a: Kserd<'i>,
    b: Kserd<'i>,
}

impl<'i> Held<'i> {
    pub fn new(i: &'i Input, how: usize) -> Held<'i> {
        let make = |t: &'i T| match how % 4 {
            0 => t.build(),
            1 => t.build_brw(),
            2 => t.build_brw().into_owned(),
            _ => t.build().clone(),
        };
        Held { i, a: make(&i.a), b: make(&i.b) }
    }
}

/// Data that fails half way: with an error or a panic.
struct Bad(bool);
impl Serialize for Bad {
    fn serialize<Se: Serializer>(&self, s: Se) -> Result<Se::Ok, Se::Error> {
        struct End(bool);
        impl Serialize for End {
            fn serialize<Se: Serializer>(&self, _: Se) -> Result<Se::Ok, Se::Error> {
                if self.0 {
                    std::panic::panic_any("data panics");
                }
                Err(serde::ser::Error::custom("data fails"))
            }
        }
        let mut st = s.serialize_struct("Bad", 2)?;
        st.serialize_field("first", &vec!["x"; 3])?;
        struct Items(bool);
        impl Serialize for Items {
            fn serialize<Se: Serializer>(&self, s: Se) -> Result<Se::Ok, Se::Error> {
                let mut q = s.serialize_seq(None)?;
                q.serialize_element(&1)?;
                q.serialize_element(&End(self.0))?;
                q.end()
            }
        }
        st.serialize_field("second", &Items(self.0))?;
        st.end()
    }
}

fn known(k: &Kserd) -> String {
    format!("{k:?}")
}

pub const OPS: &[(&str, fn(&Held) -> String)] = &[
    ("default formatting", |h| h.a.as_str()),
    ("printing", |h| format!("{}", h.a)),
    ("formatting", |h| h.a.as_str_with_config(h.i.c)),
    ("formatting the other", |h| h.b.as_str_with_config(h.i.c)),
    ("formatting on one line", |h| {
        h.a.as_str_with_config(FormattingConfig { width_limit: None, ..h.i.c })
    }),
    ("formatting headed", |h| {
        h.a.as_str_with_config(FormattingConfig { width_limit: Some(0), ..h.i.c })
    }),
    ("layout requests", |h| {
        let mut f = Formatter::new(&h.a);
        let mut r = Rng::new(h.i.asks);
        let mut o = String::new();
        for _ in 0..6 {
            let i = r.below(f.len() + 1);
            let got = match r.below(5) {
                0 => f.inline(i),
                1 => f.concise(i),
                2 => f.verbose(i),
                3 => f.id(i, r.bool()),
                _ => {
                    f.apply_config(h.i.c);
                    Ok(())
                }
            };
            write!(o, "{got:?};").ok();
        }
        write!(o, "{:?}", f.fmts()).ok();
        f.write_string(o)
    }),
    ("parsing written text", |h| match parse::parse(&h.i.texts[0]) {
        Ok(k) => known(&k),
        Err(e) => e.backtrace(),
    }),
    ("parsing hostile text", |h| match parse::parse(&h.i.texts[1]) {
        Ok(k) => known(&k),
        Err(e) => e.backtrace(),
    }),
    ("parsing other hostile text", |h| match parse::parse(&h.i.texts[2]) {
        Ok(k) => known(&k),
        Err(e) => format!("{} {e:?}", e.len()),
    }),
    ("encoding", |h| match Kserd::enc(&h.i.d) {
        Ok(k) => known(&k),
        Err(e) => e.to_string(),
    }),
    ("encoding failing data", |_| match Kserd::enc(&Bad(false)) {
        Ok(k) => known(&k),
        Err(e) => e.to_string(),
    }),
    ("encoding panicking data", |_| match std::panic::catch_unwind(|| Kserd::enc(&Bad(true))) {
        Ok(Ok(k)) => known(&k),
        Ok(Err(e)) => e.to_string(),
        Err(_) => "panicked".into(),
    }),
    ("decoding", |h| match Kserd::enc(&h.i.d) {
        Ok(k) => match h.i.s.deserialize(Decoder(k)) {
            Ok(d) => format!("{d:?}"),
            Err(e) => e.to_string(),
        },
        Err(e) => e.to_string(),
    }),
    ("decoding another value", |h| match h.i.s.deserialize(Decoder(h.a.mk_brw())) {
        Ok(d) => format!("{d:?}"),
        Err(e) => e.to_string(),
    }),
    ("decoding text", |h| match parse::parse(&h.i.texts[0]) {
        Ok(k) => match h.i.s.deserialize(Decoder(k)) {
            Ok(d) => format!("{d:?}"),
            Err(e) => e.to_string(),
        },
        Err(_) => "refused".into(),
    }),
    ("comparing", |h| {
        let (a, b) = (&h.a, &h.b);
        format!("{:?} {:?} {:?} {:?} {:?}", a == b, a.cmp(b), b.cmp(a), a.partial_cmp(b), a.val == b.val)
    }),
    ("hashing", |h| {
        let mut o = String::new();
        for k in [&h.a, &h.b] {
            let mut s = DefaultHasher::new();
            hash_all(k, &mut s);
            write!(o, "{:x} ", s.finish()).ok();
        }
        o
    }),
    ("navigating", |h| {
        let n = Navigator::new(&h.a);
        let mut o = String::new();
        for x in n.nodes() {
            let d: Vec<usize> = x.descendants_depth().into_iter().map(|x| x.index()).collect();
            let b: Vec<usize> = x.descendants_breadth().into_iter().map(|x| x.index()).collect();
            let p = x.parent().map(|p| p.index());
            write!(o, "{} {p:?} {} {d:?} {b:?};", x.index(), x.is_key()).ok();
        }
        o
    }),
    ("copying", |h| {
        let (c, v, o) = (h.a.clone(), h.a.mk_brw(), h.a.to_owned());
        format!("{c:?}{v:?}{o:?}{:?}", h.b.clone().into_owned())
    }),
    ("debug printing", |h| format!("{:?}{:#?}", h.a, h.b)),
    ("converting", |h| {
        let t: Vec<&str> = h.i.texts.iter().map(|s| s.as_str()).collect();
        match (t, h.i.asks, Some(h.i.asks as f32)).into_kserd() {
            Ok(k) => known(&k),
            Err(e) => format!("{e:?}"),
        }
    }),
    ("numbers", |h| {
        let mut o = String::new();
        h.i.a.walk(&mut |t| {
            if let V::Num(n) = &t.v {
                let n = n.to();
                write!(o, "{n} {n:?} {:?} {:?} {};", n.as_u128(), n.as_i128(), n.as_f64()).ok();
            }
        });
        o
    }),
];

/// Texts and names, in order, through the hash of what holds them.
fn hash_all(k: &Kserd, s: &mut DefaultHasher) {
    use kserd::Value::*;
    match &k.val {
        Str(x) => x.hash(s),
        Tuple(x) | Seq(x) => x.iter().for_each(|k| hash_all(k, s)),
        Cntr(x) => x.iter().for_each(|(f, k)| {
            f.hash(s);
            hash_all(k, s)
        }),
        Map(x) => x.iter().for_each(|(f, k)| {
            hash_all(f, s);
            hash_all(k, s)
        }),
        _ => (),
    }
}

fn all(h: &Held) -> Vec<String> {
    OPS.iter().map(|(_, f)| f(h)).collect()
}

/// One number for all results on the case's input; printed by another process.
pub fn digest(seed: u64, case: u64) -> u64 {
    let i = input(&mut Rng::stream(seed, "C30", case), case);
    fnv(all(&Held::new(&i, 0)).join("\u{1}").as_bytes())
}

/// The lines in another order.
fn shuffled(r: &mut Rng, t: &str) -> String {
    let mut lines: Vec<&str> = t.split(' ').flat_map(|x| x.split_inclusive('\n')).collect();
    for n in (1..lines.len()).rev() {
        lines.swap(n, r.below(n + 1));
    }
    lines.join(" ")
}

/// Changes one string, number or boolean, whether there was one.
fn change(k: &mut Kserd, r: &mut Rng) -> bool {
    use kserd::Value::*;
    match &mut k.val {
        Str(x) => {
            let x = x.to_mut();
            let n = x.len();
            x.clear();
            x.extend(std::iter::repeat(*r.pick(&['q', '"', '\n'])).take(n.max(1)));
            true
        }
        Num(x) => {
            *x = (r.below(1000) as u64).into();
            true
        }
        Bool(x) => {
            *x = !*x;
            true
        }
        Tuple(x) | Seq(x) => x.iter_mut().any(|k| change(k, r)),
        Cntr(x) => x.values_mut().any(|k| change(k, r)),
        Map(x) => x.values_mut().any(|k| change(k, r)),
        _ => false,
    }
}

/// What programs commonly look at.
const SURROUNDINGS: &[(&str, &[&str])] = &[
    ("LC_ALL", &["C", "de_DE.UTF-8", "tr_TR.UTF-8"]),
    ("LC_NUMERIC", &["de_DE.UTF-8"]),
    ("LANG", &["C", "fr_FR.UTF-8", "ja_JP.eucJP"]),
    ("TZ", &["Asia/Kolkata", "UTC"]),
    ("COLUMNS", &["20", "59", "132", "0"]),
    ("LINES", &["10"]),
    ("TERM", &["dumb", "xterm-256color"]),
    ("NO_COLOR", &["1"]),
    ("CLICOLOR_FORCE", &["1"]),
    ("DEBUG", &["1"]),
    ("RUST_LOG", &["trace"]),
    ("RUST_BACKTRACE", &["1", "full"]),
    ("CI", &["true"]),
    ("HOME", &["/nonexistent"]),
    ("USER", &["nobody"]),
    ("TMPDIR", &["/nonexistent"]),
    ("KSERD_WIDTH", &["30"]),
    ("KSERD_DEBUG", &["1"]),
];

fn differs(op: usize, when: &str, was: &str, got: &str, i: &Input) -> R {
    ensure!(
        was == got,
        format!("{} gives another result {when}", OPS[op].0),
        "first {was:?}\nthen {got:?}\n{:?}\n{:?}\ntexts {:?}\n{:?}",
        i.a,
        i.b,
        i.texts,
        i.c
    );
    Ok(())
}

fn c30(ctx: &mut Ctx, case: u64) -> R {
    let i = input(&mut ctx.r, case);
    let held: Vec<Held> = (0..4).map(|n| Held::new(&i, n)).collect();
    let before: Vec<String> = held.iter().map(|h| format!("{:?}{:?}", h.a, h.b)).collect();
    let first = all(&held[0]);
    ensure!(first[0] == first[1], "default formatting differs from printing", "{:?}\n{:?}", first[0], first[1]);
    ensure!(
        first[0] == held[0].a.as_str_with_config(Default::default()),
        "default formatting differs from that of the default configuration",
        "{:?}",
        i.a
    );
    let mut f = Formatter::new(&held[0].a);
    f.apply_config(i.c);
    let once = f.fmts().to_vec();
    ensure!(f.write_string(String::new()) == first[2], "a formatter with a configuration writes something else", "{:?}\n{:?}", i.a, i.c);
    f.apply_config(i.c);
    ensure!(f.fmts() == &once[..], "applying a configuration twice differs from once", "{:?}\n{:?}", i.a, i.c);
    // in any order, on the same and on equal values
    for _ in 0..12 {
        let op = ctx.r.below(OPS.len());
        let n = ctx.r.below(4);
        let got = OPS[op].1(&held[n]);
        differs(op, "later", &first[op], &got, &i)?;
        ctx.hit(if n == 0 { "repeated on the same value" } else { "repeated on an equal value" });
    }
    // the same places in memory hold something else
    let read = |t: &str| match parse::parse(t) {
        Ok(k) => known(&k),
        Err(e) => format!("{} {}", e.len(), e.backtrace()),
    };
    let (x, y) = (ctx.r.below(3), ctx.r.below(3));
    let mut place = i.texts[x].clone();
    read(&place);
    let mut next = if ctx.r.bool() { i.texts[y].clone() } else { shuffled(&mut ctx.r, &place) };
    while next.len() < place.len() {
        next.push(' ');
    }
    if ctx.r.chance(4, 5) {
        let mut end = place.len();
        while !next.is_char_boundary(end) {
            end += 1;
        }
        next.truncate(end);
    }
    place.clear();
    place.push_str(&next);
    let (got, anew) = (read(&place), read(&next));
    ensure!(got == anew, "parsing depends on what was in that place before", "{got:?}\n{anew:?}\nbefore {:?}\nnow {next:?}", i.texts[x]);
    let mut k = i.a.build();
    k.as_str_with_config(i.c);
    let changed = change(&mut k, &mut ctx.r);
    let again = k.clone();
    for op in [|k: &Kserd, c| k.as_str_with_config(c), |k: &Kserd, _| format!("{k}"), |k: &Kserd, _| format!("{:?}", Formatter::new(k).fmts())] {
        let (got, anew) = (op(&k, i.c), op(&again, i.c));
        ensure!(got == anew, "formatting depends on what was in that place before", "{got:?}\n{anew:?}\nbefore {:?}\nnow {again:?}", i.a);
    }
    ctx.hit(if changed { "values changed in place" } else { "texts changed in place" });
    if case % 24 == 0 {
        let orders: Vec<Vec<usize>> = (0..3).map(|_| (0..10).map(|_| ctx.r.below(OPS.len())).collect()).collect();
        let h = &held[0];
        let got: Vec<Result<Vec<(usize, String)>, Panic>> = std::thread::scope(|s| {
            let t: Vec<_> = orders.iter().map(|o| s.spawn(move || guard(|| o.iter().map(|&op| (op, OPS[op].1(h))).collect()))).collect();
            t.into_iter().map(|t| t.join().expect("thread")).collect()
        });
        for g in got {
            match g {
                Ok(g) => {
                    for (op, got) in g {
                        differs(op, "when threads work on the value", &first[op], &got, &i)?;
                        ctx.hit("concurrent operations");
                    }
                }
                Err(Panic::Subject(s)) => return fail("an operation panicked when threads work on the value", s),
                Err(Panic::Harness(s)) => panic!("{s}"),
            }
        }
    }
    if case % 1024 == 5 {
        // another process, elsewhere, with another environment
        let me = std::env::current_exe().expect("exe");
        let mut cmd = std::process::Command::new(me);
        cmd.args(["digest", &ctx.seed.to_string(), &case.to_string(), *ctx.r.pick(&["main", "other"])]).env_clear();
        if ctx.r.bool() {
            for (name, values) in SURROUNDINGS {
                if ctx.r.bool() {
                    cmd.env(name, ctx.r.pick(values));
                }
            }
            ctx.hit("other process with an environment");
        }
        let out = cmd
            .stdin(std::process::Stdio::null())
            .current_dir("/")
            .output();
        match out {
            Ok(o) if o.status.success() => {
                let d = String::from_utf8_lossy(&o.stdout).trim().to_string();
                let here = fnv(first.join("\u{1}").as_bytes()).to_string();
                ensure!(d == here, "another process gets other results", "{d} and {here}\n{:?}\n{:?}\n{:?}", i.a, i.b, i.texts);
                ctx.hit("compared with another process");
            }
            _ => ctx.hit("other process gave no answer"),
        }
    }
    let after: Vec<String> = held.iter().map(|h| format!("{:?}{:?}", h.a, h.b)).collect();
    ensure!(before == after, "an input was changed", "{before:?}\n{after:?}");
    if first[7].len() > 20 {
        ctx.hit("texts parsed");
    }
    ctx.add("results compared", OPS.len() as u64);
    ctx.state(model::shape(&i.a, 4));
    ctx.sample(|| first.join(" | "));
    Ok(())
}

pub static C30: Prop = Prop {
    id: "C30",
    quick: 120_000,
    thorough: 2_500_000,
    rule: "all operations once on random values, texts and data, then some of them again in random order on the same and on equal values, at times from three threads and in another process with other surroundings; every result compared; distinct: by kinds and nesting of the first value, down to four levels",
    required: &["repeated on the same value", "repeated on an equal value", "concurrent operations", "compared with another process", "other process with an environment", "texts parsed", "values changed in place"],
    bounded: false,
    assumptions: &["schedules of threads are those the system happens to choose"],
    run: c30,
};

// ---------------------------------------------------------------- C31

fn valid(ctx: &mut Ctx, op: &str, s: &str) -> R {
    ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), format!("{op} gives invalid text"), "{:?}", s.as_bytes());
    ctx.hit("texts valid");
    Ok(())
}

fn valid_in(k: &Kserd) -> Result<(), String> {
    use kserd::Value::*;
    let ok = |s: &str| std::str::from_utf8(s.as_bytes()).map(|_| ()).map_err(|_| format!("{:?}", s.as_bytes()));
    if let Some(i) = k.id() {
        ok(i)?;
    }
    match &k.val {
        Str(x) => ok(x),
        Tuple(x) | Seq(x) => x.iter().try_for_each(valid_in),
        Cntr(x) => x.iter().try_for_each(|(f, k)| {
            ok(f)?;
            valid_in(k)
        }),
        Map(x) => x.iter().try_for_each(|(f, k)| {
            valid_in(f)?;
            valid_in(k)
        }),
        _ => Ok(()),
    }
}

/// Bytes still held after `f` and dropping what it gave.
fn kept<R>(f: impl Fn() -> R) -> i64 {
    let before = alloc::now().live;
    drop(f());
    alloc::now().live.wrapping_sub(before) as i64
}

/// Changing values in place, dropping borrowed text early, moving parts out.
fn churn(i: &Input, r: &mut Rng) -> u64 {
    let mut sum = 0u64;
    let mut k = {
        let text = i.texts[0].clone();
        match parse::parse(&text) {
            Ok(k) => k.into_owned(),
            Err(_) => i.a.build(),
        }
    };
    for _ in 0..6 {
        match r.below(6) {
            0 => k = Kserd::new(kserd::Value::Tuple(vec![k.clone(), k])),
            1 => {
                if let Some(x) = k.seq_mut() {
                    x.truncate(1);
                    x.extend(i.b.build().clone().seq().map(|x| x.to_vec()).unwrap_or_default());
                }
            }
            2 => {
                if let Some(x) = k.map_mut() {
                    x.insert(i.b.build(), i.a.build());
                    x.pop_first();
                }
            }
            3 => {
                if let Some(x) = k.str_mut() {
                    x.push_str("tail");
                }
            }
            4 => {
                k = Kserd::with_id("other", k.val).unwrap_or_else(|_| i.b.build());
            }
            _ => {
                let c = k.clone();
                k = c.to_owned();
            }
        }
        if k.as_str_with_config(i.c).len() > 4000 {
            k = i.a.build();
        }
        sum = sum.wrapping_mul(31).wrapping_add(k.as_str().len() as u64);
    }
    sum
}

fn c31(ctx: &mut Ctx, case: u64) -> R {
    let i = input(&mut ctx.r, case);
    let mut churn_rng = ctx.r.clone();
    ensure!(churn(&i, &mut churn_rng.clone()) == churn(&i, &mut churn_rng), "the same changes give other results", "{:?}", i.a);
    let h = Held::new(&i, case as usize);
    for (name, f) in OPS {
        valid(ctx, name, &f(&h))?;
    }
    for t in &i.texts {
        if let Ok(k) = parse::parse(t) {
            if let Err(e) = valid_in(&k) {
                return fail("parsing gives invalid text", format!("{e} from {t:?}"));
            }
            ctx.hit("parsed values checked");
            let own = k.into_owned();
            if let Err(e) = valid_in(&own) {
                return fail("taking ownership gives invalid text", format!("{e} from {t:?}"));
            }
        }
    }
    // nothing is kept once results are gone
    for (n, (name, f)) in OPS.iter().enumerate() {
        if (case as usize + n) % 4 != 0 {
            continue;
        }
        if kept(|| f(&h)) != 0 {
            // not what is set up once
            let again: Vec<i64> = (0..3).map(|_| kept(|| f(&h))).collect();
            ensure!(!again.iter().all(|&x| x > 0), format!("{name} keeps memory"), "{again:?} bytes each time\n{:?}\n{:?}", i.a, i.texts);
        }
        ctx.hit("memory given back");
    }
    let r = ctx.r.clone();
    if kept(|| churn(&i, &mut r.clone())) != 0 {
        let again: Vec<i64> = (0..3).map(|_| kept(|| churn(&i, &mut r.clone()))).collect();
        ensure!(!again.iter().all(|&x| x > 0), "changing values keeps memory", "{again:?} bytes each time\n{:?}\n{:?}", i.a, i.texts);
    }
    if kept(|| Held::new(&i, case as usize)) != 0 {
        let again: Vec<i64> = (0..3).map(|_| kept(|| Held::new(&i, case as usize))).collect();
        ensure!(!again.iter().all(|&x| x > 0), "making values keeps memory", "{again:?} bytes each time\n{:?}", i.a);
    }
    if case % 32 == 0 {
        let h = &h;
        std::thread::scope(|s| {
            for t in 0..3 {
                s.spawn(move || {
                    for n in 0..6 {
                        guard(|| OPS[(case as usize / 32 + n * 5 + t * 7) % OPS.len()].1(h).len()).ok();
                    }
                });
            }
        });
        ctx.hit("threads sharing a value");
    }
    if cfg!(kv_asan) {
        ctx.hit("cases under the address sanitizer");
    }
    ctx.state(model::shape(&i.a, 4));
    ctx.sample(|| format!("{:?} {:?}", i.texts, i.a));
    Ok(())
}

/// A small share of the work on small inputs, for the interpreter.
pub fn few(seed: u64, from: u64, n: u64) {
    for case in from..from + n {
        let mut r = Rng::stream(seed, "C31-few", case);
        let p = Prof { nodes: 6, max_depth: 3, max_items: 3, id8: 4, plain: false };
        let text = gen::tree(&mut r, p).build().as_str_with_config(gen::config(&mut r));
        let mut texts = vec![parsing::mutate(&mut r, &text, "[[a]]"), parsing::soup(&mut r, 10), text];
        texts.iter_mut().for_each(|t| *t = t.chars().take(160).collect());
        let s = schema(&mut r, 2);
        let d = data(&mut r, &s, 2);
        let i = Input { a: gen::tree(&mut r, p), b: gen::tree(&mut r, p), texts, s, d, c: gen::config(&mut r), asks: r.next() };
        let h = Held::new(&i, case as usize);
        let mut sum = 0;
        for (_, f) in OPS.iter().filter(|o| o.0 != "debug printing") {
            let s = f(&h);
            assert!(std::str::from_utf8(s.as_bytes()).is_ok());
            sum ^= fnv(s.as_bytes());
        }
        sum ^= churn(&i, &mut r);
        if case % 4 == 0 {
            let h = &h;
            std::thread::scope(|s| {
                for t in 0..2 {
                    s.spawn(move || (0..3).for_each(|n| drop(OPS[(case as usize + n * 5 + t * 7) % OPS.len()].1(h))));
                }
            });
        }
        println!("case {case} {sum:x}");
    }
}

pub static C31: Prop = Prop {
    id: "C31",
    quick: 40_000,
    thorough: 300_000,
    rule: "all operations and a series of changes on random values, hostile texts and data, under the address sanitizer, with the library's text checked and the memory still held after each operation measured; distinct: by kinds and nesting of the first value, down to four levels",
    required: &["texts valid", "parsed values checked", "memory given back", "threads sharing a value"],
    bounded: false,
    assumptions: &["memory set up once and kept is not a leak"],
    run: c31,
};
