//! Value -> text -> value.

use crate::gen::{self, Prof};
use crate::model::{self, T, V};
use crate::mon::*;
use crate::rng::Rng;
use crate::shrink::shrink;
use crate::text;
use kserd::fmt::{FmtError, Formatter, FormattingConfig, Repr};
use kserd::{parse, Kserd};

/// Does this configuration write the identity of a value of this kind?
pub fn shows(c: &FormattingConfig, t: &T) -> bool {
    match &t.v {
        V::Unit => true,
        V::Bool(_) | V::Num(_) | V::Str(_) | V::Barr(_) => c.id_on_primitives,
        V::Tuple(_) => c.id_on_tuples,
        V::Cntr(_) => c.id_on_containers,
        V::Seq(_) => c.id_on_seqs,
        V::Map(_) => c.id_on_maps,
    }
}

pub enum Trip {
    /// not expressible in text (two keys of one map would be spelled as equal values)
    Skip,
    Done { text: String },
    Bad { what: &'static str, detail: String },
}

fn bad(what: &'static str, text: &str, more: &str) -> Trip {
    Trip::Bad {
        what,
        detail: format!("{more}\n--- text\n{text}"),
    }
}

/// Parse `text` and compare with the picture `want` of the value it was written from.
fn compare(text: String, want_ids: &str, want_plain: &str, ids: bool) -> Trip {
    let back = match guard(|| parse::parse(&text).map(|k| model::of(&k)).map_err(|e| e.backtrace())) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return bad("written text is refused by the parser", &text, &e),
        Err(Panic::Subject(s)) => return bad("parsing written text panicked", &text, &s),
        Err(Panic::Harness(s)) => panic!("{s}"),
    };
    let all = |_: &T| true;
    let got = text::canon_plain(&back);
    if got != want_plain {
        return bad("parsed value differs from the formatted one", &text, &text::diff(want_plain, &got));
    }
    if ids {
        let got = text::canon(&back, &all);
        if got != want_ids {
            return bad("identities differ after parsing", &text, &text::diff(want_ids, &got));
        }
    }
    Trip::Done { text }
}

pub fn trip(t: &T, c: FormattingConfig, ids: bool) -> Trip {
    let k = t.build();
    let t = model::of(&k); // maps sort and merge their keys
    let sh = |t: &T| shows(&c, t);
    if text::keys_collide(&t, &sh) {
        return Trip::Skip;
    }
    let text = match guard(|| k.as_str_with_config(c)) {
        Ok(s) => s,
        Err(Panic::Subject(s)) => return bad("formatting panicked", "", &s),
        Err(Panic::Harness(s)) => panic!("{s}"),
    };
    compare(text, &text::canon(&t, &sh), &text::canon_plain(&t), ids)
}

fn round(ctx: &mut Ctx, t: &T, c: FormattingConfig, ids: bool) -> Result<Option<String>, Fail> {
    match trip(t, c, ids) {
        Trip::Skip => {
            ctx.hit("skipped: keys spelled alike");
            Ok(None)
        }
        Trip::Done { text } => Ok(Some(text)),
        Trip::Bad { what, detail } => {
            let small = shrink(t, 2000, &mut |t| matches!(trip(t, c, ids), Trip::Bad { what: w, .. } if w == what));
            let (w2, d2) = match trip(&small, c, ids) {
                Trip::Bad { what, detail } => (what, detail),
                _ => (what, detail.clone()),
            };
            fail(w2, format!("smallest: {small:?}\nconfig: {c:?}\n{d2}\n=== first seen as\n{detail}"))
        }
    }
}

pub fn observe(ctx: &mut Ctx, t: &T, text: &str) {
    let lines = text.lines().count() as u64;
    ctx.max("nodes", t.nodes() as u64);
    ctx.max("depth", t.depth() as u64);
    ctx.max("text bytes", text.len() as u64);
    ctx.max("text lines", lines);
    if lines > 1 {
        ctx.hit("multi-line text");
    } else {
        ctx.hit("one-line text");
    }
    let mut seen = [false; 9];
    t.walk(&mut |n| {
        let i = match n.v {
            V::Unit => 0,
            V::Bool(_) => 1,
            V::Num(_) => 2,
            V::Str(_) => 3,
            V::Barr(_) => 4,
            V::Tuple(_) => 5,
            V::Cntr(_) => 6,
            V::Seq(_) => 7,
            V::Map(_) => 8,
        };
        seen[i] = true;
    });
    const N: [&str; 9] = [
        "has unit", "has bool", "has num", "has str", "has barr", "has tuple", "has cntr", "has seq", "has map",
    ];
    for (s, n) in seen.iter().zip(N) {
        if *s {
            ctx.hit(n);
        }
    }
    if !t.is_prim() {
        ctx.state_s(text);
    }
}

/// Mostly small trees, some very wide, very deep or with long leaves.
pub fn any_tree(r: &mut Rng, case: u64) -> T {
    if case % 23 == 7 {
        gen::big(r)
    } else {
        let p = Prof::pick(r);
        gen::tree(r, p)
    }
}

fn c01(ctx: &mut Ctx, case: u64) -> R {
    let t = if case % 40_000 == 11 { gen::huge(&mut ctx.r, false) } else { any_tree(&mut ctx.r, case) };
    let c = gen::config(&mut ctx.r);
    if let Some(text) = round(ctx, &t, c, false)? {
        observe(ctx, &t, &text);
        match c.width_limit {
            None => ctx.hit("no width limit"),
            Some(0) => ctx.hit("width limit 0"),
            Some(u16::MAX) => ctx.hit("width limit max"),
            Some(_) => ctx.hit("width limit other"),
        }
        ctx.sample(|| format!("{c:?} => {text:?}"));
    }
    Ok(())
}

pub static C01: Prop = Prop {
    id: "C01",
    quick: 1_300_000,
    thorough: 22_000_000,
    rule: "a random value tree is formatted under a random configuration, parsed and read back node by node into a separate model; non-trivial: the root is a collection; distinct: by written text",
    required: &[
        "multi-line text", "one-line text", "has unit", "has bool", "has num", "has str", "has barr", "has tuple",
        "has cntr", "has seq", "has map", "no width limit", "width limit 0", "width limit max",
    ],
    bounded: false,
    assumptions: &["names are ASCII letters, digits, '-' and '_'", "keys of one map that are spelled alike are left out"],
    run: c01,
};

fn c02(ctx: &mut Ctx, case: u64) -> R {
    let mut t = any_tree(&mut ctx.r, case);
    let c = gen::config(&mut ctx.r);
    let mode = ctx.r.below(4);
    // rename so that every identity is one of a kind, with a marker on the hidden ones
    let mut n = 0;
    let marked = ctx.r.bool();
    if marked {
        remark(&mut t, &mut n, &c, mode, &mut ctx.r);
    }
    let Some(text) = round(ctx, &t, c, true)? else {
        return Ok(());
    };
    let built = model::of(&t.build());
    let (mut shown, mut hidden) = (0u64, 0u64);
    let mut leak = None;
    built.walk(&mut |n| {
        if let Some(id) = &n.id {
            if shows(&c, n) {
                shown += 1;
            } else {
                hidden += 1;
                if id.starts_with("Hid7q") && text.contains(id.as_str()) {
                    leak = Some(id.clone());
                }
            }
        }
    });
    if let Some(id) = leak {
        return fail("hidden identity is in the text", format!("{id}\n{c:?}\n{text}"));
    }
    ctx.add("identities displayed and read back", shown);
    ctx.add("identities hidden and gone", hidden);
    if shown + hidden > 0 {
        observe(ctx, &t, &text);
        ctx.sample(|| format!("{c:?} => {text:?}"));
    }
    Ok(())
}

fn remark(t: &mut T, n: &mut usize, c: &FormattingConfig, mode: usize, r: &mut Rng) {
    let has = match mode {
        0 => true,
        1 => r.bool(),
        _ => t.id.is_some(),
    };
    if has {
        *n += 1;
        t.id = Some(if shows(c, t) {
            format!("Id{n}")
        } else {
            format!("Hid7q{n}z")
        });
    }
    match &mut t.v {
        V::Tuple(x) | V::Seq(x) => x.iter_mut().for_each(|t| remark(t, n, c, mode, r)),
        V::Cntr(x) => x.iter_mut().for_each(|(_, t)| remark(t, n, c, mode, r)),
        V::Map(x) => x.iter_mut().for_each(|(k, t)| {
            remark(k, n, c, mode, r);
            remark(t, n, c, mode, r)
        }),
        _ => (),
    }
}

pub static C02: Prop = Prop {
    id: "C02",
    quick: 1_200_000,
    thorough: 20_000_000,
    rule: "a random tree with identities is formatted under a random configuration and read back; non-trivial: a collection with at least one identity displayed or hidden; distinct: by written text",
    required: &["identities displayed and read back", "identities hidden and gone", "multi-line text", "one-line text"],
    bounded: false,
    assumptions: &["the words true and false are not identities", "keys of one map that are spelled alike are left out"],
    run: c02,
};

#[derive(Clone, Copy, Debug)]
enum Req {
    Id(usize, bool),
    Line(usize, u8),
    Config(FormattingConfig),
}

fn play(k: &Kserd, reqs: &[Req]) -> Result<(String, Vec<bool>, [u64; 3]), Panic> {
    guard(|| {
        let mut f = Formatter::new(k);
        let mut n = [0u64; 3];
        for q in reqs {
            let res: Result<(), FmtError> = match *q {
                Req::Id(i, b) => f.id(i, b),
                Req::Line(i, 0) => f.inline(i),
                Req::Line(i, 1) => f.concise(i),
                Req::Line(i, _) => f.verbose(i),
                Req::Config(c) => {
                    f.apply_config(c);
                    Ok(())
                }
            };
            n[res.is_err() as usize] += 1;
        }
        n[2] = f.fmts().iter().any(|x| x.line == Repr::Verbose) as u64;
        let ids = f.fmts().iter().map(|x| x.id).collect();
        (f.write_string(String::new()), ids, n)
    })
}

fn layout_trip(t: &T, reqs: &[Req]) -> (Trip, [u64; 3]) {
    let k = t.build();
    let t = model::of(&k);
    let (text, ids, n) = match play(&k, reqs) {
        Ok(x) => x,
        Err(Panic::Subject(s)) => return (bad("formatter panicked", "", &s), [0; 3]),
        Err(Panic::Harness(s)) => panic!("{s}"),
    };
    // nodes are numbered depth first, keys before their values
    let mut i = 0;
    let mut show = std::collections::HashMap::new();
    t.walk(&mut |n| {
        let unit_name = matches!(n.v, V::Unit);
        show.insert(n as *const T as usize, unit_name || ids.get(i).copied().unwrap_or(false));
        i += 1;
    });
    let sh = |t: &T| show.get(&(t as *const T as usize)).copied().unwrap_or(true);
    if text::keys_collide(&t, &sh) {
        return (Trip::Skip, n);
    }
    (compare(text, &text::canon(&t, &sh), &text::canon_plain(&t), true), n)
}

fn c03(ctx: &mut Ctx, case: u64) -> R {
    let t = any_tree(&mut ctx.r, case);
    let n = t.nodes();
    let r = &mut ctx.r;
    let mut reqs = Vec::new();
    if r.bool() {
        let mut c = gen::config(r);
        if r.bool() {
            c.width_limit = Some(0);
        }
        reqs.push(Req::Config(c));
    }
    let len = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.below(6),
        3 => r.below(2 * n.min(200) + 1),
        4 => r.below(n.min(200) + 1),
        _ => 2 + r.below(10),
    };
    for _ in 0..len {
        let i = if r.chance(1, 30) {
            *r.pick(&[n, n + 1, n + 1000, usize::MAX])
        } else if r.chance(1, 4) {
            r.below(n.min(4))
        } else {
            r.below(n)
        };
        reqs.push(match r.below(12) {
            0..=2 => Req::Id(i, r.bool()),
            3..=5 => Req::Line(i, 0),
            6..=8 => Req::Line(i, 1),
            9 | 10 => Req::Line(i, 2),
            _ if r.chance(1, 6) => Req::Config(gen::config(r)),
            _ => Req::Line(i, r.below(3) as u8),
        });
    }
    let (got, seen) = layout_trip(&t, &reqs);
    match got {
        Trip::Skip => ctx.hit("skipped: keys spelled alike"),
        Trip::Done { text } => {
            ctx.add("requests accepted", seen[0]);
            ctx.add("requests refused", seen[1]);
            ctx.add("ended with verbose nodes", seen[2]);
            ctx.max("requests in one history", reqs.len() as u64);
            observe(ctx, &t, &text);
            ctx.sample(|| format!("{reqs:?} => {text:?}"));
        }
        Trip::Bad { what, detail } => {
            // drop requests that do not matter
            let same = |t: &T, q: &[Req]| matches!(layout_trip(t, q).0, Trip::Bad { what: w, .. } if w == what);
            let mut q = reqs.clone();
            let mut i = 0;
            while i < q.len() && q.len() < 400 {
                let mut p = q.clone();
                p.remove(i);
                if same(&t, &p) {
                    q = p;
                } else {
                    i += 1;
                }
            }
            let small = shrink(&t, 2000, &mut |t| same(t, &q));
            return fail(what, format!("smallest: {small:?}\nrequests: {q:?}\n{}\n=== first seen as\n{detail}", match layout_trip(&small, &q).0 {
                Trip::Bad { detail, .. } => detail,
                _ => String::new(),
            }));
        }
    }
    Ok(())
}

pub static C03: Prop = Prop {
    id: "C03",
    quick: 1_200_000,
    thorough: 20_000_000,
    rule: "a random series of per-node requests is played on a formatter over a random tree, the text is parsed and compared with the tree and the identities the formatter reports as displayed; non-trivial: the root is a collection; distinct: by written text",
    required: &["requests accepted", "requests refused", "ended with verbose nodes", "multi-line text", "one-line text"],
    bounded: false,
    assumptions: &["keys of one map that are spelled alike are left out"],
    run: c03,
};
