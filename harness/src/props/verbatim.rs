//! Strings and bytes verbatim; look-alikes kept apart.

use crate::ensure;
use crate::gen;
use crate::gram::{self, Printer, Style, SAFE_DELIMS};
use crate::model::{self, N, T, V};
use crate::mon::*;
use crate::props::roundtrip::{shows, trip, Trip};
use crate::rng::Rng;
use crate::text;
use kserd::fmt::FormattingConfig;
use kserd::parse;

const PLACES: &[(&str, &str)] = &[
    ("", "root"),
    ("<id> ", "root with identity"),
    ("(#)", "tuple"),
    ("(1, #, true)", "tuple between"),
    ("[#]", "sequence"),
    ("[#, #]", "sequence of two"),
    ("{#: 1}", "map key"),
    ("{1: #}", "map value"),
    ("{#: #}", "map key and value"),
    ("(a = #)", "container"),
    ("(a = #, b = #)", "container of two"),
    ("[\n#\n]", "sequence over lines"),
    ("(\n    #\n    #\n)", "tuple over lines"),
    ("(\n    a = #\n    b = 1\n)", "container over lines"),
    ("{\n    #: #\n}", "map over lines"),
    ("a = #", "verbose field"),
    ("a = #\nb = #\n", "verbose fields"),
    ("[x]\n    a = #\n    b = #\n", "nested verbose field"),
    ("[[x]]\n#\n[[x]]\n#\n", "verbose sequence"),
    ("[[x]]\n#: #\n", "verbose map"),
    ("id(<id> #, [<id> #])", "identities in collections"),
    ("   #   ", "blanks around"),
];

fn leaves<'a>(t: &'a T, o: &mut Vec<&'a V>) {
    t.walk(&mut |n| {
        if matches!(n.v, V::Str(_) | V::Barr(_)) {
            o.push(&n.v);
        }
    });
}

fn delimiter(r: &mut Rng, s: &str) -> Option<char> {
    for _ in 0..20 {
        let d = match r.below(4) {
            0 => char::from_u32(0x80 + r.below(0x10_ff80) as u32)?,
            1 => *r.pick(&['\u{7f}', '\u{1b}', '\u{c}', '\u{b}', '\u{85}', '\u{a0}', '\u{feff}', '\u{200b}', '\u{301}']),
            _ => *r.pick(SAFE_DELIMS),
        };
        if !s.contains(d) {
            return Some(d);
        }
    }
    None
}

fn long_string(r: &mut Rng) -> String {
    let n = if r.chance(1, 300) { r.range(60_000, 140_000) } else { r.range(100, 5000) };
    let s = gen::string(r, false);
    let mut o = String::new();
    while o.len() < n {
        o.push_str(&s);
        o.push_str(&gen::string(r, false));
        if r.bool() {
            o.push('.');
        }
        if s.is_empty() {
            o.push(*r.pick(&['x', ' ', '\n', '\'']));
        }
    }
    o
}

fn place<'a>(r: &mut Rng, lit: &str) -> (String, &'a str) {
    let (p, name) = *r.pick(PLACES);
    let s = if p.contains('#') { p.replace('#', lit) } else { format!("{p}{lit}") };
    (s, name)
}

fn c10(ctx: &mut Ctx, case: u64) -> R {
    let r = &mut ctx.r;
    if case % 3 == 0 {
        // a literal in a place
        let s = if r.chance(1, 30) { long_string(r) } else { gen::string(r, false) };
        let lit = if !s.contains('"') && r.chance(1, 3) {
            ctx.hit("double quotes");
            format!("\"{s}\"")
        } else if let Some(d) = delimiter(&mut ctx.r, &s) {
            ctx.hit("prefix and delimiter");
            if !d.is_ascii() {
                ctx.hit("delimiter beyond ascii");
            }
            format!("str{d}{s}{d}")
        } else {
            return Ok(());
        };
        let (text, name) = place(&mut ctx.r, &lit);
        literal(ctx, &text, name, &V::Str(s.clone()))?;
        ctx.max("string bytes", s.len() as u64);
        ctx.state_s(&text);
        return Ok(());
    }
    if case % 3 == 1 && r.bool() {
        let n = match r.below(4) {
            0 => r.below(4),
            1 => r.below(64),
            2 => r.below(600),
            _ if r.chance(1, 500) => 65_000 + r.below(3000),
            _ => r.below(6000),
        };
        let b: Vec<u8> = match r.below(3) {
            0 => vec![r.next() as u8; n],
            1 => (0..n).map(|i| (i * 7) as u8).collect(),
            _ => (0..n).map(|_| r.next() as u8).collect(),
        };
        let lit = format!("b91'{}'", gram::base91(&b));
        let (text, name) = place(r, &lit);
        ctx.hit("byte literals");
        ctx.max("bytes in an array", n as u64);
        literal(ctx, &text, name, &V::Barr(b.clone()))?;
        let t = T::new(V::Barr(b));
        formatted(ctx, &t)?;
        ctx.state_s(&text);
        return Ok(());
    }
    // through the formatter, in every position
    let leaf = |r: &mut Rng| -> V {
        match r.below(8) {
            0 => V::Barr(gen::bytes(r)),
            1 if r.chance(1, 10) => V::Str(long_string(r)),
            2 => {
                // every character up to some point
                let n = r.range(1, 600);
                let skip = r.below(n);
                V::Str((0..n).filter(|i| *i != skip).filter_map(|i| char::from_u32(i as u32)).collect())
            }
            _ => V::Str(gen::string(r, false)),
        }
    };
    let id = |r: &mut Rng| if r.chance(1, 3) { Some(gen::ident(r)) } else { None };
    let one = |r: &mut Rng| T { id: id(r), v: leaf(r) };
    let k = r.below(8);
    let v = match k {
        0 => leaf(r),
        1 => V::Tuple((0..1 + r.below(3)).map(|_| one(r)).collect()),
        2 => V::Seq((0..1 + r.below(3)).map(|_| one(r)).collect()),
        3 => V::Cntr((0..1 + r.below(3)).map(|i| (format!("f{i}"), one(r))).collect()),
        4 => V::Map((0..1 + r.below(3)).map(|_| (one(r), one(r))).collect()),
        5 => V::Cntr(vec![("x".into(), T::new(V::Seq(vec![one(r), one(r)])))]),
        6 => V::Cntr(vec![("x".into(), T::new(V::Map(vec![(one(r), one(r))])))]),
        _ => V::Cntr(vec![("x".into(), T::new(V::Cntr(vec![("y".into(), one(r))])))]),
    };
    let t = T { id: id(r), v };
    formatted(ctx, &t)?;
    Ok(())
}

fn literal(ctx: &mut Ctx, text: &str, name: &'static str, want: &V) -> R {
    let k = match calm("parsing", || format!("{text:?}"), || parse::parse(text))? {
        Ok(k) => model::of(&k),
        Err(e) => return fail("literal is refused", format!("{name}: {text:?}\n{}", e.backtrace())),
    };
    let mut got = Vec::new();
    leaves(&k, &mut got);
    ensure!(!got.is_empty(), "literal was lost", "{name}: {text:?}\n{k:?}");
    for g in got {
        let same = match (g, want) {
            (V::Str(a), V::Str(b)) => a == b,
            (V::Barr(a), V::Barr(b)) => a == b,
            _ => false,
        };
        ensure!(same, "literal is read as other text", "{name}: {text:?}\nread as {g:?}");
    }
    ctx.hit(name);
    ctx.sample(|| format!("{name}: {text:?}"));
    Ok(())
}

fn formatted(ctx: &mut Ctx, t: &T) -> R {
    let c = gen::config(&mut ctx.r);
    match trip(t, c, true) {
        Trip::Skip => ctx.hit("skipped: keys spelled alike"),
        Trip::Done { text } => {
            ctx.hit("formatted and read back");
            ctx.max("text bytes", text.len() as u64);
            ctx.state_s(&text);
        }
        Trip::Bad { what, detail } => return fail(what, format!("{t:?}\n{c:?}\n{detail}")),
    }
    Ok(())
}

pub static C10: Prop = Prop {
    id: "C10",
    quick: 2_500_000,
    thorough: 40_000_000,
    rule: "a string or byte literal is placed at a position of the text, or a value holding them is formatted, and the parsed content is compared byte for byte; distinct: by text",
    required: &[
        "double quotes", "prefix and delimiter", "delimiter beyond ascii", "byte literals", "formatted and read back", "root",
        "root with identity", "tuple", "sequence", "map key", "map value", "container", "sequence over lines", "verbose field",
        "nested verbose field", "verbose sequence", "verbose map", "identities in collections",
    ],
    bounded: false,
    assumptions: &["delimiters other than opening brackets, equals sign, blanks, line ends and name characters"],
    run: c10,
};

// ---------------------------------------------------------------- look-alikes

const WORDS: &[&str] = &[
    "true", "false", "inf", "nan", "NaN", "str", "b91", "None", "e", "e5", "true1", "falsey", "infinity", "str_", "b91x", "_",
    "a", "strx", "i", "n", "Infinity", "f64", "trueish", "nan-", "inf_",
];
const STRS: &[&str] = &[
    "true", "false", "inf", "NaN", "1", "-1", "1.5", "()", "[]", "{}", "[a]", "[[a]]", "a = 1", ":a", "<a> 1", "b91''", "str''", "str", "",
    " ", "\n", "\"", "'", "a", "(a = 1)", "#", "\"a\"", "b91'A'", "1: 2", "[true]",
];

fn leaf_count() -> usize {
    11 + STRS.len()
}

fn leaf(i: usize) -> V {
    match i {
        0 => V::Unit,
        1 => V::Bool(true),
        2 => V::Bool(false),
        3 => V::Num(N::U(1)),
        4 => V::Num(N::I(-1)),
        5 => V::Num(N::F(1.5)),
        6 => V::Num(N::F(f64::INFINITY)),
        7 => V::Num(N::F(f64::NEG_INFINITY)),
        8 => V::Num(N::F(f64::NAN)),
        9 => V::Barr(vec![]),
        10 => V::Barr(b"true".to_vec()),
        i => V::Str(STRS[i - 11].to_string()),
    }
}

/// Identity choices: none, or a word other than the two booleans.
fn ids() -> usize {
    WORDS.len() - 1
}
fn id_of(i: usize) -> Option<String> {
    if i == 0 {
        None
    } else {
        Some(WORDS[i + 1].to_string())
    }
}

struct Mix(u64);
impl Mix {
    fn take(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
}

fn leaf_t(m: &mut Mix, with_id: bool) -> T {
    let v = leaf(m.take(leaf_count()));
    let id = if with_id { id_of(m.take(ids())) } else { None };
    T { id, v }
}

/// Every leaf with every identity; every collection of one leaf under every name and identity.
const LEVELS: usize = 7;
fn exhaustive_total(level: usize) -> u64 {
    let (l, i, w) = (leaf_count() as u64, ids() as u64, WORDS.len() as u64);
    match level {
        0 => l * i,
        1 | 2 => i * l,         // tuple, sequence of one
        3 => i * w * l,         // container of one
        4 => i * l * l,         // map of one
        5 => 4 * i * 3,         // empties, in nothing, a tuple, a container
        _ => 2 * i * l * l,     // neighbours in tuple and sequence
    }
}

fn exhaustive(level: usize, at: u64) -> T {
    let mut m = Mix(at);
    match level {
        0 => leaf_t(&mut m, true),
        1 => {
            let x = leaf_t(&mut m, false);
            T { id: id_of(m.take(ids())), v: V::Tuple(vec![x]) }
        }
        2 => {
            let x = leaf_t(&mut m, false);
            T { id: id_of(m.take(ids())), v: V::Seq(vec![x]) }
        }
        3 => {
            let x = leaf_t(&mut m, false);
            let w = WORDS[m.take(WORDS.len())].to_string();
            T { id: id_of(m.take(ids())), v: V::Cntr(vec![(w, x)]) }
        }
        4 => {
            let k = leaf_t(&mut m, false);
            let x = leaf_t(&mut m, false);
            T { id: id_of(m.take(ids())), v: V::Map(vec![(k, x)]) }
        }
        5 => {
            let v = match m.take(4) {
                0 => V::Tuple(vec![]),
                1 => V::Cntr(vec![]),
                2 => V::Seq(vec![]),
                _ => V::Map(vec![]),
            };
            let t = T { id: id_of(m.take(ids())), v };
            match m.take(3) {
                0 => t,
                1 => T::new(V::Tuple(vec![t.clone(), t])),
                _ => T::new(V::Cntr(vec![("true".into(), t.clone()), ("str".into(), t)])),
            }
        }
        _ => {
            let a = leaf_t(&mut m, false);
            let b = T { id: id_of(m.take(ids())), v: leaf(m.take(leaf_count())) };
            T::new(if m.take(2) == 0 { V::Tuple(vec![a, b]) } else { V::Seq(vec![a, b]) })
        }
    }
}

fn random_small(r: &mut Rng, depth: usize) -> T {
    let id = if r.bool() { id_of(r.below(ids())) } else { None };
    let v = if depth == 0 || r.chance(1, 4) {
        leaf(r.below(leaf_count()))
    } else {
        let n = r.below(3);
        match r.below(4) {
            0 => V::Tuple((0..n).map(|_| random_small(r, depth - 1)).collect()),
            1 => V::Seq((0..n).map(|_| random_small(r, depth - 1)).collect()),
            2 => V::Cntr((0..n).map(|_| (r.pick(WORDS).to_string(), random_small(r, depth - 1))).collect()),
            _ => V::Map((0..n).map(|_| (random_small(r, depth - 1), random_small(r, depth - 1))).collect()),
        }
    };
    T { id, v }
}

fn kinds_kept(ctx: &mut Ctx, t: &T) -> R {
    let k = t.build();
    let t = model::of(&k);
    for w in [None, Some(0), Some(6), Some(60)] {
        for all in [true, false] {
            let c = FormattingConfig {
                id_on_primitives: all,
                id_on_tuples: all,
                id_on_containers: all,
                id_on_seqs: all,
                id_on_maps: all,
                width_limit: w,
            };
            let sh = |t: &T| shows(&c, t);
            if text::keys_collide(&t, &sh) {
                ctx.hit("skipped: keys spelled alike");
                continue;
            }
            let s = calm("formatting", || format!("{t:?} {c:?}"), || k.as_str_with_config(c))?;
            read(ctx, &t, &s, &sh, &format!("{c:?}"))?;
            ctx.hit("formatter layouts");
        }
    }
    if !text::keys_collide(&t, &|_| false) {
        for _ in 0..2 {
            let st = Style::any(&mut ctx.r);
            let s = {
                let mut p = Printer::new(&mut ctx.r, st);
                p.root(&t);
                p.out
            };
            read(ctx, &t, &s, &|_| true, "independent printer")?;
            ctx.hit("independent layouts");
        }
    }
    Ok(())
}

fn read(ctx: &mut Ctx, t: &T, s: &str, sh: &dyn Fn(&T) -> bool, how: &str) -> R {
    let back = match calm("parsing", || format!("{s:?}"), || parse::parse(s))? {
        Ok(b) => model::of(&b),
        Err(e) => return fail("text of a look-alike is refused", format!("{t:?}\n{how}\n{s:?}\n{}", e.backtrace())),
    };
    let (w, g) = (text::canon(t, sh), text::canon(&back, &|_| true));
    ensure!(w == g, "a look-alike is read as something else", "{t:?}\n{how}\n{s:?}\n{}", text::diff(&w, &g));
    ctx.state_s(s);
    ctx.sample(|| format!("{s:?}"));
    Ok(())
}

fn c32(ctx: &mut Ctx, case: u64) -> R {
    let mut at = case;
    for level in 0..LEVELS {
        let n = exhaustive_total(level);
        if at < n {
            ctx.hit("exhaustive small values");
            return kinds_kept(ctx, &exhaustive(level, at));
        }
        at -= n;
    }
    let d = ctx.r.range(1, 4);
    let t = random_small(&mut ctx.r, d);
    ctx.hit("random small values");
    kinds_kept(ctx, &t)
}

pub static C32: Prop = Prop {
    id: "C32",
    quick: 1_500_000,
    thorough: 25_000_000,
    rule: "all leaves and collections of one or two look-alike leaves, then random small trees, each in eight formatter layouts and two independent ones, are parsed and compared kind by kind; distinct: by texts",
    required: &["exhaustive small values", "random small values", "formatter layouts", "independent layouts"],
    bounded: false,
    assumptions: &["identities true and false are reserved", "keys of one map that are spelled alike are left out"],
    run: c32,
};

#[cfg(test)]
mod tests {
    #[test]
    fn totals() {
        let n: u64 = (0..super::LEVELS).map(super::exhaustive_total).sum();
        assert!(n < super::C32.quick, "{n}");
    }
}
