//! Text -> value: totality, errors, layout freedom, refusals, stability.

use crate::ensure;
use crate::gen;
use crate::gram::{plain_tree, Printer, Style, Tok};
use crate::model::{self, T, V};
use crate::mon::*;
use crate::props::roundtrip::{any_tree, shows};
use crate::rng::Rng;
use crate::shrink::shrink;
use crate::text;
use kserd::fmt::FormattingConfig;
use kserd::parse::{self, Error};
use kserd::Kserd;

// ---------------------------------------------------------------- hostile text

const SOUP: &[&str] = &[
    "(", ")", "[", "]", "{", "}", "<", ">", ",", "=", ":", "\"", "'", "\n", "\r\n", "\r", "\t", " ", "    ", "[[", "]]",
    "a", "name", "true", "false", "1", "-", ".", "e", "inf", "NaN", "-1.5e3", "str", "str#", "#", "b91'", "b91", "<id>",
    ":id", "a = ", "[a]", "[[a]]", "[a:b]", "()", "(a = 1)", "\u{e9}", "\u{1F600}", "\u{0}", "\\", "_", "0", "99999999999999999999999999999999999999999",
    "b91'abc'", "str'x'", "{1: 2}", "[1, 2]", "id (1)", "<", "\u{2028}", "\u{feff}", "x-y", "\n    ", "\n\t", ": ", "\"\"",
];

pub fn soup(r: &mut Rng, max: usize) -> String {
    let n = r.below(max);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*r.pick(SOUP));
    }
    s
}

fn cut(r: &mut Rng, s: &str) -> usize {
    let mut i = r.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

pub fn mutate(r: &mut Rng, s: &str, other: &str) -> String {
    let mut s = s.to_string();
    for _ in 0..1 + r.below(3) {
        let i = cut(r, &s);
        let j = cut(r, &s);
        let (i, j) = (i.min(j), i.max(j));
        match r.below(8) {
            0 => s.truncate(i),
            1 => s = s[i..].to_string(),
            2 => s.insert_str(i, *r.pick(SOUP)),
            3 => {
                let k = (j - i).min(1 + r.below(6));
                let mut e = i + k;
                while !s.is_char_boundary(e) {
                    e += 1;
                }
                s.replace_range(i..e, "");
            }
            4 => {
                let m: String = s[i..j].chars().take(30).collect();
                s.insert_str(j, &m);
            }
            5 => {
                let a = cut(r, other);
                s = format!("{}{}", &s[..i], &other[a..]);
            }
            6 => {
                // replace one character
                if let Some(c) = s[i..].chars().next() {
                    let n = *r.pick(SOUP);
                    s.replace_range(i..i + c.len_utf8(), n);
                }
            }
            _ => {
                let c = char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}');
                s.insert(i, c);
            }
        }
    }
    s
}

pub fn written(r: &mut Rng, case: u64) -> String {
    let t = any_tree(r, case);
    if r.bool() {
        let c = gen::config(r);
        match guard(|| t.build().as_str_with_config(c)) {
            Ok(s) => s,
            Err(_) => String::new(),
        }
    } else {
        let st = Style::any(r);
        let mut p = Printer::new(r, st);
        p.root(&t);
        p.out
    }
}

/// Deeply nested text, well formed or not.
fn nested(r: &mut Rng) -> String {
    const OPEN: &[(&str, &str)] = &[
        ("(", ")"), ("[", "]"), ("{", "}"), ("{1: ", "}"), ("(a = ", ")"), ("[\n", "\n]"), ("(\n", "\n)"), ("(a = (", "))"),
        ("x (", ")"), ("(a = [", "])"), ("{(", "): 1}"), ("{\n", ": 2\n}"), ("[1, ", ", 2]"), ("<a", ">"), ("[[", "]]"),
    ];
    let d = *r.pick(&[10, 30, 60, 120, 199]);
    let one = if r.bool() { Some(*r.pick(OPEN)) } else { None };
    let (mut a, mut b) = (String::new(), Vec::new());
    let mut depth = 0;
    while depth < d {
        let (o, c) = one.unwrap_or_else(|| *r.pick(OPEN));
        depth += o.chars().filter(|c| "([{".contains(*c)).count().max(1);
        a.push_str(o);
        b.push(c);
    }
    a.push_str(*r.pick(&["", "1", "\"x\"", "a", "()", "true", ","]));
    let keep = if r.chance(2, 3) { b.len() } else { r.below(b.len() + 1) };
    for c in b.iter().rev().take(keep) {
        a.push_str(c);
    }
    if r.chance(1, 4) {
        a.push_str(*r.pick(SOUP));
    }
    a
}

pub fn hostile(r: &mut Rng, case: u64) -> (String, &'static str) {
    match r.below(14) {
        0 => {
            let n = r.below(60);
            (
                (0..n).map(|_| char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x')).collect(),
                "random characters",
            )
        }
        1 => {
            let n = r.below(60);
            ((0..n).map(|_| (r.below(128) as u8) as char).collect(), "random ascii")
        }
        2..=4 => (soup(r, 24), "token soup"),
        5 => (nested(r), "deep nesting"),
        6 if r.chance(1, 6) => (soup(r, 4000), "long token soup"),
        7 => {
            let s = written(r, case);
            let i = cut(r, &s);
            (s[..i].to_string(), "truncated text")
        }
        8 => {
            // a multi-byte character at some place
            let mut s = written(r, case);
            let i = cut(r, &s);
            s.insert(i, *r.pick(&['\u{e9}', '\u{1F600}', '\u{301}', '\u{7ff}', '\u{ffff}', '\u{2028}']));
            (s, "multi-byte inserted")
        }
        9 => (written(r, case), "well formed text"),
        _ => {
            let s = written(r, case);
            let o = written(r, case + 1);
            (mutate(r, &s, &o), "mutated text")
        }
    }
}

fn poke_error(e: &Error, s: &str) -> R {
    let n = e.len();
    ensure!(e.is_empty() == (n == 0), "is_empty disagrees with len", "{s:?}");
    let it: Vec<_> = e.iter().collect();
    ensure!(it.len() == n, "listed traces differ from len", "{} vs {n} for {s:?}", it.len());
    for (i, t) in it.iter().enumerate() {
        ensure!(e.get(i).as_ref() == Some(t), "indexed trace differs from the listed one", "{i} for {s:?}");
    }
    ensure!(e.get(n).is_none() && e.get(n + 7).is_none(), "trace past the end", "{s:?}");
    let b = e.backtrace();
    ensure!(format!("{e:?}") == b, "printed error differs from its backtrace", "{s:?}");
    ensure!(n > 0 && !b.is_empty(), "error without a trace", "{s:?}");
    Ok(())
}

fn head(s: &str) -> String {
    s.chars().take(3000).collect()
}

fn c04(ctx: &mut Ctx, case: u64) -> R {
    let (s, kind) = hostile(&mut ctx.r, case);
    let res = calm("parsing", || format!("{:?}", head(&s)), || parse::parse(&s))?;
    match res {
        Ok(k) => {
            ctx.hit("accepted");
            let t = model::of(&k);
            ctx.max("accepted nodes", t.nodes() as u64);
            ctx.max("accepted depth", t.depth() as u64);
        }
        Err(e) => {
            ctx.hit("refused");
            calm("reading the error", || format!("{:?}", head(&s)), || poke_error(&e, &head(&s)))??;
            ctx.max("traces in an error", e.len() as u64);
        }
    }
    ctx.hit(kind);
    ctx.max("text bytes", s.len() as u64);
    if s.len() > 2 {
        ctx.state_s(&s);
    }
    ctx.sample(|| format!("{kind}: {s:?}"));
    Ok(())
}

pub static C04: Prop = Prop {
    id: "C04",
    quick: 2_000_000,
    thorough: 30_000_000,
    rule: "hostile text (soup, mutation, truncation, nesting, well-formed) is parsed and every part of an error is read; non-trivial: longer than two bytes; distinct: by text",
    required: &[
        "accepted", "refused", "random characters", "random ascii", "token soup", "long token soup", "deep nesting",
        "truncated text", "multi-byte inserted", "well formed text", "mutated text",
    ],
    bounded: true,
    assumptions: &["nesting up to about 200 levels; far deeper nesting exhausts the stack (known finding)"],
    run: c04,
};

// ---------------------------------------------------------------- layout freedom

fn print(r: &mut Rng, t: &T, st: Style) -> (String, u64, u64) {
    let mut p = Printer::new(r, st);
    p.root(t);
    (p.out, p.multi, p.verbose)
}

fn read_as(text: &str, t: &T) -> Result<(), (&'static str, String)> {
    let back = match guard(|| parse::parse(text).map(|k| model::of(&k)).map_err(|e| e.backtrace())) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return Err(("well-formed text is refused", e)),
        Err(Panic::Subject(s)) => return Err(("parsing panicked", s)),
        Err(Panic::Harness(s)) => panic!("{s}"),
    };
    let all = |_: &T| true;
    let (w, g) = (text::canon(t, &all), text::canon(&back, &all));
    if w != g {
        return Err(("text is read as another value", text::diff(&w, &g)));
    }
    Ok(())
}

fn c06(ctx: &mut Ctx, case: u64) -> R {
    let t = if case % 30_000 == 13 { gen::huge(&mut ctx.r, true) } else { any_tree(&mut ctx.r, case) };
    let t = model::of(&t.build());
    if text::keys_collide(&t, &|_| false) {
        ctx.hit("skipped: keys spelled alike");
        return Ok(());
    }
    let seed = ctx.r.next();
    for i in 0..2 {
        let mk = |t: &T| {
            let mut r = Rng::new(seed ^ i);
            let st = Style::any(&mut r);
            print(&mut r, t, st)
        };
        let (s, multi, verbose) = mk(&t);
        if let Err((what, d)) = read_as(&s, &t) {
            let small = shrink(&t, 2000, &mut |t| {
                let t = model::of(&t.build());
                !text::keys_collide(&t, &|_| false) && matches!(read_as(&mk(&t).0, &t), Err((w, _)) if w == what)
            });
            let small = model::of(&small.build());
            let ss = mk(&small).0;
            let dd = read_as(&ss, &small).err().map(|x| x.1).unwrap_or_default();
            return fail(what, format!("smallest: {small:?}\n{dd}\n--- text\n{ss}\n--- escaped {ss:?}\n=== first seen as\n{d}\n{s}"));
        }
        ctx.hit(match (multi > 0, verbose > 0) {
            (false, false) => "read inline",
            (true, false) => "read over several lines",
            (false, true) => "read verbose",
            (true, true) => "read verbose with multi-line parts",
        });
        if s.contains("\r\n") {
            ctx.hit("read with carriage returns");
        }
        if s.contains('\t') {
            ctx.hit("read with tabs");
        }
        ctx.max("nodes", t.nodes() as u64);
        ctx.max("depth", t.depth() as u64);
        if !t.is_prim() {
            ctx.state_s(&s);
        }
        ctx.sample(|| format!("{s:?}"));
    }
    Ok(())
}

pub static C06: Prop = Prop {
    id: "C06",
    quick: 900_000,
    thorough: 15_000_000,
    rule: "a random tree is written twice by an independent printer with free layout and both texts are parsed and compared with the tree; non-trivial: the root is a collection; distinct: by the texts",
    required: &[
        "read inline", "read over several lines", "read verbose", "read verbose with multi-line parts",
        "read with carriage returns", "read with tabs",
    ],
    bounded: false,
    assumptions: &["a root that is not verbose starts on the first line", "keys of one map that are spelled alike are left out"],
    run: c06,
};

// ---------------------------------------------------------------- refusals

const BAD_WORDS: &[&str] = &[
    "foo", "True", "FALSE", "nil", "yes", "truth", "tru", "fals", "x", "_", "b91 ", "null", "none",
    "a-b", "b91\"abc\"",
];
const BAD_NUMS: &[&str] = &[
    "-", ".", "--1", "1-2", "1.2.3", "1e", "e5", "1a", "12abc", "-inf-", "1..2", "-.", "1e5e5", "ee", "i", "na", "1x", "0x10",
    "1_000x", "- 1", "1e1.5", "-e", "9999999999999999999999999999999999999999999", "-999999999999999999999999999999999999999999",
    "+1", "1E5x", "infi", "NaNa",
];

/// One defect in well-formed text; None when it does not apply to this text.
fn defect(r: &mut Rng, t: &T) -> Option<(&'static str, String, String)> {
    let multi = r.chance(1, 3);
    let st = if multi {
        Style { multi8: 4, verbose8: 4, ..Style::inline() }
    } else {
        Style::inline()
    };
    let mut p = Printer::new(r, st);
    p.root(t);
    let (s, toks) = (p.out, p.toks);
    let pick = |r: &mut Rng, f: &dyn Fn(&crate::gram::Piece) -> bool| -> Option<usize> {
        let c: Vec<usize> = (0..toks.len()).filter(|i| f(&toks[*i])).collect();
        if c.is_empty() {
            None
        } else {
            Some(*r.pick(&c))
        }
    };
    let rep = |i: usize, with: &str| format!("{}{}{}", &s[..toks[i].at], with, &s[toks[i].end..]);
    let is_prim_next = |i: usize| {
        // what follows is a primitive that does not open with a bracket
        match toks.get(i + 1).map(|p| (p.tok, &s[p.at..p.end])) {
            Some((Tok::Prim, x)) => !x.starts_with('('),
            Some((Tok::Angle, _)) => true,
            _ => false,
        }
    };
    let verbose_root = toks.iter().any(|t| matches!(t.tok, Tok::Header | Tok::IdLine))
        || toks.first().map(|t| t.tok == Tok::Field).unwrap_or(false);
    let out = match r.below(19) {
        0 => {
            let i = pick(r, &|p| p.tok == Tok::Close)?;
            ("missing closing delimiter", rep(i, " "))
        }
        1 => {
            let i = pick(r, &|p| p.tok == Tok::Open)?;
            ("missing opening delimiter", rep(i, " "))
        }
        2 => {
            let i = pick(r, &|p| matches!(p.tok, Tok::Open | Tok::Close | Tok::Comma))?;
            let b = *r.pick(&["(", ")", "[", "]", "{", "}"]);
            ("extra delimiter", format!("{}{}{}", &s[..toks[i].at], b, &s[toks[i].at..]))
        }
        3 => {
            let i = pick(r, &|p| matches!(p.tok, Tok::Open | Tok::Close))?;
            let old = &s[toks[i].at..toks[i].end];
            let set: &[&str] = if "([{".contains(old) { &["(", "[", "{"] } else { &[")", "]", "}"] };
            let new = *r.pick(set);
            if new == old {
                return None;
            }
            ("mismatched delimiter", rep(i, new))
        }
        4 => {
            let i = pick(r, &|p| p.tok == Tok::Comma)?;
            // a word in front of a bracket is an identity
            if i > 0 && s[toks[i - 1].at..].starts_with(char::is_alphabetic) && s[toks[i].end..].trim_start().starts_with(['(', '[', '{']) {
                return None;
            }
            ("missing separator", rep(i, " "))
        }
        5 => {
            let i = pick(r, &|p| p.tok == Tok::Comma)?;
            ("doubled separator", rep(i, ",,"))
        }
        6 => {
            let i = pick(r, &|p| matches!(p.tok, Tok::Open | Tok::Close) && p.inline)?;
            let at = if toks[i].tok == Tok::Open { toks[i].end } else { toks[i].at };
            ("stray separator", format!("{},{}", &s[..at], &s[at..]))
        }
        7 => {
            // some names are values too, and lists over several lines need no separator
            const WORDS: &[&str] = &["true", "false", "inf", "nan", "NaN", "infinity"];
            let c: Vec<usize> = (0..toks.len())
                .filter(|i| toks[*i].tok == Tok::Eq && is_prim_next(*i))
                .filter(|i| toks[*i].inline || !WORDS.contains(&&s[toks[*i - 1].at..toks[*i - 1].end]))
                .collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            ("missing equals sign", rep(i, " "))
        }
        8 => {
            let i = pick(r, &|p| p.tok == Tok::Field)?;
            ("missing field name", rep(i, ""))
        }
        9 => {
            // a primitive value that does not open with a bracket, alone in its place
            let c: Vec<usize> = (0..toks.len())
                .filter(|i| {
                    toks[*i].tok == Tok::Prim
                        && !s[toks[*i].at..].starts_with('(')
                        && *i > 0
                        && match toks[*i - 1].tok {
                            Tok::Eq => true,
                            // nothing after the key of a verbose map entry is an empty container
                            Tok::Colon | Tok::Comma => !verbose_root,
                            _ => false,
                        }
                        && toks[*i].inline
                })
                .collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            ("missing value", rep(i, ""))
        }
        10 => {
            let i = pick(r, &|p| p.tok == Tok::Colon && p.inline)?;
            // a verbose entry without a colon is one of a sequence
            if verbose_root {
                return None;
            }
            ("missing colon", rep(i, " "))
        }
        11 => {
            // an odd number of quotes
            if s.contains("b91") || s.contains("str") {
                return None;
            }
            let i = pick(r, &|p| p.tok == Tok::Prim && s[p.at..].starts_with('"'))?;
            let (a, e) = (toks[i].at, toks[i].end);
            let cut = if r.bool() { format!("{}{}", &s[..a], &s[a + 1..]) } else { format!("{}{}", &s[..e - 1], &s[e..]) };
            ("missing quote", cut)
        }
        12 => {
            let i = pick(r, &|p| p.tok == Tok::Prim && !s[p.at..].starts_with('('))?;
            let w = *r.pick(BAD_WORDS);
            if (!toks[i].inline && w.contains('"')) || (verbose_root && s[..toks[i].at].ends_with('[')) {
                return None; // `[word]` is a header
            }
            ("unknown bare word", rep(i, w))
        }
        13 => {
            let i = pick(r, &|p| p.tok == Tok::Prim && !s[p.at..].starts_with('(') && p.inline)?;
            if verbose_root {
                return None;
            }
            ("ill-formed number", rep(i, *r.pick(BAD_NUMS)))
        }
        14 => {
            let i = pick(r, &|p| p.tok == Tok::Angle)?;
            let old = s[toks[i].at..toks[i].end].to_string();
            let name = &old[1..old.len() - 1];
            let new = match r.below(6) {
                0 => format!("<{name}"),
                1 => format!("{name}>"),
                2 => "<>".into(),
                3 => format!("<1{name}>"),
                4 => format!("<{name}.x>"),
                _ => format!("<{name}>>"),
            };
            ("ill-formed identity", rep(i, &new))
        }
        15 => {
            let tail = *r.pick(&[" 1", " )", ")", "]", "}", " x", ", 2", " \"\"", " true", ";", " :", "\n)", " <a> 1", ","]);
            if verbose_root && (tail == " :" || tail.trim_end() != tail) {
                return None;
            }
            ("anything left over", format!("{}{}", s.trim_end(), tail))
        }
        16 => {
            let o = toks.iter().position(|p| p.tok == Tok::Open)?;
            if verbose_root || toks.first().map(|p| !matches!(p.tok, Tok::Open | Tok::Ident)).unwrap_or(true) {
                return None;
            }
            let lo = toks[o].end;
            let hi = s.trim_end().len();
            if hi <= lo {
                return None;
            }
            let mut i = r.range(lo, hi);
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            ("text cut short", s[..i].to_string())
        }
        17 => {
            let i = pick(r, &|p| p.tok == Tok::Header)?;
            let h = &s[toks[i].at..toks[i].end];
            let double = h.starts_with("[[");
            let inner = h.trim_matches(|c| c == '[' || c == ']');
            let name = inner.split(':').next().unwrap_or("");
            let (o, c) = if double { ("[[", "]]") } else { ("[", "]") };
            let new = match r.below(8) {
                0 => format!("{o}{inner}"),
                1 => format!("{inner}{c}"),
                2 if double => format!("{o}{c}"),
                3 => format!("{o}{name}:{c}"),
                4 => format!("{o}{inner}{c} x"),
                5 if double => format!("[[{inner}]"),
                6 => format!("{o}{name} y{c}"),
                _ => format!("{o}:{name}{c}"),
            };
            ("ill-formed header", rep(i, &new))
        }
        _ => {
            let i = pick(r, &|p| p.tok == Tok::Field)?;
            let f = &s[toks[i].at..toks[i].end];
            let new = match r.below(4) {
                0 => format!("1{f}"),
                1 => format!("{f} {f}"),
                2 => format!("{f}.x"),
                _ => format!("\"{f}\""),
            };
            ("ill-formed field name", rep(i, &new))
        }
    };
    Some((out.0, s.clone(), out.1))
}

fn c07(ctx: &mut Ctx, case: u64) -> R {
    if case % 512 == 0 {
        for s in ["", " ", "\n", "\t\n ", "\r\n", "  \n\n  ", ",", "=", ":", "<a>", "a =", "a", "[a]", "[a]\n", ":", "\"", "str", "str\"", "b91'", "(", "[", "{", "x ("] {
            ensure!(parse::parse(s).is_err(), "malformed text is accepted", "{s:?} => {:?}", parse::parse(s).ok());
            ctx.hit("fixed malformed texts");
        }
    }
    let t = model::of(&plain_tree(&mut ctx.r).build());
    // `str` in front of anything may start a string
    let mut odd = false;
    t.walk(&mut |n| {
        odd |= n.id.as_deref().unwrap_or("").starts_with("str");
        if let V::Cntr(f) = &n.v {
            odd |= f.iter().any(|(k, _)| k.starts_with("str"));
        }
    });
    if odd {
        ctx.hit("skipped: a name that is the string prefix");
        return Ok(());
    }
    let Some((what, good, bad)) = defect(&mut ctx.r, &t) else {
        ctx.hit("defect does not apply");
        return Ok(());
    };
    match calm("parsing", || format!("{bad:?}"), || parse::parse(&bad).map(|k| model::of(&k)).is_ok())? {
        false => {
            ctx.hit(what);
            ctx.state_s(&bad);
            ctx.sample(|| format!("{what}: {bad:?}"));
            Ok(())
        }
        true => {
            let v = parse::parse(&bad).map(|k| format!("{k:?}")).unwrap_or_default();
            fail(format!("text with a defect is accepted: {what}"), format!("well formed: {good:?}\nwith defect: {bad:?}\nread as: {}", head(&v)))
        }
    }
}

pub static C07: Prop = Prop {
    id: "C07",
    quick: 5_000_000,
    thorough: 90_000_000,
    rule: "one syntactic defect is injected at a random token of well-formed text from an independent printer, and the parser must refuse; distinct: by defective text",
    required: &[
        "missing closing delimiter", "missing opening delimiter", "extra delimiter", "mismatched delimiter", "missing separator",
        "doubled separator", "stray separator", "missing equals sign", "missing field name", "missing value", "missing colon",
        "missing quote", "unknown bare word", "ill-formed number", "ill-formed identity", "anything left over", "text cut short",
        "ill-formed header", "ill-formed field name", "fixed malformed texts",
    ],
    bounded: false,
    assumptions: &["separators between entries on separate lines may be any blank space"],
    run: c07,
};

// ---------------------------------------------------------------- stability of accepted text

fn neg_zero(t: &T) -> bool {
    let mut z = false;
    t.walk(&mut |n| {
        if let V::Num(model::N::F(f)) = n.v {
            z |= f == 0.0 && f.is_sign_negative();
        }
    });
    z
}

pub fn stable(text: &str, k: &Kserd, c: FormattingConfig) -> Result<Option<String>, Fail> {
    let t = model::of(k);
    let sh = |t: &T| shows(&c, t);
    if text::keys_collide(&t, &sh) {
        return Ok(None);
    }
    // names outside the text form
    let mut odd = false;
    t.walk(&mut |n| {
        odd |= matches!(n.id.as_deref(), Some("true" | "false"));
        if let V::Cntr(f) = &n.v {
            odd |= f.iter().any(|(k, _)| k.starts_with('-'));
        }
    });
    if odd {
        return Ok(None);
    }
    let d = || format!("input {:?}\nconfig {c:?}", head(text));
    let s1 = calm("formatting a parsed value", d, || k.as_str_with_config(c))?;
    let k2 = match calm("parsing again", d, || parse::parse(&s1))? {
        Ok(k) => k,
        Err(e) => return fail("formatted text of a parsed value is refused", format!("{}\ntext {s1:?}\n{}", d(), e.backtrace())),
    };
    let (w, g) = (text::canon(&t, &sh), text::canon(&model::of(&k2), &|_| true));
    ensure!(w == g, "formatted text of a parsed value reads as another value", "{}\ntext {s1:?}\n{}", d(), text::diff(&w, &g));
    let mut hidden = false;
    t.walk(&mut |n| {
        // `name()` is read as a tuple of none and `()` as unit, and these rank differently as keys
        hidden |= match (&n.v, &n.id) {
            (V::Unit, None) => false,
            (V::Tuple(_), Some(_)) => !c.id_on_tuples,
            (_, None) => n.is_zst(),
            (_, Some(_)) => n.is_zst() || !sh(n),
        };
    });
    if !neg_zero(&t) && !hidden {
        let s2 = calm("formatting again", d, || k2.as_str_with_config(c))?;
        ensure!(s1 == s2, "formatting again gives other text", "{}\nfirst {s1:?}\nagain {s2:?}", d());
    }
    Ok(Some(s1))
}

fn c08(ctx: &mut Ctx, case: u64) -> R {
    let s = match ctx.r.below(8) {
        0 => soup(&mut ctx.r, 12),
        1 => written(&mut ctx.r, case),
        _ => {
            let r = &mut ctx.r;
            let (a, b) = if r.bool() {
                let t = plain_tree(r);
                let u = plain_tree(r);
                let st = Style::any(r);
                let a = print(r, &t, st).0;
                let st = Style::any(r);
                (a, print(r, &u, st).0)
            } else {
                (written(r, case), written(r, case + 1))
            };
            mutate(r, &a, &b)
        }
    };
    let k = match calm("parsing", || format!("{:?}", head(&s)), || parse::parse(&s))? {
        Ok(k) => k,
        Err(_) => {
            ctx.hit("refused");
            return Ok(());
        }
    };
    ctx.hit("accepted");
    let t = model::of(&k);
    let mut bad = None;
    t.walk(&mut |n| {
        if let Some(id) = &n.id {
            if !s.contains(id.as_str()) || id.is_empty() {
                bad = Some(format!("identity {id:?}"));
            }
        }
        match &n.v {
            V::Str(x) if !s.contains(x.as_str()) => bad = Some(format!("string {x:?}")),
            V::Cntr(f) => {
                for (name, _) in f {
                    if !s.contains(name.as_str()) || name.is_empty() {
                        bad = Some(format!("field name {name:?}"));
                    }
                }
            }
            _ => (),
        }
    });
    if let Some(b) = bad {
        return fail("parsed value holds text that is not in the input", format!("{b}\ninput {:?}", head(&s)));
    }
    let mut c = gen::config(&mut ctx.r);
    if ctx.r.bool() {
        c.id_on_primitives = true;
        c.id_on_tuples = true;
        c.id_on_containers = true;
        c.id_on_seqs = true;
        c.id_on_maps = true;
    }
    match stable(&s, &k, c)? {
        None => ctx.hit("skipped: keys spelled alike or odd names"),
        Some(f) => {
            ctx.hit(if f == s { "accepted as the formatter writes it" } else { "accepted in another spelling" });
            ctx.max("nodes", t.nodes() as u64);
            if s.len() > 3 {
                ctx.state_s(&s);
            }
            ctx.sample(|| format!("{s:?} => {f:?}"));
        }
    }
    Ok(())
}

pub static C08: Prop = Prop {
    id: "C08",
    quick: 1_600_000,
    thorough: 25_000_000,
    rule: "mutated, spliced and well-formed texts are parsed; an accepted one is formatted, parsed, compared and formatted again; non-trivial: accepted and longer than three bytes; distinct: by text",
    required: &["accepted", "refused", "accepted in another spelling"],
    bounded: false,
    assumptions: &["the sign of zero is not kept by text", "keys of one map that are spelled alike are left out", "names starting with a dash and identities true and false are left out"],
    run: c08,
};

// ---------------------------------------------------------------- error traces

/// Text that is likely to be refused.
/// A defect more than 65536 lines or columns from the start.
fn far(r: &mut Rng) -> String {
    let n = 65_530 + r.below(12);
    let end = *r.pick(&["?", "(?", "\u{e9}", "\"", "(1, 2", "[1 2]", "x (a = )"]);
    match r.below(6) {
        0 => format!("{}{end}", "\n".repeat(n)),
        1 => format!("{}{end}", " ".repeat(n)),
        2 => format!("[\n{}{end}\n]", "1\n".repeat(n)),
        3 => format!("[{}{end}]", "1, ".repeat(n / 3 + r.below(9))),
        4 => format!("(\"{}\", {end})", "\u{e9}".repeat(n)),
        _ => format!("{}z = {end}", (0..n).map(|i| format!("f{i} = 1\n")).collect::<String>()),
    }
}

pub fn refusable(r: &mut Rng, case: u64) -> String {
    if r.chance(1, 25_000) {
        return far(r);
    }
    match r.below(6) {
        0 => {
            let t = model::of(&plain_tree(r).build());
            match defect(r, &t) {
                Some((_, _, b)) => b,
                None => soup(r, 10),
            }
        }
        1 if r.chance(1, 50) => String::new(),
        _ => hostile(r, case).0,
    }
}

fn c09(ctx: &mut Ctx, case: u64) -> R {
    let s = refusable(&mut ctx.r, case);
    let e = match parse::parse(&s) {
        Ok(_) => {
            ctx.hit("accepted");
            return Ok(());
        }
        Err(e) => e,
    };
    let h = || format!("{:?}", head(&s));
    calm("reading the error", h, || poke_error(&e, &head(&s)))??;
    let traces: Vec<_> = e.iter().collect();
    // an independent split into lines
    let mut lines: Vec<(usize, &str)> = Vec::new();
    let mut at = 0;
    for l in s.split_inclusive('\n') {
        let body = l.strip_suffix('\n').unwrap_or(l);
        let body = if l.ends_with('\n') { body.strip_suffix('\r').unwrap_or(body) } else { body };
        lines.push((at, body));
        at += l.len();
    }
    for (i, t) in traces.iter().enumerate() {
        if s.is_empty() {
            ensure!(t.line == 0 && t.col == 0 && t.linestr.is_empty(), "empty input is given a place", "{t:?}");
            ctx.hit("traces of empty input");
            continue;
        }
        ensure!(t.line >= 1 && t.line <= lines.len(), "line is not in the input", "trace {i} {t:?}\n{}", h());
        let (start, body) = lines[t.line - 1];
        ensure!(t.linestr == body, "quoted line differs from the input", "trace {i} {t:?}\nline {body:?}\n{}", h());
        ensure!(
            t.linestr.as_ptr() == s[start..].as_ptr(),
            "quoted line is not the one of the input",
            "trace {i} {t:?}\n{}",
            h()
        );
        let next = lines.get(t.line).map(|l| l.0).unwrap_or(s.len() + 1);
        let off = start + t.col.wrapping_sub(1);
        ensure!(t.col >= 1 && off < next, "column is not in the line", "trace {i} {t:?}\n{}", h());
        ensure!(s.is_char_boundary(off), "column splits a character", "trace {i} {t:?}\n{}", h());
        if let Some(x) = t.msg.find(", found '") {
            let c = t.msg[x + ", found '".len()..].chars().next();
            let at = s[off..].chars().next();
            ensure!(c == at, "found character is not at that place", "trace {i} {t:?}\nthere: {at:?}\n{}", h());
            // and was not the expected one
            if let Some(y) = t.msg.strip_prefix("expected '") {
                ensure!(y.chars().next() != at, "the expected character is there", "trace {i} {t:?}\n{}", h());
            }
            ctx.hit("traces with a found character");
        }
        if t.msg.contains("reached end") {
            ensure!(t.col > body.len(), "end of line reported inside the line", "trace {i} {t:?}\n{}", h());
            ctx.hit("traces at an end of line");
        }
        ensure!(!t.msg.is_empty(), "trace without a message", "trace {i}\n{}", h());
        ctx.hit("traces checked");
        if !s.is_ascii() {
            ctx.hit("traces in multi-byte text");
        }
    }
    // the backtrace is the traces in order
    let mut want = String::new();
    for (i, t) in traces.iter().enumerate() {
        if i > 0 {
            want.push_str("\n\n");
        }
        want.push_str(&format!("#{i}: at {}:{} :: {}\n{}\n", t.line, t.col, t.msg, t.linestr));
        if t.col > 0 {
            want.push_str(&" ".repeat(t.col - 1));
            want.push('^');
        }
    }
    let got = e.backtrace();
    ensure!(got == want, "backtrace is not the traces in order", "got\n{got}\nwant\n{want}\n{}", h());
    for (i, t) in traces.iter().enumerate() {
        ensure!(got.contains(&format!("#{i}: {t}")), "printed trace differs from the backtrace", "{t}\n{}", h());
    }
    ctx.max("traces in an error", traces.len() as u64);
    ctx.max("lines", lines.len() as u64);
    if s.len() > 1 {
        ctx.state_s(&format!("{s}{}", traces.len()));
    }
    ctx.sample(|| format!("{s:?} => {:?}", traces.first()));
    Ok(())
}

pub static C09: Prop = Prop {
    id: "C09",
    quick: 500_000,
    thorough: 7_000_000,
    rule: "every trace of every error from hostile and defective text is checked against an independent split of the input into lines; non-trivial: input longer than one byte; distinct: by text",
    required: &[
        "traces checked", "traces with a found character", "traces at an end of line", "traces in multi-byte text",
        "traces of empty input",
    ],
    bounded: false,
    assumptions: &["columns count bytes from one"],
    run: c09,
};
