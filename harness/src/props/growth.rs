//! Work grows with size and nesting only.

use crate::alloc;
use crate::ensure;
use crate::gen;
use crate::gram::{Printer, Style};
use crate::model::{N, T, V};
use crate::mon::*;
use crate::text;
use kserd::fmt::FormattingConfig;
use kserd::parse;

fn n(i: usize) -> T {
    T::new(V::Num(N::U(i as u128)))
}
fn st(i: usize) -> T {
    T::new(V::Str(format!("s{i}")))
}

/// What a family repeats.
const ITEMS: usize = 11;
fn item(k: usize, i: usize) -> T {
    let v = match k {
        0 => return n(i),
        1 => return st(i),
        2 => V::Tuple(vec![n(i), st(i)]),
        3 => V::Cntr(vec![("a".into(), n(i)), ("b".into(), st(i))]),
        4 => V::Seq(vec![n(i), n(i + 1)]),
        5 => V::Map(vec![(n(i), st(i)), (st(i), n(i))]),
        6 => V::Tuple(vec![]),
        7 => V::Barr(vec![i as u8; 5]),
        8 => V::Map(vec![(T::new(V::Tuple(vec![T::new(V::Seq(vec![n(i)]))])), n(i))]),
        9 => V::Cntr(vec![("x".into(), T::new(V::Cntr(vec![("y".into(), n(i))])))]),
        _ => return T::id("name", V::Unit),
    };
    T::id("id", v)
}

const FLATS: usize = 7;
fn flat(k: usize, it: usize, size: usize) -> T {
    let xs = || (0..size).map(|i| item(it, i));
    let v = match k {
        0 => V::Tuple(xs().collect()),
        1 => V::Seq(xs().collect()),
        2 => V::Map(xs().enumerate().map(|(i, x)| (n(i), x)).collect()),
        3 => V::Map(xs().enumerate().map(|(i, x)| (T::new(V::Tuple(vec![n(i), x])), n(0))).collect()),
        4 => V::Cntr(xs().enumerate().map(|(i, x)| (format!("f{i}"), x)).collect()),
        5 => V::Cntr(vec![("list".into(), T::new(V::Seq(xs().collect())))]),
        _ => V::Cntr(vec![("map".into(), T::new(V::Map(xs().enumerate().map(|(i, x)| (n(i), x)).collect())))]),
    };
    T::new(v)
}

const STEPS: usize = 9;
/// One level of nesting around `t`.
fn step(k: usize, t: T) -> T {
    T::new(match k {
        0 => V::Tuple(vec![t]),
        1 => V::Seq(vec![t]),
        2 => V::Cntr(vec![("a".into(), t)]),
        3 => V::Map(vec![(n(0), t)]),
        4 => V::Map(vec![(t, n(0))]),
        5 => V::Tuple(vec![n(1), t, st(2)]),
        6 => V::Cntr(vec![("a".into(), n(1)), ("b".into(), t), ("c".into(), st(2))]),
        7 => V::Seq(vec![st(1), t, n(2)]),
        _ => V::Map(vec![(n(0), st(0)), (n(1), t), (n(2), n(2))]),
    })
}

fn styles(k: usize) -> Style {
    match k {
        0 => Style::inline(),
        1 => Style { multi8: 8, ..Style::inline() },
        2 => Style { verbose8: 8, ..Style::inline() },
        3 => Style { verbose8: 8, multi8: 8, ..Style::inline() },
        _ => Style { verbose8: 5, multi8: 5, spacing: true, blank_lines: true, ..Style::inline() },
    }
}

/// Raw texts that no printer writes.
const RAWS: usize = 22;
fn raw(k: usize, m: usize) -> String {
    match k {
        0 => " ".repeat(m),
        1 => "\n".repeat(m),
        2 => format!("a = 1{}", "\n".repeat(m)),
        3 => format!("[{}", "[]".repeat(m)),
        4 => format!("\"{}", "x".repeat(m)),
        5 => format!("a = 1\n{}", "    \n".repeat(m)),
        6 => "a = ".repeat(m),
        7 => "<a> ".repeat(m),
        8 => format!("(\n{}", "1\n".repeat(m)),
        9 => "[[a]]\n".repeat(m),
        10 => "[a]\n".repeat(m),
        11 => ":a\n".repeat(m),
        12 => format!("{}1", "a".repeat(m)),
        13 => "1".repeat(m),
        14 => format!("b91'{}", "A".repeat(m)),
        15 => format!("str#{}", "x".repeat(m)),
        16 => format!("[{}", "1, ".repeat(m)),
        17 => format!("{{{}", "1: 2, ".repeat(m)),
        18 => format!("({}", "a = 1, ".repeat(m)),
        19 => format!("[[a]]\n{}", "1: 2\n[[a]]\n".repeat(m)),
        20 => "a = 1\n[b]\n    c = 2\n".repeat(m),
        _ => format!("[\n{}", "(\n1\n)\n".repeat(m)),
    }
}

fn nesting(s: &str) -> u64 {
    // brackets, plus indents of lines
    let (mut d, mut top) = (0i64, 0i64);
    for c in s.chars() {
        match c {
            '(' | '[' | '{' => d += 1,
            ')' | ']' | '}' => d = (d - 1).max(0),
            _ => (),
        }
        top = top.max(d);
    }
    let ind = s.lines().map(|l| l.len() - l.trim_start().len()).max().unwrap_or(0) / 4;
    1 + top as u64 + ind as u64
}

struct Meter {
    traffic: u64,
    calls: u64,
    cpu: f64,
}

/// The least processor time of up to three goes; later goes only when the first looks slow.
fn meter<O>(slow: f64, f: &mut dyn FnMut() -> O) -> (O, Meter) {
    let a = alloc::now();
    let t = cpu_s();
    let mut o = f();
    let mut cpu = cpu_s() - t;
    let u = alloc::now().since(a);
    for _ in 0..2 {
        if cpu > slow {
            let t = cpu_s();
            o = f();
            cpu = cpu.min(cpu_s() - t);
        }
    }
    (o, Meter { traffic: u.bytes, calls: u.calls, cpu })
}

/// Multiples calibrated on the unchanged tree with a wide margin (see DESIGN.md).
const PARSE_BYTES: u64 = 1500;
const PARSE_CALLS: u64 = 14;
const PARSE_NS: f64 = 1000.0;
const FMT_BYTES: u64 = 1500;
const FMT_CALLS: u64 = 5;
const FMT_NS: f64 = 2_500.0;

fn parse_work(ctx: &mut Ctx, what: &str, s: &str) -> R {
    let (len, depth) = (s.len() as u64, nesting(s));
    let unit = len * depth;
    let slow = PARSE_NS * 1e-9 * unit as f64 + 0.05;
    let (ok, m) = meter(slow, &mut || parse::parse(s).is_ok());
    let d = || format!("{what}: {len} bytes, nesting {depth}\n{:?}", s.chars().take(300).collect::<String>());
    ensure!(
        m.traffic <= PARSE_BYTES * unit + 65536,
        "parsing asks for more memory than size and nesting explain",
        "{} bytes in {} requests, {}", m.traffic, m.calls, d()
    );
    ensure!(
        m.calls <= PARSE_CALLS * unit + 1024,
        "parsing makes more memory requests than size and nesting explain",
        "{} bytes in {} requests, {}", m.traffic, m.calls, d()
    );
    ensure!(m.cpu <= slow, "parsing takes more time than size and nesting explain", "{:.3} s, {}", m.cpu, d());
    ctx.hit(if ok { "accepted texts" } else { "refused texts" });
    ctx.max("text bytes", len);
    ctx.max("text nesting", depth);
    if len > 200 {
        ctx.max("parse: memory per byte and level, hundredths", m.traffic * 100 / unit);
        ctx.max("parse: requests per byte and level, thousandths", m.calls * 1000 / unit);
    }
    if len > 20_000 {
        ctx.max("parse: picoseconds per byte and level", (m.cpu * 1e12 / unit as f64) as u64);
        ctx.hit("texts over 20 kB");
    }
    ctx.state_s(&format!("{what} {len} {depth}"));
    ctx.sample(|| format!("{what}: {len} bytes, nesting {depth}: {} bytes of memory, {:.1} us", m.traffic, m.cpu * 1e6));
    Ok(())
}

fn fmt_work(ctx: &mut Ctx, what: &str, t: &T, c: FormattingConfig) -> R {
    let k = t.build();
    let mut chars = 0u64;
    let mut name = 4u64;
    t.walk(&mut |n| {
        chars += match &n.v {
            V::Str(s) => s.len() as u64,
            V::Barr(b) => 2 * b.len() as u64,
            V::Cntr(f) => {
                for x in f {
                    name = name.max(x.0.len() as u64);
                }
                0
            }
            _ => 0,
        } / 16;
    });
    // a level of indentation can be as wide as the longest name
    let (nodes, depth) = (t.nodes() as u64 + chars, t.depth() as u64 + 1);
    let unit = nodes * depth * (1 + name / 8);
    let slow = FMT_NS * 1e-9 * unit as f64 + 0.05;
    let (len, m) = meter(slow, &mut || k.as_str_with_config(c).len());
    let d = || format!("{what}: {nodes} nodes, depth {depth}, {len} bytes of text\n{c:?}");
    ensure!(
        m.traffic <= FMT_BYTES * unit + 65536,
        "formatting asks for more memory than size and nesting explain",
        "{} bytes in {} requests, {}", m.traffic, m.calls, d()
    );
    ensure!(
        m.calls <= FMT_CALLS * unit + 1024,
        "formatting makes more memory requests than size and nesting explain",
        "{} bytes in {} requests, {}", m.traffic, m.calls, d()
    );
    ensure!(m.cpu <= slow, "formatting takes more time than size and nesting explain", "{:.3} s, {}", m.cpu, d());
    ctx.hit("formatted values");
    ctx.max("nodes", nodes);
    ctx.max("depth", depth);
    if nodes > 20 {
        ctx.max("format: memory per node and level, hundredths", m.traffic * 100 / unit);
        ctx.max("format: requests per node and level, thousandths", m.calls * 1000 / unit);
    }
    if nodes > 2000 {
        ctx.max("format: nanoseconds per node and level", (m.cpu * 1e9 / unit as f64) as u64);
        ctx.hit("values over 2000 nodes");
    }
    ctx.state_s(&format!("{what} {nodes} {depth} {:?}", c.width_limit));
    Ok(())
}

/// Four times the entries may cost at most twice four times the work.
fn scale(ctx: &mut Ctx, what: &str, pair: &mut dyn FnMut(usize) -> Box<dyn FnMut() -> u64>) -> R {
    let (mut small, mut big) = (pair(0), pair(1));
    // less than this is not judged by time
    let (units_small, a) = meter(f64::MAX, &mut *small);
    let (units_big, b) = meter(f64::MAX, &mut *big);
    let f = units_big as f64 / units_small.max(1) as f64;
    let d = |a: &Meter, b: &Meter| {
        format!(
            "{what}: {f:.1} times the size, memory {} -> {} bytes, requests {} -> {}, time {:.6} -> {:.6} s",
            a.traffic, b.traffic, a.calls, b.calls, a.cpu, b.cpu
        )
    };
    ensure!(
        b.traffic as f64 <= 2.0 * f * a.traffic as f64 + 65536.0,
        "memory grows faster than size", "{}", d(&a, &b)
    );
    ensure!(b.calls as f64 <= 2.0 * f * a.calls as f64 + 1024.0, "memory requests grow faster than size", "{}", d(&a, &b));
    let slow = |a: f64, b: f64| b > 2.2 * f * a + 0.03;
    if slow(a.cpu, b.cpu) {
        // look again: the fastest go of the big one against the slowest of the small
        let (mut x, mut y) = (a.cpu, b.cpu);
        for _ in 0..4 {
            x = x.max(meter(f64::MAX, &mut *small).1.cpu);
            y = y.min(meter(f64::MAX, &mut *big).1.cpu);
        }
        ctx.hit("time measured again");
        ensure!(!slow(x, y), "time grows faster than size", "{what}: {f:.1} times the size, {x:.6} -> {y:.6} s");
    }
    ctx.hit("growth measured");
    if a.traffic > 65536 {
        ctx.max("memory growth over size growth, hundredths", (100.0 * b.traffic as f64 / a.traffic as f64 / f) as u64);
    }
    if b.cpu > 0.01 {
        ctx.max("time growth over size growth, hundredths", (100.0 * b.cpu / a.cpu / f) as u64);
    }
    Ok(())
}

fn write(t: &T, style: usize) -> String {
    let mut r = crate::rng::Rng::new(7);
    let mut p = Printer::new(&mut r, styles(style));
    p.root(t);
    p.out
}

fn scale_flat(ctx: &mut Ctx, f: usize, it: usize, st: usize) -> R {
    let what = format!("flat {f} of item {it} style {st}");
    let ts = [flat(f, it, 3000), flat(f, it, 12000)];
    let texts = [write(&ts[0], st), write(&ts[1], st)];
    let bad: Vec<String> = texts.iter().map(|t| format!("{} ;", t.trim_end())).collect();
    for (texts, kind) in [(&texts[..], "parse"), (&bad[..], "refuse")] {
        scale(ctx, &format!("{kind} {what}"), &mut |i| {
            let s = texts[i].clone();
            Box::new(move || {
                let _ = parse::parse(&s).is_ok();
                s.len() as u64
            })
        })?;
    }
    let ks = [ts[0].build(), ts[1].build()];
    let nodes = [ts[0].nodes() as u64, ts[1].nodes() as u64];
    for w in [None, Some(0), Some(60)] {
        let mut c = FormattingConfig::default();
        c.width_limit = w;
        scale(ctx, &format!("format {what} {w:?}"), &mut |i| {
            let k = ks[i].clone();
            let n = nodes[i];
            Box::new(move || {
                let _ = k.as_str_with_config(c);
                n
            })
        })?;
    }
    ctx.state_s(&what);
    Ok(())
}

fn scale_text(ctx: &mut Ctx, what: &str, texts: [String; 2], units: [u64; 2]) -> R {
    scale(ctx, what, &mut |i| {
        let s = texts[i].clone();
        let u = units[i];
        Box::new(move || {
            let _ = parse::parse(&s).is_ok();
            u
        })
    })
}

fn nest(a: usize, b: usize, it: usize, d: usize) -> T {
    let mut t = item(it, 1);
    for i in 0..d {
        t = step(if i % 2 == 0 { a } else { b }, t);
    }
    t
}

fn scale_nested(ctx: &mut Ctx, a: usize, b: usize, st: usize) -> R {
    let what = format!("nested {a}/{b} style {st}");
    let it = ctx.r.below(ITEMS);
    let ts = [nest(a, b, it, 24), nest(a, b, it, 96)];
    let texts = [write(&ts[0], st), write(&ts[1], st)];
    let units = [texts[0].len() as u64 * 24, texts[1].len() as u64 * 96];
    for cut in [0, 1, 12] {
        let t = |i: usize| {
            let s = texts[i].trim_end();
            s[..s.len() - cut].to_string()
        };
        scale_text(ctx, &format!("parse {what} without the last {cut}"), [t(0), t(1)], units)?;
    }
    ctx.state_s(&what);
    Ok(())
}

fn both(ctx: &mut Ctx, what: &str, t: &T, style: usize) -> R {
    let text = {
        let mut p = Printer::new(&mut ctx.r, styles(style));
        p.root(t);
        p.out
    };
    parse_work(ctx, what, &text)?;
    // the same, refused at the end and in the middle
    let mut bad = text.trim_end().to_string();
    bad.pop();
    while !bad.is_char_boundary(bad.len()) {
        bad.pop();
    }
    parse_work(ctx, what, &bad)?;
    bad.push_str(" ;");
    parse_work(ctx, what, &bad)?;
    let mut i = ctx.r.below(text.len() + 1);
    while !text.is_char_boundary(i) {
        i -= 1;
    }
    let bad = format!("{} ? {}", &text[..i], &text[i..]);
    parse_work(ctx, what, &bad)?;
    for w in [None, Some(0), Some(10), Some(60), Some(u16::MAX)] {
        let mut c = FormattingConfig::default();
        c.width_limit = w;
        c.id_on_primitives = true;
        c.id_on_seqs = true;
        c.id_on_maps = true;
        fmt_work(ctx, what, t, c)?;
    }
    Ok(())
}

const GRID: u64 = (FLATS * ITEMS * 5 + STEPS * STEPS * 5 + RAWS) as u64;

fn c05(ctx: &mut Ctx, case: u64) -> R {
    let mut k = (case % GRID) as usize;
    let round = case / GRID;
    if k < FLATS * ITEMS * 5 {
        let (f, it, st) = (k % FLATS, k / FLATS % ITEMS, k / FLATS / ITEMS);
        if round == 0 {
            return scale_flat(ctx, f, it, st);
        }
        let size = *ctx.r.pick(&[30, 100, 400, 1200]);
        ctx.hit("flat families");
        return both(ctx, &format!("flat {f} of item {it} style {st}"), &flat(f, it, size), st);
    }
    k -= FLATS * ITEMS * 5;
    if k < STEPS * STEPS * 5 {
        let d = *ctx.r.pick(&[12, 30, 90, 140]);
        let (a, b, st) = (k % STEPS, k / STEPS % STEPS, k / STEPS / STEPS);
        if round == 0 {
            return scale_nested(ctx, a, b, st);
        }
        let it = ctx.r.below(ITEMS);
        let t = nest(a, b, it, d);
        ctx.hit("nested families");
        return both(ctx, &format!("nested {a}/{b} style {st}"), &t, st);
    }
    k -= STEPS * STEPS * 5;
    if round == 0 {
        let t = [raw(k, 4000), raw(k, 16000)];
        let u = [t[0].len() as u64, t[1].len() as u64];
        return scale_text(ctx, &format!("raw {k}"), t, u);
    }
    let m = *ctx.r.pick(&[100, 1000, 20_000, 40_000]);
    let s = raw(k, m);
    ctx.hit("raw families");
    parse_work(ctx, &format!("raw {k}"), &s)?;
    // a mixture
    let t = match ctx.r.below(3) {
        0 => gen::big(&mut ctx.r),
        1 => {
            let d = ctx.r.range(5, 100);
            gen::chain(&mut ctx.r, d)
        }
        _ => gen::tree(&mut ctx.r, gen::Prof::deep()),
    };
    if !text::keys_collide(&t, &|_| true) {
        ctx.hit("mixtures");
        let st = ctx.r.below(5);
        both(ctx, "mixture", &t, st)?;
    }
    Ok(())
}

pub static C05: Prop = Prop {
    id: "C05",
    quick: GRID * 4,
    thorough: GRID * 60,
    rule: "texts and values of growing families are parsed and formatted under the allocator and processor-time meters; distinct: by family, size, nesting and width limit",
    required: &[
        "accepted texts", "refused texts", "formatted values", "flat families", "nested families", "raw families", "mixtures",
        "growth measured", "texts over 20 kB", "values over 2000 nodes",
    ],
    bounded: true,
    assumptions: &["time is the least of three goes, judged against a wide multiple plus 50 ms"],
    run: c05,
};
