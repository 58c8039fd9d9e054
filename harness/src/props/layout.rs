//! Layouts: which may be asked for, which the width limit chooses, and how each is written.

use crate::ensure;
use crate::gen::{self, Prof};
use crate::model::{T, V};
use crate::mon::*;
use crate::rng::{fnv, Rng};
use kserd::fmt::{Fmt, FmtError, Formatter, FormattingConfig, Repr};
use kserd::Kserd;

/// A node of the model in the navigator's order.
pub struct Ln<'a> {
    pub t: &'a T,
    pub parent: Option<usize>,
    pub key: bool,
    /// positions of keys and values below, by pairs for maps
    pub kids: Vec<usize>,
    pub keys: Vec<usize>,
}

pub fn lines<'a>(t: &'a T) -> Vec<Ln<'a>> {
    fn go<'a>(t: &'a T, parent: Option<usize>, key: bool, o: &mut Vec<Ln<'a>>) -> usize {
        let me = o.len();
        o.push(Ln { t, parent, key, kids: vec![], keys: vec![] });
        let (mut kids, mut keys) = (vec![], vec![]);
        match &t.v {
            V::Tuple(x) | V::Seq(x) => kids.extend(x.iter().map(|t| go(t, Some(me), false, o))),
            V::Cntr(x) => kids.extend(x.iter().map(|(_, t)| go(t, Some(me), false, o))),
            V::Map(x) => {
                for (k, t) in x {
                    keys.push(go(k, Some(me), true, o));
                    kids.push(go(t, Some(me), false, o));
                }
            }
            _ => (),
        }
        o[me].kids = kids;
        o[me].keys = keys;
        me
    }
    let mut o = Vec::new();
    go(t, None, false, &mut o);
    o
}

fn list_like(t: &T) -> bool {
    matches!(t.v, V::Seq(_) | V::Map(_))
}

/// The highest layout the rules allow a value of this kind in this place.
pub fn highest(o: &[Ln], i: usize) -> Repr {
    let n = &o[i];
    if n.kids.is_empty() {
        return Repr::Inline;
    }
    if matches!(n.t.v, V::Tuple(_)) || n.key {
        return Repr::Concise;
    }
    if list_like(n.t) && n.parent.is_some_and(|p| list_like(o[p].t)) {
        return Repr::Concise;
    }
    if list_like(n.t) && i == 0 {
        return Repr::Concise;
    }
    Repr::Verbose
}

/// Where every node starts: at its highest, no higher than its parent.
pub fn start(o: &[Ln]) -> Vec<Repr> {
    let mut r: Vec<Repr> = Vec::new();
    for i in 0..o.len() {
        let h = highest(o, i);
        let p = o[i].parent.map_or(Repr::Verbose, |p| r[p]);
        r.push(h.min(p));
    }
    r
}

/// The value and its model, entries of maps in the value's order.
fn built(t: T) -> (Kserd<'static>, T) {
    let k = t.build();
    let t = crate::model::of(&k);
    (k, t)
}

fn shows(c: &FormattingConfig, t: &T) -> bool {
    match t.v {
        V::Tuple(_) => c.id_on_tuples,
        V::Cntr(_) => c.id_on_containers,
        V::Seq(_) => c.id_on_seqs,
        V::Map(_) => c.id_on_maps,
        _ => c.id_on_primitives,
    }
}

fn word(r: Repr) -> &'static str {
    match r {
        Repr::Inline => "inline",
        Repr::Concise => "concise",
        Repr::Verbose => "verbose",
    }
}

// ---------------------------------------------------------------- C28

fn lower(o: &[Ln], at: &mut [Repr], i: usize, to: Repr) {
    for &c in o[i].kids.iter().chain(&o[i].keys) {
        at[c] = at[c].min(to);
        lower(o, at, c, to);
    }
}

fn c28(ctx: &mut Ctx, case: u64) -> R {
    let t = if case % 50 == 49 {
        let d = ctx.r.below(40);
        gen::chain(&mut ctx.r, d)
    } else {
        gen::any(&mut ctx.r)
    };
    let (k, t) = built(t);
    let o = lines(&t);
    let mut f = Formatter::new(&k);
    let mut at = start(&o);
    let mut ids = vec![true; o.len()];
    let mut log: Vec<String> = vec!["start".into()];
    let check = |f: &Formatter, at: &[Repr], ids: &[bool], log: &[String]| -> R {
        let fs: &[Fmt] = f.fmts();
        ensure!(fs.len() == o.len() && f.len() == o.len(), "another number of nodes", "{} of {}", fs.len(), o.len());
        for i in 0..fs.len() {
            ensure!(
                fs[i].line == at[i],
                "a node has another layout than it should",
                "node {i} is {:?}, expected {:?}\nafter {log:?}\n{t:?}",
                fs[i].line,
                at[i]
            );
            ensure!(fs[i].id == ids[i], "a node shows or hides its identity wrongly", "node {i}: {}\nafter {log:?}\n{t:?}", fs[i].id);
            ensure!(fs[i].line <= highest(&o, i), "a node is above its own maximum", "node {i}\nafter {log:?}\n{t:?}");
            if let Some(p) = o[i].parent {
                ensure!(fs[i].line <= fs[p].line, "a node is above its parent", "node {i}\nafter {log:?}\n{t:?}");
            }
        }
        Ok(())
    };
    check(&f, &at, &ids, &log)?;
    let n = *ctx.r.pick(&[0, 2, 5, 10, 20]);
    for _ in 0..n {
        let i = match ctx.r.below(12) {
            0 => o.len() + ctx.r.below(3),
            1 => usize::MAX - ctx.r.below(2),
            2 | 3 => 0,
            _ => ctx.r.below(o.len()),
        };
        match ctx.r.below(20) {
            0 => {
                let c = gen::config(&mut ctx.r);
                log.push(format!("{c:?}"));
                f.apply_config(c);
                for j in 0..o.len() {
                    ids[j] = shows(&c, o[j].t);
                }
                // which layout the limit chooses is judged elsewhere; it must keep the rules
                at = f.fmts().iter().map(|x| x.line).collect();
                ctx.hit("configurations applied");
            }
            1 | 2 => {
                let w = ctx.r.bool();
                log.push(format!("id({i}, {w})"));
                let got = f.id(i, w);
                if i < o.len() {
                    ensure!(got.is_ok(), "showing an identity is refused", "{got:?}\nafter {log:?}\n{t:?}");
                    ids[i] = w;
                } else {
                    ensure!(got == Err(FmtError::IdxOutOfBounds), "an index out of range is not reported", "{got:?}\nafter {log:?}\n{t:?}");
                }
                ctx.hit("identities switched");
            }
            _ => {
                let want = *ctx.r.pick(&[Repr::Inline, Repr::Concise, Repr::Concise, Repr::Verbose, Repr::Verbose]);
                log.push(format!("{}({i})", word(want)));
                let got = match want {
                    Repr::Inline => f.inline(i),
                    Repr::Concise => f.concise(i),
                    Repr::Verbose => f.verbose(i),
                };
                let mut reasons: Vec<FmtError> = vec![];
                if i >= o.len() {
                    reasons.push(FmtError::IdxOutOfBounds);
                } else {
                    if i == 0 && list_like(&t) && want == Repr::Verbose {
                        reasons.push(FmtError::SeqMapAtRoot);
                    } else if want > highest(&o, i) {
                        reasons.push(FmtError::RequestTooHigh(word(highest(&o, i)), word(want)));
                    }
                    if let Some(p) = o[i].parent {
                        if want > at[p] {
                            reasons.push(if at[p] == Repr::Inline { FmtError::ParentIsInline } else { FmtError::ParentIsConcise });
                        }
                    }
                }
                match got {
                    Ok(()) => {
                        ensure!(reasons.is_empty(), "a request against the rules is accepted", "expected {reasons:?}\nafter {log:?}\n{t:?}");
                        ctx.hit(if at[i] < want {
                            "layouts raised"
                        } else if at[i] > want {
                            "layouts lowered"
                        } else {
                            "layouts kept"
                        });
                        at[i] = want;
                        lower(&o, &mut at, i, want);
                    }
                    Err(e) => {
                        ensure!(!reasons.is_empty(), "a request within the rules is refused", "{e:?}\nafter {log:?}\n{t:?}");
                        ensure!(reasons.contains(&e), "a refusal gives another reason", "{e:?}, expected {reasons:?}\nafter {log:?}\n{t:?}");
                        ensure!(!e.to_string().is_empty(), "a refusal says nothing", "{e:?}");
                        ctx.hit(match e {
                            FmtError::IdxOutOfBounds => "refused: index",
                            FmtError::ParentIsInline => "refused: parent inline",
                            FmtError::ParentIsConcise => "refused: parent concise",
                            FmtError::RequestTooHigh(..) => "refused: above the kind",
                            FmtError::SeqMapAtRoot => "refused: list at root",
                        });
                    }
                }
            }
        }
        check(&f, &at, &ids, &log)?;
        ctx.hit("requests");
    }
    if o.len() > 1 {
        ctx.state(fnv(format!("{t:?}{log:?}").as_bytes()));
    }
    ctx.sample(|| format!("{log:?} on {t:?}"));
    Ok(())
}

pub static C28: Prop = Prop {
    id: "C28",
    quick: 1_500_000,
    thorough: 30_000_000,
    rule: "up to 20 requests, identity switches and configurations on the nodes of a random tree, the answer and the layout of every node compared after each with a model of the documented rules; distinct: by tree and requests, of more than one node",
    required: &["requests", "layouts raised", "layouts lowered", "layouts kept", "identities switched", "configurations applied", "refused: index", "refused: parent inline", "refused: parent concise", "refused: above the kind", "refused: list at root"],
    bounded: false,
    assumptions: &["where two reasons for a refusal apply either may be reported"],
    run: c28,
};

// ---------------------------------------------------------------- C29

/// Line ends inside strings written as `with`.
fn line_ends(t: &mut T, with: &str) {
    match &mut t.v {
        V::Str(s) => *s = s.replace('\r', "").replace('\n', with),
        V::Tuple(x) | V::Seq(x) => x.iter_mut().for_each(|t| line_ends(t, with)),
        V::Cntr(x) => x.iter_mut().for_each(|x| line_ends(&mut x.1, with)),
        V::Map(x) => x.iter_mut().for_each(|(k, t)| {
            line_ends(k, with);
            line_ends(t, with)
        }),
        _ => (),
    }
}

/// Two characters for a line end, which counts two.
const TWO: &str = "\u{e000}\u{e001}";

fn chars(s: &str) -> usize {
    s.chars().count()
}

struct Widths<'a> {
    o: Vec<Ln<'a>>,
    /// of every node written on one line
    inline: Vec<usize>,
    /// of every node, widest line with everything delimited over several lines, keys on one
    concise: Vec<usize>,
}

fn widths<'a>(t: &'a T, c: FormattingConfig) -> Widths<'a> {
    let o = lines(t);
    let c = FormattingConfig { width_limit: None, ..c };
    let (mut inline, mut concise) = (vec![], vec![]);
    for n in &o {
        let mut t = n.t.clone();
        line_ends(&mut t, TWO);
        let (k, t) = built(t);
        inline.push(chars(&k.as_str_with_config(c)));
        if n.kids.is_empty() {
            concise.push(inline[inline.len() - 1]);
            continue;
        }
        let p = lines(&t);
        let mut f = Formatter::new(&k);
        for i in 0..p.len() {
            f.id(i, shows(&c, p[i].t)).ok();
            if p[i].key {
                f.inline(i).ok();
            }
        }
        f.concise(0).ok();
        let text = f.write_string(String::new());
        concise.push(text.split('\n').map(chars).max().unwrap_or(0));
    }
    Widths { o, inline, concise }
}

/// The layouts the limit may choose for each node, given those of the nodes above it.
fn choices(w: &Widths, limit: Option<u16>, got: &[Fmt]) -> Vec<Vec<Repr>> {
    let o = &w.o;
    let first = start(o);
    let Some(l) = limit else { return vec![vec![Repr::Inline]; o.len()] };
    if l == 0 {
        return first.into_iter().map(|r| vec![r]).collect();
    }
    let l = l as usize;
    // col: where a value starts if not headed; field: where its headed fields start
    let (mut col, mut field) = (vec![0; o.len()], vec![0; o.len()]);
    let mut may = vec![vec![]; o.len()];
    // delimited somewhere below a headed root: there the column counts only in part
    let mut loose = vec![false; o.len()];
    for i in 0..o.len() {
        let above = o[i].parent.map_or(Repr::Verbose, |p| got[p].line);
        let cap = highest(o, i).min(above);
        let fit = |width: usize| col[i] + width <= l;
        may[i] = if cap == Repr::Inline || fit(w.inline[i]) {
            vec![Repr::Inline]
        } else if cap == Repr::Verbose && !fit(w.concise[i]) {
            vec![Repr::Verbose]
        } else {
            vec![Repr::Concise]
        };
        if may[i][0] == Repr::Concise && cap == Repr::Verbose && o[i].parent.is_some_and(|p| matches!(o[p].t.v, V::Seq(_))) {
            // containers in a sequence need not be delimited
            may[i].push(Repr::Verbose);
        }
        if loose[i] && cap > Repr::Inline && w.inline[i] <= l && may[i][0] > Repr::Inline {
            may[i].push(Repr::Inline);
        }
        let base = match got[i].line {
            Repr::Inline => continue,
            Repr::Concise => col[i] + 4,
            Repr::Verbose => field[i],
        };
        for (j, &c) in o[i].kids.iter().enumerate() {
            let lead = match &o[i].t.v {
                V::Cntr(x) => chars(&x[j].0) + 3,
                V::Map(_) => {
                    let k = o[i].keys[j];
                    col[k] = base;
                    2 + if got[k].line == Repr::Inline { w.inline[k] } else { 1 }
                }
                _ => 0,
            };
            loose[c] = loose[i] || got[i].line == Repr::Concise && above == Repr::Verbose && i > 0;
            if let Some(&k) = o[i].keys.get(j) {
                loose[k] = loose[c];
            }
            col[c] = base + lead;
            field[c] = base + if matches!(o[c].t.v, V::Cntr(_)) { 4 } else { 0 };
        }
    }
    may
}

fn c29(ctx: &mut Ctx, case: u64) -> R {
    let p = Prof { nodes: 24, max_depth: ctx.r.range(1, 5), max_items: ctx.r.range(2, 6), id8: *ctx.r.pick(&[0, 2, 5]), plain: ctx.r.chance(1, 3) };
    let mut t = gen::tree(&mut ctx.r, p);
    if case % 4001 == 4000 {
        // about as wide as a limit can be
        let n = 65_525 + ctx.r.below(14);
        t = T::new(V::Seq(vec![t, T::new(V::Str("w".repeat(n)))]));
    }
    let ends = ctx.r.chance(1, 3);
    line_ends(&mut t, if ends { "\n" } else { "" });
    let (k, t) = built(t);
    let c = gen::config(&mut ctx.r);
    let w = widths(&t, c);
    let mut inside = 0;
    t.walk(&mut |n| {
        if let V::Str(s) = &n.v {
            inside += s.matches('\n').count();
        }
    });
    if inside > 0 {
        ctx.hit("line ends in strings");
    }
    ensure!(
        k.as_str_with_config(FormattingConfig { width_limit: None, ..c }).matches('\n').count() == inside,
        "without a limit the text has more than one line",
        "{c:?}\n{t:?}"
    );
    let mut limits: Vec<Option<u16>> = vec![None, Some(0), Some(u16::MAX)];
    let near = |r: &mut Rng, x: usize| Some((x + 3).saturating_sub(r.below(7)).min(65535) as u16);
    limits.push(near(&mut ctx.r, w.inline[0]));
    limits.push(Some(w.inline[0].min(65535) as u16));
    limits.push(Some((w.inline[0] - 1).min(65535) as u16));
    limits.push(near(&mut ctx.r, w.concise[0]));
    limits.push(Some((w.concise[0].max(1) - 1).min(65535) as u16));
    let part = ctx.r.below(w.inline.len());
    limits.push(near(&mut ctx.r, w.inline[part] + 4));
    limits.push(Some(ctx.r.below(w.inline[0].max(2)) as u16));
    // a part's exact end in the layout chosen at some limit
    let l0 = Some(ctx.r.below(w.concise[0].max(w.inline[0]).max(2)).min(65535) as u16);
    limits.push(l0);
    limits.sort_by_key(|l| l.map_or(usize::MAX, |l| l as usize));
    let mut last = Repr::Verbose;
    for l in limits {
        let c = FormattingConfig { width_limit: l, ..c };
        let mut f = Formatter::new(&k);
        f.apply_config(c);
        let want = choices(&w, l, f.fmts());
        for i in 0..want.len() {
            let got = f.fmts()[i].line;
            ensure!(
                want[i].contains(&got),
                "the width limit chooses another layout",
                "{c:?}\nnode {i} is {got:?}, expected {:?} (one-line width {}, widest delimited line {})\n{t:?}\n--- written\n{}",
                want[i],
                w.inline[i],
                w.concise[i],
                f.write_string(String::new())
            );
            ensure!(f.fmts()[i].id == shows(&c, w.o[i].t), "an identity is shown or hidden against the configuration", "{c:?}\nnode {i}\n{t:?}");
        }
        ctx.add("layouts decided", want.len() as u64);
        let root = f.fmts()[0].line;
        if l != Some(0) {
            ensure!(root <= last, "a higher limit makes the root more verbose", "{c:?}\n{t:?}");
        }
        last = root;
        if l.is_some_and(|l| l > 0) && highest(&w.o, 0) > Repr::Inline {
            ctx.hit(match root {
                Repr::Inline => "fits on one line",
                Repr::Concise => "delimited",
                Repr::Verbose => "headed",
            });
            if l == Some(w.inline[0].min(65535) as u16) {
                ctx.hit("limit exactly the width");
            }
            if l.map(|l| l as usize + 1) == Some(w.inline[0]) {
                ctx.hit("limit one below the width");
            }
            if want.iter().enumerate().any(|(i, x)| i > 0 && w.o[i].kids.len() > 1 && x[0] != Repr::Inline && f.fmts()[0].line == Repr::Concise) {
                ctx.hit("inner values too wide");
            }
            for (i, x) in want.iter().enumerate() {
                if i > 0 && root == Repr::Verbose && highest(&w.o, i) > Repr::Inline {
                    ctx.hit(match x[0] {
                        Repr::Inline => "one line under headed",
                        Repr::Concise => "delimited under headed",
                        Repr::Verbose => "headed under headed",
                    });
                }
            }
            // what fits is no wider than the limit
            if root == Repr::Inline {
                let s = f.write_string(String::new());
                ensure!(chars(&s) <= l.unwrap() as usize, "the one line is wider than the limit", "{c:?}\n{t:?}\n{s}");
            }
        }
        // printing with this configuration is the same
        if ctx.r.chance(1, 4) {
            ensure!(k.as_str_with_config(c) == f.write_string(String::new()), "formatting differs from the formatter", "{c:?}\n{t:?}");
        }
    }
    if w.o.len() > 1 {
        ctx.state(fnv(format!("{t:?}{c:?}").as_bytes()));
    }
    ctx.max("one-line width", w.inline[0] as u64);
    ctx.sample(|| format!("one-line width {}, delimited width {}: {t:?}", w.inline[0], w.concise[0]));
    Ok(())
}

pub static C29: Prop = Prop {
    id: "C29",
    quick: 700_000,
    thorough: 14_000_000,
    rule: "eleven limits per tree (none, zero, at and beside the measured widths of the value and its parts); the layout of every node is compared with the one its measured widths and its column call for; distinct: by tree and configuration, of more than one node",
    required: &["fits on one line", "delimited", "headed", "limit exactly the width", "limit one below the width", "inner values too wide", "layouts decided", "one line under headed", "delimited under headed", "headed under headed", "line ends in strings"],
    bounded: false,
    assumptions: &["below a delimited value in a headed one, values that fit only without their indentation may be on one line or not", "containers directly in a sequence may be headed where delimited would fit", "strings without carriage returns"],
    run: c29,
};

// ---------------------------------------------------------------- C33

/// Writes a value the way the documentation shows each layout.
struct Pen<'a> {
    o: &'a [Ln<'a>],
    line: &'a [Repr],
    id: &'a [bool],
    out: String,
}

impl<'a> Pen<'a> {
    fn pad(&mut self, col: usize) {
        self.out.push_str(&" ".repeat(col));
    }
    fn shown(&self, i: usize) -> Option<&'a str> {
        self.o[i].t.id.as_deref().filter(|_| self.id[i])
    }

    /// A value other than a headed field.
    fn value(&mut self, i: usize, col: usize) {
        let n = &self.o[i];
        let (open, close) = match &n.t.v {
            V::Unit => {
                // its identity is part of it
                let id = n.t.id.as_deref().unwrap_or("");
                self.out.push_str(&format!("{id}()"));
                return;
            }
            V::Tuple(_) => {
                if let Some(id) = self.shown(i) {
                    self.out.push_str(id);
                }
                ('(', ')')
            }
            V::Cntr(_) | V::Seq(_) | V::Map(_) => {
                if n.t.v.kind() == "cntr" && self.line[i] == Repr::Verbose {
                    if let Some(id) = self.shown(i) {
                        self.pad(col);
                        self.out.push_str(&format!(":{id}\n"));
                    }
                    return self.fields(i, col);
                }
                if let Some(id) = self.shown(i) {
                    self.out.push_str(&format!("{id} "));
                }
                match n.t.v {
                    V::Cntr(_) => ('(', ')'),
                    V::Seq(_) => ('[', ']'),
                    _ => ('{', '}'),
                }
            }
            v => {
                if let Some(id) = self.shown(i) {
                    self.out.push_str(&format!("<{id}> "));
                }
                // the text of a leaf is another property's business
                let leaf = Kserd::new(v.build());
                self.out.push_str(&leaf.as_str_with_config(FormattingConfig { width_limit: None, ..Default::default() }));
                return;
            }
        };
        self.out.push(open);
        let map = matches!(n.t.v, V::Map(_));
        if self.line[i] == Repr::Inline {
            if map && !n.kids.is_empty() {
                self.out.push(' ');
            }
            for j in 0..n.kids.len() {
                if j > 0 {
                    self.out.push_str(", ");
                }
                self.item(i, j, col);
            }
            if map && !n.kids.is_empty() {
                self.out.push(' ');
            }
        } else {
            self.out.push('\n');
            for j in 0..n.kids.len() {
                self.pad(col + 4);
                self.item(i, j, col + 4);
                self.out.push('\n');
            }
            self.pad(col);
        }
        self.out.push(close);
    }

    /// An item, `name = item` or `key: item`; a multi-line item goes on below its own start.
    fn item(&mut self, i: usize, j: usize, col: usize) {
        let n = &self.o[i];
        match &n.t.v {
            V::Cntr(x) => {
                let lead = format!("{} = ", x[j].0);
                self.out.push_str(&lead);
                self.value(n.kids[j], col + chars(&lead));
            }
            V::Map(_) => self.entry(n.keys[j], n.kids[j], col),
            _ => self.value(n.kids[j], col),
        }
    }

    fn entry(&mut self, key: usize, val: usize, col: usize) {
        let from = self.out.len();
        self.value(key, col);
        self.out.push_str(": ");
        let lead = if self.line[key] == Repr::Inline { chars(&self.out[from..]) } else { 3 };
        self.value(val, col + lead);
    }

    /// The fields of a headed container.
    fn fields(&mut self, i: usize, col: usize) {
        let n = &self.o[i];
        let V::Cntr(x) = &n.t.v else { unreachable!() };
        for (j, (name, _)) in x.iter().enumerate() {
            let c = n.kids[j];
            let kid = &self.o[c];
            if self.line[c] != Repr::Verbose {
                self.pad(col);
                self.item(i, j, col);
                self.out.push('\n');
                continue;
            }
            let head = match self.shown(c) {
                Some(id) => format!("{name}:{id}"),
                None => name.clone(),
            };
            self.out.push('\n');
            match &kid.t.v {
                V::Cntr(_) => {
                    self.pad(col);
                    self.out.push_str(&format!("[{head}]\n"));
                    self.fields(c, col + 4);
                }
                V::Seq(_) => {
                    for (m, &e) in kid.kids.iter().enumerate() {
                        if m > 0 {
                            self.out.push('\n');
                        }
                        self.pad(col);
                        self.out.push_str(&format!("[[{head}]]\n"));
                        if self.line[e] == Repr::Verbose {
                            self.value(e, col + 4);
                        } else {
                            self.pad(col);
                            self.value(e, col);
                            self.out.push('\n');
                        }
                    }
                }
                V::Map(_) => {
                    for (&k, &e) in kid.keys.iter().zip(&kid.kids) {
                        self.pad(col);
                        self.out.push_str(&format!("[[{head}]]\n"));
                        self.pad(col);
                        if self.line[e] == Repr::Verbose {
                            self.value(k, col);
                            self.out.push_str(":\n");
                            self.value(e, col + 4);
                            self.out.push('\n');
                        } else {
                            self.entry(k, e, col);
                            self.out.push('\n');
                        }
                    }
                }
                _ => unreachable!(),
            }
        }
    }
}

fn c33(ctx: &mut Ctx, case: u64) -> R {
    let t = if case % 60 == 59 {
        gen::big(&mut ctx.r)
    } else {
        let p = Prof::pick(&mut ctx.r);
        gen::tree(&mut ctx.r, p)
    };
    let (k, t) = built(t);
    let o = lines(&t);
    let mut f = Formatter::new(&k);
    if ctx.r.bool() {
        f.apply_config(gen::config(&mut ctx.r));
    }
    for _ in 0..*ctx.r.pick(&[0, 0, 1, 3, 8]) {
        let i = ctx.r.below(o.len());
        match ctx.r.below(5) {
            0 => f.inline(i).ok(),
            1 | 2 => f.concise(i).ok(),
            3 => f.verbose(i).ok(),
            _ => f.id(i, ctx.r.bool()).ok(),
        };
    }
    let line: Vec<Repr> = f.fmts().iter().map(|f| f.line).collect();
    let id: Vec<bool> = f.fmts().iter().map(|f| f.id).collect();
    let mut pen = Pen { o: &o, line: &line, id: &id, out: String::new() };
    pen.value(0, 0);
    let before = if ctx.r.chance(1, 8) { gen::string(&mut ctx.r, false) } else { String::new() };
    let got = f.write_string(before.clone());
    let Some(got) = got.strip_prefix(&before) else {
        return fail("writing does not go on after the text there was", format!("{before:?} became {got:?}"));
    };
    if got != pen.out {
        return fail(
            "a layout is not written in its documented form",
            format!("{t:?}\nlayouts {line:?}\nidentities {id:?}\n--- written\n{got}\n--- expected\n{}", pen.out),
        );
    }
    for (i, n) in o.iter().enumerate() {
        if n.kids.is_empty() {
            continue;
        }
        let p = n.parent.map(|p| line[p]);
        ctx.hit(match (line[i], &n.t.v, p) {
            (Repr::Inline, ..) => "one-line collections",
            (Repr::Concise, _, Some(Repr::Verbose)) => "delimited under headed",
            (Repr::Concise, ..) => "delimited collections",
            (Repr::Verbose, V::Cntr(_), None) => "headed roots",
            (Repr::Verbose, V::Cntr(_), _) => "headed containers",
            (Repr::Verbose, V::Seq(_), _) => "headed sequences",
            (Repr::Verbose, ..) => "headed maps",
        });
        if n.key {
            ctx.hit(if line[i] == Repr::Inline { "one-line keys" } else { "delimited keys" });
        }
    }
    ctx.max("lines", got.lines().count() as u64);
    if o.len() > 1 {
        ctx.state(fnv(got.as_bytes()));
    }
    ctx.sample(|| got.to_string());
    Ok(())
}

pub static C33: Prop = Prop {
    id: "C33",
    quick: 1_500_000,
    thorough: 30_000_000,
    rule: "a random tree under random layout requests and configurations, its text compared character by character with that of an own writer following the documented forms; distinct: by text, of trees of more than one node",
    required: &["one-line collections", "delimited collections", "delimited under headed", "headed roots", "headed containers", "headed sequences", "headed maps", "one-line keys", "delimited keys"],
    bounded: false,
    assumptions: &["the text of numbers, strings and bytes is taken from formatting them alone"],
    run: c33,
};
