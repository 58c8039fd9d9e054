//! An independent printer: writes a value as text with free choice of layout and spacing.
//!
//! It follows the documented text form and knows nothing of the formatter under test. Besides the
//! text it records the tokens, so that single defects can be injected.

use crate::gen;
use crate::model::{N, T, V};
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tok {
    Open,
    Close,
    Comma,
    Eq,
    Colon,
    /// name of a field
    Field,
    /// bare identity in front of a bracket
    Ident,
    /// `<name>` in front of a primitive
    Angle,
    /// primitive value
    Prim,
    /// `[name]` or `[[name]]` line of a verbose container, brackets included
    Header,
    /// `:name` line
    IdLine,
}

#[derive(Clone, Debug)]
pub struct Piece {
    pub tok: Tok,
    pub at: usize,
    pub end: usize,
    /// inside an inline list (commas)
    pub inline: bool,
}

pub struct Style {
    /// extra blanks between tokens
    pub spacing: bool,
    pub crlf: bool,
    pub tabs: bool,
    /// chance in 8 of several lines
    pub multi8: usize,
    /// chance in 8 of verbose where possible
    pub verbose8: usize,
    pub blank_lines: bool,
    /// odd delimiters for strings
    pub delims: bool,
}

impl Style {
    pub fn inline() -> Style {
        Style { spacing: false, crlf: false, tabs: false, multi8: 0, verbose8: 0, blank_lines: false, delims: false }
    }
    pub fn any(r: &mut Rng) -> Style {
        Style {
            spacing: r.bool(),
            crlf: r.chance(1, 4),
            tabs: r.chance(1, 4),
            multi8: *r.pick(&[0, 2, 4, 7]),
            verbose8: *r.pick(&[0, 3, 6, 8]),
            blank_lines: r.chance(1, 3),
            delims: r.bool(),
        }
    }
}

pub struct Printer<'r> {
    pub r: &'r mut Rng,
    pub s: Style,
    pub out: String,
    pub toks: Vec<Piece>,
    pub multi: u64,
    pub verbose: u64,
    inline: bool,
}

pub const SAFE_DELIMS: &[char] = &[
    '\'', '#', '`', '|', '*', '^', '!', '%', '~', '&', '/', '\\', ';', '@', '?', '+', '.', ',', ':', '>', '$', '"',
    '\u{e9}', '\u{1F600}', '\u{2764}', '\u{0}', '\u{2003}', ')', ']', '}', '<',
];

impl<'r> Printer<'r> {
    pub fn new(r: &'r mut Rng, s: Style) -> Printer<'r> {
        Printer { r, s, out: String::new(), toks: Vec::new(), multi: 0, verbose: 0, inline: true }
    }

    fn push(&mut self, tok: Tok, s: &str) {
        let at = self.out.len();
        self.out.push_str(s);
        let end = self.out.len();
        self.toks.push(Piece { tok, at, end, inline: self.inline });
    }

    fn ws(&mut self) {
        if self.s.spacing {
            for _ in 0..self.r.below(4) {
                self.out.push(if self.r.chance(1, 4) { '\t' } else { ' ' });
            }
        }
    }

    /// One blank unless spacing is free.
    fn sp(&mut self) {
        if self.s.spacing {
            self.ws()
        } else {
            self.out.push(' ')
        }
    }

    fn nl(&mut self) {
        self.ws();
        let e = if self.s.crlf && self.r.chance(3, 4) { "\r\n" } else { "\n" };
        self.out.push_str(e);
        if self.s.blank_lines && self.r.chance(1, 4) {
            for _ in 0..1 + self.r.below(2) {
                self.ws();
                self.out.push_str(e);
            }
        }
    }

    pub fn prim_text(&mut self, v: &V) -> String {
        match v {
            V::Unit => {
                let n = if self.s.spacing { self.r.below(3) } else { 0 };
                format!("({})", " ".repeat(n))
            }
            V::Bool(b) => b.to_string(),
            V::Num(n) => num_text(self.r, n),
            V::Str(s) => str_text(self.r, s, self.s.delims),
            V::Barr(b) => format!("b91'{}'", base91(b)),
            _ => unreachable!(),
        }
    }

    /// A value between delimiters. `inline` forbids line ends.
    pub fn delimited(&mut self, t: &T, inline: bool) {
        if t.is_prim() {
            if let (V::Unit, Some(id)) = (&t.v, &t.id) {
                // a named unit is also spelled like an empty tuple
                if self.r.bool() {
                    let id = id.clone();
                    self.push(Tok::Ident, &id);
                    self.ws();
                    self.push(Tok::Prim, "()");
                    return;
                }
            }
            if let Some(id) = &t.id {
                self.push(Tok::Angle, &format!("<{id}>"));
                self.sp();
            }
            let s = self.prim_text(&t.v);
            self.push(Tok::Prim, &s);
            return;
        }
        if let Some(id) = &t.id {
            self.push(Tok::Ident, id);
            self.ws();
        }
        let (o, c) = match t.v {
            V::Seq(_) => ("[", "]"),
            V::Map(_) => ("{", "}"),
            _ => ("(", ")"),
        };
        let was = self.inline;
        let multi = !inline && self.r.below(8) < self.s.multi8 && !t.is_zst();
        self.inline = !multi;
        self.push(Tok::Open, o);
        let n = match &t.v {
            V::Tuple(x) | V::Seq(x) => x.len(),
            V::Cntr(x) => x.len(),
            V::Map(x) => x.len(),
            _ => 0,
        };
        if multi {
            self.multi += 1;
        } else {
            self.ws();
        }
        for i in 0..n {
            if multi {
                self.nl();
                self.ws();
                if self.r.bool() {
                    self.out.push_str("    ");
                }
            } else if i > 0 {
                self.ws();
                self.push(Tok::Comma, ",");
                self.sp();
            }
            match &t.v {
                V::Tuple(x) | V::Seq(x) => self.delimited(&x[i], !multi),
                V::Cntr(x) => {
                    self.push(Tok::Field, &x[i].0);
                    self.sp();
                    self.push(Tok::Eq, "=");
                    self.sp();
                    self.delimited(&x[i].1, !multi);
                }
                V::Map(x) => {
                    self.delimited(&x[i].0, !multi);
                    self.ws();
                    self.push(Tok::Colon, ":");
                    self.sp();
                    self.delimited(&x[i].1, !multi);
                }
                _ => unreachable!(),
            }
        }
        if multi {
            // the bracket stands on a line of its own
            self.nl();
        }
        self.ws();
        self.push(Tok::Close, c);
        self.inline = was;
    }

    fn indent(&mut self, n: usize) {
        for _ in 0..n {
            let t = self.s.tabs && self.r.chance(3, 4);
            self.out.push_str(if t { "\t" } else { "    " });
        }
        if self.s.spacing {
            // less than an indent
            for _ in 0..self.r.below(4) {
                self.out.push(' ');
            }
        }
    }

    /// A container written as lines of fields, each `ind` indents deep.
    pub fn verbose(&mut self, t: &T, ind: usize, id_in_header: bool) {
        self.verbose += 1;
        let fields = match &t.v {
            V::Cntr(x) => x,
            _ => unreachable!(),
        };
        if let (Some(id), false) = (&t.id, id_in_header) {
            self.indent(ind);
            let ws = if self.s.spacing && self.r.bool() { " " } else { "" };
            self.push(Tok::IdLine, &format!(":{ws}{id}"));
            self.nl();
        }
        let mut order: Vec<usize> = (0..fields.len()).collect();
        // any order of fields means the same
        for i in (1..order.len()).rev() {
            let j = self.r.below(i + 1);
            order.swap(i, j);
        }
        for i in order {
            let (name, v) = &fields[i];
            let want = self.r.below(8) < self.s.verbose8;
            match &v.v {
                V::Cntr(x) if want && !x.is_empty() && nameable(name) => {
                    let hid = v.id.is_some() && self.r.bool();
                    self.header("[", name, v.id.as_deref().filter(|_| hid), "]", ind);
                    self.verbose(v, ind + 1, hid);
                }
                V::Seq(x) if want && !x.is_empty() && nameable(name) => {
                    for (n, e) in x.iter().enumerate() {
                        let id = v.id.as_deref().filter(|_| n == 0 || self.r.bool());
                        self.header("[[", name, id, "]]", ind);
                        self.entry(e, ind);
                    }
                }
                V::Map(x) if want && !x.is_empty() && nameable(name) => {
                    for (n, (k, e)) in x.iter().enumerate() {
                        let id = v.id.as_deref().filter(|_| n == 0 || self.r.bool());
                        self.header("[[", name, id, "]]", ind);
                        self.ws();
                        if self.r.bool() {
                            self.out.push_str("    ");
                        }
                        self.delimited(k, false);
                        self.ws();
                        self.push(Tok::Colon, ":");
                        if matches!(&e.v, V::Cntr(x) if !x.is_empty()) && self.r.bool() {
                            self.nl();
                            self.verbose(e, ind + 1, false);
                        } else {
                            self.sp();
                            self.delimited(e, false);
                            self.nl();
                        }
                    }
                }
                _ => {
                    self.indent(ind);
                    self.push(Tok::Field, name);
                    self.sp();
                    self.push(Tok::Eq, "=");
                    self.sp();
                    self.delimited(v, false);
                    self.nl();
                }
            }
        }
    }

    fn header(&mut self, o: &str, name: &str, id: Option<&str>, c: &str, ind: usize) {
        self.indent(ind);
        let sp = self.s.spacing;
        let mut w = || if sp && self.r.bool() { " " } else { "" };
        let mut s = format!("{o}{}{name}{}", w(), w());
        if let Some(id) = id {
            s.push_str(&format!(":{}{id}{}", w(), w()));
        }
        s.push_str(c);
        self.push(Tok::Header, &s);
        // an entry starts on the next line
        let blank = self.s.blank_lines;
        self.s.blank_lines &= o == "[";
        self.nl();
        self.s.blank_lines = blank;
    }

    fn entry(&mut self, e: &T, ind: usize) {
        match &e.v {
            V::Cntr(x) if !x.is_empty() && self.r.bool() => self.verbose(e, ind + 1, false),
            V::Seq(_) if e.id.is_none() => {
                // indented less than fields of a nested container would be
                for _ in 0..ind {
                    self.out.push_str("    ");
                }
                self.delimited(e, false);
                self.nl();
            }
            _ => {
                self.ws();
                if self.r.bool() {
                    self.out.push_str("    ");
                }
                self.delimited(e, false);
                self.nl();
            }
        }
    }

    /// The whole text.
    pub fn root(&mut self, t: &T) {
        let verbose = self.r.below(8) < self.s.verbose8;
        match &t.v {
            V::Cntr(x) if verbose && !x.is_empty() => {
                if self.s.blank_lines && self.r.bool() {
                    self.nl();
                }
                self.verbose(t, 0, false);
            }
            _ => {
                self.ws();
                self.delimited(t, false);
            }
        }
        if self.s.blank_lines || self.s.spacing {
            self.ws();
            if self.r.bool() {
                self.nl();
            }
        }
    }
}

/// Names that headers of verbose fields can carry: those do not start with '-'.
fn nameable(n: &str) -> bool {
    n.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
}

pub fn num_text(r: &mut Rng, n: &N) -> String {
    match n {
        N::U(x) => {
            if r.chance(1, 10) {
                format!("{}{x}", "0".repeat(r.below(3)))
            } else {
                x.to_string()
            }
        }
        N::I(x) => x.to_string(),
        N::F(f) => {
            if f.is_nan() {
                r.pick(&["NaN", "nan"]).to_string()
            } else if f.is_infinite() {
                if *f > 0.0 { "inf" } else { "-inf" }.to_string()
            } else {
                match r.below(3) {
                    0 => format!("{f:e}"),
                    1 => {
                        let s = format!("{f:?}");
                        s
                    }
                    // an integer spelling beyond 128 bits is not a number
                    _ if f.abs() < 1e15 => format!("{f}"),
                    _ => format!("{f:e}"),
                }
            }
        }
    }
}

pub fn str_text(r: &mut Rng, s: &str, delims: bool) -> String {
    if !s.contains('"') && !(delims && r.bool()) {
        return format!("\"{s}\"");
    }
    for _ in 0..40 {
        let d = *r.pick(SAFE_DELIMS);
        if !s.contains(d) {
            return format!("str{d}{s}{d}");
        }
    }
    let mut c = 0x4e00;
    loop {
        let d = char::from_u32(c).unwrap();
        if !s.contains(d) {
            return format!("str{d}{s}{d}");
        }
        c += 1;
    }
}

/// basE91, as Joachim Henke described it.
pub fn base91(b: &[u8]) -> String {
    let (mut acc, mut n) = (0u32, 0u32);
    let mut o = String::new();
    for x in b {
        acc |= (*x as u32) << n;
        n += 8;
        if n > 13 {
            let mut v = acc & 8191;
            if v > 88 {
                acc >>= 13;
                n -= 13;
            } else {
                v = acc & 16383;
                acc >>= 14;
                n -= 14;
            }
            o.push(ALPHABET[(v % 91) as usize] as char);
            o.push(ALPHABET[(v / 91) as usize] as char);
        }
    }
    if n > 0 {
        o.push(ALPHABET[(acc % 91) as usize] as char);
        if n > 7 || acc > 90 {
            o.push(ALPHABET[(acc / 91) as usize] as char);
        }
    }
    o
}

pub const ALPHABET: &[u8; 91] =
    b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&()*+,./:;<=>?@[]^_`{|}~\"";

/// A tree whose strings hold single plain words, for defect injection.
pub fn plain_tree(r: &mut Rng) -> T {
    let mut p = gen::Prof::pick(r);
    p.plain = true;
    p.nodes = p.nodes.min(25);
    let mut t = gen::tree(r, p);
    simplify(&mut t);
    t
}

fn simplify(t: &mut T) {
    match &mut t.v {
        V::Str(s) => *s = s.chars().filter(|c| c.is_ascii_alphabetic()).collect(),
        V::Barr(b) => b.truncate(6),
        V::Tuple(x) | V::Seq(x) => x.iter_mut().for_each(simplify),
        V::Cntr(x) => x.iter_mut().for_each(|(_, t)| simplify(t)),
        V::Map(x) => x.iter_mut().for_each(|(k, t)| {
            simplify(k);
            simplify(t)
        }),
        _ => (),
    }
}
