//! The same results whatever the library is built with.

use crate::ensure;
use crate::model;
use crate::mon::*;
use crate::ops;
use crate::props::parsing;
use crate::rng::fnv;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// Builds beside the one the monitors run in, which has all features, assertions and overflow checks.
pub const BUILDS: &[(&str, &str)] = &[
    ("all", "compared with a build without assertions"),
    ("dev", "compared with a build without optimisation"),
    ("none", "compared with a build without features"),
    ("encode", "compared with a build for encoding alone"),
    ("format", "compared with a build for formatting alone"),
    ("parse", "compared with a build for parsing alone"),
    ("encode,format", "compared with a build without parsing"),
    ("encode,parse", "compared with a build without formatting"),
    ("format,parse", "compared with a build without encoding"),
];

struct Peer {
    _child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}

impl Peer {
    fn new(name: &str) -> Peer {
        let exe = std::env::current_exe().expect("exe");
        let p = exe.parent().and_then(|x| x.parent()).expect("place").join("peers").join(name).join("kvpeer");
        let mut c = Command::new(p).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("peer");
        let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
        Peer { _child: c, i, o }
    }
    fn send(&mut self, seed: u64, show: usize, texts: &[String]) -> String {
        let mut m = format!("{seed} {show}");
        texts.iter().for_each(|t| m.push_str(&format!(" {}", t.len())));
        m.push('\n');
        texts.iter().for_each(|t| m.push_str(t));
        self.i.write_all(m.as_bytes()).expect("peer is gone");
        let mut line = String::new();
        self.o.read_line(&mut line).expect("answer");
        assert!(line.ends_with('\n'), "peer gave no answer");
        line
    }
    fn ask(&mut self, seed: u64, texts: &[String]) -> Vec<(usize, u64)> {
        self.send(seed, 0, texts)
            .split_whitespace()
            .map(|x| {
                let (i, h) = x.split_once(':').expect("answer");
                (i.parse().expect("answer"), h.parse().expect("answer"))
            })
            .collect()
    }
    fn show(&mut self, seed: u64, op: usize, texts: &[String]) -> String {
        let n: usize = self.send(seed, op + 1, texts).trim().parse().expect("answer");
        let mut b = vec![0; n];
        self.o.read_exact(&mut b).expect("answer");
        String::from_utf8_lossy(&b).into_owned()
    }
}

thread_local! {
    static PEERS: RefCell<BTreeMap<usize, Peer>> = const { RefCell::new(BTreeMap::new()) };
}

/// The parts around the first difference.
fn apart(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[n.saturating_sub(60).min(s.len())..(n + 200).min(s.len())]).into_owned();
    format!("here  {:?}\nthere {:?}", cut(a), cut(b))
}

fn c38(ctx: &mut Ctx, case: u64) -> R {
    let seed = ctx.r.next();
    let mut texts = vec![parsing::written(&mut ctx.r, case)];
    while texts.len() < 3 {
        let (t, kind) = parsing::hostile(&mut ctx.r, case);
        // how deep the stack reaches differs between builds
        if kind != "deep nesting" && kind != "long token soup" {
            texts.push(t);
        }
    }
    let i = ops::Input::new(seed, texts);
    let here = ops::results(&i);
    let mut ask = vec![0, 2 + ctx.r.below(BUILDS.len() - 2), 2 + ctx.r.below(BUILDS.len() - 2)];
    if case % 6 == 0 {
        ask.push(1);
    }
    for p in ask {
        let (name, event) = BUILDS[p];
        let got = PEERS.with(|x| x.borrow_mut().entry(p).or_insert_with(|| Peer::new(name)).ask(seed, &i.texts));
        assert!(got.len() >= 11, "the peer did nothing");
        for (op, h) in got {
            let (_, was) = here.iter().find(|x| x.0 == op).expect("operation");
            if fnv(was.as_bytes()) != h {
                let there = PEERS.with(|x| x.borrow_mut().get_mut(&p).expect("peer").show(seed, op, &i.texts));
                ensure!(
                    false,
                    format!("{} gives another result in another build", ops::name(op)),
                    "build {name}\n{}\n{:?}\n{:?}\ntexts {:?}",
                    apart(was, &there),
                    i.a,
                    i.b,
                    i.texts
                );
            }
            ctx.hit("results compared");
        }
        ctx.hit(event);
    }
    for (op, s) in &here {
        if s == "panicked" {
            ctx.hit("panicked in all builds");
        }
        if *op == 200 {
            ctx.hit("texts parsed");
        }
    }
    ctx.state(model::shape(&i.a, 4));
    ctx.sample(|| here.iter().map(|(op, s)| format!("{}: {}", ops::name(*op), s.chars().take(60).collect::<String>())).collect::<Vec<_>>().join(" | "));
    Ok(())
}

pub static C38: Prop = Prop {
    id: "C38",
    quick: 60_000,
    thorough: 1_500_000,
    rule: "25 operations on random values, texts and data in the monitors' build and in three or four of nine other builds, each in a process of its own; results compared by hash; distinct: by kinds and nesting of the first value, down to four levels",
    required: &[
        "results compared", "texts parsed", "compared with a build without assertions", "compared with a build without optimisation",
        "compared with a build without features", "compared with a build for encoding alone", "compared with a build for formatting alone",
        "compared with a build for parsing alone", "compared with a build without parsing", "compared with a build without formatting",
        "compared with a build without encoding",
    ],
    bounded: false,
    assumptions: &["one platform and compiler", "how deep nesting may be before the stack is used up may differ between builds"],
    run: c38,
};
