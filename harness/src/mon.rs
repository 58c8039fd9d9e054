//! What a check is made of, and the worker loop that runs its cases under watch.

use crate::alloc;
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs::File;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// A broken property: what, and the data to see it.
#[derive(Debug)]
pub struct Fail {
    pub what: String,
    pub detail: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(what: impl Into<String>, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        what: what.into(),
        detail: detail.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $what:expr, $($d:tt)*) => {
        if !$c {
            return $crate::mon::fail($what, format!($($d)*));
        }
    };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

pub struct Ctx {
    pub r: Rng,
    pub tier: Tier,
    pub seed: u64,
    counters: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, u64>,
    states: HashSet<u64>,
    samples: Vec<String>,
    want_sample: bool,
    fold: Option<u64>,
}

const MAX_STATES: usize = 400_000;

impl Ctx {
    pub fn new(seed: u64, tier: Tier) -> Ctx {
        Ctx {
            r: Rng::new(0),
            tier,
            seed,
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            states: HashSet::new(),
            samples: Vec::new(),
            want_sample: true,
            fold: None,
        }
    }
    /// Count an event the monitor saw.
    pub fn hit(&mut self, name: &'static str) {
        *self.counters.entry(name).or_insert(0) += 1;
    }
    pub fn add(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    pub fn max(&mut self, name: &'static str, n: u64) {
        let e = self.maxima.entry(name).or_insert(0);
        *e = (*e).max(n);
    }
    /// Record a non-trivial observation of this case by its hash.
    pub fn state(&mut self, h: u64) {
        let f = self.fold.unwrap_or(0xcbf29ce484222325);
        self.fold = Some((f ^ h).wrapping_mul(0x100000001b3).rotate_left(23));
    }
    fn end_case(&mut self) {
        if let Some(f) = self.fold.take() {
            if self.states.len() < MAX_STATES {
                self.states.insert(f);
            }
        }
    }
    pub fn state_s(&mut self, s: &str) {
        self.state(crate::rng::fnv(s.as_bytes()));
    }
    /// Keep a description of what was observed, now and then.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.samples.len() < 6 {
            let s: String = f().chars().take(400).collect();
            self.samples.push(s);
            self.want_sample = false;
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// when an observation counts as distinct and non-trivial
    pub rule: &'static str,
    /// events without which the run decides nothing
    pub required: &'static [&'static str],
    /// running away (processor time or memory far beyond need) breaks this property
    pub bounded: bool,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx, u64) -> R,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Panic {
    /// in the code under test or a library it called
    Subject(String),
    /// in the harness itself: an error of the check
    Harness(String),
}

/// Run `f`, telling a panic of the code under test from one of the harness.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let (loc, msg) = LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_default();
        let msg: String = msg.chars().take(300).collect();
        let s = format!("{msg} (at {loc})");
        if loc.starts_with("src/") {
            Panic::Harness(s)
        } else {
            Panic::Subject(s)
        }
    })
}

/// Run one call into the code under test; a panic there is a failure described by `detail`.
pub fn calm<T>(what: &str, detail: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match guard(f) {
        Ok(x) => Ok(x),
        Err(Panic::Subject(s)) => fail(format!("{what} panicked"), format!("{s}\n{}", detail())),
        Err(Panic::Harness(s)) => panic!("{s}"),
    }
}

pub enum Outcome {
    Held,
    Broken(Fail),
    Error(String),
}

pub fn run_case(p: &Prop, ctx: &mut Ctx, case: u64) -> Outcome {
    ctx.r = Rng::stream(ctx.seed, p.id, case);
    ctx.want_sample = case % 997 < 3 || case < 3;
    let got = guard(|| (p.run)(ctx, case));
    ctx.end_case();
    match got {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(f)) => Outcome::Broken(f),
        Err(Panic::Subject(s)) => Outcome::Broken(Fail {
            what: "panic in the code under test".into(),
            detail: s,
        }),
        Err(Panic::Harness(s)) => Outcome::Error(s),
    }
}

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);

/// Exit code of a worker whose case used far more processor time than any case needs.
pub const EXIT_RUNAWAY: i32 = 70;
pub const CASE_CPU_S: f64 = 40.0;
const CASE_BYTES: u64 = 24 << 30;
const CASE_LIVE: u64 = 3 << 30;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// Processor time of this process.
pub fn cpu_s() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // safety: plain out-parameter; 2 is CLOCK_PROCESS_CPUTIME_ID
    unsafe { clock_gettime(2, &mut t) };
    t.sec as f64 + t.nsec as f64 / 1e9
}

fn watch() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, cpu_s());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CASE.load(SeqCst);
            if c != last.0 {
                last = (c, cpu_s());
            } else if cpu_s() - last.1 > CASE_CPU_S {
                std::process::exit(EXIT_RUNAWAY);
            }
        }
    });
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o
}

fn unesc_line(s: &str) -> String {
    s.replace('\n', "\u{1}")
}

/// One process: runs cases `shard, shard+n, ..` and writes what it saw to `out`.
pub fn worker(p: &'static Prop, shard: u64, n: u64, from: u64, seed: u64, tier: Tier, total: u64, deadline_s: u64, out: &str) {
    install_hook();
    watch();
    let out = out.to_string();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let prog = File::create(format!("{out}.at")).expect("progress file");
            let start = Instant::now();
            let mut ctx = Ctx::new(seed, tier);
            let mut done = 0u64;
            let mut vio: Vec<(u64, Fail)> = Vec::new();
            let mut err: Option<String> = None;
            let mut case = shard + from * n;
            while case < total {
                if start.elapsed() > Duration::from_secs(deadline_s) {
                    break;
                }
                prog.write_at(&case.to_le_bytes(), 0).ok();
                CASE.store(case, SeqCst);
                alloc::set_budget(CASE_BYTES, CASE_LIVE);
                match run_case(p, &mut ctx, case) {
                    Outcome::Held => (),
                    Outcome::Broken(f) => {
                        vio.push((case, f));
                        if vio.len() >= 3 {
                            done += 1;
                            break;
                        }
                    }
                    Outcome::Error(s) => {
                        err = Some(format!("case {case}: {s}"));
                        break;
                    }
                }
                done += 1;
                case += n;
            }
            alloc::set_budget(u64::MAX, u64::MAX);
            let mut o = String::new();
            writeln!(o, "done {done}").unwrap();
            for (k, v) in &ctx.counters {
                writeln!(o, "count {v} {k}").unwrap();
            }
            for (k, v) in &ctx.maxima {
                writeln!(o, "max {v} {k}").unwrap();
            }
            for s in &ctx.samples {
                writeln!(o, "sample {}", unesc_line(s)).unwrap();
            }
            for (c, f) in &vio {
                let d: String = f.detail.chars().take(20_000).collect();
                writeln!(o, "broken {c} {}\u{2}{}", unesc_line(&f.what), unesc_line(&d)).unwrap();
            }
            if let Some(e) = err {
                writeln!(o, "error {}", unesc_line(&e)).unwrap();
            }
            let mut f = File::create(format!("{out}.states")).expect("states file");
            let mut b = Vec::with_capacity(ctx.states.len() * 8);
            for s in &ctx.states {
                b.extend_from_slice(&s.to_le_bytes());
            }
            f.write_all(&b).expect("states");
            File::create(format!("{out}.txt"))
                .and_then(|mut f| f.write_all(o.as_bytes()))
                .expect("result file");
        })
        .expect("case thread");
    if h.join().is_err() {
        std::process::exit(3);
    }
}
