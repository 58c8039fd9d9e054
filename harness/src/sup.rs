//! Supervisor: runs the workers of one check, merges what they saw, writes evidence, decides.

use crate::alloc::EXIT_BUDGET;
use crate::known;
use crate::mon::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

pub struct Env {
    pub root: PathBuf,
    pub seed: u64,
    pub tier: Tier,
    pub exe: PathBuf,
}

#[derive(Default)]
struct Seen {
    done: u64,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    samples: Vec<String>,
    broken: Vec<(u64, String, String)>,
    states: HashSet<u64>,
    errors: Vec<String>,
}

fn read_out(seen: &mut Seen, out: &Path) -> bool {
    let p = format!("{}.txt", out.display());
    let txt = match fs::read_to_string(&p) {
        Ok(t) => t,
        Err(_) => return false,
    };
    for l in txt.lines() {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        let back = |s: &str| s.replace('\u{1}', "\n");
        match k {
            "done" => seen.done += rest.parse::<u64>().unwrap_or(0),
            "count" | "max" => {
                let (v, n) = rest.split_once(' ').unwrap_or((rest, ""));
                let v: u64 = v.parse().unwrap_or(0);
                if k == "count" {
                    *seen.counters.entry(n.into()).or_insert(0) += v;
                } else {
                    let e = seen.maxima.entry(n.into()).or_insert(0);
                    *e = (*e).max(v);
                }
            }
            "sample" => seen.samples.push(back(rest)),
            "broken" => {
                let (c, r) = rest.split_once(' ').unwrap_or((rest, ""));
                let (w, d) = r.split_once('\u{2}').unwrap_or((r, ""));
                seen.broken.push((c.parse().unwrap_or(0), back(w), back(d)));
            }
            "error" => seen.errors.push(back(rest)),
            _ => (),
        }
    }
    if let Ok(b) = fs::read(format!("{}.states", out.display())) {
        for c in b.chunks_exact(8) {
            seen.states.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    true
}

enum End {
    Clean,
    Died(String),
    Ran(&'static str),
    Other(String),
}

fn classify(st: ExitStatus) -> End {
    match (st.code(), st.signal()) {
        (Some(0), _) => End::Clean,
        (Some(EXIT_RUNAWAY), _) => End::Ran("processor time"),
        (Some(EXIT_BUDGET), _) => End::Ran("memory"),
        (_, Some(s)) if [4, 6, 7, 8, 11].contains(&s) => End::Died(format!("signal {s}")),
        (_, Some(s)) => End::Other(format!("killed by signal {s}")),
        (c, _) => End::Other(format!("exit code {c:?}")),
    }
}

fn wait_deadline(child: &mut std::process::Child, until: Instant) -> Option<ExitStatus> {
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) => (),
            Err(_) => return None,
        }
        if Instant::now() > until {
            child.kill().ok();
            child.wait().ok();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn run_alone(env: &Env, p: &Prop, case: u64) -> (Option<ExitStatus>, String) {
    let dir = env.root.join("target/run").join(format!("{}-alone", p.id));
    fs::create_dir_all(&dir).ok();
    let out = dir.join("one");
    for e in [".txt", ".at", ".states"] {
        fs::remove_file(format!("{}{}", out.display(), e)).ok();
    }
    let child = Command::new(&env.exe)
        .args(["worker", p.id])
        .args([case.to_string(), u32::MAX.to_string(), "0".into()])
        .args([env.seed.to_string(), env.tier.name().into(), (case + 1).to_string()])
        .args(["300".to_string(), out.display().to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn();
    match child {
        Ok(mut c) => {
            let st = wait_deadline(&mut c, Instant::now() + Duration::from_secs(120));
            let txt = fs::read_to_string(format!("{}.txt", out.display())).unwrap_or_default();
            (st, txt)
        }
        Err(e) => (None, e.to_string()),
    }
}

/// Runs a small share of the work under the interpreter, if there is one, and lists what it reports.
fn interpret(env: &Env, counters: &mut BTreeMap<String, u64>, n: u64) -> Vec<(u64, String)> {
    let (cases, limit) = match env.tier {
        Tier::Quick => (4, 100),
        Tier::Thorough => (14, 240),
    };
    let run = |from: u64, cases: u64, limit: u64| {
        let mut c = Command::new("timeout");
        c.args(["-k", "5", &limit.to_string(), "cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--", "few"])
            .args([env.seed.to_string(), from.to_string(), cases.to_string()])
            .current_dir(env.root.join("harness"))
            .env("CARGO_TARGET_DIR", env.root.join("target/miri"))
            .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows")
            .env_remove("RUSTFLAGS")
            .stdin(Stdio::null());
        c
    };
    // builds only
    if !run(0, 0, 240).stdout(Stdio::null()).stderr(Stdio::null()).status().is_ok_and(|s| s.success()) {
        counters.insert("interpreter not available".into(), 1);
        return vec![];
    }
    let kids: Vec<_> = (0..n)
        .filter_map(|s| run(s * cases, cases, limit).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().ok().map(|k| (s, k)))
        .collect();
    let mut found = Vec::new();
    for (s, k) in kids {
        let Ok(o) = k.wait_with_output() else { continue };
        let (out, err) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
        *counters.entry("cases under the interpreter".into()).or_insert(0) += out.lines().filter(|l| l.starts_with("case ")).count() as u64;
        if let Some(i) = err.find("error: Undefined Behavior") {
            found.push((s * cases, err[i..].chars().take(3000).collect()));
        }
    }
    found
}

/// Runs a check to its verdict and returns the exit code.
pub fn check(env: &Env, p: &'static Prop) -> i32 {
    let start = Instant::now();
    let total = match env.tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    };
    let deadline = match env.tier {
        Tier::Quick => 240,
        Tier::Thorough => 600,
    };
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 8) as u64;
    let dir = env.root.join("target/run").join(p.id);
    fs::remove_dir_all(&dir).ok();
    if let Err(e) = fs::create_dir_all(&dir) {
        eprintln!("error: {e}");
        return 2;
    }
    let mut seen = Seen::default();
    let mut undecided: Vec<String> = Vec::new();
    let mut crashes: Vec<(u64, String)> = Vec::new();

    // (shard, cases to skip)
    let mut todo: Vec<(u64, u64, u32)> = (0..n).map(|s| (s, 0, 0)).collect();
    let mut gen = 0;
    while !todo.is_empty() {
        gen += 1;
        let mut kids = Vec::new();
        for (s, from, tries) in todo.drain(..) {
            let out = dir.join(format!("w{s}-{gen}"));
            let k = Command::new(&env.exe)
                .args(["worker", p.id])
                .args([s.to_string(), n.to_string(), from.to_string()])
                .args([env.seed.to_string(), env.tier.name().into(), total.to_string()])
                .args([deadline.to_string(), out.display().to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn();
            match k {
                Ok(k) => kids.push((s, tries, out, k)),
                Err(e) => undecided.push(format!("cannot start worker: {e}")),
            }
        }
        let until = Instant::now() + Duration::from_secs(deadline + 150);
        for (s, tries, out, mut k) in kids {
            let st = wait_deadline(&mut k, until);
            let got = read_out(&mut seen, &out);
            let at = fs::read(format!("{}.at", out.display()))
                .ok()
                .and_then(|b| b.try_into().ok())
                .map(u64::from_le_bytes);
            match st.map(classify) {
                None => undecided.push(format!("worker {s} timed out")),
                Some(End::Clean) if got => (),
                Some(End::Clean) => undecided.push(format!("worker {s} left no result")),
                Some(End::Other(e)) => undecided.push(format!("worker {s}: {e}")),
                Some(e) => {
                    let case = match at {
                        Some(c) => c,
                        None => {
                            undecided.push(format!("worker {s} ended before its first case"));
                            continue;
                        }
                    };
                    let again = run_alone(env, p, case).0.map(classify);
                    match (e, again) {
                        (End::Died(a), Some(End::Died(_))) => {
                            crashes.push((case, format!("the process dies ({a})")))
                        }
                        (End::Ran(a), Some(End::Ran(_))) if p.bounded => {
                            crashes.push((case, format!("runs away in {a}")))
                        }
                        (End::Ran(a), _) => {
                            undecided.push(format!("case {case} runs away in {a}"))
                        }
                        (End::Died(a), _) => {
                            undecided.push(format!("case {case} died once ({a}), not again"))
                        }
                        _ => (),
                    }
                    seen.done += (case / n).saturating_sub(0) + 1;
                    if tries < 2 && crashes.len() < 3 {
                        todo.push((s, case / n + 1, tries + 1));
                    }
                }
            }
        }
    }

    seen.broken.sort();
    let mut violations: Vec<(u64, String, String)> = crashes
        .into_iter()
        .map(|(c, w)| (c, w, String::new()))
        .collect();
    violations.append(&mut seen.broken);
    if p.id == "C31" && violations.is_empty() {
        for (shard, what) in interpret(env, &mut seen.counters, n) {
            violations.push((shard, "undefined behaviour under the interpreter".into(), what));
        }
    }
    undecided.append(&mut seen.errors);

    for k in known::run(env, p.id) {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }

    if violations.is_empty() {
        for r in p.required {
            if seen.counters.get(*r).copied().unwrap_or(0) == 0 {
                undecided.push(format!("event '{r}' was never observed"));
            }
        }
        if seen.done == 0 || seen.states.len() < 2 {
            undecided.push("nothing was observed".into());
        }
        if seen.done * 20 < total {
            undecided.push(format!("only {} of {total} cases ran", seen.done));
        }
    }

    let mut replay_paths = Vec::new();
    if !violations.is_empty() {
        let rd = env.root.join("replays");
        fs::create_dir_all(&rd).ok();
        for (i, (c, w, d)) in violations.iter().take(3).enumerate() {
            let path = rd.join(format!("{}-{}-{}.txt", p.id, env.seed, i));
            let txt = format!(
                "property: {}\nseed: {}\ntier: {}\ncase: {}\nwhat: {}\nrerun: /verif/target/release/kvmon replay {} {} {} {}\n\n{}\n",
                p.id, env.seed, env.tier.name(), c, w, p.id, env.seed, env.tier.name(), c, d
            );
            fs::write(&path, txt).ok();
            replay_paths.push(path);
        }
    }

    write_evidence(env, p, &seen, total, n, &violations, &undecided, start.elapsed().as_secs_f64());

    if !violations.is_empty() {
        for ((c, w, d), path) in violations.iter().zip(&replay_paths) {
            println!("case {c}: {w}");
            for l in d.lines().take(12) {
                println!("  {}", l.chars().take(300).collect::<String>());
            }
            println!("VIOLATION property={} replay={}", p.id, path.display());
        }
        for u in &undecided {
            println!("also undecided: {u}");
        }
        return 1;
    }
    if !undecided.is_empty() {
        for u in undecided {
            println!("UNDECIDED property={}: {}", p.id, u);
        }
        return 2;
    }
    println!(
        "held property={} cases={} distinct={} wall={:.1}s",
        p.id,
        seen.done,
        seen.states.len(),
        start.elapsed().as_secs_f64()
    );
    0
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(env: &Env, p: &Prop, seen: &Seen, total: u64, n: u64, vio: &[(u64, String, String)], und: &[String], wall: f64) {
    let mut s = String::new();
    let q = |x: &str| format!("\"{}\"", esc(x));
    let obj = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    writeln!(s, "{{").unwrap();
    writeln!(s, " \"property\": {},", q(p.id)).unwrap();
    writeln!(s, " \"tier\": {},", q(env.tier.name())).unwrap();
    writeln!(s, " \"seed\": {},", env.seed).unwrap();
    writeln!(s, " \"level\": \"exploration\",").unwrap();
    writeln!(s, " \"coverage\": {{").unwrap();
    writeln!(s, "  \"evaluations\": {},", seen.done).unwrap();
    writeln!(s, "  \"distinct_nontrivial\": {},", seen.states.len()).unwrap();
    writeln!(s, "  \"rule\": {},", q(p.rule)).unwrap();
    writeln!(s, "  \"planned_cases\": {total},").unwrap();
    writeln!(s, "  \"workers\": {n},").unwrap();
    writeln!(s, "  \"events\": {},", obj(&seen.counters)).unwrap();
    writeln!(s, "  \"maxima\": {},", obj(&seen.maxima)).unwrap();
    let mut samples: Vec<String> = seen.samples.iter().take(12).map(|x| q(x)).collect();
    samples.dedup();
    writeln!(s, "  \"samples\": [{}]", samples.join(", ")).unwrap();
    writeln!(s, " }},").unwrap();
    let a: Vec<String> = p.assumptions.iter().map(|x| q(x)).collect();
    writeln!(s, " \"assumptions\": [{}],", a.join(", ")).unwrap();
    let v: Vec<String> = vio
        .iter()
        .take(3)
        .map(|(c, w, d)| {
            let d: String = d.chars().take(600).collect();
            format!("{{\"case\": {c}, \"what\": {}, \"detail\": {}}}", q(w), q(&d))
        })
        .collect();
    writeln!(s, " \"violations\": {},", vio.len()).unwrap();
    writeln!(s, " \"violation_details\": [{}],", v.join(", ")).unwrap();
    let u: Vec<String> = und.iter().map(|x| q(x)).collect();
    writeln!(s, " \"undecided\": [{}],", u.join(", ")).unwrap();
    writeln!(s, " \"wall_s\": {:.2}", wall).unwrap();
    writeln!(s, "}}").unwrap();
    let d = env.root.join("evidence");
    fs::create_dir_all(&d).ok();
    if let Err(e) = fs::write(d.join(format!("{}.json", p.id)), s) {
        eprintln!("cannot write evidence: {e}");
    }
}
