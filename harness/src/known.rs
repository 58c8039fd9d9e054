//! Known findings: failures of the unchanged tree that are listed in `known_findings.txt`, each
//! tied to one exact input. They are probed in a child process and reported, nothing else is
//! suppressed by them.

use crate::sup::Env;
use kserd::*;
use std::fs;
use std::process::{Command, Stdio};

/// `known: property=<id> key=<key> <what fails>` lines of the file that still fail.
pub fn run(env: &Env, id: &str) -> Vec<String> {
    let txt = fs::read_to_string(env.root.join("known_findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for l in txt.lines() {
        let Some(rest) = l.strip_prefix("known: property=") else {
            continue;
        };
        let mut w = rest.splitn(3, ' ');
        let (p, key, what) = (w.next(), w.next(), w.next());
        if p != Some(id) {
            continue;
        }
        let Some(key) = key.and_then(|k| k.strip_prefix("key=")) else {
            continue;
        };
        let st = Command::new(&env.exe)
            .args(["probe", key])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        match st {
            Ok(s) if s.success() => (),
            Ok(_) => out.push(what.unwrap_or(key).to_string()),
            Err(_) => (),
        }
    }
    out
}

/// Exit code of one probe: 0 when the finding is gone.
pub fn probe(key: &str) -> i32 {
    match key {
        "deep-nesting" => {
            // overflows the stack of the calling thread while the finding stands
            let h = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(|| {
                    let s = format!("{}{}", "(".repeat(100_000), ")".repeat(100_000));
                    let _ = parse::parse(&s).map(std::mem::forget);
                })
                .unwrap();
            h.join().is_err() as i32
        }
        "unit-variant-keys" => {
            use serde::{Deserialize, Serialize};
            use std::collections::BTreeMap;
            #[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
            enum E {
                A,
                B,
            }
            let m: BTreeMap<E, i32> = vec![(E::A, 1), (E::B, 2)].into_iter().collect();
            match Kserd::enc(&m) {
                Ok(k) => match k.decode::<BTreeMap<E, i32>>() {
                    Ok(n) => (n != m) as i32,
                    Err(_) => 1,
                },
                // a refusal loses nothing
                Err(_) => 0,
            }
        }
        _ => 3,
    }
}
