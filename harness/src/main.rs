//! Runtime monitors for the kserd crate. See /verif/DESIGN.md.

mod alloc;
mod dynser;
mod fixed;
mod gen;
mod gram;
mod known;
mod model;
mod mon;
#[path = "../../peer/src/ops.rs"]
mod ops;
mod props;
mod rng;
mod shrink;
mod sup;
mod text;

use mon::{Outcome, Tier};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let code = match arg(1) {
        "check" => match props::get(arg(2)) {
            Some(p) => {
                let env = sup::Env {
                    root: std::env::current_dir().expect("cwd"),
                    seed: std::env::var("VERIF_SEED")
                        .ok()
                        .and_then(|x| x.parse().ok())
                        .unwrap_or(1),
                    tier: tier(&std::env::var("VERIF_TIER").unwrap_or_default()),
                    exe: std::env::current_exe().expect("exe"),
                };
                sup::check(&env, p)
            }
            None => {
                eprintln!("no such property");
                2
            }
        },
        "worker" => {
            let p = props::get(arg(2)).expect("property");
            mon::worker(p, num(3), num(4), num(5), num(6), tier(arg(7)), num(8), num(9), arg(10));
            0
        }
        "replay" => {
            let p = props::get(arg(2)).expect("property");
            let (seed, t, case) = (num(3), tier(arg(4)), num(5));
            let h = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    mon::install_hook();
                    let mut ctx = mon::Ctx::new(seed, t);
                    match mon::run_case(p, &mut ctx, case) {
                        Outcome::Held => 0,
                        Outcome::Broken(f) => {
                            println!("{}\n{}", f.what, f.detail);
                            1
                        }
                        Outcome::Error(e) => {
                            println!("error of the check: {e}");
                            2
                        }
                    }
                })
                .expect("thread");
            h.join().unwrap_or(2)
        }
        "digest" => {
            mon::install_hook();
            let (seed, case) = (num(2), num(3));
            // some on the main thread, the others on one of their own
            let done = if arg(4) == "main" {
                std::panic::catch_unwind(|| props::pure::digest(seed, case))
            } else {
                std::thread::Builder::new().stack_size(8 << 20).spawn(move || props::pure::digest(seed, case)).expect("thread").join()
            };
            match done {
                Ok(d) => {
                    println!("{d}");
                    0
                }
                Err(_) => 2,
            }
        }
        "few" => {
            mon::install_hook();
            let a = (num(2), num(3), num(4));
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || props::pure::few(a.0, a.1, a.2)).expect("thread");
            if h.join().is_ok() { 0 } else { 1 }
        }
        "probe" => known::probe(arg(2)),
        "list" => {
            props::ALL.iter().for_each(|p| println!("{} {} {}", p.id, p.quick, p.thorough));
            0
        }
        _ => {
            eprintln!("kvmon check|replay|probe|list");
            2
        }
    };
    std::process::exit(code);
}
