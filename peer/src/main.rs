//! Performs the operations in a build of its own: reads requests, answers with what came out.

#[cfg(feature = "encode")]
#[path = "../../harness/src/dynser.rs"]
mod dynser;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/model.rs"]
mod model;
mod ops;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/text.rs"]
mod text;

/// What the shared parts name but nothing here calls.
mod props {
    pub mod num {
        use crate::model::N;
        pub fn whole(_: &N, _: bool) -> Option<Result<N, ()>> {
            unreachable!()
        }
        pub fn nearest(_: &N) -> f64 {
            unreachable!()
        }
        pub fn nearest32(_: &N) -> f32 {
            unreachable!()
        }
    }
}

use std::io::{BufRead, Read, Write};

fn serve() -> std::io::Result<()> {
    let mut i = std::io::stdin().lock();
    let mut o = std::io::stdout().lock();
    let mut line = String::new();
    loop {
        line.clear();
        if i.read_line(&mut line)? == 0 {
            return Ok(());
        }
        // "seed show length length length", and the texts behind it
        let n: Vec<u64> = line.split_whitespace().map(|x| x.parse().expect("number")).collect();
        let mut texts = vec![];
        for &len in &n[2..] {
            let mut b = vec![0; len as usize];
            i.read_exact(&mut b)?;
            texts.push(String::from_utf8(b).expect("text"));
        }
        let input = ops::Input::new(n[0], texts);
        if n[1] > 0 {
            let s = ops::results(&input).into_iter().find(|x| x.0 as u64 + 1 == n[1]).map(|x| x.1).unwrap_or_default();
            writeln!(o, "{}", s.len())?;
            o.write_all(s.as_bytes())?;
        } else {
            let a: Vec<String> = ops::results(&input).iter().map(|(i, s)| format!("{i}:{}", rng::fnv(s.as_bytes()))).collect();
            writeln!(o, "{}", a.join(" "))?;
        }
        o.flush()?;
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    // builds differ in how much stack they need
    let t = std::thread::Builder::new().stack_size(512 << 20).spawn(serve).expect("thread");
    std::process::exit(if matches!(t.join(), Ok(Ok(()))) { 0 } else { 2 });
}
