//! Makes failing trees smaller.

use crate::model::{N, T, V};

pub fn shrink(t: &T, budget: usize, bad: &mut dyn FnMut(&T) -> bool) -> T {
    let mut cur = t.clone();
    let mut left = budget;
    if cur.nodes() > 3000 {
        return cur;
    }
    'o: loop {
        for c in cands(&cur) {
            if left == 0 {
                return cur;
            }
            left -= 1;
            if bad(&c) {
                cur = c;
                continue 'o;
            }
        }
        return cur;
    }
}

fn cands(t: &T) -> Vec<T> {
    let mut o = vec![];
    let with = |v: V| T { id: t.id.clone(), v };
    if t.id.is_some() {
        o.push(T { id: None, v: t.v.clone() });
        if t.id.as_deref() != Some("a") {
            o.push(T { id: Some("a".into()), v: t.v.clone() });
        }
    }
    match &t.v {
        V::Tuple(x) | V::Seq(x) => {
            let mk = |x: Vec<T>| with(if matches!(t.v, V::Tuple(_)) { V::Tuple(x) } else { V::Seq(x) });
            o.extend(x.iter().cloned());
            if x.len() > 6 {
                o.push(mk(x[..x.len() / 2].to_vec()));
                o.push(mk(x[x.len() / 2..].to_vec()));
            }
            for i in 0..x.len() {
                let mut y = x.clone();
                y.remove(i);
                o.push(mk(y));
            }
            for i in 0..x.len() {
                for c in cands(&x[i]) {
                    let mut y = x.clone();
                    y[i] = c;
                    o.push(mk(y));
                }
            }
        }
        V::Cntr(x) => {
            let mk = |x| with(V::Cntr(x));
            o.extend(x.iter().map(|x| x.1.clone()));
            if x.len() > 6 {
                o.push(mk(x[..x.len() / 2].to_vec()));
                o.push(mk(x[x.len() / 2..].to_vec()));
            }
            for i in 0..x.len() {
                let mut y = x.clone();
                y.remove(i);
                o.push(mk(y));
            }
            for i in 0..x.len() {
                for c in cands(&x[i].1) {
                    let mut y = x.clone();
                    y[i].1 = c;
                    o.push(mk(y));
                }
                let n = format!("f{i}");
                if x[i].0 != n && x.iter().all(|z| z.0 != n) {
                    let mut y = x.clone();
                    y[i].0 = n;
                    o.push(mk(y));
                }
            }
        }
        V::Map(x) => {
            let mk = |x| with(V::Map(x));
            o.extend(x.iter().map(|x| x.1.clone()));
            o.extend(x.iter().map(|x| x.0.clone()));
            if x.len() > 6 {
                o.push(mk(x[..x.len() / 2].to_vec()));
                o.push(mk(x[x.len() / 2..].to_vec()));
            }
            for i in 0..x.len() {
                let mut y = x.clone();
                y.remove(i);
                o.push(mk(y));
            }
            for i in 0..x.len() {
                for c in cands(&x[i].1) {
                    let mut y = x.clone();
                    y[i].1 = c;
                    o.push(mk(y));
                }
                for c in cands(&x[i].0) {
                    let mut y = x.clone();
                    y[i].0 = c;
                    o.push(mk(y));
                }
            }
        }
        V::Unit => {}
        V::Bool(_) | V::Num(N::U(0)) => o.push(with(V::Unit)),
        V::Str(s) => {
            o.push(with(V::Num(N::U(0))));
            let cs: Vec<char> = s.chars().collect();
            if cs.len() > 8 {
                o.push(with(V::Str(cs[..cs.len() / 2].iter().collect())));
                o.push(with(V::Str(cs[cs.len() / 2..].iter().collect())));
            }
            for i in 0..cs.len().min(64) {
                let mut d = cs.clone();
                d.remove(i);
                o.push(with(V::Str(d.into_iter().collect())));
            }
        }
        V::Barr(b) => {
            o.push(with(V::Num(N::U(0))));
            if !b.is_empty() {
                o.push(with(V::Barr(b[..b.len() / 2].to_vec())));
                o.push(with(V::Barr(b[1..].to_vec())));
            }
        }
        V::Num(_) => o.push(with(V::Num(N::U(0)))),
    }
    o
}
