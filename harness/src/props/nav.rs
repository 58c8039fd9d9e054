//! Walking a value with the navigator.

use crate::ensure;
use crate::gen::{self, Prof};
use crate::model::{N, T, V};
use crate::mon::*;
use crate::props::convert::mixed;
use crate::rng::{fnv, Rng};
use kserd::nav::{Navigator, NodeValue};
use kserd::{Kserd, Value};

/// What is known of a node from the tree itself.
struct At<'a, 'k> {
    k: &'a Kserd<'k>,
    parent: Option<usize>,
    key: bool,
    pos: usize,
    name: Option<&'a str>,
    keys: Vec<usize>,
    vals: Vec<usize>,
    /// one past the last node below
    end: usize,
}

fn lay<'a, 'k>(k: &'a Kserd<'k>, parent: Option<usize>, key: bool, pos: usize, name: Option<&'a str>, o: &mut Vec<At<'a, 'k>>) -> usize {
    let me = o.len();
    o.push(At { k, parent, key, pos, name, keys: vec![], vals: vec![], end: 0 });
    let (mut keys, mut vals) = (vec![], vec![]);
    match &k.val {
        Value::Tuple(x) | Value::Seq(x) => {
            for (i, k) in x.iter().enumerate() {
                vals.push(lay(k, Some(me), false, i, None, o));
            }
        }
        Value::Cntr(m) => {
            for (i, (f, k)) in m.iter().enumerate() {
                vals.push(lay(k, Some(me), false, i, Some(&f.inner), o));
            }
        }
        Value::Map(m) => {
            for (i, (k, v)) in m.iter().enumerate() {
                keys.push(lay(k, Some(me), true, i, None, o));
                vals.push(lay(v, Some(me), false, i, None, o));
            }
        }
        _ => (),
    }
    o[me].keys = keys;
    o[me].vals = vals;
    o[me].end = o.len();
    me
}

/// Level by level below a node: keys, then values.
fn breadth(o: &[At], i: usize) -> Vec<usize> {
    let mut q = std::collections::VecDeque::from([i]);
    let mut got = vec![];
    while let Some(i) = q.pop_front() {
        for &c in o[i].keys.iter().chain(&o[i].vals) {
            got.push(c);
            q.push_back(c);
        }
    }
    got
}

fn check_node(ctx: &mut Ctx, r: &mut Rng, nav: &Navigator, o: &[At], i: usize, deep: bool) -> Result<(), String> {
    let n = nav.get(i).ok_or("no such node")?;
    let a = &o[i];
    macro_rules! is {
        ($what:expr, $got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            if g != w {
                return Err(format!("node {i}: {} is {g:?}, expected {w:?}", $what));
            }
        }};
    }
    is!("index", n.index(), i);
    is!("the value's address", n.kserd() as *const _ as usize, a.k as *const _ as usize);
    is!("parent", n.parent().map(|p| p.index()), a.parent);
    is!("being a key", n.is_key(), a.key);
    is!("position in parent", n.idx_in_parent(), a.pos);
    is!("value children", n.value_children().map(|x| x.index()).collect::<Vec<_>>(), a.vals.clone());
    is!("key children", n.key_children().map(|x| x.index()).collect::<Vec<_>>(), a.keys.clone());
    is!("number of value children", (n.value_children().len(), n.value_children().is_empty()), (a.vals.len(), a.vals.is_empty()));
    is!("number of key children", (n.key_children().len(), n.key_children().is_empty()), (a.keys.len(), a.keys.is_empty()));
    is!("navigator of the node", n.nav() as *const _ as usize, nav as *const _ as usize);
    if !(n == nav.get(i).unwrap()) {
        return Err(format!("node {i} is not equal to itself"));
    }
    if i + 1 < o.len() && n == nav.get(i + 1).unwrap() {
        return Err(format!("node {i} is equal to node {}", i + 1));
    }
    let kind = match (n.value(), &a.k.val) {
        (NodeValue::Tuple(mut s), Value::Tuple(_)) | (NodeValue::Seq(mut s), Value::Seq(_)) => {
            // taken one by one, with jumps, the rest counted on the way
            let mut at = 0;
            loop {
                is!("items left", (s.len(), s.is_empty()), (a.vals.len() - at, at == a.vals.len()));
                let j = if r.chance(1, 4) { r.below(3) } else { 0 };
                let got = s.nth(j).map(|x| x.index());
                is!("item", got, a.vals.get(at + j).copied());
                if got.is_none() {
                    break;
                }
                at += j + 1;
            }
            "lists"
        }
        (NodeValue::Cntr(mut s), Value::Cntr(_)) => {
            let mut at = 0;
            loop {
                is!("fields left", (s.len(), s.is_empty()), (a.vals.len() - at, at == a.vals.len()));
                let got = s.next();
                let want = a.vals.get(at).copied();
                is!("field", got.as_ref().map(|x| x.1.index()), want);
                let (Some(got), Some(want)) = (got, want) else { break };
                is!("field name", got.0.as_str(), o[want].name.unwrap());
                at += 1;
            }
            "containers"
        }
        (NodeValue::Map(mut s), Value::Map(_)) => {
            let mut at = 0;
            loop {
                is!("entries left", (s.len(), s.is_empty()), (a.vals.len() - at, at == a.vals.len()));
                let j = if r.chance(1, 4) { r.below(3) } else { 0 };
                let got = s.nth(j).map(|x| (x.0.index(), x.1.index()));
                is!("entry", got, a.keys.get(at + j).copied().zip(a.vals.get(at + j).copied()));
                if got.is_none() {
                    break;
                }
                at += j + 1;
            }
            if !a.keys.is_empty() {
                "maps with entries"
            } else {
                "empty maps"
            }
        }
        (NodeValue::Primitive, Value::Unit | Value::Bool(_) | Value::Num(_) | Value::Str(_) | Value::Barr(_)) => "primitives",
        _ => return Err(format!("node {i}: another kind of value")),
    };
    ctx.hit(kind);
    if deep {
        is!("descendants depth-first", n.descendants_depth().iter().map(|x| x.index()).collect::<Vec<_>>(), (i + 1..a.end).collect::<Vec<_>>());
        is!("descendants breadth-first", n.descendants_breadth().iter().map(|x| x.index()).collect::<Vec<_>>(), breadth(o, i));
        ctx.hit("descendants listed");
    }
    let _ = format!("{n:?}").len();
    ctx.hit("nodes");
    if a.key && !a.vals.is_empty() {
        ctx.hit("nested keys");
    }
    Ok(())
}

fn c27(ctx: &mut Ctx, case: u64) -> R {
    let t = match case % 40 {
        39 if case % 8000 == 39 => {
            // thousands of nodes
            let n = 200 + ctx.r.below(800);
            let item = |r: &mut Rng| {
                let p = Prof { plain: true, ..Prof::small() };
                gen::tree(r, p)
            };
            T::new(match ctx.r.below(3) {
                0 => V::Seq((0..n).map(|_| item(&mut ctx.r)).collect()),
                1 => V::Cntr((0..n).map(|i| (format!("f{i}"), item(&mut ctx.r))).collect()),
                _ => V::Map((0..n).map(|i| (T::new(V::Num(N::U(i as u128))), item(&mut ctx.r))).collect()),
            })
        }
        39 if case % 400 == 39 => gen::big(&mut ctx.r),
        38 => {
            let d = ctx.r.below(120);
            gen::chain(&mut ctx.r, d)
        }
        _ => {
            let p = Prof::pick(&mut ctx.r);
            gen::tree(&mut ctx.r, p)
        }
    };
    let k = mixed(&mut ctx.r, &t, 4);
    walk(ctx, &t, &k)
}

fn walk(ctx: &mut Ctx, t: &T, k: &Kserd) -> R {
    let mut o = Vec::new();
    lay(k, None, false, 0, None, &mut o);
    let nav = calm("building a navigator", || format!("{t:?}"), || Navigator::new(k))?;
    let say = || format!("of {t:?}");
    ensure!(nav.len() == o.len() && !nav.is_empty(), "the navigator lists another number of nodes", "{} expected {}\n{}", nav.len(), o.len(), say());
    ensure!(nav.root().index() == 0 && nav.root().parent().is_none(), "the root is not the first node", "{}", say());
    let listed: Vec<(usize, usize)> = nav.nodes().map(|n| (n.index(), n.kserd() as *const _ as usize)).collect();
    let want: Vec<(usize, usize)> = o.iter().enumerate().map(|(i, a)| (i, a.k as *const _ as usize)).collect();
    ensure!(listed == want, "the nodes are not the values in depth-first order", "{}", say());
    for i in [o.len(), o.len() + 1, usize::MAX] {
        ensure!(nav.get(i).is_none(), "a node beyond the last is found", "{i}\n{}", say());
    }
    let mut r = ctx.r.clone();
    for i in 0..o.len() {
        // every node in small trees, some in large
        let deep = i == 0 || o.len() < 60 || r.chance(1, 1 + o.len() / 20);
        let got = calm("reading a node", || format!("node {i} {}", say()), || check_node(ctx, &mut r, &nav, &o, i, deep))?;
        if let Err(e) = got {
            return fail("a node disagrees with the tree", format!("{e}\n{}", say()));
        }
    }
    ctx.max("nodes", o.len() as u64);
    ctx.max("depth", t.depth() as u64);
    if o.len() > 1 {
        ctx.state(fnv(format!("{t:?}").as_bytes()));
    }
    ctx.sample(|| format!("{} nodes: {t:?}", o.len()));
    Ok(())
}

pub static C27: Prop = Prop {
    id: "C27",
    quick: 1_000_000,
    thorough: 20_000_000,
    rule: "every node of a random tree read through the navigator (index, address, parent, children, keys, names, position, iterators with jumps, descendants both ways) and compared with an own walk over the tree; distinct: by tree, of more than one node",
    required: &["nodes", "lists", "containers", "maps with entries", "primitives", "nested keys", "descendants listed"],
    bounded: false,
    assumptions: &["breadth-first lists a node's keys before its values"],
    run: c27,
};
