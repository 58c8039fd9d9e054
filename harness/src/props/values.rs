//! Values themselves: comparing, copying, building, reading and changing them.

use crate::ensure;
use crate::gen::{self, Prof};
use crate::model::{self, N, T, V};
use crate::mon::*;
use crate::props::convert::mixed;
use crate::props::num;
use crate::rng::{fnv, Rng};
use kserd::{parse, Barr, Kserd, Kstr, Value};
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- C22

/// Every place in the tree, as mutable visitor.
fn nodes_mut<'a>(t: &'a mut T, o: &mut Vec<*mut T>) {
    o.push(t as *mut T);
    match &mut t.v {
        V::Tuple(x) | V::Seq(x) => x.iter_mut().for_each(|t| nodes_mut(t, o)),
        V::Cntr(x) => x.iter_mut().for_each(|(_, t)| nodes_mut(t, o)),
        V::Map(x) => x.iter_mut().for_each(|(k, t)| {
            nodes_mut(k, o);
            nodes_mut(t, o)
        }),
        _ => (),
    }
}

/// A random node of the tree.
fn some_node<'a>(r: &mut Rng, t: &'a mut T) -> &'a mut T {
    let mut o = Vec::new();
    nodes_mut(t, &mut o);
    let p = *r.pick(&o);
    // safety: one of the nodes of `t`, which stays mutably borrowed; no other pointer is kept
    unsafe { &mut *p }
}

fn near_str(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    match r.below(6) {
        0 => c.push(*r.pick(&['a', '\0', ' ', 'é'])),
        1 if !c.is_empty() => {
            c.pop();
        }
        2 if !c.is_empty() => {
            let i = r.below(c.len());
            c[i] = char::from_u32(c[i] as u32 + 1).unwrap_or('a');
        }
        3 if !c.is_empty() => {
            let i = r.below(c.len());
            c[i] = if c[i].is_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() };
        }
        4 => c.insert(0, ' '),
        _ => return gen::string(r, false),
    }
    c.into_iter().collect()
}

/// Change one thing; says what.
fn tweak(r: &mut Rng, t: &mut T) -> &'static str {
    let n = some_node(r, t);
    if r.chance(1, 5) {
        n.id = if r.bool() { Some(gen::ident(r)) } else { None };
        return "identity";
    }
    match &mut n.v {
        V::Bool(b) => {
            *b = !*b;
            return "leaf";
        }
        V::Num(x) => {
            *x = if r.chance(3, 4) { num::near(r, *x) } else { gen::num(r) };
            return "leaf";
        }
        V::Str(s) if r.chance(5, 6) => {
            *s = near_str(r, s);
            return "leaf";
        }
        V::Str(s) => {
            n.v = V::Barr(s.clone().into_bytes());
            return "kind";
        }
        V::Barr(b) => {
            match r.below(4) {
                0 => b.push(r.next() as u8),
                1 if !b.is_empty() => {
                    b.pop();
                }
                2 if !b.is_empty() => {
                    let i = r.below(b.len());
                    b[i] = b[i].wrapping_add(1);
                }
                _ => {
                    let s = String::from_utf8_lossy(b).to_string();
                    n.v = V::Str(s);
                    return "kind";
                }
            }
            return "leaf";
        }
        V::Unit => {
            n.v = match r.below(3) {
                0 => V::Tuple(vec![]),
                1 => V::Cntr(vec![]),
                _ => V::Bool(false),
            };
            return "kind";
        }
        V::Tuple(x) | V::Seq(x) => {
            let i = r.below(x.len().max(1));
            match r.below(5) {
                0 if !x.is_empty() => {
                    x.remove(i);
                    return "length";
                }
                1 => {
                    let new = gen::tree(r, Prof::small());
                    x.insert(i.min(x.len()), new);
                    return "length";
                }
                2 if x.len() > 1 => {
                    let j = r.below(x.len());
                    x.swap(i, j);
                    return "order of items";
                }
                _ => (),
            }
        }
        V::Cntr(x) => {
            let i = r.below(x.len().max(1));
            match r.below(4) {
                0 if !x.is_empty() => {
                    x.remove(i);
                    return "length";
                }
                1 if !x.is_empty() => {
                    let f = if r.bool() { near_str(r, &x[i].0) } else { gen::name(r) };
                    if x.iter().all(|(g, _)| *g != f) {
                        x[i].0 = f;
                    }
                    return "field name";
                }
                2 => {
                    let f = gen::name(r);
                    if x.iter().all(|(g, _)| *g != f) {
                        x.push((f, gen::tree(r, Prof::small())));
                    }
                    return "length";
                }
                _ => (),
            }
        }
        V::Map(x) => {
            let i = r.below(x.len().max(1));
            match r.below(4) {
                0 if !x.is_empty() => {
                    x.remove(i);
                    return "length";
                }
                1 => {
                    x.push((gen::tree(r, Prof::small()), gen::tree(r, Prof::small())));
                    return "length";
                }
                2 if x.len() > 1 => {
                    let j = r.below(x.len());
                    x.swap(i, j);
                    return "order of entries";
                }
                _ => (),
            }
        }
    }
    // a list, container or map that is to change kind
    let items = |v: &V| -> Vec<T> {
        match v {
            V::Tuple(x) | V::Seq(x) => x.clone(),
            V::Cntr(x) => x.iter().map(|x| x.1.clone()).collect(),
            V::Map(x) => x.iter().map(|x| x.1.clone()).collect(),
            _ => vec![],
        }
    };
    let x = items(&n.v);
    n.v = match r.below(4) {
        0 => V::Tuple(x),
        1 => V::Seq(x),
        2 => V::Cntr(x.into_iter().enumerate().map(|(i, t)| (format!("f{i}"), t)).collect()),
        _ => V::Map(
            x.into_iter()
                .enumerate()
                .map(|(i, t)| (T::new(V::Num(N::U(i as u128))), t))
                .collect(),
        ),
    };
    "kind"
}

/// The model as a value must hold it: fields and entries in order, later duplicates replacing
/// earlier ones.
fn canon(t: &T) -> T {
    let all = |x: &[T]| x.iter().map(canon).collect::<Vec<_>>();
    T {
        id: t.id.clone(),
        v: match &t.v {
            V::Tuple(x) => V::Tuple(all(x)),
            V::Seq(x) => V::Seq(all(x)),
            V::Cntr(x) => {
                let m: BTreeMap<&String, &T> = x.iter().map(|(f, t)| (f, t)).collect();
                V::Cntr(m.into_iter().map(|(f, t)| (f.clone(), canon(t))).collect())
            }
            V::Map(x) => {
                let mut m: Vec<(T, T)> = Vec::new();
                for (k, t) in x {
                    let (k, t) = (canon(k), canon(t));
                    match m.iter_mut().find(|(o, _)| model::order(&o.v, &k.v).is_eq()) {
                        Some(e) => e.1 = t,
                        None => m.push((k, t)),
                    }
                }
                m.sort_by(|a, b| model::order(&a.0.v, &b.0.v));
                V::Map(m)
            }
            v => v.clone(),
        },
    }
}

/// Which kinds the code under test puts first.
fn ranks() -> Result<(), Fail> {
    if model::RANK.get().is_some() {
        return Ok(());
    }
    let one = || T::new(V::Num(N::U(1)));
    let kinds = [
        V::Unit,
        V::Bool(true),
        V::Num(N::U(1)),
        V::Str("a".into()),
        V::Barr(vec![1]),
        V::Tuple(vec![one()]),
        V::Cntr(vec![("a".into(), one())]),
        V::Seq(vec![one()]),
        V::Map(vec![(one(), one())]),
    ];
    let built: Vec<Value> = kinds.iter().map(V::build).collect();
    let mut rank = [0u8; 9];
    for i in 0..9 {
        rank[i] = built.iter().filter(|b| built[i].cmp(b) == Ordering::Greater).count() as u8;
    }
    let mut seen = rank;
    seen.sort_unstable();
    ensure!(
        seen == [0, 1, 2, 3, 4, 5, 6, 7, 8],
        "the kinds have no total order",
        "of {kinds:?} so many come before each: {rank:?}"
    );
    model::RANK.set(rank).ok();
    Ok(())
}

fn c22(ctx: &mut Ctx, case: u64) -> R {
    ranks()?;
    let base = match case % 6 {
        0 => gen::tree(&mut ctx.r, Prof { max_depth: 0, max_items: 0, nodes: 1, id8: 3, plain: false }),
        1 | 2 => gen::tree(&mut ctx.r, Prof::small()),
        3 if case % 30_000 == 3 => gen::huge(&mut ctx.r, false),
        3 => many_keys(&mut ctx.r),
        _ => gen::any(&mut ctx.r),
    };
    let n = ctx.r.range(2, 6);
    let mut ts = vec![base.clone()];
    for _ in 0..n {
        let mut t = if ctx.r.chance(1, 8) {
            gen::tree(&mut ctx.r, Prof::small())
        } else {
            ctx.r.pick(&ts).clone()
        };
        if ctx.r.chance(5, 6) {
            let w = tweak(&mut ctx.r, &mut t);
            ctx.hit(w);
        }
        ts.push(t);
    }
    let own = *ctx.r.pick(&[0, 2, 4, 8]);
    let ks: Vec<Kserd> = ts.iter().map(|t| mixed(&mut ctx.r, t, own)).collect();
    let cs: Vec<T> = ts.iter().map(canon).collect();
    for (i, (k, c)) in ks.iter().zip(&cs).enumerate() {
        // the value holds every distinct entry once
        let got = model::of(k);
        ensure!(
            model::order(&got.v, &c.v).is_eq(),
            "a value lost or misplaced an entry",
            "value {i}: {got:?}\nexpected {c:?}\nbuilt from {:?}",
            ts[i]
        );
    }
    for i in 0..ks.len() {
        for j in 0..ks.len() {
            let (a, b) = (&ks[i], &ks[j]);
            let want = model::order(&cs[i].v, &cs[j].v);
            let say = || format!("a: {:?}\nb: {:?}", ts[i], ts[j]);
            ensure!(
                (a == b) == want.is_eq() && (a != b) != want.is_eq(),
                "equality is not equality of content",
                "a == b: {}, a != b: {}, contents {}\n{}",
                a == b,
                a != b,
                if want.is_eq() { "equal" } else { "different" },
                say()
            );
            ensure!((a.val == b.val) == want.is_eq(), "equality of the bare values differs", "{}", say());
            ensure!(a.cmp(b) == want, "order is not that of the content", "{:?}, expected {want:?}\n{}", a.cmp(b), say());
            ensure!(
                a.val.cmp(&b.val) == want
                    && a.partial_cmp(b) == Some(want)
                    && a.val.partial_cmp(&b.val) == Some(want)
                    && (a < b) == want.is_lt()
                    && (a >= b) == want.is_ge()
                    && (a <= b) == want.is_le()
                    && (a > b) == want.is_gt(),
                "the comparisons disagree with each other",
                "expected {want:?}\n{}",
                say()
            );
            ctx.hit(match want {
                Ordering::Equal if i == j => "same value compared",
                Ordering::Equal => "equal pairs",
                _ => "unequal pairs",
            });
        }
    }
    // sorting and looking up, which rest on the order
    let mut ix: Vec<usize> = (0..ks.len()).collect();
    ix.sort_by(|&a, &b| ks[a].cmp(&ks[b]));
    for w in ix.windows(2) {
        ensure!(
            model::order(&cs[w[0]].v, &cs[w[1]].v).is_le(),
            "sorting left values out of order",
            "{:?}\n{:?}",
            ts[w[0]],
            ts[w[1]]
        );
    }
    if ks.len() > 2 {
        ctx.hit("triples sorted");
    }
    if let Value::Map(m) = &ks[0].val {
        let V::Map(entries) = &cs[0].v else { unreachable!() };
        ensure!(m.len() == entries.len(), "a map holds another number of entries", "{} expected {}\n{:?}", m.len(), entries.len(), ts[0]);
        for (k, v) in entries {
            let mut probe = k.clone();
            if ctx.r.chance(1, 2) {
                probe.id = Some(gen::ident(&mut ctx.r));
            }
            let p = mixed(&mut ctx.r, &probe, 4);
            match m.get(&p) {
                None => return fail("a map does not find one of its keys", format!("key {probe:?}\nmap {:?}", ts[0])),
                Some(x) => {
                    ensure!(
                        model::order(&model::of(x).v, &v.v).is_eq(),
                        "a map finds another key's entry",
                        "{:?}\nkey {probe:?}\nmap {:?}",
                        model::of(x),
                        ts[0]
                    );
                }
            }
            ctx.hit("map entries looked up");
        }
        // a key it does not have
        let mut k = entries.first().map(|e| e.0.clone()).unwrap_or(T::new(V::Unit));
        tweak(&mut ctx.r, &mut k);
        let ck = canon(&k);
        let has = entries.iter().any(|(o, _)| model::order(&o.v, &ck.v).is_eq());
        let mut m = m.clone();
        let p = mixed(&mut ctx.r, &k, 4);
        ensure!(m.contains_key(&p) == has, "a map is wrong about a key it has or lacks", "has it: {has}\nkey {k:?}\nmap {:?}", ts[0]);
        let before = m.len();
        let old = m.insert(p.clone(), Kserd::new(Value::Str(Kstr::brwed("new"))));
        ensure!(
            old.is_some() == has && m.len() == before + !has as usize && m.get(&p).and_then(|x| x.str()) == Some("new"),
            "inserting an entry misplaced it",
            "key {k:?}\nmap {:?}",
            ts[0]
        );
        m.remove(&p);
        ensure!(!m.contains_key(&p) && m.len() == before - has as usize, "removing an entry missed it", "key {k:?}\nmap {:?}", ts[0]);
        ctx.hit(if has { "entries replaced" } else { "entries inserted and removed" });
    }
    let h = fnv(format!("{ts:?}").as_bytes());
    if base.nodes() > 1 {
        ctx.state(h);
    }
    ctx.max("nodes", base.nodes() as u64);
    ctx.sample(|| format!("{} values compared pairwise, first {:?}", ks.len(), ts[0]));
    Ok(())
}

/// A map with many keys that look alike.
fn many_keys(r: &mut Rng) -> T {
    let n = r.below(60);
    let style = r.below(6);
    let first = gen::tree(r, Prof::small());
    V::Map(
        (0..n)
            .map(|i| {
                let k = match style {
                    0 => T::new(V::Num(N::U(r.below(n + 1) as u128))),
                    1 => {
                        let b = gen::num(r);
                        T::new(V::Num(num::near(r, b)))
                    }
                    2 => T::new(V::Str(format!("k{}", r.below(n + 1)))),
                    3 => T::new(V::Tuple((0..r.below(3)).map(|_| T::new(V::Num(N::I(r.below(4) as i128 - 2)))).collect())),
                    4 => {
                        let mut k = first.clone();
                        tweak(r, &mut k);
                        k
                    }
                    _ => gen::tree(r, Prof::small()),
                };
                (k, T::new(V::Num(N::U(i as u128))))
            })
            .collect(),
    )
    .into()
}

impl From<V> for T {
    fn from(v: V) -> T {
        T::new(v)
    }
}

pub static C22: Prop = Prop {
    id: "C22",
    quick: 500_000,
    thorough: 12_000_000,
    rule: "3 to 7 trees, most one change apart (leaf, identity, length, kind, order, name, ownership), compared pairwise in every way with a model of their content, sorted, and looked up as map keys; distinct: by trees, of more than one node",
    required: &["identity", "leaf", "length", "kind", "field name", "equal pairs", "unequal pairs", "triples sorted", "map entries looked up", "entries replaced", "entries inserted and removed"],
    bounded: false,
    assumptions: &["numbers are compared by their exact place on the number line, as in C18"],
    run: c22,
};

// ---------------------------------------------------------------- C23

/// Where every text and byte array of the value lives, identities and names included.
fn places(k: &Kserd, o: &mut Vec<(usize, usize, bool)>) {
    fn s(s: &Kstr, o: &mut Vec<(usize, usize, bool)>) {
        o.push((s.inner.as_ptr() as usize, s.inner.len(), matches!(s.inner, Cow::Owned(_))));
    }
    if let Some(id) = &k.id {
        s(id, o);
    }
    match &k.val {
        Value::Str(x) => s(x, o),
        Value::Barr(b) => o.push((b.inner.as_ptr() as usize, b.inner.len(), matches!(b.inner, Cow::Owned(_)))),
        Value::Tuple(x) | Value::Seq(x) => x.iter().for_each(|k| places(k, o)),
        Value::Cntr(m) => m.iter().for_each(|(f, k)| {
            s(f, o);
            places(k, o)
        }),
        Value::Map(m) => m.iter().for_each(|(k, v)| {
            places(k, o);
            places(v, o)
        }),
        _ => (),
    }
}

fn placed(k: &Kserd) -> Vec<(usize, usize, bool)> {
    let mut o = Vec::new();
    places(k, &mut o);
    o
}

/// Every value of the tree that can be changed in place, as positions among the children.
fn steps(k: &Kserd, at: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) {
    o.push(at.clone());
    let mut go = |i: usize, k: &Kserd| {
        at.push(i);
        steps(k, at, o);
        at.pop();
    };
    match &k.val {
        Value::Tuple(x) | Value::Seq(x) => x.iter().enumerate().for_each(|(i, k)| go(i, k)),
        Value::Cntr(m) => m.values().enumerate().for_each(|(i, k)| go(i, k)),
        Value::Map(m) => m.values().enumerate().for_each(|(i, k)| go(i, k)),
        _ => (),
    }
}

fn descend<'b, 'k>(k: &'b mut Kserd<'k>, path: &[usize]) -> &'b mut Kserd<'k> {
    let Some((i, rest)) = path.split_first() else { return k };
    let k = match &mut k.val {
        Value::Tuple(x) | Value::Seq(x) => &mut x[*i],
        Value::Cntr(m) => m.values_mut().nth(*i).unwrap(),
        Value::Map(m) => m.values_mut().nth(*i).unwrap(),
        _ => unreachable!(),
    };
    descend(k, rest)
}

/// Change something somewhere in the value; says what.
fn scribble(r: &mut Rng, k: &mut Kserd) -> &'static str {
    let mut o = Vec::new();
    steps(k, &mut Vec::new(), &mut o);
    let path = r.pick(&o).clone();
    let n = descend(k, &path);
    if r.chance(1, 5) {
        return match &mut n.id {
            Some(id) if r.bool() => {
                id.to_mut().push_str("changed");
                "identity text changed"
            }
            id => {
                *id = Some(Kstr::owned("other".to_string()));
                "identity replaced"
            }
        };
    }
    match &mut n.val {
        Value::Str(s) => {
            let m = s.to_mut();
            if m.is_empty() || r.bool() {
                m.push('!');
            } else {
                m.clear();
                m.push('~');
            }
            "text changed"
        }
        Value::Barr(b) => {
            let m = b.to_mut();
            match m.first_mut() {
                Some(b) if r.bool() => *b ^= 1,
                _ => m.push(7),
            }
            "bytes changed"
        }
        Value::Tuple(x) | Value::Seq(x) => {
            if x.is_empty() || r.bool() {
                x.push(Kserd::new_bool(true));
            } else {
                let i = r.below(x.len());
                x.remove(i);
            }
            "list changed"
        }
        Value::Cntr(m) => {
            let f = m.keys().next().map(|x| x.as_str().to_string());
            match f {
                Some(f) if r.bool() => drop(m.remove(f.as_str())),
                _ => drop(m.insert(Kstr::owned("added-field".into()), Kserd::new_num(5))),
            }
            "container changed"
        }
        Value::Map(m) => {
            if m.is_empty() || r.bool() {
                m.insert(Kserd::new_string("an added key".into()), Kserd::new_num(5));
            } else {
                m.pop_first();
            }
            "map changed"
        }
        v => {
            *v = match v {
                Value::Bool(b) => Value::Bool(!*b),
                _ => Value::new_string("scribble".to_string()),
            };
            "scalar changed"
        }
    }
}

fn same(what: &str, got: &Kserd, want: &T, detail: &dyn Fn() -> String) -> R {
    if let Err(e) = model::identical(&model::of(got), want) {
        return fail(what, format!("{e}\n{}", detail()));
    }
    Ok(())
}

fn c23(ctx: &mut Ctx, case: u64) -> R {
    let mut t = if case % 40_000 == 16 { gen::huge(&mut ctx.r, true) } else { gen::any(&mut ctx.r) };
    if case % 5 == 4 {
        // names and identities of any text
        for _ in 0..3 {
            let s = gen::string(&mut ctx.r, false);
            some_node(&mut ctx.r, &mut t).id = Some(s);
        }
    }
    if case % 16 == 7 {
        return c23_parsed(ctx, t);
    }
    let own = *ctx.r.pick(&[0, 2, 4, 6, 8]);
    let mut k = mixed(&mut ctx.r, &t, own);
    let mut log: Vec<&'static str> = Vec::new();
    for _ in 0..ctx.r.range(1, 7) {
        let m = model::of(&k);
        let at = placed(&k);
        let say = |log: &[&str]| format!("after {log:?}\nvalue {m:?}\nbuilt from {t:?}");
        match ctx.r.below(5) {
            0 => {
                log.push("clone");
                let mut c = k.clone();
                same("a clone differs", &c, &m, &|| say(&log))?;
                let w = scribble(&mut ctx.r, &mut c);
                ctx.hit(w);
                same("changing a clone changed the original", &k, &m, &|| say(&log))?;
                let cm = model::of(&c);
                // and the other way round
                if ctx.r.bool() {
                    let mut orig = k;
                    scribble(&mut ctx.r, &mut orig);
                    same("changing the original changed its clone", &c, &cm, &|| say(&log))?;
                    drop(orig);
                    same("dropping the original changed its clone", &c, &cm, &|| say(&log))?;
                    k = c;
                }
                ctx.hit("clones");
            }
            1 => {
                log.push("borrowed view");
                let v = k.mk_brw();
                same("a borrowed view differs", &v, &m, &|| say(&log))?;
                let bare = k.val.mk_brw();
                same("a borrowed view of the bare value differs", &Kserd { id: v.id.clone(), val: bare.clone() }, &m, &|| say(&log))?;
                for (i, (a, b)) in placed(&v).iter().zip(&at).enumerate() {
                    ensure!(!a.2, "a borrowed view owns a text", "text {i}\n{}", say(&log));
                    ensure!(a.0 == b.0 && a.1 == b.1, "a borrowed view does not share the original's memory", "text {i}\n{}", say(&log));
                }
                ctx.add("texts of views checked", at.len() as u64);
                // changing a copy made from the view leaves all alone
                let mut c = v.clone();
                let w = scribble(&mut ctx.r, &mut c);
                ctx.hit(w);
                same("changing a view's copy changed the view", &v, &m, &|| say(&log))?;
                let o = v.into_owned();
                same("an owned copy of a view differs", &o, &m, &|| say(&log))?;
                ensure!(placed(&o).iter().all(|p| p.2), "an owned copy of a view borrows a text", "{}", say(&log));
                ensure!(placed(&k) == at, "taking a view moved the original's text", "{}", say(&log));
                same("taking a view changed the original", &k, &m, &|| say(&log))?;
                ctx.hit("views");
            }
            2 => {
                log.push("owned copy");
                let mut o: Kserd<'static> = if ctx.r.chance(1, 3) {
                    // the bare value
                    let Kserd { id, val } = k.clone();
                    Kserd { id: id.map(|x| x.into_owned()), val: val.into_owned() }
                } else {
                    k.clone().into_owned()
                };
                same("an owned copy differs", &o, &m, &|| say(&log))?;
                ensure!(placed(&o).iter().all(|p| p.2), "an owned copy borrows a text", "{}", say(&log));
                let w = scribble(&mut ctx.r, &mut o);
                ctx.hit(w);
                same("changing an owned copy changed the original", &k, &m, &|| say(&log))?;
                ctx.hit("owned copies");
            }
            3 => {
                log.push("made owned");
                k = k.into_owned();
                same("an owned value differs", &k, &m, &|| say(&log))?;
                for (a, b) in placed(&k).iter().zip(&at) {
                    ensure!(a.2, "an owned value borrows a text", "{}", say(&log));
                    if b.2 {
                        ensure!(a.0 == b.0 && a.1 == b.1, "making a value owned copied text it owned already", "{}", say(&log));
                        ctx.hit("owned text moved on");
                    }
                }
                ctx.hit("made owned");
            }
            _ => {
                log.push("change");
                let w = scribble(&mut ctx.r, &mut k);
                ctx.hit(w);
            }
        }
    }
    // an owned copy outlives what it came from
    let m = model::of(&k);
    let o: Kserd<'static> = k.clone().into_owned();
    drop(k);
    let h = fnv(format!("{t:?}{log:?}").as_bytes());
    let shown = format!("{log:?} on {t:?}");
    let n = t.nodes();
    drop(t);
    same("an owned copy changed when its source went", &o, &m, &|| shown.clone())?;
    ctx.hit("outlived");
    if n > 1 {
        ctx.state(h);
    }
    ctx.max("nodes", n as u64);
    ctx.sample(|| shown);
    Ok(())
}

/// A parsed value borrows from the text it was read from.
fn c23_parsed(ctx: &mut Ctx, t: T) -> R {
    let c = gen::config(&mut ctx.r);
    let k = t.build();
    let text = k.as_str_with_config(c);
    let Ok(p) = parse::parse(&text) else {
        ctx.hit("skipped: text refused");
        return Ok(());
    };
    let range = text.as_ptr() as usize..text.as_ptr() as usize + text.len();
    fn go(k: &Kserd, range: &std::ops::Range<usize>, n: &mut u64) -> Result<(), String> {
        let mut s = |what: &str, s: &Kstr| match &s.inner {
            Cow::Borrowed(b) => {
                let a = b.as_ptr() as usize;
                if !b.is_empty() && !(range.contains(&a) && a + b.len() <= range.end) {
                    return Err(format!("{what} {b:?} lies outside the text"));
                }
                *n += 1;
                Ok(())
            }
            Cow::Owned(o) => Err(format!("{what} {o:?} was copied")),
        };
        if let Some(id) = &k.id {
            s("identity", id)?;
        }
        match &k.val {
            Value::Str(x) => s("string", x)?,
            Value::Tuple(x) | Value::Seq(x) => {
                for k in x {
                    go(k, range, n)?;
                }
            }
            Value::Cntr(m) => {
                for (f, k) in m {
                    let mut s = |f: &Kstr| s("field name", f);
                    s(f)?;
                    let _ = s;
                    let _ = k;
                }
                for k in m.values() {
                    go(k, range, n)?;
                }
            }
            Value::Map(m) => {
                for (k, v) in m {
                    go(k, range, n)?;
                    go(v, range, n)?;
                }
            }
            _ => (),
        }
        Ok(())
    }
    let mut n = 0;
    if let Err(e) = go(&p, &range, &mut n) {
        return fail("a parsed value does not borrow from its text", format!("{e}\n--- text\n{text}"));
    }
    ctx.hit("parsed values");
    ctx.add("parsed texts borrowed", n);
    let m = model::of(&p);
    let o: Kserd<'static> = p.into_owned();
    let text2 = text.clone();
    drop(text);
    same("a parsed value made owned differs", &o, &m, &|| text2.clone())?;
    if n > 1 {
        ctx.state(fnv(text2.as_bytes()));
    }
    Ok(())
}

pub static C23: Prop = Prop {
    id: "C23",
    quick: 1_000_000,
    thorough: 40_000_000,
    rule: "a tree with random ownership goes through 1 to 6 clones, borrowed views, owned copies and changes; each result is compared node by node with the model and each text's owner and address with the original's, then the copy is changed and the original compared again; distinct: by tree and steps, of more than one node",
    required: &["clones", "views", "owned copies", "made owned", "outlived", "owned text moved on", "texts of views checked", "parsed values", "parsed texts borrowed", "text changed", "bytes changed", "list changed", "container changed", "map changed", "identity text changed"],
    bounded: false,
    assumptions: &[],
    run: c23,
};

// ---------------------------------------------------------------- C24

const ID_BAD: &str = "(){}[]<> ,./\\=";
const FIELD_BAD: &str = " /\\\"\t'";

/// Any text: plain, with forbidden characters at any place, or with look-alikes of them.
fn any_name(r: &mut Rng) -> String {
    const ODD: &[char] = &[
        '(', ')', '{', '}', '[', ']', '<', '>', ' ', ',', '.', '/', '\\', '=', '"', '\'', '\t', '\n', '\r', '`', ':', ';', '|', '#', '*', '-', '_', '+', '0', '9', '5', '\u{a0}', '\u{2003}',
        '（', '［', '｛', '＝', '‹', '«', '·', '․', '⁄', '∕', '＼', 'é', '😀', '\0', '\u{7f}', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{300}', '!', '$', '%', '&', '@', '^', '~', '?',
    ];
    match r.below(8) {
        0 | 1 => gen::name(r),
        2..=5 => {
            let mut c: Vec<char> = gen::name(r).chars().collect();
            if r.chance(1, 6) {
                c.clear();
            }
            for _ in 0..r.range(1, 3) {
                let i = *r.pick(&[0, c.len(), c.len() / 2]);
                let i = if r.bool() { r.below(c.len() + 1) } else { i };
                c.insert(i, *r.pick(ODD));
            }
            c.into_iter().collect()
        }
        6 => {
            let n = r.below(4);
            (0..n).map(|_| *r.pick(ODD)).collect()
        }
        _ => gen::string(r, false),
    }
}

fn id_ok(s: &str) -> bool {
    !s.chars().any(|c| ID_BAD.chars().any(|b| b == c))
}

/// None: the statement leaves it open (digits of other scripts).
fn field_ok(s: &str) -> Option<bool> {
    let c = s.chars().next();
    if s.is_empty() || c.is_some_and(|c| ('0'..='9').contains(&c)) || s.chars().any(|c| FIELD_BAD.chars().any(|b| b == c)) {
        return Some(false);
    }
    if c.is_some_and(|c| c.is_numeric()) {
        return None;
    }
    Some(true)
}

fn field_char_bad(s: &str) -> bool {
    !s.is_empty() && !s.as_bytes()[0].is_ascii_digit()
}

fn c24_id(ctx: &mut Ctx) -> R {
    let s = any_name(&mut ctx.r);
    let t = gen::tree(&mut ctx.r, Prof::small());
    let ok = id_ok(&s);
    let k = match ctx.r.below(3) {
        0 => Kserd::with_id(s.as_str(), t.v.build()),
        1 => Kserd::with_id(s.clone(), t.v.build()),
        _ => Kserd::with_id(Kstr::brwed(&s), t.v.build()),
    };
    match (k, ok) {
        (Ok(k), true) => {
            let want = model::of(&T { id: Some(s.clone()), v: t.v.clone() }.build());
            same("an identity or the value under it was changed", &k, &want, &|| format!("{s:?}"))?;
            ensure!(k.id() == Some(s.as_str()), "the identity reads back differently", "{:?} vs {s:?}", k.id());
            ctx.hit("identities kept");
        }
        (Err(e), false) => {
            let m = e.to_string();
            ensure!(m.contains(&s), "the refusal does not name the identity", "{s:?}: {m}");
            ctx.hit("identities refused");
        }
        (Ok(_), false) => return fail("a forbidden identity is accepted", format!("{s:?}")),
        (Err(e), true) => return fail("an allowed identity is refused", format!("{s:?}: {e}")),
    }
    ctx.state_s(&s);
    Ok(())
}

fn c24_fields(ctx: &mut Ctx) -> R {
    let n = *ctx.r.pick(&[0, 1, 1, 2, 3, 5, 8, 20]);
    // mostly good names, so that a bad one stands alone somewhere
    let good = ctx.r.chance(1, 4);
    let mut names: Vec<String> = (0..n)
        .map(|_| if good || !ctx.r.chance(1, 1 + n / 2) { gen::name(&mut ctx.r) } else { any_name(&mut ctx.r) })
        .collect();
    if n > 1 && ctx.r.chance(1, 3) {
        let (i, j) = (ctx.r.below(n), ctx.r.below(n));
        names[i] = names[j].clone();
    }
    let ts: Vec<T> = (0..n).map(|_| gen::tree(&mut ctx.r, Prof { max_depth: 1, max_items: 2, nodes: 3, id8: 3, plain: false })).collect();
    let bad: Vec<&String> = names.iter().filter(|s| field_ok(s) == Some(false)).collect();
    let open = names.iter().any(|s| field_ok(s).is_none());
    let own = *ctx.r.pick(&[0, 4, 8]);
    let got: Result<Kserd, _> = match ctx.r.below(4) {
        0 => Kserd::new_cntr(names.iter().zip(&ts).map(|(s, t)| (s.as_str(), t.build()))),
        1 => Kserd::new_cntr(names.iter().zip(&ts).map(|(s, t)| (s.clone(), t.build()))),
        2 => Value::new_cntr(names.iter().zip(&ts).map(|(s, t)| (Kstr::brwed(s), t.build()))).map(Kserd::new),
        _ => {
            let r = &mut ctx.r;
            Value::new_cntr(names.iter().zip(&ts).map(|(s, t)| (Kstr::from(s.as_str()), mixed(r, t, own))).collect::<Vec<_>>()).map(Kserd::new)
        }
    };
    match got {
        Ok(k) => {
            if !bad.is_empty() {
                return fail("a forbidden field name is accepted", format!("{bad:?} among {names:?}"));
            }
            let want: BTreeMap<&String, T> = names.iter().zip(&ts).map(|(s, t)| (s, model::of(&t.build()))).collect();
            let want = T::new(V::Cntr(want.into_iter().map(|(s, t)| (s.clone(), t)).collect()));
            same("a container does not hold its fields", &k, &want, &|| format!("{names:?} {ts:?}"))?;
            ctx.hit("containers kept");
            if names.iter().collect::<BTreeSet<_>>().len() < n {
                ctx.hit("repeated fields replaced");
            }
        }
        Err(e) => {
            let m = e.to_string();
            if bad.is_empty() && !open {
                return fail("allowed field names are refused", format!("{names:?}: {m}"));
            }
            // every bad name whose fault is a character: the message has to name one of them
            if !bad.is_empty() && bad.iter().all(|s| field_char_bad(s)) && !open {
                ensure!(bad.iter().any(|s| m.contains(s.as_str())), "the refusal does not name the field", "{bad:?}: {m}");
            }
            ctx.hit("field names refused");
            if n > 2 {
                ctx.hit("one bad name among many");
            }
        }
    }
    if n > 0 {
        ctx.state_s(&format!("{names:?}"));
    }
    Ok(())
}

fn c24_ctors(ctx: &mut Ctx) -> R {
    let s = gen::string(&mut ctx.r, false);
    let b = gen::bytes(&mut ctx.r);
    let (sp, bp) = (s.as_ptr() as usize, b.as_ptr() as usize);
    let place = |k: &Kserd| match &k.val {
        Value::Str(s) => (s.inner.as_ptr() as usize, s.inner.len(), matches!(s.inner, Cow::Owned(_))),
        Value::Barr(s) => (s.inner.as_ptr() as usize, s.inner.len(), matches!(s.inner, Cow::Owned(_))),
        _ => (0, 0, false),
    };
    let is = |k: &Kserd, id: Option<&str>, v: V| same("a constructor gives another value", k, &T { id: id.map(String::from), v }, &String::new);
    is(&Kserd::new_unit(), None, V::Unit)?;
    let x = ctx.r.bool();
    is(&Kserd::new_bool(x), Some("bool"), V::Bool(x))?;
    let k = Kserd::new_str(&s);
    is(&k, Some("str"), V::Str(s.clone()))?;
    ensure!(place(&k) == (sp, s.len(), false), "a borrowed string is not kept in place", "{s:?}");
    let k = Kserd::new_barr(&b);
    is(&k, Some("barr"), V::Barr(b.clone()))?;
    ensure!(place(&k) == (bp, b.len(), false), "borrowed bytes are not kept in place", "{b:?}");
    let k = Kserd { id: None, val: Value::new_str(&s) };
    ensure!(place(&k) == (sp, s.len(), false), "a borrowed string is not kept in place", "{s:?}");
    is(&k, None, V::Str(s.clone()))?;
    let k = Kserd::new(Value::new_barr(&b));
    ensure!(place(&k) == (bp, b.len(), false), "borrowed bytes are not kept in place", "{b:?}");
    is(&k, None, V::Barr(b.clone()))?;
    let (s2, b2) = (s.clone(), b.clone());
    let k = if ctx.r.bool() {
        let k = Kserd::new_string(s);
        is(&k, Some("String"), V::Str(s2.clone()))?;
        k
    } else {
        let k = Kserd::new(Value::new_string(s));
        is(&k, None, V::Str(s2.clone()))?;
        k
    };
    ensure!(place(&k) == (sp, s2.len(), true), "an owned string is copied", "{s2:?}");
    let k = if ctx.r.bool() {
        let k = Kserd::new_barrv(b);
        is(&k, Some("ByteVec"), V::Barr(b2.clone()))?;
        k
    } else {
        let k = Kserd::new(Value::new_barrv(b));
        is(&k, None, V::Barr(b2.clone()))?;
        k
    };
    ensure!(place(&k) == (bp, b2.len(), true), "owned bytes are copied", "{b2:?}");
    macro_rules! ints {
        ($($t:ident $n:ident $w:ty),*) => {$({
            let x = {
                let u = ctx.r.u128();
                match ctx.r.below(4) { 0 => <$t>::MIN, 1 => <$t>::MAX, 2 => (u % 100) as $t, _ => (u >> ctx.r.below(128)) as $t }
            };
            is(&Kserd::new_num(x), Some(stringify!($t)), V::Num(N::$n(x as $w)))?;
            let v = Kserd::new(Value::new_num(x));
            is(&v, None, V::Num(N::$n(x as $w)))?;
        })*};
    }
    ints!(u8 U u128, u16 U u128, u32 U u128, u64 U u128, u128 U u128, usize U u128, i8 I i128, i16 I i128, i32 I i128, i64 I i128, i128 I i128, isize I i128);
    let f = gen::float(&mut ctx.r);
    is(&Kserd::new_num(f), Some("f64"), V::Num(N::F(f)))?;
    let g = f as f32;
    is(&Kserd::new_num(g), Some("f32"), V::Num(N::F(g.to_string().parse().unwrap())))?;
    // maps keep each distinct key, the last value winning
    let p = Prof { max_depth: 1, max_items: 2, nodes: 3, id8: 3, plain: false };
    let n = ctx.r.below(6);
    let mut kv: Vec<(T, T)> = (0..n).map(|_| (gen::tree(&mut ctx.r, p), gen::tree(&mut ctx.r, p))).collect();
    if n > 1 && ctx.r.bool() {
        kv[n - 1].0 = kv[0].0.clone();
        ctx.hit("repeated keys replaced");
    }
    let m = if ctx.r.bool() {
        Kserd::new_map(kv.iter().map(|(k, v)| (k.build(), v.build())))
    } else {
        Kserd::new(Value::new_map(kv.iter().map(|(k, v)| (k.build(), v.build())).collect::<Vec<_>>()))
    };
    ensure!(m.id.is_none(), "a map gets an identity", "{:?}", m.id());
    let want = canon(&T::new(V::Map(kv.clone())));
    let got = model::of(&m);
    ensure!(model::order(&got.v, &want.v).is_eq(), "a map does not hold its entries", "{got:?}\nexpected {want:?}");
    ctx.hit("constructors");
    ctx.state_s(&format!("{s2:?}{b2:?}{f}{kv:?}"));
    Ok(())
}

/// Says to the serializer that it is a type or variant of this name.
struct Named(&'static str, usize);

impl serde::Serialize for Named {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        match self.1 {
            0 => s.serialize_unit_struct(self.0),
            1 => s.serialize_newtype_struct(self.0, &5u8),
            2 => {
                let mut t = s.serialize_tuple_struct(self.0, 2)?;
                t.serialize_field(&1u8)?;
                t.serialize_field("two")?;
                t.end()
            }
            3 => {
                let mut t = s.serialize_struct(self.0, 2)?;
                t.serialize_field("a", &1u8)?;
                t.serialize_field("b", "two")?;
                t.end()
            }
            4 => s.serialize_unit_variant("Enum", 0, self.0),
            5 => s.serialize_newtype_variant("Enum", 1, self.0, &5u8),
            6 => {
                let mut t = s.serialize_tuple_variant("Enum", 2, self.0, 2)?;
                t.serialize_field(&1u8)?;
                t.serialize_field("two")?;
                t.end()
            }
            _ => {
                let mut t = s.serialize_struct_variant("Enum", 3, self.0, 2)?;
                t.serialize_field("a", &1u8)?;
                t.serialize_field("b", "two")?;
                t.end()
            }
        }
    }
}

/// A fixed set of names with the lifetime serializers ask for.
fn lasting(n: usize) -> &'static str {
    static POOL: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let p = POOL.get_or_init(|| {
        let mut r = Rng::new(24);
        (0..3000).map(|_| &*Box::leak(any_name(&mut r).into_boxed_str())).collect()
    });
    p[n % p.len()]
}

fn c24_encode(ctx: &mut Ctx) -> R {
    let name = lasting(ctx.r.below(3000));
    let form = ctx.r.below(8);
    let nest = ctx.r.below(4);
    let got = match nest {
        0 => Kserd::enc(&Named(name, form)),
        1 => Kserd::enc(&vec![Named("Fine", 0), Named(name, form)]),
        2 => Kserd::enc(&Some((1, Named(name, form)))),
        _ => Kserd::enc(&BTreeMap::from([("k", Named(name, form))])),
    };
    match (got, id_ok(name)) {
        (Ok(k), true) => {
            let inner = match &k.val {
                _ if nest == 0 => &k,
                Value::Seq(x) => &x[1],
                Value::Tuple(x) => match &x[0].val {
                    Value::Tuple(x) => &x[1],
                    _ => &x[1],
                },
                Value::Map(m) => m.values().next().unwrap(),
                _ => return fail("an encoded collection has another kind", format!("{:?}", model::of(&k))),
            };
            ensure!(inner.id() == Some(name), "an encoded type has another name", "{:?} for {name:?}", inner.id());
            ctx.hit("type names kept");
        }
        (Err(e), false) => {
            let m = e.to_string();
            ensure!(m.contains(name), "the refusal does not name the type", "{name:?}: {m}");
            ctx.hit("type names refused");
        }
        (Ok(_), false) => return fail("a forbidden type name is encoded", format!("{name:?} form {form}")),
        (Err(e), true) => return fail("an allowed type name is refused", format!("{name:?} form {form}: {e}")),
    }
    ctx.state_s(&format!("{name}{form}{nest}"));
    Ok(())
}

fn c24(ctx: &mut Ctx, case: u64) -> R {
    match case % 8 {
        0..=2 => c24_id(ctx),
        3..=5 => c24_fields(ctx),
        6 => c24_ctors(ctx),
        _ => c24_encode(ctx),
    }
}

pub static C24: Prop = Prop {
    id: "C24",
    quick: 6_000_000,
    thorough: 200_000_000,
    rule: "any text as identity, field name (at any place among up to 20) or type name, random arguments for every constructor; what is kept is compared node by node and by address, what is refused by the listed rules; distinct: by text and arguments",
    required: &["identities kept", "identities refused", "containers kept", "field names refused", "one bad name among many", "repeated fields replaced", "constructors", "repeated keys replaced", "type names kept", "type names refused"],
    bounded: false,
    assumptions: &["field names starting with a digit of another script may be kept or refused", "of equal keys either may be kept; the later value must be"],
    run: c24,
};

// ---------------------------------------------------------------- C25

/// Every typed reader of a value against the model.
fn read_all(k: &Value, v: &V) -> Result<(), String> {
    fn list(what: &str, got: Option<&Vec<Kserd>>, want: Option<&Vec<T>>) -> Result<(), String> {
        match (got, want) {
            (None, None) => Ok(()),
            (Some(g), Some(w)) if g.len() == w.len() => {
                for (g, w) in g.iter().zip(w) {
                    model::identical(&model::of(g), w).map_err(|e| format!("{what}: {e}"))?;
                }
                Ok(())
            }
            (g, w) => Err(format!("{what} gives {} items, expected {:?}", g.map_or(-1, |x| x.len() as i64), w.map(|x| x.len()))),
        }
    }
    macro_rules! is {
        ($got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            if g != w {
                return Err(format!("{} gives {:?}, expected {:?}", stringify!($got), g, w));
            }
        }};
    }
    is!(k.unit(), matches!(v, V::Unit));
    is!(k.bool(), if let V::Bool(b) = v { Some(*b) } else { None });
    is!(k.str(), if let V::Str(s) = v { Some(s.as_str()) } else { None });
    is!(k.barr(), if let V::Barr(s) = v { Some(s.as_slice()) } else { None });
    let ch = if let V::Str(s) = v {
        let mut c = s.chars();
        c.next().filter(|_| c.next().is_none())
    } else {
        None
    };
    is!(k.ch(), ch);
    if let V::Num(n) = v {
        // where the number has no exact whole value the reader may round or refuse (C20)
        if let Some(w) = num::whole(n, false) {
            is!(k.uint(), w.ok().map(|n| if let N::U(x) = n { x } else { 0 }));
        }
        if let Some(w) = num::whole(n, true) {
            is!(k.int(), w.ok().map(|n| match n {
                N::U(x) => x as i128,
                N::I(x) => x,
                N::F(_) => 0,
            }));
        }
        let f = k.float();
        let w = num::nearest(n);
        if f.map(|x| x.to_bits()) != Some(w.to_bits()) && !(w.is_nan() && f.is_some_and(|x| x.is_nan())) {
            return Err(format!("float gives {f:?}, expected {w:?}"));
        }
    } else {
        is!(k.uint(), None);
        is!(k.int(), None);
        is!(k.float(), None);
    }
    list("tuple", k.tuple(), if let V::Tuple(x) = v { Some(x) } else { None })?;
    list("seq", k.seq(), if let V::Seq(x) = v { Some(x) } else { None })?;
    list("tuple_or_seq", k.tuple_or_seq(), if let V::Tuple(x) | V::Seq(x) = v { Some(x) } else { None })?;
    is!(k.cntr().is_some(), matches!(v, V::Cntr(_)));
    is!(k.map().is_some(), matches!(v, V::Map(_)));
    if let (Some(m), V::Map(x)) = (k.map(), v) {
        is!(m.len(), x.len());
        for ((gk, gv), (wk, wv)) in m.iter().zip(x) {
            model::identical(&model::of(gk), wk).map_err(|e| format!("key: {e}"))?;
            model::identical(&model::of(gv), wv).map_err(|e| format!("entry: {e}"))?;
        }
    }
    if let (Some(a), V::Cntr(x)) = (k.cntr(), v) {
        is!(a.len(), x.len());
        let mut names: Vec<String> = x.iter().map(|x| x.0.clone()).collect();
        names.push("absent".into());
        names.push(String::new());
        if let Some(f) = x.first() {
            names.push(f.0.to_uppercase());
            names.push(format!("{}x", f.0));
        }
        for (i, f) in names.iter().enumerate() {
            let w = x.iter().find(|(g, _)| g == f).map(|x| &x.1);
            let kf = Kstr::brwed(f);
            // by plain text or by the library's own string
            macro_rules! get {
                ($m:ident) => {
                    if i % 2 == 0 { a.$m(f.as_str()) } else { a.$m(&kf) }
                };
            }
            let wv = w.map(|w| &w.v);
            is!(get!(get_unit), if let Some(V::Unit) = wv { Some(()) } else { None });
            is!(get!(get_bool), if let Some(V::Bool(b)) = wv { Some(*b) } else { None });
            is!(get!(get_str), if let Some(V::Str(b)) = wv { Some(b.as_str()) } else { None });
            is!(get!(get_barr), if let Some(V::Barr(b)) = wv { Some(b.as_slice()) } else { None });
            let n = get!(get_num);
            match (n, wv) {
                (Some(n), Some(V::Num(w))) if N::of(&n).identical(w) => (),
                (None, w) if !matches!(w, Some(V::Num(_))) => (),
                (n, w) => return Err(format!("get_num({f:?}) gives {n:?}, expected {w:?}")),
            }
            list("get_tuple", get!(get_tuple), if let Some(V::Tuple(x)) = wv { Some(x) } else { None })?;
            list("get_seq", get!(get_seq), if let Some(V::Seq(x)) = wv { Some(x) } else { None })?;
            list("get_tuple_or_seq", get!(get_tuple_or_seq), if let Some(V::Tuple(x) | V::Seq(x)) = wv { Some(x) } else { None })?;
            is!(get!(get_cntr).map(|x| x.len()), if let Some(V::Cntr(x)) = wv { Some(x.len()) } else { None });
            is!(get!(get_map).map(|x| x.len()), if let Some(V::Map(x)) = wv { Some(x.len()) } else { None });
            if let (Some(c), Some(V::Cntr(x))) = (get!(get_cntr), wv) {
                for (g, t) in x {
                    let got = c.get(g.as_str()).map(model::of).ok_or_else(|| format!("field {g:?} of {f:?} not found"))?;
                    model::identical(&got, t)?;
                }
            }
            if let (Some(m), Some(V::Map(x))) = (get!(get_map), wv) {
                for ((gk, gv), (wk, wv)) in m.iter().zip(x) {
                    model::identical(&model::of(gk), wk)?;
                    model::identical(&model::of(gv), wv)?;
                }
            }
            match (a.get(f.as_str()), w) {
                (None, None) => (),
                (Some(g), Some(w)) => model::identical(&model::of(g), w)?,
                (g, w) => return Err(format!("get({f:?}) gives {}, expected {w:?}", g.is_some())),
            }
        }
    }
    Ok(())
}

fn read_tree(ctx: &mut Ctx, k: &Kserd, t: &T) -> Result<(), String> {
    if k.id() != t.id.as_deref() {
        return Err(format!("identity {:?}, expected {:?}", k.id(), t.id));
    }
    // through the value and through the node
    read_all(&k.val, &t.v)?;
    ctx.hit("nodes read");
    ctx.hit(t.v.kind());
    match (&k.val, &t.v) {
        (Value::Tuple(x), V::Tuple(y)) | (Value::Seq(x), V::Seq(y)) => {
            for (x, y) in x.iter().zip(y) {
                read_tree(ctx, x, y)?;
            }
        }
        (Value::Cntr(x), V::Cntr(y)) => {
            for (x, y) in x.values().zip(y) {
                read_tree(ctx, x, &y.1)?;
            }
        }
        (Value::Map(x), V::Map(y)) => {
            for ((a, b), (c, d)) in x.iter().zip(y) {
                read_tree(ctx, a, c)?;
                read_tree(ctx, b, d)?;
            }
        }
        _ => (),
    }
    Ok(())
}

/// Go down to a random node by mutable accessors only and write there, in value and model alike.
fn write_at(ctx: &mut Ctx, k: &mut Kserd, t: &mut T, log: &mut String) -> Result<(), String> {
    let r = &mut ctx.r;
    let want = t.v.kind();
    // every accessor of another kind gives nothing
    macro_rules! none {
        ($($m:ident not $($p:pat_param)|+),*) => {$(
            if k.$m().is_some() != matches!(t.v, $($p)|+) {
                return Err(format!("{} is {} on a {want}", stringify!($m), if matches!(t.v, $($p)|+) { "nothing" } else { "something" }));
            }
        )*};
    }
    none!(
        bool_mut not V::Bool(_),
        num_mut not V::Num(_),
        barr_mut not V::Barr(_),
        tuple_mut not V::Tuple(_),
        seq_mut not V::Seq(_),
        tuple_or_seq_mut not V::Tuple(_) | V::Seq(_),
        cntr_mut not V::Cntr(_),
        map_mut not V::Map(_)
    );
    if !matches!(t.v, V::Str(_)) && k.str_mut().is_some() {
        return Err(format!("str_mut is something on a {want}"));
    }
    let kids = match &t.v {
        V::Tuple(x) | V::Seq(x) => x.len(),
        V::Cntr(x) => x.len(),
        V::Map(x) => x.len(),
        _ => 0,
    };
    if kids > 0 && r.chance(2, 3) {
        let i = r.below(kids);
        match &mut t.v {
            V::Tuple(x) => {
                log.push_str(&format!(".{i}"));
                let l = if r.bool() { k.tuple_mut() } else { k.tuple_or_seq_mut() };
                return write_at(ctx, &mut l.ok_or("nothing")?[i], &mut x[i], log);
            }
            V::Seq(x) => {
                log.push_str(&format!("[{i}]"));
                let l = if r.bool() { k.seq_mut() } else { k.tuple_or_seq_mut() };
                return write_at(ctx, &mut l.ok_or("nothing")?[i], &mut x[i], log);
            }
            V::Map(x) => {
                log.push_str(&format!("{{{i}}}"));
                let m = k.map_mut().ok_or("nothing")?;
                let key = x[i].0.build();
                let e = m.get_mut(&key).ok_or("key not found")?;
                return write_at(ctx, e, &mut x[i].1, log);
            }
            V::Cntr(x) => {
                let f = x[i].0.clone();
                log.push_str(&format!(".{f}"));
                let mut a = k.cntr_mut().ok_or("nothing")?;
                if r.bool() {
                    let e = a.get_mut(f.as_str()).ok_or("field not found")?;
                    return write_at(ctx, e, &mut x[i].1, log);
                }
                return write_field(ctx, &mut a, &f, &mut x[i].1, log);
            }
            _ => unreachable!(),
        }
    }
    ctx.hit("writes");
    let small = Prof { max_depth: 1, max_items: 2, nodes: 3, id8: 4, plain: false };
    let r = &mut ctx.r;
    if r.chance(1, 8) {
        // the whole value, through the node
        let new = model::of(&gen::tree(r, small).build());
        log.push_str(" = whole value");
        **k = new.v.build();
        t.v = new.v;
        return Ok(());
    }
    match &mut t.v {
        V::Bool(b) => {
            *b = r.bool();
            *k.bool_mut().ok_or("nothing")? = *b;
        }
        V::Num(n) => {
            *n = gen::num(r);
            *k.num_mut().ok_or("nothing")? = n.to();
        }
        V::Str(s) => write_str(r, k.str_mut().ok_or("nothing")?, s)?,
        V::Barr(s) => write_bytes(r, k.barr_mut().ok_or("nothing")?, s)?,
        V::Tuple(x) => write_list(r, k.tuple_mut().ok_or("nothing")?, x),
        V::Seq(x) => write_list(r, k.seq_mut().ok_or("nothing")?, x),
        V::Cntr(x) => {
            let mut a = k.cntr_mut().ok_or("nothing")?;
            write_cntr(r, &mut a, x)?;
        }
        V::Map(x) => {
            let m = k.map_mut().ok_or("nothing")?;
            write_map(r, m, x)?;
        }
        V::Unit => {
            k.val = Value::Bool(true);
            t.v = V::Bool(true);
        }
    }
    log.push_str(&format!(" ({want})"));
    Ok(())
}

fn write_str(r: &mut Rng, s: &mut String, m: &mut String) -> Result<(), String> {
    if s != m {
        return Err(format!("mutable text is {s:?}, expected {m:?}"));
    }
    if r.bool() {
        s.push_str("é+");
        m.push_str("é+");
    } else {
        let new = gen::string(r, false);
        s.clone_from(&new);
        *m = new;
    }
    Ok(())
}

fn write_bytes(r: &mut Rng, s: &mut Vec<u8>, m: &mut Vec<u8>) -> Result<(), String> {
    if s != m {
        return Err(format!("mutable bytes are {s:?}, expected {m:?}"));
    }
    if r.bool() {
        s.push(200);
        m.push(200);
    } else {
        let new = gen::bytes(r);
        s.clone_from(&new);
        *m = new;
    }
    Ok(())
}

fn write_list<'k>(r: &mut Rng, l: &mut Vec<Kserd<'k>>, m: &mut Vec<T>) {
    let small = Prof { max_depth: 1, max_items: 2, nodes: 3, id8: 4, plain: false };
    if m.is_empty() || l.len() != m.len() || r.bool() {
        let t = model::of(&gen::tree(r, small).build());
        let i = r.below(m.len() + 1).min(l.len());
        l.insert(i, t.build());
        m.insert(i, t);
    } else {
        let i = r.below(m.len());
        l.remove(i);
        m.remove(i);
    }
}

fn write_cntr<'k>(r: &mut Rng, a: &mut BTreeMap<Kstr<'k>, Kserd<'k>>, x: &mut Vec<(String, T)>) -> Result<(), String> {
    let small = Prof { max_depth: 1, max_items: 2, nodes: 3, id8: 4, plain: false };
    if x.is_empty() || r.bool() {
        let f = gen::name(r);
        let t = model::of(&gen::tree(r, small).build());
        a.insert(Kstr::owned(f.clone()), t.build());
        x.retain(|e| e.0 != f);
        x.push((f, t));
        x.sort_by(|a, b| a.0.cmp(&b.0));
    } else {
        let i = r.below(x.len());
        if a.remove(x[i].0.as_str()).is_none() {
            return Err(format!("field {:?} not found", x[i].0));
        }
        x.remove(i);
    }
    Ok(())
}

fn write_map<'k>(r: &mut Rng, a: &mut BTreeMap<Kserd<'k>, Kserd<'k>>, x: &mut Vec<(T, T)>) -> Result<(), String> {
    let small = Prof { max_depth: 1, max_items: 2, nodes: 3, id8: 4, plain: false };
    if x.is_empty() {
        let (k, t) = (gen::tree(r, small), gen::tree(r, small));
        let (k, t) = (model::of(&k.build()), model::of(&t.build()));
        a.insert(k.build(), t.build());
        x.push((k, t));
    } else {
        let i = r.below(x.len());
        if a.remove(&x[i].0.build()).is_none() {
            return Err(format!("key {:?} not found", x[i].0));
        }
        x.remove(i);
    }
    Ok(())
}

/// Write through the typed field accessors.
fn write_field<'k, X>(ctx: &mut Ctx, a: &mut kserd::ds::Accessor<X>, f: &str, t: &mut T, log: &mut String) -> Result<(), String>
where
    X: std::ops::DerefMut<Target = BTreeMap<Kstr<'k>, Kserd<'k>>>,
{
    let want = t.v.kind();
    macro_rules! none {
        ($($m:ident not $($p:pat_param)|+),*) => {$(
            if a.$m(f).is_some() != matches!(t.v, $($p)|+) {
                return Err(format!("{} is wrong about a {want}", stringify!($m)));
            }
            if a.$m("no such field").is_some() {
                return Err(format!("{} finds a field that is not there", stringify!($m)));
            }
        )*};
    }
    none!(
        get_bool_mut not V::Bool(_),
        get_num_mut not V::Num(_),
        get_barr_mut not V::Barr(_),
        get_str_mut not V::Str(_),
        get_tuple_mut not V::Tuple(_),
        get_seq_mut not V::Seq(_),
        get_tuple_or_seq_mut not V::Tuple(_) | V::Seq(_),
        get_cntr_mut not V::Cntr(_),
        get_map_mut not V::Map(_)
    );
    ctx.hit("writes through field accessors");
    log.push_str(&format!(" (field, {want})"));
    let either = ctx.r.bool();
    let r = &mut ctx.r;
    match &mut t.v {
        V::Bool(b) => {
            *b = r.bool();
            *a.get_bool_mut(f).ok_or("nothing")? = *b;
        }
        V::Num(n) => {
            *n = gen::num(r);
            *a.get_num_mut(f).ok_or("nothing")? = n.to();
        }
        V::Str(s) => write_str(r, a.get_str_mut(f).ok_or("nothing")?, s)?,
        V::Barr(s) => write_bytes(r, a.get_barr_mut(f).ok_or("nothing")?, s)?,
        V::Tuple(x) => write_list(r, if either { a.get_tuple_mut(f) } else { a.get_tuple_or_seq_mut(f) }.ok_or("nothing")?, x),
        V::Seq(x) => write_list(r, if either { a.get_seq_mut(f) } else { a.get_tuple_or_seq_mut(f) }.ok_or("nothing")?, x),
        V::Cntr(x) => {
            let mut c = a.get_cntr_mut(f).ok_or("nothing")?;
            write_cntr(r, &mut c, x)?;
        }
        V::Map(x) => write_map(r, a.get_map_mut(f).ok_or("nothing")?, x)?,
        V::Unit => {
            if a.get_unit(f).is_none() {
                return Err("get_unit finds nothing".into());
            }
        }
    }
    Ok(())
}

fn c25(ctx: &mut Ctx, _case: u64) -> R {
    let mut src = gen::any(&mut ctx.r);
    if ctx.r.bool() {
        // short strings: the single-character reader
        for _ in 0..3 {
            let s = ctx.r.pick(&["a", "é", "😀", "ab", "e\u{301}", "", "\u{301}", "\0"]).to_string();
            let n = some_node(&mut ctx.r, &mut src);
            if let V::Str(x) = &mut n.v {
                *x = s;
            }
        }
    }
    let mut k = mixed(&mut ctx.r, &src, 4);
    let mut t = model::of(&k);
    if let Err(e) = read_tree(ctx, &k, &t) {
        return fail("a typed reader gives something else", format!("{e}\n{src:?}"));
    }
    let mut log = String::new();
    for _ in 0..ctx.r.below(8) {
        log.push_str("\n$");
        let before = t.clone();
        if let Err(e) = write_at(ctx, &mut k, &mut t, &mut log) {
            return fail("a mutable accessor gives something else", format!("{e}\nwrites:{log}\non {before:?}"));
        }
        // entries of maps are kept in order whatever their new content
        if let Err(e) = model::identical(&model::of(&k), &t) {
            return fail("a write changed something else or was lost", format!("{e}\nwrites:{log}\non {before:?}"));
        }
        if ctx.r.chance(1, 3) {
            if let Err(e) = read_tree(ctx, &k, &t) {
                return fail("after a write a typed reader gives something else", format!("{e}\nwrites:{log}\non {before:?}"));
            }
        }
    }
    if src.nodes() > 1 {
        ctx.state(fnv(format!("{src:?}{log}").as_bytes()));
    }
    ctx.sample(|| format!("writes:{log} on {src:?}"));
    Ok(())
}

pub static C25: Prop = Prop {
    id: "C25",
    quick: 600_000,
    thorough: 12_000_000,
    rule: "every typed reader on every node of a random tree, then up to 7 writes through mutable accessors (by value, by field name, nested) done in value and model alike and the whole trees compared after each; distinct: by tree and writes, of more than one node",
    required: &["nodes read", "writes", "writes through field accessors", "unit", "bool", "num", "str", "barr", "tuple", "cntr", "seq", "map"],
    bounded: false,
    assumptions: &["whole-number readers on fractions: as in C20"],
    run: c25,
};

// ---------------------------------------------------------------- C26

fn hash_of<H: Hash + ?Sized>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

/// All calls made to a hasher.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

fn c26_str(ctx: &mut Ctx) -> R {
    let a = gen::string(&mut ctx.r, false);
    let b = if ctx.r.chance(1, 3) { a.clone() } else if ctx.r.bool() { near_str(&mut ctx.r, &a) } else { gen::string(&mut ctx.r, false) };
    let own = |r: &mut Rng, s: &str| -> bool { r.bool() && !s.is_empty() || r.bool() };
    let (oa, ob) = (own(&mut ctx.r, &a), own(&mut ctx.r, &b));
    fn mk(s: &str, own: bool, from: bool) -> Kstr<'_> {
        match (own, from) {
            (true, true) => Kstr::from(s.to_string()),
            (true, false) => Kstr::owned(s.to_string()),
            (false, true) => Kstr::from(s),
            (false, false) => Kstr::brwed(s),
        }
    }
    let f = ctx.r.bool();
    let (ka, kb) = (mk(&a, oa, f), mk(&b, ob, f));
    let say = || format!("a = {a:?} ({}), b = {b:?} ({})", if oa { "owned" } else { "borrowed" }, if ob { "owned" } else { "borrowed" });
    macro_rules! is {
        ($($c:expr),* $(,)?) => {$(
            ensure!($c, format!("a string wrapper is not its text: {}", stringify!($c)), "{}", say());
        )*};
    }
    ctx.hit(match (oa, ob) {
        (true, true) => "both owned",
        (false, false) => "both borrowed",
        _ => "owned against borrowed",
    });
    is!(
        matches!(ka.inner, Cow::Owned(_)) == oa,
        (ka == kb) == (a == b),
        (ka != kb) == (a != b),
        ka.cmp(&kb) == a.cmp(&b),
        ka.partial_cmp(&kb) == a.partial_cmp(&b),
        (ka < kb) == (a < b),
        (ka >= kb) == (a >= b),
        hash_of(&ka) == hash_of(a.as_str()),
        ka.as_str() == a,
        &*ka == a.as_str(),
        AsRef::<str>::as_ref(&ka) == a,
        Borrow::<str>::borrow(&ka) == a,
        ka.len() == a.len(),
        ka.to_string() == a,
        format!("{ka}") == a,
        format!("{ka:?}") == format!("{a:?}"),
        ka == *a.as_str(),
        (ka == *b.as_str()) == (a == b),
        ka.clone() == ka,
        ka.chars().eq(a.chars()),
    );
    let (mut h1, mut h2) = (Rec::default(), Rec::default());
    ka.hash(&mut h1);
    a.as_str().hash(&mut h2);
    is!(h1.0 == h2.0);
    if !oa {
        is!(ka.as_str().as_ptr() == a.as_ptr());
    }
    // as a key, found by plain text
    let mut m: BTreeMap<Kstr, u8> = BTreeMap::new();
    m.insert(ka.clone(), 1);
    m.insert(kb.clone(), 2);
    let mut hm: HashMap<Kstr, u8> = HashMap::new();
    hm.insert(ka.clone(), 1);
    hm.insert(kb.clone(), 2);
    let wa = if a == b { 2 } else { 1 };
    is!(
        m.get(a.as_str()) == Some(&wa),
        hm.get(a.as_str()) == Some(&wa),
        m.get(&kb) == Some(&2),
        hm.len() == if a == b { 1 } else { 2 },
        m.keys().map(|x| x.as_str()).collect::<Vec<_>>() == BTreeSet::from([a.as_str(), b.as_str()]).into_iter().collect::<Vec<_>>(),
    );
    // reads and writes
    let mut k = mk(&a, oa, f);
    let mut s = a.clone();
    for _ in 0..ctx.r.below(4) {
        let owned = matches!(k.inner, Cow::Owned(_));
        let at = k.as_str().as_ptr();
        match ctx.r.below(4) {
            0 => {
                let p = k.to_mut();
                is!(*p == s);
                if owned {
                    is!(p.as_ptr() == at);
                    ctx.hit("mutable access without copy");
                } else {
                    ctx.hit("mutable access to borrowed");
                }
                is!(matches!(k.inner, Cow::Owned(_)));
            }
            1 => {
                let add = *ctx.r.pick(&["x", "é", "", "\n"]);
                k.to_mut().push_str(add);
                s.push_str(add);
            }
            2 => {
                k.to_mut().clear();
                s.clear();
            }
            _ => {
                let o: Kstr<'static> = k.clone().into_owned();
                is!(o.as_str() == s, matches!(o.inner, Cow::Owned(_)));
                k = k.into_owned();
                if owned {
                    is!(k.as_str().as_ptr() == at);
                    ctx.hit("owned conversion without copy");
                }
            }
        }
        is!(k.as_str() == s, k.to_string() == s);
    }
    if !a.is_empty() {
        ctx.state_s(&format!("{oa}{ob}{a:?}{b:?}"));
    }
    ctx.sample(say);
    Ok(())
}

fn c26_bytes(ctx: &mut Ctx) -> R {
    let a = gen::bytes(&mut ctx.r);
    let b = match ctx.r.below(4) {
        0 => a.clone(),
        1 => {
            let mut b = a.clone();
            b.push(ctx.r.next() as u8);
            b
        }
        2 if !a.is_empty() => {
            let mut b = a.clone();
            let i = ctx.r.below(b.len());
            b[i] = ctx.r.next() as u8;
            b
        }
        _ => gen::bytes(&mut ctx.r),
    };
    let (oa, ob) = (ctx.r.bool(), ctx.r.bool());
    fn mk(s: &[u8], own: bool, from: bool) -> Barr<'_> {
        match (own, from) {
            (true, true) => Barr::from(s.to_vec()),
            (true, false) => Barr::owned(s.to_vec()),
            (false, true) => Barr::from(s),
            (false, false) => Barr::brwed(s),
        }
    }
    let f = ctx.r.bool();
    let (ka, kb) = (mk(&a, oa, f), mk(&b, ob, f));
    let say = || format!("a = {a:?} ({}), b = {b:?} ({})", if oa { "owned" } else { "borrowed" }, if ob { "owned" } else { "borrowed" });
    macro_rules! is {
        ($($c:expr),* $(,)?) => {$(
            ensure!($c, format!("a byte wrapper is not its bytes: {}", stringify!($c)), "{}", say());
        )*};
    }
    is!(
        matches!(ka.inner, Cow::Owned(_)) == oa,
        (ka == kb) == (a == b),
        (ka != kb) == (a != b),
        ka.cmp(&kb) == a.cmp(&b),
        ka.partial_cmp(&kb) == a.partial_cmp(&b),
        (ka < kb) == (a < b),
        (ka >= kb) == (a >= b),
        hash_of(&ka) == hash_of(a.as_slice()),
        ka.as_bytes() == a,
        &*ka == a.as_slice(),
        AsRef::<[u8]>::as_ref(&ka) == a,
        ka.len() == a.len(),
        format!("{ka:?}") == format!("{a:?}"),
        ka == *a.as_slice(),
        (ka == *b.as_slice()) == (a == b),
        (&ka == *b.as_slice()) == (a == b),
        ka.clone() == ka,
    );
    if !oa {
        is!(ka.as_bytes().as_ptr() == a.as_ptr());
    }
    let mut hm: HashMap<Barr, u8> = HashMap::new();
    hm.insert(ka.clone(), 1);
    hm.insert(kb.clone(), 2);
    let wa = if a == b { 2 } else { 1 };
    is!(hm.get(&ka) == Some(&wa), hm.get(&mk(&a, !oa, f)) == Some(&wa), hm.len() == if a == b { 1 } else { 2 });
    let mut k = mk(&a, oa, f);
    let mut s = a.clone();
    for _ in 0..ctx.r.below(4) {
        let owned = matches!(k.inner, Cow::Owned(_));
        let at = k.as_bytes().as_ptr();
        match ctx.r.below(4) {
            0 => {
                let p = k.to_mut();
                is!(*p == s);
                if owned {
                    is!(p.as_ptr() == at);
                }
                is!(matches!(k.inner, Cow::Owned(_)));
            }
            1 => {
                k.to_mut().extend([1, 255]);
                s.extend([1, 255]);
            }
            2 => {
                k.to_mut().clear();
                s.clear();
            }
            _ => {
                let o: Barr<'static> = k.clone().into_owned();
                is!(o.as_bytes() == s, matches!(o.inner, Cow::Owned(_)));
                k = k.into_owned();
                if owned {
                    is!(k.as_bytes().as_ptr() == at);
                }
            }
        }
        is!(k.as_bytes() == s);
    }
    ctx.hit("byte wrappers");
    if !a.is_empty() {
        ctx.state_s(&format!("{oa}{ob}{a:?}{b:?}"));
    }
    Ok(())
}

fn c26(ctx: &mut Ctx, case: u64) -> R {
    if case % 3 == 2 {
        c26_bytes(ctx)
    } else {
        c26_str(ctx)
    }
}

pub static C26: Prop = Prop {
    id: "C26",
    quick: 14_000_000,
    thorough: 240_000_000,
    rule: "two strings or byte arrays, alike or not, owned or borrowed, compared through every operation of the wrappers with the plain text, then up to 3 writes or conversions followed; distinct: by contents and ownership, not empty",
    required: &["both owned", "both borrowed", "owned against borrowed", "mutable access without copy", "mutable access to borrowed", "owned conversion without copy", "byte wrappers"],
    bounded: false,
    assumptions: &["printing is judged without width or precision"],
    run: c26,
};
