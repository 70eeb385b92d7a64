//! Disjoint sets: exhaustive histories of MCPartition, transitions of MCUnionFind, recorded
//! histories for TracePartition, and the merge orders of Merges at scale.
use crate::cb::{Report, Sink};
use crate::ctr::{with_key, Blunt, Brittle, BrittleCopy, Collide, Key, Seeded};
use crate::elems::{arm, disarm, fired};
use crate::json::*;
use crate::util::*;
use advanced_collections::disjoint_set::{DisjointSet, FastDisjointSet};
use std::collections::hash_map::RandomState;
use std::collections::HashMap;
use std::hash::BuildHasher;
use std::iter::FromIterator;

pub enum D<K: Key> {
    R(DisjointSet<K, RandomState>),
    F(FastDisjointSet<K>),
    X(DisjointSet<K, Collide>),
    Z(DisjointSet<K, Seeded>),
}
use D::*;
macro_rules! each {
    ($c:expr, $x:ident => $e:expr) => {
        match $c {
            D::R($x) => $e,
            D::F($x) => $e,
            D::X($x) => $e,
            D::Z($x) => $e,
        }
    };
}
macro_rules! remake {
    ($c:expr, $x:ident => $e:expr) => {
        match $c {
            D::R($x) => D::R($e),
            D::F($x) => D::F($e),
            D::X($x) => D::X($e),
            D::Z($x) => D::Z($e),
        }
    };
}
fn kind<K: Key>(c: &D<K>) -> usize {
    match c {
        R(_) => 0,
        F(_) => 1,
        X(_) => 2,
        Z(_) => 3,
    }
}
fn fresh<K: Key, S: BuildHasher + Default>(v: usize, s: S) -> DisjointSet<K, S> {
    match v {
        0 => DisjointSet::new(),
        1 => DisjointSet::default(),
        2 => DisjointSet::with_capacity(5),
        3 => DisjointSet::with_hasher(s),
        4 => DisjointSet::with_capacity_and_hasher(3, s),
        5 => DisjointSet::with_capacity(0),
        _ => DisjointSet::with_capacity_and_hasher(0, s),
    }
}
const FRESH: usize = 7;
fn empty<K: Key>(kind: usize, v: usize) -> D<K> {
    match kind {
        0 => R(fresh(v, RandomState::new())),
        1 => F(fresh(v, Default::default())),
        2 => X(fresh(v, Collide)),
        _ => Z(fresh(v, Seeded(11))),
    }
}
fn gather<K: Key, S: BuildHasher + Default>(xs: Vec<K>, v: usize) -> DisjointSet<K, S> {
    match v {
        0 => DisjointSet::from_iter(xs),
        1 => DisjointSet::from_iter(&xs),
        v if v % 2 == 0 => loose(xs.into_iter(), v / 2 - 1).collect(),
        v => loose(xs.iter(), v / 2 - 1).collect(),
    }
}

#[derive(Clone, Debug)]
pub struct Op {
    n: String,
    r: usize,
    q: usize,
    k: Vec<i64>,
    v: usize,
}
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Nums(Vec<i64>),
    Groups(Vec<Vec<i64>>),
}

fn variants<K: Key>(n: &str) -> usize {
    match n {
        "extend" => {
            if K::COPY {
                1 + LOOSE + 1 + LOOSE
            } else {
                1 + LOOSE
            }
        }
        "from_iter" => 2 + 2 * LOOSE,
        "renew" => FRESH,
        "reserve" => 2,
        "iter" => 5,
        "reclone" | "clone_to" => 2,
        _ => 1,
    }
}
fn groups<K: Key, S: BuildHasher>(c: &mut DisjointSet<K, S>, max: usize) -> Vec<Vec<i64>> {
    let n = c.len();
    let mut v: Vec<Vec<i64>> = vec![];
    let mut total = 0;
    for g in c {
        if v.len() >= max {
            break;
        }
        let g: Vec<i64> = lim(g, n).into_iter().map(|x| x.id()).collect();
        total += g.len() + 1;
        v.push(g);
        if total > 2 * n + 80 {
            break;
        }
    }
    v
}

fn run<K: Key>(regs: &mut [D<K>], o: &Op) -> Res {
    let nothing = Res::Nums(vec![]);
    let num = |x: usize| Res::Nums(vec![x as i64]);
    let mut xs: Vec<K> = o.k.iter().map(|i| K::mk(*i)).collect();
    let kd = kind(&regs[o.r]);
    match o.n.as_str() {
        "clone_to" => {
            if o.v == 1 {
                // clone_from reuses what the target already has
                let (lo, hi) = (o.r.min(o.q), o.r.max(o.q));
                let (a, b) = regs.split_at_mut(hi);
                let (c, d) = if o.r < o.q { (&a[lo], &mut b[0]) } else { (&b[0], &mut a[lo]) };
                match (c, d) {
                    (R(c), R(d)) => return { d.clone_from(c); nothing },
                    (F(c), F(d)) => return { d.clone_from(c); nothing },
                    (X(c), X(d)) => return { d.clone_from(c); nothing },
                    (Z(c), Z(d)) => return { d.clone_from(c); nothing },
                    _ => {}
                }
            }
            let c = &regs[o.r];
            let d = remake!(c, c => c.clone());
            regs[o.q] = d;
            return nothing;
        }
        "from_iter" => {
            regs[o.r] = match kd {
                0 => R(gather(xs, o.v)),
                1 => F(gather(xs, o.v)),
                2 => X(gather(xs, o.v)),
                _ => Z(gather(xs, o.v)),
            };
            return nothing;
        }
        "renew" => {
            regs[o.r] = empty(kd, o.v);
            return nothing;
        }
        _ => {}
    }
    let c = &mut regs[o.r];
    each!(c, c => match o.n.as_str() {
        "make_set" => { c.make_set(xs.pop().unwrap()); nothing }
        "union" => { let b = xs.pop().unwrap(); let a = xs.pop().unwrap(); c.union(a, b); nothing }
        "in_union" => num(c.in_union(&xs[0], &xs[1]) as usize),
        "contains" => num(c.contains(&xs[0]) as usize),
        "len" => num(c.len()),
        "is_empty" => num(c.is_empty() as usize),
        "clear" => { c.clear(); nothing }
        "reserve" => { c.reserve(if o.v == 0 { 100 } else { 0 }); nothing }
        "extend" => {
            match o.v {
                0 => c.extend(xs),
                v if v <= LOOSE => c.extend(loose(xs.into_iter(), v - 1)),
                v if v == LOOSE + 1 => K::ext_ref_ds(c, &xs, None),
                v => K::ext_ref_ds(c, &xs, Some(v - LOOSE - 2)),
            }
            nothing
        }
        "reclone" => {
            let d = c.clone();
            if o.v == 0 { *c = d } else { c.clear(); c.make_set(K::mk(1)); c.union(K::mk(1), K::mk(2)); c.clone_from(&d) }
            nothing
        }
        "clone_away" => {
            let mut d = c.clone();
            for i in 1..6 { d.union(K::mk(i), K::mk(i + 1)) }
            d.union(K::mk(900), K::mk(2));
            let _ = groups(&mut d, 9999);
            d.clear();
            d.make_set(K::mk(3));
            nothing
        }
        "iter" => {
            if o.v == 0 {
                Res::Groups(groups(c, usize::MAX))
            } else if o.v == 2 {
                // both iterators are held to what they announce
                let n = c.len();
                let total = c.into_iter().count();
                assert!(total <= n, "{} groups of {} elements", total, n);
                let mut it = c.into_iter();
                let mut gs = vec![];
                for k in 0..=total {
                    let (lo, hi) = it.size_hint();
                    assert!(lo <= total - k && hi.map_or(true, |h| h >= total - k), "the iterator announces {:?} of {} groups", (lo, hi), total - k);
                    if let Some(mut g) = it.next() {
                        let m = g.clone().count();
                        let mut v = vec![];
                        for i in 0..=m {
                            let (lo, hi) = g.size_hint();
                            assert!(lo <= m - i && hi.map_or(true, |h| h >= m - i), "a group announces {:?} of {} elements", (lo, hi), m - i);
                            v.extend(g.next().map(|x| x.id()));
                        }
                        gs.push(v);
                    }
                }
                assert!(it.next().is_none(), "a group after the last");
                Res::Groups(gs)
            } else if o.v == 4 {
                // skipping ways through both iterators
                let n = c.len();
                let total = c.into_iter().count();
                assert!(total <= n, "{} groups of {} elements", total, n);
                let ks = || (0..(total + 2).min(6)).chain((total.max(7) - 1)..(total + 2).max(7));
                for k in ks() {
                    let mut it = c.into_iter();
                    let there = it.nth(k).is_some();
                    let rest = it.count();
                    assert!(there == (k < total) && rest == total.saturating_sub(k + 1), "nth({}) of {} groups: {}, then {} more", k, total, there, rest);
                    let rest = c.into_iter().skip(k).count();
                    assert!(rest == total.saturating_sub(k), "skip({}) leaves {} of {} groups", k, rest, total);
                    let took = c.into_iter().take(k).count();
                    assert!(took == k.min(total), "take({}) gives {} of {} groups", k, took, total);
                }
                assert!(c.into_iter().step_by(2).count() == (total + 1) / 2, "every second of {} groups", total);
                assert!(c.into_iter().last().is_some() == (total > 0), "the last of {} groups", total);
                let mut it = c.into_iter();
                let mut gs = vec![];
                while let Some(g) = it.nth(0) {
                    let v: Vec<i64> = g.clone().map(|x| x.id()).collect();
                    let m = v.len();
                    for k in 0..(m + 2).min(6) {
                        assert!(g.clone().nth(k).map(|x| x.id()) == v.get(k).copied(), "element {} of a group", k);
                        assert!(g.clone().skip(k).map(|x| x.id()).eq(v.iter().skip(k).copied()), "a group without the first {}", k);
                    }
                    assert!(g.clone().last().map(|x| x.id()) == v.last().copied(), "the last of a group");
                    assert!(g.count() == m, "the size of a group");
                    gs.push(v);
                    assert!(gs.len() <= total, "too many groups");
                }
                Res::Groups(gs)
            } else if o.v == 3 {
                let mut gs = vec![];
                c.into_iter().for_each(|g| {
                    let mut v = vec![];
                    g.for_each(|x| v.push(x.id()));
                    gs.push(v)
                });
                Res::Groups(gs)
            } else {
                let n = c.len();
                Res::Groups(lim(c.into_iter(), n).into_iter().map(|g| lim(g, n).into_iter().map(|x| x.id()).collect()).collect())
            }
        }
        "iter_part" => Res::Groups(groups(c, o.k[0] as usize)),
        other => panic!("TOOL: operation {}", other),
    })
}

#[derive(Default, Clone, Debug)]
struct Obs {
    bad: i64,
    len: i64,
    em: i64,
    mem: Vec<i64>,
    prs: Vec<(i64, i64, i64)>,
    gs: Vec<Vec<i64>>,
}
impl Obs {
    fn json(&self, r: usize) -> J {
        obj(vec![
            ("r", J::I(r as i64 + 1)),
            ("bad", J::I(self.bad)),
            ("len", J::I(self.len)),
            ("em", J::I(self.em)),
            ("mem", ia(self.mem.iter().cloned())),
            ("prs", J::A(self.prs.iter().map(|p| ia(vec![p.0, p.1, p.2])).collect())),
            ("gs", J::A(self.gs.iter().map(|g| ia(g.iter().cloned())).collect())),
        ])
    }
}
/// what: q = queries, m = membership, g = groups; elements 1..=u (u may never have been added)
fn observe<K: Key>(c: &mut D<K>, u: i64, pairs: &[(i64, i64)], what: &str, order: bool) -> Obs {
    let mut o = Obs::default();
    let r = guarded(|| {
        each!(c, c => {
            let mut look = |q: bool| {
                if q && what.contains('q') {
                    o.prs = pairs.iter().map(|(a, b)| (*a, *b, c.in_union(&K::mk(*a), &K::mk(*b)) as i64)).collect();
                }
                if !q && what.contains('g') {
                    o.gs = groups(c, usize::MAX);
                }
            };
            look(order);
            look(!order);
            if what.contains('m') {
                o.len = c.len() as i64;
                o.em = c.is_empty() as i64;
                o.mem = (1..=u).filter(|i| c.contains(&K::mk(*i))).collect();
            }
        })
    });
    if r.is_err() {
        o.bad = 1
    }
    o
}
fn all_pairs(u: i64) -> Vec<(i64, i64)> {
    (1..=u).flat_map(|a| (1..=u).map(move |b| (a, b))).collect()
}

/// labels[i-1]: block of element i, 0 if not added
fn check_obs(o: &Obs, labels: &[i64], what: &str) -> Result<(), String> {
    if o.bad == 1 {
        return Err("observing panics".into());
    }
    let lab = |x: i64| if x >= 1 && x as usize <= labels.len() { labels[x as usize - 1] } else { 0 };
    if what.contains('q') {
        for (a, b, r) in &o.prs {
            let want = (lab(*a) != 0 && lab(*a) == lab(*b)) as i64;
            if *r != want {
                return Err(format!("in_union({},{}) gives {} instead of {}", a, b, r, want));
            }
        }
    }
    if what.contains('m') {
        let added: Vec<i64> = (1..=labels.len() as i64).filter(|i| lab(*i) != 0).collect();
        if o.mem != added {
            return Err(format!("contains {:?} instead of {:?}", o.mem, added));
        }
        if o.len != added.len() as i64 || o.em != added.is_empty() as i64 {
            return Err(format!("len {} is_empty {} instead of {}", o.len, o.em, added.len()));
        }
    }
    if what.contains('g') {
        check_groups(&o.gs, labels)?;
    }
    Ok(())
}
fn check_groups(gs: &[Vec<i64>], labels: &[i64]) -> Result<(), String> {
    let mut want: HashMap<i64, Vec<i64>> = HashMap::new();
    for (i, l) in labels.iter().enumerate() {
        if *l != 0 {
            want.entry(*l).or_default().push(i as i64 + 1)
        }
    }
    let mut want: Vec<Vec<i64>> = want.into_iter().map(|x| x.1).collect();
    let mut got: Vec<Vec<i64>> = gs.to_vec();
    for g in got.iter_mut() {
        g.sort()
    }
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("iteration gives {:?} instead of {:?}", got, want));
    }
    Ok(())
}
fn gate(n: &str, what: &str) -> bool {
    match n {
        "in_union" => what.contains('q'),
        "contains" | "len" | "is_empty" => what.contains('m'),
        "iter" | "iter_part" => what.contains('g'),
        _ => true,
    }
}

fn ops_of(j: &J) -> Vec<Op> {
    j.arr().iter().map(|o| Op { n: o.arr()[0].str().into(), r: 0, q: 0, k: o.arr()[1].ints(), v: 0 }).collect()
}

/// the exhaustive histories: every result, then the whole partition at the end
fn hist<K: Key>(path: &str, what: &str, need: &str, rep: &mut Report) {
    let text = std::fs::read_to_string(path).expect("TOOL: histories");
    for (ln, l) in text.lines().enumerate() {
        let j = parse(l);
        if j.get("k").str() != "P" {
            continue;
        }
        let ops = ops_of(j.get("h"));
        if need != "all" && !ops.iter().any(|o| need.split(',').any(|x| x == o.n)) {
            continue;
        }
        let results: Vec<Vec<i64>> = j.get("r").arr().iter().map(|x| x.ints()).collect();
        let labels = j.get("p").ints();
        let u = labels.len() as i64;
        let pairs = all_pairs(u);
        for kd in 0..4 {
            if kd != ln % 4 && ln % 16 != 3 {
                continue;
            }
            for pass in 0..4 {
                // pass selects the way to call each operation
                let ops: Vec<Op> = ops.iter().enumerate().map(|(i, o)| { let mut o = o.clone(); o.v = (5 * ln + pass + i) % variants::<K>(&o.n); o }).collect();
                if pass > 0 && ops.iter().all(|o| variants::<K>(&o.n) == 1) {
                    break;
                }
                let text = format!("type={} hasher={} history={:?}", K::NAME, kd, ops.iter().map(|o| format!("{}{:?}#{}", o.n, o.k, o.v)).collect::<Vec<_>>());
                journal(&text);
                let mut regs = vec![empty::<K>(kd, (ln + pass) % FRESH)];
                rep.cases += 1;
                rep.nontrivial += (labels.iter().any(|x| *x != 0)) as u64;
                let mut bad = None;
                for (o, want) in ops.iter().zip(&results) {
                    match guarded(|| run(&mut regs, o)) {
                        Err(e) => bad = Some(format!("{} panics: {}", o.n, e)),
                        Ok(Res::Nums(v)) if gate(&o.n, what) && v != *want => bad = Some(format!("{}{:?} returns {:?} instead of {:?}", o.n, o.k, v, want)),
                        _ => {}
                    }
                    if bad.is_some() {
                        break;
                    }
                }
                if bad.is_none() {
                    bad = check_obs(&observe(&mut regs[0], u, &pairs, what, ln % 2 == 0), &labels, what).err();
                }
                if bad.is_none() && what.contains('g') {
                    bad = check_obs(&observe(&mut regs[0], u, &pairs, what, true), &labels, what).err().map(|e| "second look: ".to_string() + &e);
                }
                if let Some(b) = bad {
                    rep.fail(format!("{}: {}", text, b));
                } else if rep.samples.len() < 2 && ln % 7919 == 5000 {
                    rep.samples.push(format!("{} -> {:?}", text, labels));
                }
            }
        }
    }
}

/// the transitions of the forest: walk to the forest, do the operation, look
fn replay<K: Key>(path: &str, what: &str, focus: &str, rep: &mut Report) {
    let text = std::fs::read_to_string(path).expect("TOOL: graph");
    let rows: Vec<J> = text.lines().map(parse).filter(|j| j.get("k").str() == "U").collect();
    let key = |j: &J| j.text();
    // shortest path to every forest, as indices of rows
    let mut paths: HashMap<String, Vec<usize>> = HashMap::new();
    paths.insert("[[],[]]".into(), vec![]);
    let mut by_src: HashMap<String, Vec<usize>> = HashMap::new();
    for (i, r) in rows.iter().enumerate() {
        by_src.entry(key(r.get("s"))).or_default().push(i);
    }
    let mut queue = std::collections::VecDeque::from(vec!["[[],[]]".to_string()]);
    while let Some(s0) = queue.pop_front() {
        let p = paths[&s0].clone();
        for i in by_src.get(&s0).cloned().unwrap_or_default() {
            let t = key(rows[i].get("t"));
            if !paths.contains_key(&t) {
                let mut q = p.clone();
                q.push(i);
                paths.insert(t.clone(), q);
                queue.push_back(t);
            }
        }
    }
    let op_of = |j: &J, v: usize| Op { n: j.get("n").str().into(), r: 0, q: 0, k: j.get("x").ints(), v };
    for (ln, row) in rows.iter().enumerate() {
        let n = row.get("n").str();
        if focus != "all" && !focus.split(',').any(|x| x == n) {
            continue;
        }
        let path = paths.get(&key(row.get("s"))).expect("TOOL: unreachable forest");
        let labels = row.get("p").ints();
        let u = labels.len() as i64 + 1;
        let pairs = all_pairs(u);
        for kd in 0..4 {
            for v in 0..variants::<K>(n) {
                let o = op_of(row, v);
                let text = format!("type={} hasher={} path={:?} op={}{:?}#{}", K::NAME, kd, path.iter().map(|i| format!("{}{:?}", rows[*i].get("n").str(), rows[*i].get("x").ints())).collect::<Vec<_>>(), n, o.k, v);
                journal(&text);
                rep.cases += 1;
                rep.nontrivial += (!path.is_empty()) as u64;
                let mut regs = vec![empty::<K>(kd, (ln + v) % FRESH)];
                let r = guarded(|| {
                    for i in path {
                        run(&mut regs, &op_of(&rows[*i], 0));
                    }
                    run(&mut regs, &o)
                });
                let bad = match &r {
                    Err(e) => Some(format!("panics: {}", e)),
                    Ok(Res::Nums(x)) if gate(n, what) && *x != row.get("r").ints() => Some(format!("returns {:?}", x)),
                    Ok(Res::Groups(g)) if gate(n, what) => check_groups(g, &labels).err(),
                    _ => None,
                };
                let bad = bad.or_else(|| check_obs(&observe(&mut regs[0], u, &pairs, what, (ln + kd) % 2 == 0), &{ let mut l = labels.clone(); l.push(0); l }, what).err());
                if let Some(b) = bad {
                    rep.fail(format!("{}: {}", text, b));
                } else if rep.samples.len() < 4 && ln % 997 == 500 {
                    rep.samples.push(format!("{} -> {:?}", text, labels));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------
fn history<K: Key>(rng: &mut Rng, sink: &mut Sink, focus: &[String], setup: &[String], len: usize, big: bool, what: &str) {
    let n: i64 = if big { 20 + rng.below(50) as i64 } else { *rng.pick(&[2, 3, 4, 5, 6, 8, 12]) };
    let u = n + 2;
    let nregs = 2 + rng.below(2);
    let mut regs: Vec<D<K>> = (0..nregs).map(|_| empty::<K>(rng.below(4), rng.below(FRESH))).collect();
    // look: 0 always, 1 on a clone (so that looking does not flatten the structure), 2 rarely
    let look = rng.below(3);
    sink.history();
    let seen = |regs: &mut Vec<D<K>>, rng: &mut Rng, only: &[usize]| -> J {
        let pairs: Vec<(i64, i64)> = if u <= 8 { all_pairs(u) } else { (0..50).map(|_| (rng.range(1, u), rng.range(1, u))).collect() };
        let order = rng.chance(1, 2);
        J::A(only.iter().map(|r| {
            if look == 1 {
                let mut c = match guarded(|| { let c = &regs[*r]; remake!(c, c => c.clone()) }) {
                    Ok(c) => c,
                    Err(_) => return Obs { bad: 1, ..Default::default() }.json(*r),
                };
                observe(&mut c, u, &pairs, what, order).json(*r)
            } else {
                observe(&mut regs[*r], u, &pairs, what, order).json(*r)
            }
        }).collect())
    };
    let every: Vec<usize> = (0..nregs).collect();
    let post = seen(&mut regs, rng, &every);
    sink.emit(&obj(vec![("e", s("start")), ("t", s(K::NAME)), ("regs", J::I(nregs as i64)), ("post", post)]));
    let mut hist: Vec<String> = vec![];
    for step in 0..len {
        let name = if rng.chance(1, 2) { rng.pick(focus).clone() } else { rng.pick(setup).clone() };
        let mut r = rng.below(nregs);
        if rng.chance(1, 2) {
            r = 0 // one of them gets most of the operations
        }
        let mut q = rng.below(nregs);
        if q == r {
            q = (r + 1) % nregs
        }
        let key = |rng: &mut Rng| rng.range(1, n);
        let k: Vec<i64> = match name.as_str() {
            "make_set" | "contains" => vec![key(rng)],
            "union" => {
                let a = key(rng);
                vec![a, if rng.chance(1, 12) { a } else { key(rng) }]
            }
            "in_union" => vec![rng.range(1, u), rng.range(1, u)],
            "extend" | "from_iter" => {
                let m = rng.below(if big { 30 } else { 5 });
                (0..m).map(|_| key(rng)).collect()
            }
            "iter_part" => vec![rng.below(4) as i64],
            _ => vec![],
        };
        // the destructive ones less often
        if matches!(name.as_str(), "clear" | "renew" | "from_iter") && rng.chance(3, 4) {
            continue;
        }
        let v = rng.below(variants::<K>(&name));
        let o = Op { n: name, r, q, k, v };
        hist.push(format!("{:?}", o));
        journal(&format!("type={} history={:?}", K::NAME, &hist[hist.len().saturating_sub(25)..]));
        let res = guarded(|| run(&mut regs, &o));
        let (nums, gs) = match &res {
            Ok(Res::Nums(x)) => (x.clone(), vec![]),
            Ok(Res::Groups(g)) => (vec![], g.clone()),
            Err(_) => (vec![], vec![]),
        };
        let mut touched = vec![r];
        if o.n == "clone_to" || rng.chance(1, 6) {
            touched = every.clone();
        }
        let post = if look < 2 || rng.chance(1, 10) || step + 1 == len { seen(&mut regs, rng, &touched) } else { J::A(vec![]) };
        sink.emit(&obj(vec![
            ("e", s("op")),
            ("n", s(&o.n)),
            ("r", J::I(r as i64 + 1)),
            ("q", J::I(q as i64 + 1)),
            ("k", ia(o.k.iter().cloned())),
            ("res", ia(nums)),
            ("gs", J::A(gs.iter().map(|g| ia(g.iter().cloned())).collect())),
            ("p", J::I(res.is_err() as i64)),
            ("post", post),
        ]));
    }
    sink.emit(&obj(vec![("e", s("end"))]));
}

/// Deep forests: unions by the current roots, looked at only through clones, so that nothing
/// flattens the paths; then ordinary operations on them.
fn deep_history<K: Key>(rng: &mut Rng, sink: &mut Sink, focus: &[String], what: &str) {
    let n: i64 = *rng.pick(&[5, 8, 11, 16, 16, 24, 32, 32, 45, 64, 90]);
    let u = n + 2;
    let mut regs: Vec<D<K>> = (0..2).map(|_| empty::<K>(rng.below(4), rng.below(FRESH))).collect();
    sink.history();
    sink.emit(&obj(vec![("e", s("start")), ("t", s(K::NAME)), ("regs", J::I(2)), ("post", J::A(vec![]))]));
    let mut hist: Vec<String> = vec![];
    fn step<K: Key>(regs: &mut Vec<D<K>>, sink: &mut Sink, hist: &mut Vec<String>, o: Op) {
        hist.push(format!("{}{:?}", o.n, o.k));
        journal(&format!("type={} history={:?}", K::NAME, &hist[hist.len().saturating_sub(100)..]));
        let res = guarded(|| run(regs, &o));
        let (nums, gs) = match &res {
            Ok(Res::Nums(x)) => (x.clone(), vec![]),
            Ok(Res::Groups(g)) => (vec![], g.clone()),
            Err(_) => (vec![], vec![]),
        };
        sink.emit(&obj(vec![
            ("e", s("op")),
            ("n", s(&o.n)),
            ("r", J::I(o.r as i64 + 1)),
            ("q", J::I(o.q as i64 + 1)),
            ("k", ia(o.k.iter().cloned())),
            ("res", ia(nums)),
            ("gs", J::A(gs.iter().map(|g| ia(g.iter().cloned())).collect())),
            ("p", J::I(res.is_err() as i64)),
            ("post", J::A(vec![])),
        ]));
    }
    let look = |regs: &Vec<D<K>>, rng: &mut Rng, sink: &mut Sink, times: usize| {
        let post = (0..times)
            .map(|i| {
                let c = guarded(|| remake!(&regs[0], c => c.clone()));
                let pairs: Vec<(i64, i64)> = (0..rng.range(1, 25)).map(|_| (rng.range(1, u), rng.range(1, u))).collect();
                match c {
                    Ok(mut c) => observe(&mut c, u, &pairs, what, i % 2 == 0).json(0),
                    Err(_) => Obs { bad: 1, ..Default::default() }.json(0),
                }
            })
            .collect();
        sink.emit(&obj(vec![("e", s("look")), ("post", J::A(post))]));
    };
    let mut names: Vec<i64> = (1..=n).collect();
    if rng.chance(2, 3) {
        rng.shuffle(&mut names)
    }
    if rng.chance(1, 2) {
        let mut order = names.clone();
        if rng.chance(1, 2) {
            rng.shuffle(&mut order)
        }
        for x in order {
            step(&mut regs, sink, &mut hist, Op { n: "make_set".into(), r: 0, q: 1, k: vec![x], v: 0 });
        }
    }
    let un = |a: i64, b: i64| Op { n: "union".into(), r: 0, q: 1, k: vec![a, b], v: 0 };
    if rng.chance(1, 4) {
        let w = *rng.pick(&["chain0", "chain1", "back0", "star1", "tour0", "tour1", "zip0", "blk4-0", "blk4-1", "blk4-2", "blk16-3", "grow1-0", "grow2-1", "bump-0"]);
        for (a, b) in family(w, n as u32) {
            step(&mut regs, sink, &mut hist, un(names[a as usize - 1], names[b as usize - 1]));
        }
    } else {
        // blocks with the element believed to be at the top
        let mut blocks: Vec<(Vec<i64>, i64)> = names.iter().map(|x| (vec![*x], *x)).collect();
        let second = rng.chance(1, 3);
        let (wild, even) = (*rng.pick(&[0, 0, 0, 1, 4]), rng.chance(4, 5));
        let leave = *rng.pick(&[1, 1, 2, 3, 5]);
        while blocks.len() > leave {
            // two of equal size if there are
            blocks.sort_by_key(|b| b.0.len());
            let same: Vec<usize> = (1..blocks.len()).filter(|i| blocks[i - 1].0.len() == blocks[*i].0.len()).collect();
            let j = if even && !same.is_empty() { same[0] } else { 1 + rng.below(blocks.len() - 1) };
            let mut y = blocks.remove(j);
            let mut x = blocks.remove(if even && !same.is_empty() { j - 1 } else { rng.below(j) });
            if rng.chance(1, 2) {
                std::mem::swap(&mut x, &mut y)
            }
            let a = if rng.chance(wild, 10) { *rng.pick(&x.0) } else { x.1 };
            let b = if rng.chance(wild, 10) { *rng.pick(&y.0) } else { y.1 };
            step(&mut regs, sink, &mut hist, un(a, b));
            let wins = if x.0.len() == y.0.len() { second } else { x.0.len() < y.0.len() };
            let top = if wins { y.1 } else { x.1 };
            x.0.extend(y.0);
            blocks.push((x.0, top));
            if rng.chance(1, 20) {
                look(&regs, rng, sink, 2);
            }
        }
    }
    look(&regs, rng, sink, 8);
    for _ in 0..10 {
        let name = if rng.chance(1, 2) { rng.pick(focus).clone() } else { "union".into() };
        if matches!(name.as_str(), "clear" | "renew" | "from_iter") && rng.chance(3, 4) {
            continue;
        }
        let k: Vec<i64> = match name.as_str() {
            "make_set" | "contains" => vec![rng.range(1, n)],
            "union" => vec![rng.range(1, n), rng.range(1, n)],
            "in_union" => vec![rng.range(1, u), rng.range(1, u)],
            "extend" | "from_iter" => (0..rng.below(20)).map(|_| rng.range(1, n)).collect(),
            "iter_part" => vec![rng.below(4) as i64],
            _ => vec![],
        };
        let v = rng.below(variants::<K>(&name));
        // cloning goes to the other register and, half of the time, back
        let back = name == "clone_to" && rng.chance(1, 2);
        step(&mut regs, sink, &mut hist, Op { n: name, r: 0, q: 1, k, v });
        if back {
            let v = rng.below(2);
            step(&mut regs, sink, &mut hist, Op { n: "clone_to".into(), r: 1, q: 0, k: vec![], v });
        }
        look(&regs, rng, sink, 2);
    }
    sink.emit(&obj(vec![("e", s("end"))]));
}

// ---------------------------------------------------------------------------------------
// Merge orders at scale

type Pair = (u32, u32);
fn flip(fl: usize, a: u32, b: u32) -> Pair {
    if fl == 1 {
        (b, a)
    } else {
        (a, b)
    }
}
fn tour(lo: u32, len: u32, fl: usize, out: &mut Vec<Pair>) {
    if len <= 1 {
        return;
    }
    let l = len / 2;
    tour(lo, l, fl, out);
    tour(lo + l, len - l, fl, out);
    out.push(if fl == 0 { (lo, lo + l) } else { (lo + len - 1, lo + l - 1) });
}
/// as Family in Merges.tla
fn family(w: &str, m: u32) -> Vec<Pair> {
    let mut o = vec![];
    let fl = w[w.len() - 1..].parse::<usize>().expect("TOOL: family");
    match &w[..w.len() - 1] {
        "chain" => (1..m).for_each(|j| o.push(flip(fl, j, j + 1))),
        "back" => (1..m).for_each(|j| o.push(flip(fl, m - j, m - j + 1))),
        "star" => (1..m).for_each(|j| o.push(flip(fl, 1, 1 + j))),
        "tour" => tour(1, m, fl, &mut o),
        "zip" => (1..m).for_each(|j| o.push(if j % 2 == 1 { flip(fl, j, j + 1) } else { flip(fl, j - 1, j + 1) })),
        x if x.starts_with("blk") => {
            let b: u32 = x[3..x.len() - 1].parse().expect("TOOL: family");
            let mut lo = 1;
            while lo <= m {
                let len = b.min(m - lo + 1);
                let hi = lo + len - 1;
                tour(lo, len, fl % 2, &mut o);
                if lo > 1 {
                    o.push(match fl {
                        0 => (lo, lo - b),
                        1 => (lo - 1, hi),
                        2 => (lo - b, lo),
                        _ => (hi, lo - 1),
                    });
                }
                lo += len;
            }
        }
        "own-" => {
            for lo in 1..=m {
                (0..=lo).for_each(|_| o.push((lo, lo)));
                if lo > 1 {
                    o.push(flip(fl, lo, lo - 1));
                }
            }
        }
        "bump-" => {
            let mut lo = 1;
            while lo + 1 <= m {
                let again = (lo + 1) / 2 + 1;
                (0..again).for_each(|_| o.push(flip(fl, lo, lo + 1)));
                if lo > 1 {
                    o.push(flip(fl, lo, lo - 2));
                }
                lo += 2;
            }
            if lo == m && m > 1 {
                o.push(flip(fl, m - 2, m));
            }
        }
        x if x.starts_with("grow") => {
            let g: u32 = x[4..x.len() - 1].parse().expect("TOOL: family");
            let (mut lo, mut sz) = (1, 1);
            while lo + sz <= m {
                (1..=sz).for_each(|j| o.push(flip(fl, lo, lo + j)));
                if lo > 1 {
                    o.push(flip(fl, lo, lo - (sz - g) - 1));
                }
                lo += sz + 1;
                sz += g;
            }
            if lo > 1 {
                (lo..=m).for_each(|j| o.push(flip(fl, lo - (sz - g) - 1, j)));
            }
        }
        x => panic!("TOOL: family {}", x),
    }
    o
}

pub fn cpu() -> f64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}

const WINDOW: usize = 1 << 19;
const SKIP: usize = 1024;
/// Bytes of stack below this frame that f writes (up to WINDOW; less than SKIP counts as nothing).
/// Runs on a thread whose stack is far larger than that.
#[inline(never)]
fn stack_used<R>(f: impl FnOnce() -> R) -> (usize, R) {
    let here = 0u8;
    let base = (&here as *const u8 as usize) & !15;
    unsafe {
        let mut a = base - SKIP;
        while a > base - WINDOW {
            a -= 8;
            (a as *mut u64).write_volatile(0xA5A5_5A5A_C3C3_3C3C);
        }
        let r = f();
        let mut a = base - WINDOW;
        while a < base - SKIP && (a as *const u64).read_volatile() == 0xA5A5_5A5A_C3C3_3C3C {
            a += 8;
        }
        std::hint::black_box(&here);
        (if a >= base - SKIP { 0 } else { base - a }, r)
    }
}

trait Ds: Clone {
    fn uni(&mut self, a: u32, b: u32);
    fn ask(&mut self, a: u32, b: u32) -> bool;
    fn add(&mut self, a: u32);
    fn parts(&mut self) -> Vec<usize>;
    fn aside(&mut self, w: &str, i: u32);
}
impl<S: BuildHasher + Clone + Default> Ds for DisjointSet<u32, S> {
    fn uni(&mut self, a: u32, b: u32) {
        self.union(a, b)
    }
    fn ask(&mut self, a: u32, b: u32) -> bool {
        self.in_union(&a, &b)
    }
    fn add(&mut self, a: u32) {
        self.make_set(a)
    }
    fn parts(&mut self) -> Vec<usize> {
        let mut v: Vec<usize> = self.into_iter().map(|g| g.count()).collect();
        v.sort();
        v
    }
    /// as Interludes in Merges.tla; elements 1 and 2 are there
    fn aside(&mut self, w: &str, i: u32) {
        match w {
            "none" => {}
            "clone" => *self = self.clone(),
            "clone_from" => {
                let mut c: Self = DisjointSet::default();
                c.make_set(i);
                c.clone_from(self);
                *self = c
            }
            "reserve" => self.reserve(i as usize % 700),
            "remake" => self.make_set(1 + i % 2),
            "extend" => self.extend(vec![2, 1, 2]),
            "extend_ref" => self.extend(&[1, 2]),
            "ask" => {
                std::hint::black_box(self.in_union(&1, &u32::MAX) || self.in_union(&1, &2));
            }
            "self_union" => self.union(1, 1),
            "part_iter" => {
                // the first group only, and none of its elements
                std::hint::black_box(self.into_iter().next().is_some());
            }
            x => panic!("TOOL: interlude {}", x),
        }
    }
}

fn deep_one<T: Ds>(name: &str, m: u32, aside: &str, premade: bool, mut d: T, rng: &mut Rng, rep: &mut Report) {
    let text = format!("merge order {} of {} elements ({}; between unions: {})", name, m, if premade { "made first" } else { "added by union" }, aside);
    journal(&text);
    let log2 = 32 - m.leading_zeros() as usize;
    // a frame of an optimised recursive search is 16 bytes, an unoptimised one 100 to 300, a generous one 600
    let limit = SKIP + 600 * (log2 + 4);
    let seq = if name == "random" { (0..2 * m).map(|_| (rng.range(1, m as i64) as u32, rng.range(1, m as i64) as u32)).collect() } else { family(name, m) };
    // a reference answer for the random order: labels by naive relabelling would be too slow,
    // so it ends with a chain that joins everything; all orders merge 1..=m into one block
    if premade {
        (1..=m + 5).for_each(|i| d.add(i));
    }
    let t = cpu();
    for (i, (a, b)) in seq.iter().enumerate() {
        d.uni(*a, *b);
        d.aside(aside, i as u32);
        if i % 256 == 0 {
            tick();
            let spent = cpu() - t;
            if spent > 4.0 + i as f64 * 20e-6 {
                return rep.fail(format!("{}: {} unions took {:.1} s of CPU time", text, i + 1, spent));
            }
        }
    }
    if name == "random" {
        for i in 1..m {
            d.uni(i, i + 1);
            tick();
        }
    }
    if !premade {
        (1..=m + 5).for_each(|i| d.add(i));
    }
    rep.cases += 1;
    rep.nontrivial += (m > 2) as u64;
    // each probe on a clone, so that no probe flattens the paths of another
    let mut probes = vec![1, 2, m, m - 1, m / 2, m / 2 + 1, m / 3];
    (0..3).for_each(|_| probes.push(rng.range(1, m as i64) as u32));
    let mut worst = 0;
    for x in probes {
        let mut best = f64::MAX;
        for _ in 0..3 {
            let mut c = d.clone();
            let (used, (r, spent)) = stack_used(|| {
                let t = cpu();
                let r = c.ask(x, m + 3);
                (r, cpu() - t)
            });
            tick();
            best = best.min(spent);
            worst = worst.max(used);
            if r {
                return rep.fail(format!("{}: {} is reported to be in the set of an element never joined", text, x));
            }
            if used > limit {
                return rep.fail(format!("{}: a query about element {} uses {} bytes of stack (at most {} expected)", text, x, used, limit));
            }
            if best < 20e-6 {
                break;
            }
        }
        if best > 20e-6 + m as f64 * 0.8e-9 && best > 100e-6 {
            return rep.fail(format!("{}: a single query about element {} takes {:.0} microseconds of CPU time", text, x, best * 1e6));
        }
    }
    // joining with a new element, also from the bottom
    for x in [1, m, m / 2] {
        let mut c = d.clone();
        let (used, _) = stack_used(|| c.uni(x, m + 4));
        if used > limit {
            return rep.fail(format!("{}: joining element {} uses {} bytes of stack", text, x, used));
        }
        if !c.ask(m + 4, 1) || !c.ask(m, m + 4) {
            return rep.fail(format!("{}: an element just joined is not reported to be joined", text));
        }
    }
    let mut c = d.clone();
    let (used, parts) = stack_used(|| c.parts());
    if used > limit + 4096 {
        return rep.fail(format!("{}: iterating uses {} bytes of stack", text, used));
    }
    if parts != [1, 1, 1, 1, 1, m as usize] {
        return rep.fail(format!("{}: iteration gives groups of sizes {:?}", text, &parts[..parts.len().min(10)]));
    }
    let t = cpu();
    for i in 1..=m {
        tick();
        if !d.ask(i, m + 1 - i) || d.ask(m + 1, i) {
            return rep.fail(format!("{}: wrong answer about {} and {}", text, i, m + 1 - i));
        }
        if i % 256 == 0 && cpu() - t > 4.0 + i as f64 * 20e-6 {
            return rep.fail(format!("{}: {} queries took {:.1} s of CPU time", text, i, cpu() - t));
        }
    }
    if m > 60_000 && name != "random" {
        rep.samples.push(format!("{}: at most {} bytes of stack per query (limit {})", text, worst, limit));
    }
}

fn depth(path: &str, sizes: Vec<u32>, between: u32, seed: u64, rep: &mut Report) {
    // the generator above is the specification's
    let text = std::fs::read_to_string(path).expect("TOOL: families");
    let mut names: Vec<String> = vec![];
    let mut asides: Vec<String> = vec![];
    for j in text.lines().map(parse) {
        if j.get("k").str() == "A" {
            asides = j.get("w").arr().iter().map(|x| x.str().to_string()).collect();
            continue;
        }
        if j.get("k").str() != "F" {
            continue;
        }
        // the specification writes blk4-0 where the generator has block size and variant
        let w = j.get("w").str().to_string();
        let want: Vec<Pair> = j.get("u").arr().iter().map(|p| (p.arr()[0].int() as u32, p.arr()[1].int() as u32)).collect();
        assert!(family(&w, j.get("m").int() as u32) == want, "TOOL: the harness generates another merge order {} of {}", w, j.get("m").int());
        if !names.contains(&w) {
            names.push(w);
        }
    }
    names.extend(["blk16-0", "blk16-1", "blk16-2", "blk16-3", "blk256-0", "blk256-1", "blk256-2", "blk256-3", "grow5-0", "grow5-1", "random"].iter().map(|x| x.to_string()));
    let mut jobs: Vec<(String, u32, String, bool, usize)> = vec![];
    for (i, x) in asides.iter().enumerate() {
        for (j, w) in names.iter().enumerate().filter(|(_, w)| !w.starts_with("bump") && !w.starts_with("own")) {
            // an iteration may compress all paths
            for pre in [true, false] {
                jobs.push((w.clone(), between, x.clone(), pre, (i + j) % 2));
            }
        }
    }
    for (i, m) in sizes.iter().enumerate() {
        for (j, w) in names.iter().enumerate() {
            for pre in [true, false] {
                // the number of unions in the bump orders is quadratic
                let m = if w.starts_with("bump") || w.starts_with("own") { (*m).min(1300 + *m / 1000) } else if w.starts_with("grow") && *m > 100_000 { 4 * *m } else { *m };
                jobs.push((w.clone(), m, "none".to_string(), pre, (i + j) % 2));
            }
        }
    }
    assert!(!asides.is_empty(), "TOOL: no interludes");
    let jobs = std::sync::Mutex::new(jobs);
    let total = std::sync::Mutex::new(Report::new());
    let next = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..4 {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, || loop {
                    let Some((w, m, aside, pre, h)) = jobs.lock().unwrap().pop() else { break };
                    let mut rng = Rng::new(seed, 70 + next.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
                    let mut r = Report::new();
                    let res = guarded(|| {
                        if h == 0 {
                            deep_one(&w, m, &aside, pre, FastDisjointSet::<u32>::new(), &mut rng, &mut r)
                        } else {
                            deep_one(&w, m, &aside, pre, DisjointSet::<u32>::with_capacity(m as usize / 2), &mut rng, &mut r)
                        }
                    });
                    if let Err(e) = res {
                        r.fail(format!("merge order {} of {} elements panics: {}", w, m, e));
                    }
                    let mut t = total.lock().unwrap();
                    t.cases += r.cases;
                    t.nontrivial += r.nontrivial;
                    r.fails.into_iter().for_each(|f| t.fail(f));
                    t.samples.extend(r.samples);
                })
                .expect("TOOL: thread");
        }
    });
    let t = total.into_inner().unwrap();
    rep.cases += t.cases;
    rep.nontrivial += t.nontrivial;
    t.fails.into_iter().for_each(|f| rep.fail(f));
    let mut sm = t.samples;
    sm.sort();
    sm.dedup_by_key(|x| x[..17].to_string());
    rep.samples.extend(sm.into_iter().take(6));
}

// ---------------------------------------------------------------------------------------------
// Scripts with a closed-form outcome, at scale

type Step = (u32, u32, u32);
/// as Script in Classes.tla
fn script(w: &str, m: u32, s: u32, t: u32) -> Vec<Step> {
    let adds = || -> Vec<Step> { (1..=m).map(|j| (0, j, 0)).collect() };
    let joins = |s: u32| -> Vec<Step> { (1..=m.saturating_sub(s)).map(|j| (1, j, j + s)).collect() };
    let back = |q: Vec<Step>| -> Vec<Step> { q.into_iter().rev().collect() };
    let odd = |q: Vec<Step>| -> Vec<Step> { q.iter().step_by(2).chain(q.iter().skip(1).step_by(2)).cloned().collect() };
    let turn = |q: Vec<Step>| -> Vec<Step> { q.into_iter().map(|(c, a, b)| (c, b, a)).collect() };
    let parts: Vec<Vec<Step>> = match w {
        "step" => vec![adds(), joins(s)],
        "back" => vec![adds(), back(joins(s))],
        "odd" => vec![adds(), odd(turn(joins(s)))],
        "new" => vec![joins(s), adds()],
        "two" => vec![joins(s), turn(back(joins(t))), adds()],
        "runs" => vec![adds(), odd(joins(1).into_iter().filter(|o| o.1 % (s + 1) != 0).collect())],
        "fold" => vec![(1..=m / 2).map(|j| (1, j, m + 1 - j)).collect(), adds()],
        "again" => vec![joins(t), vec![(2, 0, 0)], back(adds()), joins(s)],
        "after" => vec![joins(1), vec![(2, 0, 0)], adds()],
        x => panic!("TOOL: script {}", x),
    };
    parts.concat()
}
/// as Class in Classes.tla
fn class(w: &str, m: u32, s: u32, t: u32, x: u32) -> i64 {
    fn gcd(a: u32, b: u32) -> u32 {
        if b == 0 {
            a
        } else {
            gcd(b, a % b)
        }
    }
    (match w {
        "step" | "back" | "odd" | "new" | "again" => x % s,
        "two" => x % gcd(s, t),
        "runs" => (x - 1) / (s + 1),
        "fold" => {
            if 2 * x <= m {
                x
            } else {
                m + 1 - x
            }
        }
        _ => x,
    }) as i64
}

/// how: 0 element by element, 1 additions through extend, 2 through collect where they come first,
/// 3 as 0, with clones taking the place of the original on the way
fn scripted<K: Key>(w: &str, m: u32, s: u32, t: u32, kind: usize, how: usize, what: &str, pairs: &[(i64, i64)], rep: &mut Report) {
    let text = format!("script {} m={} s={} t={} ({} hasher {} way {})", w, m, s, t, K::NAME, kind, how);
    journal(&text);
    let r = guarded(|| {
        let ops = script(w, m, s, t);
        let mut d: D<K> = empty(kind, (m as usize + how) % FRESH);
        let mut i = 0;
        while i < ops.len() {
            if i % 256 == 0 {
                tick();
            }
            let (c, a, b) = ops[i];
            if c == 0 && (how == 1 || how == 2) {
                let xs: Vec<K> = ops[i..].iter().take_while(|o| o.0 == 0).map(|o| K::mk(o.1 as i64)).collect();
                let first = i == 0;
                i += xs.len();
                each!(&mut d, c => if how == 2 && first { *c = xs.into_iter().collect() } else { c.extend(xs) });
                continue;
            }
            each!(&mut d, d => match c {
                0 => d.make_set(K::mk(a as i64)),
                1 => d.union(K::mk(a as i64), K::mk(b as i64)),
                _ => d.clear(),
            });
            i += 1;
            if how == 3 && i % (ops.len() / 3 + 1) == 0 {
                d = remake!(&d, c => c.clone());
            }
        }
        let labels: Vec<i64> = (1..=m).map(|x| class(w, m, s, t, x) + 1).collect();
        let mut lab = labels;
        lab.push(0);
        tick();
        let o = observe(&mut d, m as i64 + 1, pairs, what, how % 2 == 0);
        tick();
        check_obs(&o, &lab, what)
    });
    rep.cases += 1;
    rep.nontrivial += (m > 3) as u64;
    match r {
        Err(e) => rep.fail(format!("{}: panics: {}", text, e)),
        Ok(Err(e)) => rep.fail(format!("{}: {}", text, e.chars().take(400).collect::<String>())),
        Ok(Ok(())) => {}
    }
}

fn scale<K: Key>(path: &str, sizes: &[u32], what: &str, seed: u64, rep: &mut Report) {
    for j in std::fs::read_to_string(path).expect("TOOL: scripts").lines().map(parse) {
        let (w, m, s, t) = (j.get("w").str().to_string(), j.get("m").int() as u32, j.get("s").int() as u32, j.get("t").int() as u32);
        let want: Vec<Step> = j.get("u").arr().iter().map(|o| o.ints()).map(|o| (o[0] as u32, o[1] as u32, o[2] as u32)).collect();
        assert!(script(&w, m, s, t) == want, "TOOL: the harness generates another script {} {} {} {}", w, m, s, t);
        let cls: Vec<i64> = (1..=m).map(|x| class(&w, m, s, t, x)).collect();
        assert!(cls == j.get("c").ints(), "TOOL: the harness has another closed form for {} {} {} {}", w, m, s, t);
        let k = (m + s + t) as usize;
        for kind in 0..4 {
            scripted::<K>(&w, m, s, t, kind, (k + kind) % 4, what, &all_pairs(m as i64 + 1), rep);
        }
    }
    let mut rng = Rng::new(seed, 77);
    let mut k = 0;
    for m in sizes {
        let mut jobs: Vec<(&str, u32, u32)> = vec![("fold", 1, 1), ("after", 1, 1), ("two", 6, 1000), ("two", 255, 510), ("two", 4096, 65536)];
        for s in [1, 2, 7, 256, 1000, 65536, m / 2, m - 1] {
            jobs.push((["step", "back", "odd", "new", "runs"][k % 5], s, 1));
            jobs.push((["again", "runs", "step", "new", "odd"][(k + 2) % 5], s, 3));
            k += 1;
        }
        for (w, s, t) in jobs {
            if w == "two" && *m < s + t {
                continue;
            }
            let t = if w == "two" || w == "again" { t } else { 1 };
            let mut pairs = vec![];
            let top = *m as i64;
            for _ in 0..600 {
                let x = rng.range(1, top);
                for y in [x + 1, x + s as i64, x + t as i64, x + 65536, x + 256, top + 1 - x, rng.range(1, top), x] {
                    pairs.push((x, y));
                    pairs.push((y, x));
                }
            }
            pairs.retain(|(a, b)| *a <= top + 1 && *b <= top + 1);
            k += 1;
            scripted::<K>(w, *m, s, t, if *m > 2000 { k % 2 } else { k % 4 }, (k / 2) % 4, what, &pairs, rep);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Panics in user code

/// The same short history again and again, its last operation abandoned at the first, second, ...
/// call into user code; then ordinary operations on what is left.
fn fault_histories<K: Key>(rng: &mut Rng, sink: &mut Sink, focus: &[String], tries: usize, follow: usize, size: i64) {
    let n = size;
    let u = n + 2;
    let what = "qmg";
    let key = |rng: &mut Rng| rng.range(1, n);
    let make: Vec<(usize, usize)> = (0..2).map(|_| (rng.below(4), rng.below(FRESH))).collect();
    let gen = |rng: &mut Rng, name: &str, r: usize| -> Op {
        let k: Vec<i64> = match name {
            "make_set" | "contains" => vec![key(rng)],
            "union" | "in_union" => vec![key(rng), key(rng)],
            "extend" | "from_iter" => (0..rng.below(if n > 8 { 20 } else { 6 })).map(|_| key(rng)).collect(),
            _ => vec![],
        };
        Op { n: name.into(), r, q: 1 - r, k, v: if name == "reclone" { 0 } else { rng.below(variants::<K>(name)) } }
    };
    let base: Vec<Op> = (0..rng.below(2 * n as usize + 2))
        .map(|_| {
            let name = *rng.pick(&["make_set", "union", "union", "union", "in_union", "clear", "extend"]);
            let name = if name == "clear" && rng.chance(3, 4) { "union" } else { name };
            let r = rng.below(4) / 3;
            gen(rng, name, r)
        })
        .collect();
    let emit = |sink: &mut Sink, o: &Op, res: &Result<Res, String>, post: J, fault: bool| {
        let (nums, gs) = match res {
            Ok(Res::Nums(x)) => (x.clone(), vec![]),
            Ok(Res::Groups(g)) => (vec![], g.clone()),
            Err(_) => (vec![], vec![]),
        };
        sink.emit(&obj(vec![
            ("e", s("op")),
            ("n", s(&o.n)),
            ("r", J::I(o.r as i64 + 1)),
            ("q", J::I(o.q as i64 + 1)),
            ("k", ia(o.k.iter().cloned())),
            ("res", ia(nums)),
            ("gs", J::A(gs.iter().map(|g| ia(g.iter().cloned())).collect())),
            ("p", J::I(if res.is_err() { 1 + fault as i64 } else { 0 })),
            ("post", post),
        ]));
    };
    for _ in 0..tries {
        let name = rng.pick(focus).clone();
        let target = gen(rng, &name, 0);
        let after: Vec<Op> = (0..follow)
            .map(|i| {
                let name = if i < 2 { "make_set" } else { *rng.pick(&["make_set", "union", "in_union", "iter", "len", "extend", "contains"]) };
                let one = rng.chance(1, 5) as usize;
                gen(rng, name, one)
            })
            .collect();
        for at in 1..400 {
            let text = format!("type={} made={:?} history={:?} then {:?} with a panic at call {} into user code", K::NAME, make, base, target, at);
            journal(&text);
            let mut regs: Vec<D<K>> = make.iter().map(|(k, v)| empty::<K>(*k, *v)).collect();
            let seen = |regs: &mut Vec<D<K>>, rng: &mut Rng, only: &[usize]| -> J {
                let pairs: Vec<(i64, i64)> = if u <= 8 { all_pairs(u) } else { (0..40).map(|_| (rng.range(1, u), rng.range(1, u))).collect() };
                J::A(only.iter().map(|r| observe(&mut regs[*r], u, &pairs, what, rng.chance(1, 2)).json(*r)).collect())
            };
            sink.history();
            sink.emit(&obj(vec![("e", s("start")), ("t", s(K::NAME)), ("regs", J::I(2)), ("post", J::A(vec![]))]));
            for o in &base {
                let res = guarded(|| run(&mut regs, o));
                emit(sink, o, &res, J::A(vec![]), false);
            }
            arm(at);
            let res = guarded(|| run(&mut regs, &target));
            disarm();
            let fault = fired() != "";
            let post = seen(&mut regs, rng, &[0, 1]);
            emit(sink, &target, &res, post, fault);
            for o in &after {
                let res = guarded(|| run(&mut regs, o));
                let post = seen(&mut regs, rng, &[o.r]);
                emit(sink, o, &res, post, false);
            }
            sink.emit(&obj(vec![("e", s("end"))]));
            if !fault {
                break;
            }
        }
    }
}

const ALL: [&str; 17] = [
    "make_set", "union", "union", "in_union", "contains", "len", "is_empty", "clear", "reserve", "extend", "from_iter", "renew", "reclone", "clone_away", "clone_to", "iter", "iter_part",
];
pub fn main(mode: &str, args: &[String]) -> i32 {
    let focus = arg(args, "--focus").unwrap_or("all".into());
    let what = arg(args, "--what").unwrap_or("qmg".into());
    let types: Vec<String> = arg(args, "--types").unwrap_or("i32".into()).split(',').map(|x| x.to_string()).collect();
    match mode {
        "hist" | "replay" => {
            let mut rep = Report::new();
            let g = arg(args, "--graph").expect("TOOL: --graph");
            for t in &types {
                with_key!(t.as_str(), K => if mode == "hist" { hist::<K>(&g, &what, &focus, &mut rep) } else { replay::<K>(&g, &what, &focus, &mut rep) });
            }
            rep.finish()
        }
        "depth" => {
            let mut rep = Report::new();
            let sizes = arg(args, "--sizes").expect("TOOL: --sizes").split(',').map(|x| x.parse().expect("TOOL: size")).collect();
            depth(&arg(args, "--graph").expect("TOOL: --graph"), sizes, arg_u(args, "--between", 1200) as u32, arg_u(args, "--seed", 1), &mut rep);
            rep.finish()
        }
        "scale" => {
            let mut rep = Report::new();
            let sizes: Vec<u32> = arg(args, "--sizes").expect("TOOL: --sizes").split(',').map(|x| x.parse().expect("TOOL: size")).collect();
            let g = arg(args, "--graph").expect("TOOL: --graph");
            for t in &types {
                with_key!(t.as_str(), K => scale::<K>(&g, &sizes, &what, arg_u(args, "--seed", 1), &mut rep));
            }
            rep.finish()
        }
        "record" => {
            let mut sink = Sink::new(&arg(args, "--out").expect("TOOL: --out"), arg_u(args, "--shards", 4) as usize);
            let mut rng = Rng::new(arg_u(args, "--seed", 1), 31);
            let list = |t: String| -> Vec<String> { if t == "all" { ALL.iter().map(|x| x.to_string()).collect() } else { t.split(',').map(|x| x.to_string()).collect() } };
            let (foc, setup) = (list(focus), list(arg(args, "--setup").unwrap_or("union,make_set".into())));
            let deep = arg_u(args, "--deep", 0);
            let (n, len, big) = (arg_u(args, "--histories", 10), arg_u(args, "--len", 40) as usize, arg_u(args, "--big", 0));
            for t in &types {
                for h in 0..n {
                    with_key!(t.as_str(), K => history::<K>(&mut rng, &mut sink, &foc, &setup, len, h < big, &what));
                }
                for _ in 0..deep {
                    with_key!(t.as_str(), K => deep_history::<K>(&mut rng, &mut sink, &foc, &what));
                }
            }
            sink.flush();
            println!("STATS histories={} events={}", sink.histories, sink.events);
            0
        }
        "faults" => {
            let mut sink = Sink::new(&arg(args, "--out").expect("TOOL: --out"), arg_u(args, "--shards", 4) as usize);
            let mut rng = Rng::new(arg_u(args, "--seed", 1), 37);
            let foc: Vec<String> = focus.split(',').map(|x| x.to_string()).collect();
            let (n, tries, follow) = (arg_u(args, "--histories", 10), arg_u(args, "--tries", 3) as usize, arg_u(args, "--follow", 6) as usize);
            for t in &types {
                for h in 0..n {
                    // now and then enough elements for the tables to grow
                    let size = if h % 5 == 4 { *rng.pick(&[10, 14, 15, 28, 29, 40]) } else { rng.range(1, 6) };
                    with_key!(t.as_str(), K => fault_histories::<K>(&mut rng, &mut sink, &foc, tries, follow, size));
                }
            }
            sink.flush();
            println!("STATS histories={} events={}", sink.histories, sink.events);
            0
        }
        _ => panic!("TOOL: mode {}", mode),
    }
}
