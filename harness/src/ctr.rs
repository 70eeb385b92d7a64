//! Counters: replay of MCCounter's operations and recording of histories for TraceCounter.
use crate::cb::{Report, Sink};
use crate::elems::{arm, callback_in, disarm, fired};
use crate::json::*;
use crate::util::*;
use advanced_collections::counter::{Counter, FastCounter};
use std::collections::hash_map::RandomState;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher};
use std::iter::FromIterator;

/// every key has the same hash
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Collide;
pub struct Zero;
impl Hasher for Zero {
    fn finish(&self) -> u64 {
        42
    }
    fn write(&mut self, _: &[u8]) {}
}
impl BuildHasher for Collide {
    type Hasher = Zero;
    fn build_hasher(&self) -> Zero {
        Zero
    }
}
/// every instance hashes differently, few distinct values
#[derive(Clone, Debug, PartialEq)]
pub struct Seeded(pub u64);
impl Default for Seeded {
    fn default() -> Self {
        Seeded(7)
    }
}
pub struct SeedHash(u64);
impl Hasher for SeedHash {
    fn finish(&self) -> u64 {
        (self.0 ^ (self.0 >> 17)).wrapping_mul(0x9E3779B97F4A7C15) & 0xFE00_0000_0000_000F
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0.rotate_left(5) ^ *x as u64).wrapping_mul(0xD1B54A32D192ED03)
        }
    }
}
impl BuildHasher for Seeded {
    type Hasher = SeedHash;
    fn build_hasher(&self) -> SeedHash {
        SeedHash(self.0)
    }
}

pub trait Key: Hash + Eq + Clone + Debug + 'static {
    const NAME: &'static str;
    const COPY: bool = false;
    fn mk(i: i64) -> Self;
    fn id(&self) -> i64;
    fn ext_ref<S: BuildHasher>(_c: &mut Counter<Self, S>, _v: &[Self], _hint: Option<usize>) {
        unreachable!()
    }
    fn ext_ref_ds<S: BuildHasher>(_c: &mut advanced_collections::disjoint_set::DisjointSet<Self, S>, _v: &[Self], _hint: Option<usize>) {
        unreachable!()
    }
}
macro_rules! copy_key {
    () => {
        const COPY: bool = true;
        fn ext_ref<S: BuildHasher>(c: &mut Counter<Self, S>, v: &[Self], hint: Option<usize>) {
            match hint {
                None => c.extend(v),
                Some(m) => c.extend(loose(v.iter(), m)),
            }
        }
        fn ext_ref_ds<S: BuildHasher>(c: &mut advanced_collections::disjoint_set::DisjointSet<Self, S>, v: &[Self], hint: Option<usize>) {
            match hint {
                None => c.extend(v),
                Some(m) => c.extend(loose(v.iter(), m)),
            }
        }
    };
}
impl Key for i32 {
    const NAME: &'static str = "i32";
    fn mk(i: i64) -> Self {
        i as i32
    }
    fn id(&self) -> i64 {
        *self as i64
    }
    copy_key!();
}
impl Key for char {
    const NAME: &'static str = "char";
    fn mk(i: i64) -> Self {
        char::from_u32(0x3000 + i as u32).unwrap()
    }
    fn id(&self) -> i64 {
        *self as i64 - 0x3000
    }
    copy_key!();
}
impl Key for (u64, bool) {
    const NAME: &'static str = "tuple";
    fn mk(i: i64) -> Self {
        (i as u64 / 2 * 1_000_000_007_000, i % 2 == 1)
    }
    fn id(&self) -> i64 {
        (self.0 / 1_000_000_007_000) as i64 * 2 + self.1 as i64
    }
    copy_key!();
}
impl Key for String {
    const NAME: &'static str = "String";
    fn mk(i: i64) -> Self {
        format!("key {}", i)
    }
    fn id(&self) -> i64 {
        self[4..].parse().unwrap_or(-5)
    }
}
/// not Copy, all instances have the same hash
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Blunt(Box<i64>);
impl Hash for Blunt {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(1)
    }
}
impl Key for Blunt {
    const NAME: &'static str = "blunt";
    fn mk(i: i64) -> Self {
        Blunt(Box::new(i))
    }
    fn id(&self) -> i64 {
        *self.0
    }
}

/// calls back whenever the collection uses it
#[derive(Debug)]
pub struct Brittle(i64);
#[derive(Debug, Clone, Copy)]
pub struct BrittleCopy(i64);
macro_rules! brittle {
    ($t:ty, $classes:expr) => {
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                callback_in("hash");
                h.write_i64(self.0 % $classes)
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                callback_in("eq");
                self.0 == o.0
            }
        }
        impl Eq for $t {}
    };
}
brittle!(Brittle, i64::MAX);
// few different hashes: elements are compared in every lookup
brittle!(BrittleCopy, 3);
impl Clone for Brittle {
    fn clone(&self) -> Self {
        callback_in("clone");
        Brittle(self.0)
    }
}
impl Drop for Brittle {
    fn drop(&mut self) {
        callback_in("drop")
    }
}
impl Key for Brittle {
    const NAME: &'static str = "brittle";
    fn mk(i: i64) -> Self {
        Brittle(i)
    }
    fn id(&self) -> i64 {
        self.0
    }
}
impl Key for BrittleCopy {
    const NAME: &'static str = "brittlecopy";
    fn mk(i: i64) -> Self {
        BrittleCopy(i)
    }
    fn id(&self) -> i64 {
        self.0
    }
    copy_key!();
}

pub enum C<K: Key> {
    R(Counter<K, RandomState>),
    F(FastCounter<K>),
    X(Counter<K, Collide>),
    Z(Counter<K, Seeded>),
}
use C::*;
macro_rules! each {
    ($c:expr, $x:ident => $e:expr) => {
        match $c {
            C::R($x) => $e,
            C::F($x) => $e,
            C::X($x) => $e,
            C::Z($x) => $e,
        }
    };
}
/// applies $e to the counter inside and wraps the result again
macro_rules! remake {
    ($c:expr, $x:ident => $e:expr) => {
        match $c {
            C::R($x) => C::R($e),
            C::F($x) => C::F($e),
            C::X($x) => C::X($e),
            C::Z($x) => C::Z($e),
        }
    };
}

fn empty<K: Key>(kind: usize, v: usize) -> C<K> {
    match kind {
        0 => R(match v {
            0 => Counter::new(),
            1 => Counter::default(),
            2 => Counter::with_capacity(7),
            3 => Counter::with_hasher(RandomState::new()),
            _ => Counter::with_capacity_and_hasher(3, RandomState::new()),
        }),
        1 => F(match v {
            0 => Counter::new(),
            1 => Default::default(),
            2 => Counter::with_capacity(0),
            3 => Counter::with_hasher(Default::default()),
            _ => Counter::with_capacity_and_hasher(3, Default::default()),
        }),
        2 => X(match v {
            0 => Counter::new(),
            1 => Counter::default(),
            2 => Counter::with_capacity(1),
            3 => Counter::with_hasher(Collide),
            _ => Counter::with_capacity_and_hasher(30, Collide),
        }),
        _ => Z(match v {
            0 => Counter::new(),
            1 => Counter::default(),
            2 => Counter::with_capacity(2),
            3 => Counter::with_hasher(Seeded(11)),
            _ => Counter::with_capacity_and_hasher(3, Seeded(12)),
        }),
    }
}
fn kind<K: Key>(c: &C<K>) -> usize {
    match c {
        R(_) => 0,
        F(_) => 1,
        X(_) => 2,
        Z(_) => 3,
    }
}
/// a counter with these entries, made without the crate's own counting operations
fn make<K: Key>(kind: usize, e: &[(i64, usize)]) -> C<K> {
    let mut c = empty::<K>(kind, 3);
    each!(&mut c, c => for (k, v) in e {
        (**c).insert(K::mk(*k), *v);
    });
    c
}

pub type Entries = Vec<(i64, usize)>;
fn sorted(mut v: Entries) -> Entries {
    v.sort();
    v
}

#[derive(Debug, Clone, Default)]
pub struct CObs {
    len: i64,
    em: i64,
    ent: Entries,
    vw: Vec<Entries>,
}
fn observe<K: Key>(c: &mut C<K>, universe: i64, deep: bool) -> CObs {
    let mut o = CObs::default();
    let r = guarded(|| {
        each!(c, c => {
            let n = c.len();
            o.len = n as i64;
            o.em = c.is_empty() as i64;
            let a = sorted(lim(c.iter(), n).into_iter().map(|(k, v)| (k.id(), *v)).collect());
            o.vw.push(a.clone());
            let mut add = |v: Entries| if !o.vw.contains(&v) { o.vw.push(v) };
            add((0..universe).filter_map(|i| c.get(&K::mk(i)).map(|v| (i, *v))).collect());
            add(sorted(lim(&*c, n).into_iter().map(|(k, v)| (k.id(), *v)).collect()));
            if deep {
                add((0..universe).filter(|i| c.contains_key(&K::mk(*i))).map(|i| (i, c[&K::mk(i)])).collect());
                add((0..universe).filter_map(|i| c.get_mut(&K::mk(i)).map(|v| (i, *v))).collect());
                add(sorted(lim(&mut *c, n).into_iter().map(|(k, v)| (k.id(), *v)).collect()));
                add(sorted(lim(c.iter_mut(), n).into_iter().map(|(k, v)| (k.id(), *v)).collect()));
                add(sorted(lim(c.keys().zip(c.values()), n).into_iter().map(|(k, v)| (k.id(), *v)).collect()));
                add(sorted(lim(c.clone(), n).into_iter().map(|(k, v)| (k.id(), v)).collect()));
                let m: HashMap<K, usize> = c.clone().into_iter().collect();
                add(sorted(m.into_iter().map(|(k, v)| (k.id(), v)).collect()));
            }
            o.ent = a;
        })
    });
    if r.is_err() {
        o.vw.push(vec![(-99, 0)]);
    }
    o
}

#[derive(Clone, Debug)]
pub struct COp {
    n: String,
    r: usize,
    q: usize,
    k: Vec<i64>,
    c: Vec<usize>,
    v: usize,
}
#[derive(Debug, Clone, PartialEq)]
enum CRes {
    Counts(Vec<usize>),
    Flags(Vec<i64>),
    List(Vec<(i64, usize)>),
}

fn variants<K: Key>(n: &str) -> usize {
    match n {
        "extend" => {
            if K::COPY {
                1 + LOOSE + 1 + LOOSE
            } else {
                1 + LOOSE
            }
        }
        "from_iter" => 2 + 2 * LOOSE,
        "renew" => 5,
        "add" | "sub" => 4,
        "from_map" => 7,
        "drain_iter" => 2,
        "iter" => 3,
        "reclone" | "clone_to" => 2,
        "add_all" => 3,
        "most_common" | "drain_common" => 1,
        _ => 1,
    }
}

/// from_iter in its forms
fn gather<K: Key, S: BuildHasher + Default>(xs: Vec<K>, v: usize) -> Counter<K, S> {
    match v {
        0 => Counter::from_iter(xs),
        1 => Counter::from_iter(&xs),
        v if v % 2 == 0 => loose(xs.into_iter(), v / 2 - 1).collect(),
        v => loose(xs.iter(), v / 2 - 1).collect(),
    }
}
fn convert<K: Key, S: BuildHasher + Default>(e: &[(i64, usize)], v: usize) -> Counter<K, S> {
    let it = || e.iter().map(|(k, c)| (K::mk(*k), *c));
    match v {
        0 => Counter::from_hashmap(it().collect::<HashMap<K, usize, S>>()),
        1 => Counter::from(it().collect::<HashMap<K, usize, S>>()),
        2 => Counter::from(&it().collect::<HashMap<K, usize, S>>()),
        3 => Counter::from(it().collect::<HashMap<K, usize, RandomState>>()),
        4 => Counter::from(&it().collect::<HashMap<K, usize, RandomState>>()),
        5 => Counter::from(it().collect::<HashMap<K, usize, Collide>>()),
        _ => Counter::from(&it().collect::<HashMap<K, usize, Seeded>>()),
    }
}

fn run<K: Key>(regs: &mut [C<K>], o: &COp) -> CRes {
    let nothing = CRes::Counts(vec![]);
    let opt = |x: Option<usize>| CRes::Counts(x.into_iter().collect());
    let kd = kind(&regs[o.r]);
    let xs: Vec<K> = o.k.iter().map(|i| K::mk(*i)).collect();
    let take = |regs: &mut [C<K>], i: usize| {
        let kd = kind(&regs[i]);
        std::mem::replace(&mut regs[i], empty(kd, 0))
    };
    match o.n.as_str() {
        "add" | "sub" => {
            let plus = o.n == "add";
            match o.v {
                // in place, by value: the right-hand side is consumed
                0 => {
                    let q = take(regs, o.q);
                    let a = &mut regs[o.r];
                    each!(q, q => each!(a, a => if plus { *a += q } else { *a -= q }));
                }
                1 => {
                    let (a, b) = two(regs, o.r, o.q);
                    each!(b, b => each!(a, a => if plus { *a += &*b } else { *a -= &*b }));
                }
                2 => {
                    let (a, b) = (take(regs, o.r), take(regs, o.q));
                    regs[o.r] = each!(b, b => remake!(a, a => if plus { a + b } else { a - b }));
                }
                _ => {
                    let a = take(regs, o.r);
                    let b = &regs[o.q];
                    let s = each!(b, b => remake!(a, a => if plus { a + b } else { a - b }));
                    regs[o.r] = s;
                }
            }
            nothing
        }
        "eq" => {
            let f = |x: bool, y: bool| CRes::Flags(vec![x as i64, y as i64]);
            match (&regs[o.r], &regs[o.q]) {
                (R(a), R(b)) => f(**a == **b, **a != **b),
                (F(a), F(b)) => f(a == b, a != b),
                (X(a), X(b)) => f(a == b, a != b),
                (Z(a), Z(b)) => f(a == b, a != b),
                _ => panic!("TOOL: eq of different hashers"),
            }
        }
        "clone_to" => {
            if o.v == 1 {
                // clone_from reuses what the target already has
                let (lo, hi) = (o.r.min(o.q), o.r.max(o.q));
                let (a, b) = regs.split_at_mut(hi);
                let (c, d) = if o.r < o.q { (&a[lo], &mut b[0]) } else { (&b[0], &mut a[lo]) };
                match (c, d) {
                    (R(c), R(d)) => return { d.clone_from(c); nothing },
                    (F(c), F(d)) => return { d.clone_from(c); nothing },
                    (X(c), X(d)) => return { d.clone_from(c); nothing },
                    (Z(c), Z(d)) => return { d.clone_from(c); nothing },
                    _ => {}
                }
            }
            let c = match &regs[o.r] {
                R(a) => R(a.clone()),
                F(a) => F(a.clone()),
                X(a) => X(a.clone()),
                Z(a) => Z(a.clone()),
            };
            regs[o.q] = c;
            nothing
        }
        "renew" => {
            regs[o.r] = empty(kd, o.v);
            nothing
        }
        "from_iter" => {
            regs[o.r] = match kd {
                0 => R(gather(xs, o.v)),
                1 => F(gather(xs, o.v)),
                2 => X(gather(xs, o.v)),
                _ => Z(gather(xs, o.v)),
            };
            nothing
        }
        "from_map" => {
            let e: Entries = o.k.iter().cloned().zip(o.c.iter().cloned()).collect();
            regs[o.r] = match kd {
                0 => R(convert(&e, o.v)),
                1 => F(convert(&e, o.v)),
                2 => X(convert(&e, o.v)),
                _ => Z(convert(&e, o.v)),
            };
            nothing
        }
        "drain_common" => {
            let c = take(regs, o.r);
            CRes::List(each!(c, c => { let n = c.len(); lim(c.into_most_common(), n).into_iter().map(|(k, v)| (k.id(), v)).collect() }))
        }
        "drain_iter" => {
            let c = take(regs, o.r);
            CRes::List(each!(c, c => {
                let n = c.len();
                if o.v == 0 { lim(c, n).into_iter().map(|(k, v)| (k.id(), v)).collect() }
                else { let mut l = vec![]; for (k, v) in c { l.push((k.id(), v)); if l.len() > n + 40 { break } } l }
            }))
        }
        _ => each!(&mut regs[o.r], c => {
            let mut xs = xs;
            match o.n.as_str() {
                "push" => { c.push(xs.pop().unwrap()); nothing }
                "extend" => {
                    match o.v {
                        0 => c.extend(xs),
                        v if v <= LOOSE => c.extend(loose(xs.into_iter(), v - 1)),
                        v if v == LOOSE + 1 => K::ext_ref(c, &xs, None),
                        v => K::ext_ref(c, &xs, Some(v - LOOSE - 2)),
                    }
                    nothing
                }
                "clear" => { c.clear(); nothing }
                "reserve" => { c.reserve(100); c.shrink_to_fit(); nothing }
                "insert" => opt(c.insert(xs.pop().unwrap(), o.c[0])),
                "remove" => opt(c.remove(&xs[0])),
                "get" => opt(c.get(&xs[0]).cloned()),
                "index" => CRes::Counts(vec![c[&xs[0]]]),
                "get_mut" => opt(c.get_mut(&xs[0]).map(|v| std::mem::replace(v, o.c[0]))),
                "entry" => CRes::Counts(vec![*c.entry(xs.pop().unwrap()).or_insert(o.c[0])]),
                "add_all" => {
                    match o.v {
                        0 => for (_, v) in c.iter_mut() { *v += o.c[0] },
                        1 => for (_, v) in &mut *c { *v += o.c[0] },
                        _ => for v in c.values_mut() { *v += o.c[0] },
                    }
                    nothing
                }
                "retain" => { c.retain(|_, v| *v > o.c[0]); nothing }
                "reclone" => {
                    let d = c.clone();
                    if o.v == 0 { *c = d } else { c.push(K::mk(1)); c.clone_from(&d) }
                    nothing
                }
                "clone_away" => {
                    let mut d = c.clone();
                    if *d != **c { return CRes::Flags(vec![-98]) }
                    d.push(K::mk(1));
                    d.push(K::mk(2));
                    d.push(K::mk(0));
                    d.remove(&K::mk(3));
                    for v in d.values_mut() { *v = 77 }
                    d += &*c;
                    d -= &*c;
                    d.clear();
                    nothing
                }
                "most_common" => { let n = c.len(); CRes::List(lim(c.most_common(), n).into_iter().map(|(k, v)| (k.id(), v)).collect()) }
                "iter" => {
                    let n = c.len();
                    CRes::List(match o.v {
                        0 => lim(c.iter(), n).into_iter().map(|(k, v)| (k.id(), *v)).collect(),
                        1 => lim(&*c, n).into_iter().map(|(k, v)| (k.id(), *v)).collect(),
                        _ => lim(&mut *c, n).into_iter().map(|(k, v)| (k.id(), *v)).collect(),
                    })
                }
                x => panic!("TOOL: operation {}", x),
            }
        }),
    }
}
fn two<X>(v: &mut [X], i: usize, j: usize) -> (&mut X, &mut X) {
    assert!(i != j, "TOOL: same register");
    if i < j {
        let (a, b) = v.split_at_mut(j);
        (&mut a[i], &mut b[0])
    } else {
        let (a, b) = v.split_at_mut(i);
        (&mut b[0], &mut a[j])
    }
}

fn limbs(mut x: usize) -> J {
    let mut v = vec![0i64; 5];
    for i in (0..5).rev() {
        v[i] = (x % 10000) as i64;
        x /= 10000;
    }
    ia(v)
}
fn ent_json(e: &Entries) -> J {
    J::A(e.iter().map(|(k, c)| J::A(vec![J::I(*k), limbs(*c)])).collect())
}
impl CObs {
    fn json(&self) -> J {
        obj(vec![
            ("len", J::I(self.len)),
            ("em", J::I(self.em)),
            ("ent", ent_json(&self.ent)),
            ("vw", J::A(self.vw.iter().map(ent_json).collect())),
        ])
    }
}

fn wanted(focus: &str, n: &str) -> bool {
    focus == "all" || focus.split(',').any(|f| f == n)
}

fn listing_ok(res: &[(i64, usize)], want: &Entries, sorted_desc: bool) -> bool {
    let mut r = res.to_vec();
    r.sort();
    r == *want && (!sorted_desc || res.windows(2).all(|w| w[0].1 >= w[1].1))
}

fn replay<K: Key>(path: &str, focus: &str, deep: bool, rep: &mut Report) {
    let text = std::fs::read_to_string(path).expect("TOOL: graph");
    let ent = |j: &J, f: usize| -> Entries { j.arr().iter().map(|p| (p.arr()[0].int(), p.arr()[1].int() as usize * f)).collect() };
    for l in text.lines() {
        let j = parse(l);
        if j.get("k").str() != "K" || !wanted(focus, j.get("n").str()) {
            continue;
        }
        let n = j.get("n").str();
        // the largest count of the transition becomes (nearly) the largest machine word
        let top = ["a", "b", "s"].iter().flat_map(|w| j.get(w).arr().iter().map(|p| p.arr()[1].int())).chain(j.get("c").ints()).chain(vec![1]).max().unwrap();
        let scales: Vec<usize> = if matches!(n, "push" | "extend" | "from_iter" | "clone_away" | "reclone") { vec![1] } else { vec![1, usize::MAX / top as usize] };
        for f in scales {
            let (a, b, s) = (ent(j.get("a"), f), ent(j.get("b"), f), ent(j.get("s"), f));
            let binary = matches!(n, "add" | "sub" | "eq");
            for ka in 0..4 {
                for kb in 0..(if binary { 4 } else { 1 }) {
                    if n == "eq" && ka != kb {
                        continue;
                    }
                    for v in 0..variants::<K>(n) {
                        let o = COp { n: n.into(), r: 0, q: 1, k: j.get("x").ints(), c: j.get("c").ints().iter().map(|x| *x as usize * f).collect(), v };
                        let what = format!("type={} hashers={},{} a={:?} b={:?} op={} keys={:?} counts={:?} form={}", K::NAME, ka, kb, a, b, n, o.k, o.c, v);
                        journal(&what);
                        let mut regs = vec![make::<K>(ka, &a), make::<K>(kb, &b)];
                        let r = guarded(|| run(&mut regs, &o));
                        rep.cases += 1;
                        if !a.is_empty() {
                            rep.nontrivial += 1;
                        }
                        let p = r.is_err() as i64;
                        let got = observe(&mut regs[0], 8, deep);
                        let gotb = observe(&mut regs[1], 8, false);
                        // a right-hand side used by value is gone, otherwise unchanged
                        let wantb: Entries = if matches!(n, "add" | "sub") && (v == 0 || v == 2) { vec![] } else { b.clone() };
                        let want: &Entries = &s;
                        let resok = match (&r, n) {
                            (Err(_), _) => true,
                            (Ok(CRes::List(l)), _) => listing_ok(l, &a, n.contains("common")),
                            (Ok(CRes::Flags(x)), _) => *x == j.get("res").ints(),
                            (Ok(CRes::Counts(x)), _) => *x == j.get("res").ints().iter().map(|c| *c as usize * f).collect::<Vec<_>>(),
                        };
                        let fine = p == j.get("p").int() && resok && got.vw.contains(want) && got.len == want.len() as i64 && got.em == want.is_empty() as i64 && gotb.vw.contains(&wantb) && (!deep || (got.vw.len() == 1 && gotb.vw.len() == 1));
                        if !fine {
                            rep.fail(format!("{}: expected {:?} res={} p={} right={:?}; got {:?} res={:?} right={:?}", what, want, j.get("res").text(), j.get("p").int(), wantb, got, r, gotb.vw));
                        }
                        if rep.samples.len() < 3 && a.len() == 3 && b.len() >= 2 {
                            rep.samples.push(format!("{} -> {:?}", what, got.ent));
                        }
                    }
                }
            }
        }
    }
}

struct Gen {
    keys: i64,
    large: bool,
}
impl Gen {
    fn count(&self, rng: &mut Rng) -> usize {
        if self.large {
            match rng.below(8) {
                0 => usize::MAX,
                1 => usize::MAX - rng.below(5),
                2 => usize::MAX / 2 + rng.below(3),
                3 => 1usize << rng.below(64),
                4 => (1usize << rng.below(64)).wrapping_sub(1),
                5 => rng.next() as usize >> rng.below(60),
                _ => rng.below(5),
            }
        } else {
            match rng.below(6) {
                0 => 0,
                1 => 1,
                _ => rng.below(9),
            }
        }
    }
}

/// would a sum overflow? (outside what is specified)
fn overflows<K: Key>(regs: &[C<K>], o: &COp) -> bool {
    let e = |c: &C<K>| -> HashMap<i64, usize> { each!(c, c => c.iter().map(|(k, v)| (k.id(), *v)).collect()) };
    let a = e(&regs[o.r]);
    match o.n.as_str() {
        "add" => {
            let b = e(&regs[o.q]);
            b.iter().any(|(k, v)| a.get(k).is_some_and(|x| x.checked_add(*v).is_none()))
        }
        "add_all" => a.values().any(|v| v.checked_add(o.c[0]).is_none()),
        "push" | "extend" | "clone_away" | "reclone" => a.values().any(|v| *v > usize::MAX - 100_000),
        _ => false,
    }
}

const ALL: [&str; 27] = [
    "push", "extend", "from_iter", "renew", "clear", "insert", "remove", "get", "index", "get_mut", "entry", "add_all", "retain", "reserve", "from_map", "reclone", "clone_away", "add", "sub", "eq",
    "most_common", "drain_common", "drain_iter", "iter", "clone_to", "add", "sub",
];

fn history<K: Key>(rng: &mut Rng, sink: &mut Sink, focus: &[String], setup: &[String], len: usize, big: bool, deep: bool, huge: i64) {
    let g = Gen { keys: if huge > 0 { huge } else if big { 30 + rng.below(170) as i64 } else { *rng.pick(&[1, 2, 3, 4, 6, 10]) }, large: rng.chance(1, 2) };
    let nregs = 2 + rng.below(2);
    let mut regs: Vec<C<K>> = (0..nregs).map(|_| empty::<K>(rng.below(4), rng.below(5))).collect();
    sink.history();
    let u = g.keys + 2;
    let post: Vec<J> = regs.iter_mut().map(|c| observe(c, u, deep).json()).collect();
    sink.emit(&obj(vec![("e", s("start")), ("t", s(K::NAME)), ("post", J::A(post))]));
    let mut hist: Vec<String> = vec![];
    for i in 0..len {
        let fill = huge > 0 && i < nregs;
        let n: String = if fill { (*rng.pick(&["extend", "from_map"])).into() } else if rng.chance(3, 5) { rng.pick(focus).clone() } else { rng.pick(setup).clone() };
        let r = if fill { i } else { rng.below(nregs) };
        let mut q = (r + 1 + rng.below(nregs - 1)) % nregs;
        if n == "eq" {
            // same hasher type only; often right after cloning
            if rng.chance(1, 2) || kind(&regs[r]) != kind(&regs[q]) {
                let o = COp { n: "clone_to".into(), r, q, k: vec![], c: vec![], v: rng.below(2) };
                step(&mut regs, &o, sink, u, deep, &mut hist);
                if rng.chance(1, 2) {
                    let o = COp { n: (*rng.pick(&["insert", "remove", "push"])).into(), r: q, q, k: vec![rng.range(0, g.keys)], c: vec![g.count(rng)], v: 0 };
                    if !overflows(&regs, &o) {
                        step(&mut regs, &o, sink, u, deep, &mut hist);
                    }
                }
            }
            if rng.chance(1, 10) {
                q = r
            }
        }
        let key = |rng: &mut Rng| rng.range(0, g.keys);
        let (mut k, mut c) = (vec![], vec![]);
        match n.as_str() {
            "push" | "remove" | "get" | "index" => k = vec![key(rng)],
            "insert" | "get_mut" | "entry" => {
                k = vec![key(rng)];
                c = vec![g.count(rng)]
            }
            "add_all" | "retain" => c = vec![g.count(rng)],
            "extend" | "from_iter" => {
                let m = if huge > 0 && rng.chance(2, 3) {
                    *rng.pick(&[300, 5000, huge as usize, huge as usize + 500])
                } else if rng.chance(1, if big { 8 } else { 60 }) {
                    // long inputs, in long runs of equal elements
                    *rng.pick(&[250, 300, 520, 700, 1100, 1500, 2100, 4200])
                } else if big {
                    rng.below(200)
                } else {
                    rng.below(9)
                };
                if huge > 0 && m > 300 && rng.chance(1, 2) {
                    // all different, in a scattered order
                    k = (0..m as i64).map(|i| (i * 7919) % (huge + 1)).collect()
                } else if m < 200 || rng.chance(1, 2) {
                    k = (0..m).map(|_| key(rng)).collect()
                } else {
                    while k.len() < m {
                        let x = key(rng);
                        let run = 1 + rng.below(m);
                        k.extend(std::iter::repeat(x).take(run))
                    }
                }
            }
            "from_map" => {
                let mut ks: Vec<i64> = (0..=g.keys).filter(|_| rng.chance(1, 2)).collect();
                match rng.below(5) {
                    // nearly all counts equal, or counts that follow the keys
                    0 | 1 => {
                        ks = (0..=g.keys).collect();
                        let most = g.count(rng);
                        c = vec![most; ks.len()];
                        for _ in 0..rng.below(3) {
                            let at = rng.below(c.len());
                            c[at] = g.count(rng)
                        }
                    }
                    2 => {
                        let up = rng.chance(1, 2);
                        c = ks.iter().map(|k| if up { *k } else { g.keys - *k } as usize).collect()
                    }
                    _ => c = ks.iter().map(|_| g.count(rng)).collect(),
                }
                let mut both: Vec<(i64, usize)> = ks.into_iter().zip(c).collect();
                rng.shuffle(&mut both);
                let (ks, cs) = both.into_iter().unzip();
                c = cs;
                k = ks
            }
            _ => {}
        }
        let o = COp { v: rng.below(variants::<K>(&n)), n, r, q, k, c };
        if overflows(&regs, &o) {
            continue;
        }
        step(&mut regs, &o, sink, u, deep, &mut hist);
    }
    sink.emit(&obj(vec![("e", s("end"))]));
}

fn step<K: Key>(regs: &mut [C<K>], o: &COp, sink: &mut Sink, u: i64, deep: bool, hist: &mut Vec<String>) {
    hist.push(format!("{:?}", o));
    journal(&format!("type={} history={:?}", K::NAME, &hist[hist.len().saturating_sub(25)..]));
    let r = guarded(|| run(regs, o));
    event(regs, o, r, sink, u, deep, "")
}
fn event<K: Key>(regs: &mut [C<K>], o: &COp, r: Result<CRes, String>, sink: &mut Sink, u: i64, deep: bool, fault: &str) {
    let res = match &r {
        Ok(CRes::Counts(v)) => J::A(v.iter().map(|x| limbs(*x)).collect()),
        Ok(CRes::Flags(v)) => ia(v.iter().cloned()),
        Ok(CRes::List(v)) => ent_json(v),
        Err(_) => J::A(vec![]),
    };
    let post: Vec<J> = regs.iter_mut().map(|c| observe(c, u, deep).json()).collect();
    sink.emit(&obj(vec![
        ("e", s("op")),
        ("n", s(&o.n)),
        ("r", J::I(o.r as i64 + 1)),
        ("q", J::I(o.q as i64 + 1)),
        ("k", ia(o.k.iter().cloned())),
        ("c", J::A(o.c.iter().map(|x| limbs(*x)).collect())),
        ("v", J::I(o.v as i64)),
        ("res", res),
        ("p", J::I(if r.is_err() { 1 + (fault != "") as i64 } else { 0 })),
        ("f", s(fault)),
        ("post", J::A(post)),
    ]));
}

/// The same short history again and again, its last operation abandoned at the first, second, ...
/// call into user code; then ordinary operations on what is left.
fn fault_histories<K: Key>(rng: &mut Rng, sink: &mut Sink, focus: &[String], tries: usize, follow: usize, size: i64) {
    let u = size + 2;
    let make: Vec<(usize, usize)> = (0..2).map(|_| (*rng.pick(&[0, 1, 2, 2, 3]), rng.below(5))).collect();
    let gen = |rng: &mut Rng, n: &str, r: usize| -> COp {
        let key = |rng: &mut Rng| rng.range(0, size);
        let (mut k, mut c) = (vec![], vec![]);
        match n {
            "push" | "remove" | "get" => k = vec![key(rng)],
            "insert" | "entry" => {
                k = vec![key(rng)];
                c = vec![rng.below(6)]
            }
            "retain" => c = vec![rng.below(4)],
            "extend" | "from_iter" => k = (0..rng.below(if size > 8 { 30 } else { 8 })).map(|_| key(rng)).collect(),
            "from_map" => {
                k = (0..=size).filter(|_| rng.chance(1, 2)).collect();
                rng.shuffle(&mut k);
                c = k.iter().map(|_| rng.below(6)).collect()
            }
            _ => {}
        }
        COp { n: n.into(), r, q: 1 - r, k, c, v: if n == "reclone" { 0 } else { rng.below(variants::<K>(n)) } }
    };
    let base: Vec<COp> = (0..rng.below(2 * size as usize + 4))
        .map(|_| {
            let n = *rng.pick(&["insert", "push", "extend", "from_map", "remove", "insert", "clone_to"]);
            let r = rng.below(2);
            gen(rng, n, r)
        })
        .collect();
    for _ in 0..tries {
        let name = rng.pick(focus).clone();
        let target = gen(rng, &name, 0);
        let after: Vec<COp> = (0..follow)
            .map(|_| {
                let n = *rng.pick(&["push", "extend", "most_common", "insert", "remove", "iter", "add", "sub", "get"]);
                let r = rng.below(2);
                gen(rng, n, r)
            })
            .collect();
        for at in 1..600 {
            let text = format!("type={} made={:?} history={:?} then {:?} with a panic at call {} into user code", K::NAME, make, base, target, at);
            journal(&text);
            let mut regs: Vec<C<K>> = make.iter().map(|(k, v)| empty::<K>(*k, *v)).collect();
            sink.history();
            let post: Vec<J> = regs.iter_mut().map(|c| observe(c, u, false).json()).collect();
            sink.emit(&obj(vec![("e", s("start")), ("t", s(K::NAME)), ("post", J::A(post))]));
            let mut hist = vec![];
            for o in &base {
                step(&mut regs, o, sink, u, false, &mut hist);
            }
            arm(at);
            let r = guarded(|| run(&mut regs, &target));
            disarm();
            let f = fired();
            event(&mut regs, &target, r, sink, u, true, f);
            for o in &after {
                step(&mut regs, o, sink, u, true, &mut hist);
            }
            sink.emit(&obj(vec![("e", s("end"))]));
            if f == "" {
                break;
            }
        }
    }
}

macro_rules! with_key {
    ($name:expr, $t:ident => $e:expr) => {
        match $name {
            "i32" => { type $t = i32; $e }
            #[cfg(debug_assertions)]
            "char" => { type $t = char; $e }
            #[cfg(debug_assertions)]
            "tuple" => { type $t = (u64, bool); $e }
            "String" => { type $t = String; $e }
            "blunt" => { type $t = Blunt; $e }
            "brittle" => { type $t = Brittle; $e }
            "brittlecopy" => { type $t = BrittleCopy; $e }
            o => panic!("TOOL: type {}", o),
        }
    };
}
pub(crate) use with_key;

pub fn main(mode: &str, args: &[String]) -> i32 {
    let focus = arg(args, "--focus").unwrap_or("all".into());
    let deep = arg_u(args, "--deep", 0) == 1;
    let types: Vec<String> = arg(args, "--types").unwrap_or("i32".into()).split(',').map(|x| x.to_string()).collect();
    match mode {
        "replay" => {
            let mut rep = Report::new();
            let g = arg(args, "--graph").expect("TOOL: --graph");
            for t in &types {
                with_key!(t.as_str(), K => replay::<K>(&g, &focus, deep, &mut rep));
            }
            rep.finish()
        }
        "record" => {
            let mut sink = Sink::new(&arg(args, "--out").expect("TOOL: --out"), arg_u(args, "--shards", 4) as usize);
            let mut rng = Rng::new(arg_u(args, "--seed", 1), 21);
            let foc: Vec<String> = if focus == "all" { ALL.iter().map(|x| x.to_string()).collect() } else { focus.split(',').map(|x| x.to_string()).collect() };
            let setup: Vec<String> = arg(args, "--setup").unwrap_or("insert".into()).split(',').map(|x| x.to_string()).collect();
            let (n, len, big) = (arg_u(args, "--histories", 10), arg_u(args, "--len", 40) as usize, arg_u(args, "--big", 0));
            let (huge, hugekeys) = (arg_u(args, "--huge", 0), arg_u(args, "--hugekeys", 5000) as i64);
            for t in &types {
                for h in 0..n {
                    with_key!(t.as_str(), K => history::<K>(&mut rng, &mut sink, &foc, &setup, if h < big { len / 3 } else { len }, h < big, deep, 0));
                }
                for h in 0..huge {
                    let keys = [300, 1100, hugekeys][h as usize % 3];
                    with_key!(t.as_str(), K => history::<K>(&mut rng, &mut sink, &foc, &setup, 10, false, deep, keys));
                }
            }
            sink.flush();
            println!("STATS histories={} events={}", sink.histories, sink.events);
            0
        }
        "faults" => {
            let mut sink = Sink::new(&arg(args, "--out").expect("TOOL: --out"), arg_u(args, "--shards", 4) as usize);
            let mut rng = Rng::new(arg_u(args, "--seed", 1), 39);
            let foc: Vec<String> = focus.split(',').map(|x| x.to_string()).collect();
            let (n, tries, follow) = (arg_u(args, "--histories", 10), arg_u(args, "--tries", 3) as usize, arg_u(args, "--follow", 4) as usize);
            for t in &types {
                for h in 0..n {
                    // now and then enough elements for the tables to grow
                    let size = if h % 6 == 5 { *rng.pick(&[10, 14, 15, 28, 30]) } else { rng.range(1, 6) };
                    with_key!(t.as_str(), K => fault_histories::<K>(&mut rng, &mut sink, &foc, tries, follow, size));
                }
            }
            sink.flush();
            println!("STATS histories={} events={}", sink.histories, sink.events);
            0
        }
        _ => panic!("TOOL: mode {}", mode),
    }
}
