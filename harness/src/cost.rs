//! Measures what the series of Cost.tla use up: calls of the allocator, bytes held, CPU time.
use crate::json::*;
use crate::cb::Sink;
use crate::util::*;
use advanced_collections::circular_buffer::CircularBuffer;
use advanced_collections::counter::{Counter, FastCounter};
use advanced_collections::disjoint_set::{DisjointSet, FastDisjointSet};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::hash_map::RandomState;
use std::collections::HashMap;
use std::hash::BuildHasher;
use std::hint::black_box;
use std::cell::Cell;

pub struct Counting;
// of the calling thread: the harness watches for hangs in another one
thread_local! {
    static CALLS: Cell<i64> = const { Cell::new(0) };
    static HELD: Cell<i64> = const { Cell::new(0) };
    // bytes requested so far, also those given back since
    static ASKED: Cell<i64> = const { Cell::new(0) };
}
fn bump(c: &'static std::thread::LocalKey<Cell<i64>>, n: i64) {
    let _ = c.try_with(|c| c.set(c.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump(&CALLS, 1);
        bump(&HELD, l.size() as i64);
        bump(&ASKED, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        bump(&HELD, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        bump(&CALLS, 1);
        bump(&HELD, l.size() as i64);
        bump(&ASKED, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bump(&CALLS, 1);
        bump(&HELD, n as i64 - l.size() as i64);
        bump(&ASKED, n as i64);
        System.realloc(p, l, n)
    }
}

/// What a piece of work used up.
#[derive(Clone, Copy, Default)]
struct Used {
    allocs: i64,
    live: i64,
    secs: f64,
    ops: i64,
    held: i64,
    asked: i64,
}
impl Used {
    /// bytes held after one of the repetitions
    fn once(mut self, size: usize) -> Used {
        let reps = (4096 / size).max(1) as i64;
        self.live = (self.live as f64 / reps as f64).ceil() as i64;
        self.asked = (self.asked as f64 / reps as f64).ceil() as i64;
        self
    }
}
fn used(ops: usize, total: &mut Used, f: impl FnOnce()) {
    kept(ops, total, f)
}
/// The same for work whose outcome counts as held.
fn kept<R>(ops: usize, total: &mut Used, f: impl FnOnce() -> R) -> R {
    let (a, l, q, t) = (CALLS.get(), HELD.get(), ASKED.get(), crate::dsu::cpu());
    let r = black_box(f());
    let t2 = crate::dsu::cpu();
    total.allocs += CALLS.get() - a;
    total.live += HELD.get() - l;
    total.asked += ASKED.get() - q;
    total.secs += t2 - t;
    total.ops += ops as i64;
    r
}

struct Series {
    t: String,
    n: String,
    fill: String,
    rot: i64,
    at: i64,
}

/// Calls in one series; fewer if they take very long.
const OPS: usize = 512;
const ENOUGH: f64 = 1.0;

fn buffer(w: &Series, size: usize) -> Used {
    let cap = size;
    let fill = match w.fill.as_str() {
        "few" => 3,
        "half" => cap / 2,
        _ => cap,
    };
    let mut b: CircularBuffer<i32> = CircularBuffer::with_capacity(cap);
    // the live elements begin at this slot of cap + 1
    let start = match w.rot {
        0 => 0,
        1 => cap / 2,
        _ => cap,
    };
    for _ in 0..start {
        b.push_back(0);
        b.pop_front();
    }
    for i in 0..fill {
        b.push_back(i as i32)
    }
    let full = fill == cap;
    let mut u = Used::default();
    if w.n.starts_with("lap") {
        return lap(&mut b, w, cap);
    }
    let at = match w.at {
        0 => 0,
        1 => fill / 2,
        _ => fill - 1,
    };
    let mut i = 0;
    while i < OPS && u.secs < ENOUGH {
        i += 1;
        // each call is undone afterwards, so that the state is the same for every call
        match w.n.as_str() {
            "push_back" => {
                used(1, &mut u, || b.push_back(7));
                if !full {
                    b.pop_back();
                }
            }
            "push_front" => {
                used(1, &mut u, || b.push_front(7));
                if !full {
                    b.pop_front();
                }
            }
            "pop_back" => {
                used(1, &mut u, || {
                    black_box(b.pop_back());
                });
                b.push_back(1);
            }
            "pop_front" => {
                used(1, &mut u, || {
                    black_box(b.pop_front());
                });
                b.push_front(1);
            }
            "read" => used(1, &mut u, || {
                black_box(&b[at]);
            }),
            "write" => used(1, &mut u, || b[at] = 5),
            x => panic!("TOOL: series {}", x),
        }
    }
    u
}

/// The dearest pair of calls on the way once around the ring (or up to the brim and down again),
/// each pair as quick as in the quickest of several rounds.
fn lap(b: &mut CircularBuffer<i32>, w: &Series, cap: usize) -> Used {
    let full = b.len() == cap;
    let steps = match w.n.as_str() {
        "lap_fill_back" | "lap_fill_front" => 2 * cap,
        _ => cap + 1,
    };
    let mut best = vec![f32::MAX; steps];
    let mut sum = Used::default();
    let begin = crate::dsu::cpu();
    for round in 0..5 {
        if round > 2 && crate::dsu::cpu() - begin > ENOUGH {
            break;
        }
        // every round begins in the same state
        if w.n.starts_with("lap_fill") {
            b.clear();
        }
        b.linearize();
        for _ in 0..if full { 0 } else { [0, cap / 2, cap][w.rot as usize] } {
            b.push_back(1);
            b.pop_front();
        }
        for j in 0..steps {
            let mut u = Used::default();
            match w.n.as_str() {
                "lap_on" if full => used(1, &mut u, || b.push_back(7)),
                "lap_on" => used(1, &mut u, || {
                    b.push_back(7);
                    black_box(b.pop_front());
                }),
                "lap_back" if full => used(1, &mut u, || b.push_front(7)),
                "lap_back" => used(1, &mut u, || {
                    b.push_front(7);
                    black_box(b.pop_back());
                }),
                "lap_stay" => used(1, &mut u, || {
                    black_box(b.pop_back());
                    b.push_front(7);
                }),
                "lap_fill_back" if j < cap => used(1, &mut u, || b.push_back(7)),
                "lap_fill_back" => used(1, &mut u, || {
                    black_box(b.pop_back());
                }),
                "lap_fill_front" if j < cap => used(1, &mut u, || b.push_front(7)),
                "lap_fill_front" => used(1, &mut u, || {
                    black_box(b.pop_front());
                }),
                x => panic!("TOOL: series {}", x),
            }
            sum.allocs += u.allocs;
            sum.live += u.live;
            sum.asked += u.asked;
            best[j] = best[j].min(u.secs as f32);
            if j % 64 == 0 && crate::dsu::cpu() - begin > 10.0 * ENOUGH {
                break;
            }
        }
        tick();
    }
    sum.ops = 1;
    sum.secs = best.iter().filter(|x| **x < f32::MAX).fold(0f32, |a, x| a.max(*x)) as f64;
    sum
}

fn counter<S: BuildHasher>(new: fn() -> Counter<i32, S>, w: &Series, size: usize) -> Used {
    let mut u = Used::default();
    if w.n == "push_new" {
        used(size, &mut u, || {
            let mut c: Counter<i32, S> = new();
            if w.rot == 1 {
                c.reserve(size / 2)
            }
            for i in 0..size as i32 {
                c.push(i);
                if w.at == 1 {
                    c.push(i / 2)
                }
            }
            std::mem::forget(c);
        });
        return u;
    }
    let mut c: Counter<i32, S> = new();
    if w.rot == 1 {
        c.reserve(4 * size)
    }
    for i in 0..size as i32 {
        c.push(i)
    }
    if w.rot == 2 {
        // no room left
        let mut i = size as i32;
        while c.len() < c.capacity() {
            c.push(i);
            i += 1;
        }
    }
    let mut i = 0;
    while i < OPS && u.secs < ENOUGH {
        i += 1;
        let k = if w.at == 0 { 3 } else { (i * 7919 % size) as i32 };
        used(1, &mut u, || c.push(k));
    }
    u
}

fn sets<S: BuildHasher>(new: fn() -> DisjointSet<i32, S>, w: &Series, size: usize) -> Used {
    let mut u = Used::default();
    let mut n = size as i32;
    if w.at == 2 {
        // no room left in a map grown in the same way
        let mut m: HashMap<i32, usize> = HashMap::new();
        (0..n).for_each(|i| drop(m.insert(i, 0)));
        while m.len() < m.capacity() {
            m.insert(n, 0);
            n += 1;
        }
    }
    let make = || {
        let mut d: DisjointSet<i32, S> = new();
        if w.at == 1 {
            d.reserve(if w.n == "make_new" { size / 2 } else { 4 * size })
        }
        for i in 0..n {
            d.make_set(i)
        }
        match w.rot {
            0 => {}
            1 => (1..n).for_each(|i| d.union(0, i)),
            _ => (1..n).filter(|i| i % 8 != 0).for_each(|i| d.union(i - 1, i)),
        }
        d
    };
    if w.n == "make_new" {
        used(size, &mut u, || std::mem::forget(make()));
        return u;
    }
    let mut d = make();
    let mut i = 0;
    while i < OPS && u.secs < ENOUGH {
        i += 1;
        let (a, b) = ((i * 7919 % size) as i32, (i * 104729 % size) as i32);
        match w.n.as_str() {
            "make_set" => used(1, &mut u, || d.make_set(a)),
            "union" => used(1, &mut u, || d.union(a, b)),
            "in_union" => used(1, &mut u, || {
                black_box(d.in_union(&a, &b));
            }),
            "contains" => used(1, &mut u, || {
                black_box(d.contains(&a));
            }),
            "iter" => {
                used(1, &mut u, || {
                    let mut seen = 0;
                    for g in &mut d {
                        seen += g.take(size + 1).count();
                        if seen > 2 * size {
                            break;
                        }
                    }
                    black_box(seen);
                });
                if i >= 3 {
                    break;
                }
            }
            x => panic!("TOOL: series {}", x),
        }
    }
    u
}

/// Whole-buffer operations; each repetition starts from a fresh buffer.
fn whole_buffer(w: &Series, size: usize) -> Used {
    let reps = (4096 / size).max(1);
    let make = |cap: usize, fill: usize| {
        let mut b: CircularBuffer<i32> = CircularBuffer::with_capacity(cap);
        let start = match w.rot {
            0 => 0,
            1 => cap / 2,
            _ => cap,
        };
        for _ in 0..start {
            b.push_back(0);
            b.pop_front();
        }
        for i in 0..fill {
            b.push_back(i as i32)
        }
        b
    };
    let fill = if w.fill == "half" { size / 2 } else { size };
    let mut u = Used { held: size as i64, ..Default::default() };
    for _ in 0..reps {
        let mut b = make(size, fill);
        let n = size;
        match w.n.as_str() {
            "iterate" => used(n, &mut u, || assert!(b.iter().map(|x| *x as usize + 1).max() == Some(fill))),
            "iter_back" => used(n, &mut u, || assert!(b.iter().rev().map(|x| *x as usize + 1).max() == Some(fill))),
            "write_all" => used(n, &mut u, || b.iter_mut().for_each(|x| *x += 1)),
            "extend" => {
                let more = size - fill + 3;
                used(n, &mut u, || b.extend(0..more as i32))
            }
            "extend_over" => used(n, &mut u, || b.extend(0..n as i32)),
            "append" => {
                let mut o = make(size, fill);
                used(n, &mut u, || b.append(&mut o));
            }
            "drain" => used(n, &mut u, || assert!(b.drain().count() == fill)),
            "into_iter" => {
                let b = std::mem::replace(&mut b, CircularBuffer::with_capacity(0));
                used(n, &mut u, || assert!(b.into_iter().count() == fill))
            }
            "from_vec" => {
                let v: Vec<i32> = (0..fill as i32).collect();
                kept(n, &mut u, || CircularBuffer::from(v));
            }
            "from_iter" => {
                kept(n, &mut u, || (0..fill as i32).collect::<CircularBuffer<i32>>());
            }
            "clone" => {
                kept(n, &mut u, || b.clone());
            }
            "grow" => used(n, &mut u, || b.resize(2 * size)),
            "shrink" => used(n, &mut u, || b.resize(size / 4)),
            "linearize" => used(n, &mut u, || {
                b.linearize();
            }),
            "reverse" => used(n, &mut u, || b.reverse()),
            "clear" => used(n, &mut u, || b.clear()),
            "drop" => {
                let b = std::mem::replace(&mut b, CircularBuffer::with_capacity(0));
                used(n, &mut u, || drop(b))
            }
            "eq" => {
                let o = make(size + 5, fill);
                used(n, &mut u, || assert!(b == o))
            }
            "cmp" => {
                let o = make(size + 5, fill);
                used(n, &mut u, || assert!(b.cmp(&o) == std::cmp::Ordering::Equal && !(b < o)))
            }
            x => panic!("TOOL: series {}", x),
        }
        black_box(&b);
    }
    u.once(size)
}

fn whole_counter<S: BuildHasher + Default + Clone>(w: &Series, size: usize) -> Used {
    let reps = (4096 / size).max(1);
    let different = if w.rot == 1 { 16 } else { size };
    let mut u = Used { held: different as i64, ..Default::default() };
    let key = |i: usize| (i % different) as i32;
    for _ in 0..reps {
        let mut c: Counter<i32, S> = Counter::default();
        (0..size).for_each(|i| c.push(key(i)));
        if w.n == "most_common" {
            // many different counts
            c.values_mut().enumerate().for_each(|(i, n)| *n = i * 7919 % 5003)
        }
        match (w.n.as_str(), w.at) {
            ("from_iter", 0) => {
                kept(size, &mut u, || (0..size).map(key).collect::<Counter<i32, S>>());
            }
            ("from_iter", _) => {
                let v: Vec<i32> = (0..size).map(key).collect();
                kept(size, &mut u, || v.iter().collect::<Counter<i32, S>>());
            }
            ("extend", a) => {
                let mut c: Counter<i32, S> = Counter::default();
                c.push(0);
                let v: Vec<i32> = (0..size).map(key).collect();
                used(size, &mut u, || if a == 0 { c.extend(v.iter().map(|x| *x)) } else { c.extend(&v) });
                black_box(&c);
            }
            ("add", a) => {
                let mut o: Counter<i32, S> = Counter::default();
                (0..size).for_each(|i| o.push(key(i) + (different / 2) as i32));
                u.held = 2 * different as i64;
                used(size, &mut u, || if a == 0 { c += o } else { c += &o })
            }
            ("sub", a) => {
                let mut o: Counter<i32, S> = Counter::default();
                (0..size).for_each(|i| o.push(key(i) + (different / 2) as i32));
                used(size, &mut u, || if a == 0 { c -= o } else { c -= &o })
            }
            ("most_common", 0) => {
                kept(size, &mut u, || c.most_common());
            }
            ("most_common", _) => {
                let c = std::mem::take(&mut c);
                kept(size, &mut u, || c.into_most_common());
            }
            ("clone", _) => {
                kept(size, &mut u, || c.clone());
            }
            ("from_map", a) => {
                let m: HashMap<i32, usize> = (0..different).map(|i| (key(i), 1 + i % 7)).collect();
                if a == 0 {
                    kept(size, &mut u, || Counter::<i32, S>::from(m));
                } else {
                    kept(size, &mut u, || Counter::<i32, S>::from(&m));
                }
            }
            ("iterate", 0) => used(size, &mut u, || assert!((&c).into_iter().count() == different)),
            ("iterate", _) => used(size, &mut u, || (&mut c).into_iter().for_each(|(_, n)| *n += 1)),
            ("room", a) => {
                let mut c: Counter<i32, S> = match (a, w.fill.as_str()) {
                    (0, "std") => Counter::with_capacity(size),
                    (0, _) => Counter::with_capacity_and_hasher(size, S::default()),
                    _ => Counter::default(),
                };
                if a == 1 {
                    (0..10).for_each(|i| c.push(-1 - i));
                    c.reserve(size)
                }
                used(size, &mut u, || (0..size).for_each(|i| c.push(key(i))))
            }
            ("none", a) => {
                let c: Counter<i32, S> = kept(1, &mut u, || match (a, w.fill.as_str()) {
                    (0, "std") => Counter::with_capacity(0),
                    (0, _) => Counter::with_capacity_and_hasher(0, S::default()),
                    (_, "std") => Counter::new(),
                    _ => Counter::with_hasher(S::default()),
                });
                black_box(&c);
            }
            x => panic!("TOOL: series {:?}", x),
        }
        black_box(&c);
    }
    u.once(size)
}

fn whole_set<S: BuildHasher + Default + Clone>(w: &Series, size: usize) -> Used {
    let reps = (4096 / size).max(1);
    let mut u = Used { held: size as i64, ..Default::default() };
    let all = 0..size as i32;
    for _ in 0..reps {
        let mut d: DisjointSet<i32, S> = DisjointSet::default();
        all.clone().for_each(|i| d.make_set(i));
        if w.rot == 1 {
            (1..size as i32).for_each(|i| d.union(i - 1, i));
        } else if w.rot == 2 {
            (1..size as i32).for_each(|i| if i % 8 != 0 { d.union(i - 1, i) });
        }
        // each element twice
        let v: Vec<i32> = all.clone().map(|i| if w.rot == 1 { i / 2 } else { i }).collect();
        match (w.n.as_str(), w.at) {
            ("from_iter", 0) => {
                kept(size, &mut u, || v.iter().map(|x| *x).collect::<DisjointSet<i32, S>>());
            }
            ("from_iter", _) => {
                kept(size, &mut u, || v.iter().collect::<DisjointSet<i32, S>>());
            }
            ("extend", a) => {
                let mut d: DisjointSet<i32, S> = DisjointSet::default();
                d.make_set(0);
                used(size, &mut u, || if a == 0 { d.extend(v.iter().map(|x| *x)) } else { d.extend(&v) });
                black_box(&d);
            }
            ("clone", 0) => {
                kept(size, &mut u, || d.clone());
            }
            ("clone", _) => {
                let mut o: DisjointSet<i32, S> = DisjointSet::default();
                used(size, &mut u, || o.clone_from(&d));
                black_box(&o);
            }
            ("clear", _) => used(size, &mut u, || d.clear()),
            ("groups", 0) => used(size, &mut u, || {
                black_box((&mut d).into_iter().count());
            }),
            ("groups", _) => used(size, &mut u, || {
                let mut x = 0;
                (&mut d).into_iter().for_each(|g| g.for_each(|v| x ^= *v));
                black_box(x);
            }),
            ("drop", _) => {
                let d = std::mem::take(&mut d);
                used(size, &mut u, || drop(d))
            }
            ("room", a) => {
                let mut d: DisjointSet<i32, S> = match (a, w.fill.as_str()) {
                    (0, "std") => DisjointSet::with_capacity(size),
                    (0, _) => DisjointSet::with_capacity_and_hasher(size, S::default()),
                    _ => DisjointSet::default(),
                };
                if a == 1 {
                    (0..10).for_each(|i| d.make_set(-1 - i));
                    d.reserve(size)
                }
                used(size, &mut u, || all.clone().for_each(|i| if i % 2 == 0 { d.make_set(i) } else { d.union(i - 1, i) }));
                black_box(&d);
            }
            ("none", a) => {
                let d: DisjointSet<i32, S> = kept(1, &mut u, || match (a, w.fill.as_str()) {
                    (0, "std") => DisjointSet::with_capacity(0),
                    (0, _) => DisjointSet::with_capacity_and_hasher(0, S::default()),
                    (_, "std") => DisjointSet::new(),
                    _ => DisjointSet::with_hasher(S::default()),
                });
                black_box(&d);
            }
            x => panic!("TOOL: series {:?}", x),
        }
        black_box(&d);
    }
    u.once(size)
}

/// the hasher of the fast collections
trait HasherOf {
    type S;
}
impl<T: std::hash::Hash + Eq, S: BuildHasher> HasherOf for Counter<T, S> {
    type S = S;
}
type Fnv = <FastCounter<i32> as HasherOf>::S;

fn measure_whole(w: &Series, size: usize) -> Used {
    match (w.t.as_str(), w.fill.as_str()) {
        ("cb", _) => whole_buffer(w, size),
        ("ctr", "std") => whole_counter::<RandomState>(w, size),
        ("ctr", _) => whole_counter::<Fnv>(w, size),
        ("dsu", "std") => whole_set::<RandomState>(w, size),
        _ => whole_set::<Fnv>(w, size),
    }
}

fn measure(w: &Series, size: usize) -> Used {
    match (w.t.as_str(), w.fill.as_str()) {
        ("cb", _) => buffer(w, size),
        ("ctr", "std") => counter(Counter::<i32>::new, w, size),
        ("ctr", _) => counter(FastCounter::<i32>::default, w, size),
        ("dsu", "std") => sets(DisjointSet::<i32>::new, w, size),
        _ => sets(FastDisjointSet::<i32>::default, w, size),
    }
}

pub fn main(area: &str, args: &[String]) -> i32 {
    let sizes: Vec<usize> = arg(args, "--sizes").expect("TOOL: --sizes").split(',').map(|x| x.parse().expect("TOOL: size")).collect();
    let text = std::fs::read_to_string(arg(args, "--graph").expect("TOOL: --graph")).expect("TOOL: series");
    // "S": series of single calls, "B": operations on whole collections
    let kind = arg(args, "--kind").unwrap_or("S".into());
    let focus = arg(args, "--focus").unwrap_or_default();
    let mut sink = Sink::new(&arg(args, "--out").expect("TOOL: --out"), arg_u(args, "--shards", 4) as usize);
    for j in text.lines().map(parse) {
        if !focus.is_empty() && !focus.split(',').any(|x| x == j.get("n").str()) {
            continue;
        }
        if j.get("k").str() != kind || j.get("t").str() != area {
            continue;
        }
        let w = Series { t: area.into(), n: j.get("n").str().into(), fill: j.get("fill").str().into(), rot: j.get("rot").int(), at: j.get("at").int() };
        sink.history();
        let head = |e: &str| vec![("e", s(e)), ("t", s(&w.t)), ("n", s(&w.n)), ("fill", s(&w.fill)), ("rot", J::I(w.rot)), ("at", J::I(w.at))];
        sink.emit(&obj(head("start")));
        for (step, size) in sizes.iter().enumerate() {
            journal(&format!("cost of {} on {} of {} elements, fill={} rotation={} at={}", w.n, w.t, size, w.fill, w.rot, w.at));
            // the quickest of several runs: what else the machine does only slows a run down
            let mut best: Option<Used> = None;
            let mut p = 0;
            // iterating takes long
            let size = if w.n == "iter" { (*size).min(40_000) } else if w.n.starts_with("lap") { (*size).min(262_144) } else { *size };
            for _ in 0..if w.n.starts_with("lap") { 1 } else if size > 10_000 && area != "cb" { 2 } else { 3 } {
                match guarded(|| if kind == "B" { measure_whole(&w, size) } else { measure(&w, size) }) {
                    Ok(u) => {
                        best = Some(match best {
                            None => u,
                            Some(b) => Used { held: u.held, allocs: b.allocs.min(u.allocs), asked: b.asked.min(u.asked), live: b.live.min(u.live), ..if u.secs / (u.ops as f64) < b.secs / (b.ops as f64) { u } else { b } },
                        })
                    }
                    Err(_) => p = 1,
                }
                // slow enough for a verdict
                if best.map_or(false, |b| b.secs > 5.0) {
                    break;
                }
            }
            let u = best.unwrap_or_default();
            let ns = (u.secs * 1e9 / (u.ops.max(1) as f64)).min(1e7) as i64;
            let mut ev = head("m");
            ev.extend(vec![
                ("step", J::I(step as i64 + 1)),
                ("size", J::I(size as i64)),
                ("ops", J::I(u.ops)),
                ("allocs", J::I(u.allocs.min(1 << 30))),
                ("live", J::I(u.live.max(-(1 << 30)).min(1 << 30))),
                ("held", J::I(u.held)),
                ("asked", J::I(u.asked.min(1 << 30))),
                ("ns", J::I(ns)),
                ("p", J::I(p)),
            ]);
            sink.emit(&obj(ev));
        }
        sink.emit(&obj(vec![("e", s("end"))]));
    }
    sink.flush();
    println!("STATS histories={} events={}", sink.histories, sink.events);
    0
}
