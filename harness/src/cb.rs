//! Circular buffers: execute operations of Deque.tla on the real type and observe the outcome.
use crate::elems::*;
use crate::json::*;
use crate::util::*;
use advanced_collections::circular_buffer::CircularBuffer;
use std::collections::{HashMap, HashSet, VecDeque};
use std::iter::FromIterator;

type CB<T> = CircularBuffer<T>;

#[derive(Clone, Debug)]
pub struct Op {
    pub n: String,
    pub r: usize,
    pub q: usize,
    pub a: Vec<i64>,
    pub x: Vec<i64>,
    pub v: usize,
}
impl Op {
    fn new(n: &str, a: Vec<i64>, x: Vec<i64>) -> Op {
        Op { n: n.into(), r: 0, q: 0, a, x, v: 0 }
    }
    fn text(&self) -> String {
        format!("{} r{} q{} {:?} x{:?} v{}", self.n, self.r, self.q, self.a, self.x, self.v)
    }
}

/// How many ways there are to perform an operation through the public interface.
fn variants<T: Elem>(n: &str) -> Vec<usize> {
    match n {
        "extend" => {
            if T::CLONES {
                vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]
            } else {
                vec![0, 1, 2, 3, 6, 7, 8, 9, 10]
            }
        }
        "drain" => vec![0, 1, 2, 3, 4],
        "drain_skip" => vec![0, 1, 2, 3],
        "into_iter" => vec![0, 1, 2, 3, 4, 5],
        "from_vec" => vec![0, 1],
        "from_iter" => {
            if T::CLONES {
                vec![0, 1, 2, 3, 4, 5, 6, 7]
            } else {
                vec![0, 1, 4, 5, 6]
            }
        }
        "renew" => vec![0, 1],
        "reclone" => vec![0, 1],
        "clone_to" => vec![0, 1],
        _ => vec![0],
    }
}
fn needs_clone(n: &str) -> bool {
    matches!(n, "reclone" | "clone_away" | "clone_to")
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Obs {
    pub cap: i64,
    pub len: i64,
    pub em: i64,
    pub fu: i64,
    /// 1 if every access outside the live range panicked and changed nothing
    pub oob: i64,
    /// the distinct sequences the views show; exactly one if they agree
    pub vw: Vec<Vec<i64>>,
    pub u: Vec<i64>,
}
impl Obs {
    fn json(&self) -> J {
        obj(vec![
            ("cap", J::I(self.cap)),
            ("len", J::I(self.len)),
            ("em", J::I(self.em)),
            ("fu", J::I(self.fu)),
            ("oob", J::I(self.oob)),
            ("vw", J::A(self.vw.iter().map(|v| ia(v.iter().cloned())).collect())),
            ("u", ia(self.u.iter().cloned())),
        ])
    }
}
fn clampi(x: usize) -> i64 {
    x.min(1_000_000_000) as i64
}

/// takes k elements of an iterator over n, holding it to what it announces (a wrong announcement panics)
fn hinted<A>(it: &mut impl Iterator<Item = A>, k: usize, n: usize, out: &mut Vec<A>) {
    for i in 0..=k {
        let left = n.saturating_sub(i);
        let (lo, hi) = it.size_hint();
        assert!(lo <= left && hi.map_or(true, |h| h >= left), "the iterator announces {:?} of {} elements", (lo, hi), left);
        if i < k {
            out.extend(it.next());
        }
    }
}
fn alternate<A>(mut it: impl DoubleEndedIterator<Item = A>, n: usize, id: impl Fn(&A) -> i64) -> Vec<i64> {
    let (mut f, mut b) = (vec![], vec![]);
    for i in 0..n + 3 {
        match if i % 2 == 0 { it.next() } else { it.next_back() } {
            Some(x) => {
                if i % 2 == 0 {
                    f.push(id(&x))
                } else {
                    b.push(id(&x))
                }
            }
            None => break,
        }
    }
    b.reverse();
    f.extend(b);
    f
}

pub fn observe<T: Elem>(c: &mut CB<T>, oob: bool) -> Obs {
    let mut o = Obs { oob: 1, ..Default::default() };
    let r = guarded(|| {
        o.cap = clampi(c.capacity());
        o.len = clampi(c.len());
        o.em = c.is_empty() as i64;
        o.fu = c.is_full() as i64;
    });
    if r.is_err() {
        o.vw = vec![vec![-99]];
        return o;
    }
    let len = c.len();
    if oob {
        let cap = c.capacity();
        for i in [len, len + 1, cap, cap + 1, cap + len, usize::MAX / 2 + 1, usize::MAX] {
            if i < len {
                continue;
            }
            if guarded(|| {
                let _ = &c[i];
            })
            .is_ok()
                || guarded(|| {
                    let _ = &mut c[i];
                })
                .is_ok()
                || guarded(|| c.swap(i, 0)).is_ok()
                || guarded(|| c.swap(0, i)).is_ok()
                || guarded(|| c.swap(i, i)).is_ok()
            {
                o.oob = 0
            }
        }
    }
    let n = len.max(c.capacity()).min(1_000_000);
    fn add(v: Vec<i64>, views: &mut Vec<Vec<i64>>) {
        if !views.contains(&v) {
            views.push(v)
        }
    }
    let mut vw: Vec<Vec<i64>> = vec![];
    let mut u = vec![];
    let r = guarded(|| {
        let seq: Vec<i64> = lim(c.iter(), n).iter().map(|e| e.id()).collect();
        add(seq.clone(), &mut vw);
        u = lim(c.iter(), n).iter().map(|e| e.uid()).collect();
        let mut v: Vec<i64> = lim(c.iter().rev(), n).iter().map(|e| e.id()).collect();
        v.reverse();
        add(v, &mut vw);
        add((0..len.min(n)).map(|i| c[i].id()).collect(), &mut vw);
        {
            let (a, b) = c.slices();
            add(a.iter().chain(b).take(n + 40).map(|e| e.id()).collect(), &mut vw);
        }
        add(lim(&*c, n).iter().map(|e| e.id()).collect(), &mut vw);
        add(alternate(c.iter(), n, |e| e.id()), &mut vw);
        // single-element views
        let fl = (c.first().map(|e| e.id()), c.last().map(|e| e.id()));
        if fl != (seq.first().cloned(), seq.last().cloned()) {
            add(vec![-97, fl.0.unwrap_or(-1), fl.1.unwrap_or(-1)], &mut vw);
        }
        let flm = (c.first_mut().map(|e| e.id()), c.last_mut().map(|e| e.id()));
        if flm != (seq.first().cloned(), seq.last().cloned()) {
            add(vec![-96, flm.0.unwrap_or(-1), flm.1.unwrap_or(-1)], &mut vw);
        }
        add(lim(c.iter_mut(), n).iter().map(|e| e.id()).collect(), &mut vw);
        let mut v: Vec<i64> = lim(c.iter_mut().rev(), n).iter().map(|e| e.id()).collect();
        v.reverse();
        add(v, &mut vw);
        add(alternate(c.iter_mut(), n, |e| e.id()), &mut vw);
        {
            let (a, b) = c.slices_mut();
            add(a.iter().chain(b.iter()).take(n + 40).map(|e| e.id()).collect(), &mut vw);
        }
        add(lim(&mut *c, n).iter().map(|e| e.id()).collect(), &mut vw);
        add(
            (0..len.min(n))
                .map(|i| {
                    let e = &mut c[i];
                    e.id()
                })
                .collect(),
            &mut vw,
        );
        // the iterators' own shortcuts
        let k = seq.len();
        let (lo, hi) = c.iter().size_hint();
        let (lo2, hi2) = c.iter_mut().size_hint();
        if lo > k || hi.is_some_and(|h| h < k) || lo2 > k || hi2.is_some_and(|h| h < k) {
            add(vec![-95], &mut vw);
        }
        if c.iter().count() != k || c.iter_mut().count() != k {
            add(vec![-94], &mut vw);
        }
        if c.iter().last().map(|e| e.id()) != seq.last().cloned() {
            add(vec![-93], &mut vw);
        }
        let step = 1 + k / 8;
        for i in (0..=k).step_by(step) {
            let w = seq.get(i).cloned();
            if c.iter().nth(i).map(|e| e.id()) != w || c.iter_mut().nth(i).map(|e| e.id()) != w {
                add(vec![-92, i as i64], &mut vw);
            }
            let mut it = c.iter();
            if i < k && it.nth(i).is_some() && it.next().map(|e| e.id()) != seq.get(i + 1).cloned() {
                add(vec![-91, i as i64], &mut vw);
            }
        }
        if c.iter().fold(0, |a: i64, e| a.wrapping_mul(31).wrapping_add(e.id())) != seq.iter().fold(0, |a: i64, e| a.wrapping_mul(31).wrapping_add(*e)) {
            add(vec![-90], &mut vw);
        }
    });
    if r.is_err() {
        add(vec![-99], &mut vw);
    }
    if !u.is_empty() && u.iter().all(|x| *x == 0) {
        u.clear();
    }
    o.vw = vw;
    o.u = u;
    o
}

/// A source iterator: calls back into "user code" for every item.
struct Src<I>(I);
impl<I: Iterator> Iterator for Src<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        callback();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

pub struct Res<T> {
    pub r: Result<Vec<T>, String>,
    pub flags: Vec<i64>,
    pub temps: Vec<T>,
    pub other: Option<CB<T>>,
    pub made: Vec<i64>,
}

/// A buffer holding xs, `off` steps rotated, with `extra` free places.
fn build<T: Elem>(xs: Vec<T>, off: usize, extra: usize) -> CB<T> {
    let n = xs.len() + extra;
    let mut c = CB::new(n);
    if n > 0 {
        for _ in 0..off {
            c.push_back(T::make(0));
            c.pop_front();
        }
    }
    for x in xs {
        c.push_back(x);
    }
    c
}

fn write<T: Elem>(c: &mut CB<T>, i: usize, via: i64, e: T) {
    let len = c.len();
    match via {
        1 if i == 0 && len > 0 => *c.first_mut().unwrap() = e,
        2 if i + 1 == len => *c.last_mut().unwrap() = e,
        3 if i < len => *c.iter_mut().nth(i).unwrap() = e,
        4 if i < len => {
            let (a, b) = c.slices_mut();
            if i < a.len() {
                a[i] = e
            } else {
                b[i - a.len()] = e
            }
        }
        5 if i < len => c.linearize()[i] = e,
        6 if i < len => *c.iter_mut().rev().nth(len - 1 - i).unwrap() = e,
        7 if i < len => {
            let mut e = Some(e);
            for (k, y) in (&mut *c).into_iter().enumerate() {
                if k == i {
                    if let Some(e) = e.take() {
                        *y = e;
                    }
                }
            }
        }
        _ => c[i] = e,
    }
}

/// Performs one operation; the n-th callback into user code panics if fault = n > 0.
pub fn perform<T: Elem>(regs: &mut [CB<T>], o: &Op, fault: i64) -> (Res<T>, i64) {
    let xs: Vec<T> = o.x.iter().map(|i| T::make(*i)).collect();
    let made = xs.iter().map(|e| e.uid()).collect();
    let mut temps: Vec<T> = vec![];
    let mut other: Option<CB<T>> = None;
    let mut flags: Vec<i64> = vec![];
    let au = |i: usize| o.a[i] as usize;
    let name = o.n.as_str();
    // prepare what must outlive the call
    let mut xs = Some(xs);
    match (name, o.v) {
        ("extend", 4) | ("extend", 11..=13) | ("from_iter", 2) | ("from_iter", 3) | ("from_iter", 7) | ("cmps", _) => temps = xs.take().unwrap(),
        ("extend", 5) => other = Some(build(xs.take().unwrap(), 2, 1)),
        ("append", _) => other = Some(build(xs.take().unwrap(), au(0), au(1))),
        _ => {}
    }
    let xs = xs.unwrap_or_default();
    let (temps_r, other_r, flags_r) = (&temps, &mut other, &mut flags);
    arm(fault);
    let r = guarded(|| {
        let mut out: Vec<T> = vec![];
        if name == "move" {
            let (a, b) = two(regs, o.r, o.q);
            a.append(b);
            return out;
        }
        if name == "clone_to" {
            let (a, b) = two(regs, o.r, o.q);
            if o.v == 0 {
                *b = T::clone_cb(a)
            } else {
                T::clone_from_cb(b, a)
            }
            return out;
        }
        if name == "cmp" {
            *flags_r = T::compare(&regs[o.r], &regs[o.q]).expect("TOOL: no order");
            return out;
        }
        let c = &mut regs[o.r];
        let mut xs = xs;
        match name {
            "push_back" => c.push_back(xs.pop().unwrap()),
            "push_front" => c.push_front(xs.pop().unwrap()),
            "pop_back" => out.extend(c.pop_back()),
            "pop_front" => out.extend(c.pop_front()),
            "clear" => c.clear(),
            "resize" => c.resize(au(0)),
            "swap" => c.swap(au(0), au(1)),
            "reverse" => c.reverse(),
            "linearize" => {
                let s: Vec<i64> = c.linearize().iter().map(|e| e.id()).collect();
                *flags_r = s;
                // now the whole content must be the first slice
                let (a, b) = (c.slices().0.len(), c.slices().1.len());
                let (a2, b2) = {
                    let (a2, b2) = c.slices_mut();
                    (a2.len(), b2.len())
                };
                if a != c.len() || b != 0 || a2 != c.len() || b2 != 0 {
                    flags_r.push(-98);
                }
            }
            "write" => write(c, au(0), o.a[1], xs.pop().unwrap()),
            "extend" => {
                match o.v {
                    0 => c.extend(xs),
                    1 => c.extend(Src(loose(xs.into_iter(), 1))),
                    2 => {
                        let b = build(xs, 1, 2);
                        c.extend(b)
                    }
                    3 => c.extend(Src(loose(xs.into_iter(), 2))),
                    4 => T::extend_ref(c, temps_r, None),
                    5 => T::extend_cb_ref(c, other_r.as_ref().unwrap()),
                    6..=10 => c.extend(Src(loose(xs.into_iter(), [0, 3, 4, 5, 6][o.v - 6]))),
                    11..=13 => T::extend_ref(c, temps_r, Some([1, 3, 4][o.v - 11])),
                    _ => panic!("TOOL: variant"),
                }
            }
            "append" => c.append(other_r.as_mut().unwrap()),
            "drain" => {
                let k = au(0);
                match o.v {
                    1 => out = c.drain().by_ref().take(k).collect(),
                    2 if k >= c.len() => out = lim(c.drain(), k),
                    3 if k >= c.len() => c.drain().for_each(|x| out.push(x)),
                    4 => {
                        let n = c.len();
                        hinted(&mut c.drain(), k, n, &mut out)
                    }
                    _ => {
                        let mut d = c.drain();
                        for _ in 0..k {
                            out.extend(d.next());
                        }
                    }
                }
            }
            "drain_skip" => {
                let (j, k) = (au(0), au(1));
                match o.v {
                    0 => {
                        let mut d = c.drain();
                        for _ in 0..j {
                            d.next();
                        }
                        for _ in 0..k {
                            out.extend(d.next());
                        }
                    }
                    3 if k == 1 && j + 1 == c.len() => out.extend(c.drain().last()),
                    1 | 3 if j > 0 => {
                        let mut d = c.drain();
                        d.nth(j - 1);
                        for _ in 0..k {
                            out.extend(d.next());
                        }
                    }
                    _ => out = c.drain().skip(j).take(k).collect(),
                }
                if k == 0 && o.v == 2 {
                    // skip() is lazy: with nothing to take it skips nothing
                    let mut d = c.drain();
                    for _ in 0..j {
                        d.next();
                    }
                }
            }
            "into_iter" => {
                let k = au(0);
                let old = std::mem::replace(c, CB::new(au(1)));
                match o.v {
                    0 => {
                        let mut it = old.into_iter();
                        for _ in 0..k {
                            out.extend(it.next());
                        }
                    }
                    1 => out = old.into_iter().by_ref().take(k).collect(),
                    2 => {
                        if k > 0 {
                            for x in old {
                                out.push(x);
                                if out.len() == k {
                                    break;
                                }
                            }
                        }
                    }
                    4 => {
                        let n = old.len();
                        hinted(&mut old.into_iter(), k, n, &mut out)
                    }
                    5 if k >= old.len() => old.into_iter().for_each(|x| out.push(x)),
                    5 => {
                        let mut it = old.into_iter();
                        out.extend((0..k).filter_map(|_| it.nth(0)))
                    }
                    _ => out = old.into_iter().take(k).collect(),
                }
            }
            "renew" => *c = if o.v == 0 { CB::new(au(0)) } else { CB::with_capacity(au(0)) },
            "from_vec" => {
                if o.v == 1 {
                    xs.reserve(2 * xs.len() + 3);
                } else {
                    xs.shrink_to_fit();
                }
                *c = CB::from(xs)
            }
            "from_iter" => {
                *c = match o.v {
                    0 => CB::from_iter(xs),
                    1 => Src(loose(xs.into_iter(), 1)).collect(),
                    2 => T::from_ref(temps_r, None),
                    3 => T::from_ref(temps_r, Some(1)),
                    4 => CB::from_iter(Src(loose(xs.into_iter(), 4))),
                    5 => Src(loose(xs.into_iter(), 0)).collect(),
                    6 => Src(loose(xs.into_iter(), 2)).collect(),
                    _ => T::from_ref(temps_r, Some(4)),
                }
            }
            "reclone" => {
                if o.v == 0 {
                    *c = T::clone_cb(c)
                } else {
                    let mut d: CB<T> = CB::new((c.capacity() + 1) / 2);
                    d.push_back(T::make(0));
                    T::clone_from_cb(&mut d, c);
                    *c = d
                }
            }
            "clone_away" => {
                let mut d = T::clone_cb(c);
                *flags_r = lim(d.iter(), c.len()).iter().map(|e| e.id()).collect();
                if d.capacity() != c.capacity() {
                    flags_r.push(-98);
                }
                d.push_back(T::make(1));
                d.push_front(T::make(2));
                d.reverse();
                for y in d.iter_mut() {
                    *y = T::make(3);
                }
                d.pop_back();
                d.linearize();
            }
            "cmps" => *flags_r = T::compare_slice(c, temps_r).expect("TOOL: no eq"),
            "leak_drain" => {
                let mut d = c.drain();
                for _ in 0..au(0) {
                    out.extend(d.next());
                }
                std::mem::forget(d);
            }
            "leak_into_iter" => {
                let mut it = std::mem::replace(c, CB::new(au(1))).into_iter();
                for _ in 0..au(0) {
                    out.extend(it.next());
                }
                std::mem::forget(it);
            }
            _ => panic!("TOOL: operation {}", name),
        }
        out
    });
    let calls = disarm();
    (Res { r, flags, temps, other, made }, calls)
}

fn two<X>(v: &mut [X], i: usize, j: usize) -> (&mut X, &mut X) {
    assert!(i != j, "TOOL: same register");
    if i < j {
        let (a, b) = v.split_at_mut(j);
        (&mut a[i], &mut b[0])
    } else {
        let (a, b) = v.split_at_mut(i);
        (&mut b[0], &mut a[j])
    }
}

fn norm_op<T: Elem>(o: &Op) -> Op {
    let mut o = o.clone();
    for x in o.x.iter_mut() {
        *x = T::norm(*x)
    }
    o
}

/// Everything one operation did, as plain data.
pub struct Done {
    pub res: Vec<i64>,
    pub ru: Vec<i64>,
    pub tu: Vec<i64>,
    pub p: i64,
    pub pm: String,
    pub ot: Vec<i64>,
    pub mk: Vec<i64>,
    pub xu: Vec<i64>,
    pub cl: Vec<(i64, i64)>,
    pub dr: Vec<i64>,
    pub d2: Vec<i64>,
    pub bad: i64,
    pub calls: i64,
    pub live: i64,
    pub post: Vec<Obs>,
}

pub fn step<T: Elem>(regs: &mut [CB<T>], o: &Op, fault: i64, oob: bool) -> Done {
    ledger_take();
    let (res, calls) = perform::<T>(regs, o, fault);
    let (mk, cl, dr, bad) = ledger_take();
    let mut d = Done { res: res.flags.clone(), ru: vec![], tu: vec![], p: 0, pm: String::new(), ot: vec![], mk, xu: res.made, cl, dr, d2: vec![], bad, calls, live: UNCOUNTED, post: vec![] };
    if T::NAME != "tracked" {
        d.xu.clear();
    }
    let mut hold = vec![];
    match res.r {
        Ok(v) => {
            d.res.extend(v.iter().map(|e| e.id()));
            d.ru = v.iter().map(|e| e.uid()).filter(|u| *u != 0).collect();
            hold = v;
        }
        Err(m) => {
            d.p = if m == "injected" { 2 } else { 1 };
            d.pm = m;
        }
    }
    d.tu = res.temps.iter().map(|e| e.uid()).filter(|u| *u != 0).collect();
    if let Some(mut b) = res.other {
        if o.n == "append" {
            d.ot = vec![clampi(b.capacity()), clampi(b.len())];
        }
        let ob = observe(&mut b, false);
        d.tu.extend(ob.u);
        if guarded(|| drop(b)).is_err() {
            d.bad += 1
        }
    }
    d.post = regs.iter_mut().map(|c| observe(c, oob)).collect();
    drop(hold);
    drop(res.temps);
    let (_, _, d2, b2) = ledger_take();
    d.d2 = d2;
    d.bad += b2;
    d.live = alive::<T>();
    d
}

impl Done {
    fn json(&self, o: &Op) -> J {
        obj(vec![
            ("e", s("op")),
            ("n", s(&o.n)),
            ("r", J::I(o.r as i64 + 1)),
            ("q", J::I(o.q as i64 + 1)),
            ("a", ia(o.a.iter().cloned())),
            ("x", ia(o.x.iter().cloned())),
            ("v", J::I(o.v as i64)),
            ("res", ia(self.res.iter().cloned())),
            ("p", J::I(self.p)),
            ("pm", s(&self.pm)),
            ("ot", ia(self.ot.iter().cloned())),
            ("xu", ia(self.xu.iter().cloned())),
            ("mk", ia(self.mk.iter().cloned())),
            ("cl", J::A(self.cl.iter().map(|(a, b)| ia([*a, *b])).collect())),
            ("dr", ia(self.dr.iter().cloned())),
            ("d2", ia(self.d2.iter().cloned())),
            ("bad", J::I(self.bad)),
            ("live", J::I(self.live)),
            ("ru", ia(self.ru.iter().cloned())),
            ("tu", ia(self.tu.iter().cloned())),
            ("post", J::A(self.post.iter().map(|p| p.json()).collect())),
        ])
    }
}

// ---------------------------------------------------------------------------------------
// Replay of the transitions of Ring.tla

#[derive(Clone)]
pub struct Edge {
    pub s: Vec<i64>,
    pub sc: Vec<i64>,
    pub d: Vec<i64>,
    pub dc: Vec<i64>,
    pub op: Op,
    pub res: Vec<i64>,
    pub p: i64,
}
pub struct Graph {
    pub edges: Vec<Edge>,
    /// how to reach a layout: initial capacity and a sequence of edges
    pub path: HashMap<Vec<i64>, (i64, Vec<usize>)>,
    pub content: HashMap<Vec<i64>, Vec<i64>>,
    pub order: Vec<Vec<i64>>,
}
pub fn read_graph(path: &str) -> Graph {
    let text = std::fs::read_to_string(path).expect("TOOL: graph file");
    let mut edges = vec![];
    for l in text.lines() {
        let j = parse(l);
        if j.get("k").str() != "T" {
            continue;
        }
        edges.push(Edge {
            s: j.get("s").ints(),
            sc: j.get("sc").ints(),
            d: j.get("d").ints(),
            dc: j.get("dc").ints(),
            op: Op { n: j.get("n").str().into(), r: 0, q: 0, a: j.get("a").ints(), x: j.get("x").ints(), v: 0 },
            res: j.get("res").ints(),
            p: j.get("p").int(),
        });
    }
    let mut from: HashMap<Vec<i64>, Vec<usize>> = HashMap::new();
    let mut content = HashMap::new();
    for (i, e) in edges.iter().enumerate() {
        from.entry(e.s.clone()).or_default().push(i);
        content.insert(e.s.clone(), e.sc.clone());
    }
    let mut path: HashMap<Vec<i64>, (i64, Vec<usize>)> = HashMap::new();
    let mut q = VecDeque::new();
    let mut order = vec![];
    let mut starts: Vec<_> = from.keys().filter(|k| k[1] == 0 && k[2] == 0).cloned().collect();
    starts.sort();
    for s in starts {
        path.insert(s.clone(), (s[0], vec![]));
        q.push_back(s);
    }
    while let Some(s) = q.pop_front() {
        order.push(s.clone());
        for i in from.get(&s).cloned().unwrap_or_default() {
            let e = &edges[i];
            if needs_clone(&e.op.n) {
                continue;
            }
            if !path.contains_key(&e.d) && content.get(&e.d) == Some(&e.dc) {
                let mut p = path[&s].clone();
                p.1.push(i);
                path.insert(e.d.clone(), p);
                q.push_back(e.d.clone());
            }
        }
    }
    for k in from.keys() {
        assert!(path.contains_key(k), "TOOL: unreachable layout {:?}", k);
    }
    Graph { edges, path, content, order }
}

fn walk<T: Elem>(g: &Graph, s: &[i64]) -> Result<CB<T>, String> {
    let (cap, p) = &g.path[s];
    let mut regs = vec![CB::<T>::new(*cap as usize)];
    for i in p {
        let (r, _) = perform::<T>(&mut regs, &g.edges[*i].op, 0);
        if let Err(m) = r.r {
            if g.edges[*i].p == 0 {
                return Err(format!("{} panicked: {}", g.edges[*i].op.text(), m));
            }
        }
    }
    Ok(regs.pop().unwrap())
}

pub struct Report {
    pub fails: Vec<String>,
    pub cases: u64,
    pub nontrivial: u64,
    pub samples: Vec<String>,
}
impl Report {
    pub fn new() -> Report {
        Report { fails: vec![], cases: 0, nontrivial: 0, samples: vec![] }
    }
    pub fn fail(&mut self, t: String) {
        if self.fails.len() < 20 {
            self.fails.push(t)
        }
    }
    pub fn finish(&self) -> i32 {
        for f in &self.fails {
            println!("FAIL {}", f);
        }
        for f in &self.samples {
            println!("SAMPLE {}", f);
        }
        println!("STATS cases={} nontrivial={}", self.cases, self.nontrivial);
        if self.fails.is_empty() {
            0
        } else {
            1
        }
    }
}

fn has(aspects: &str, a: &str) -> bool {
    aspects.split(',').any(|x| x == a)
}

/// One transition on the real type, from a fresh object.
fn replay_one<T: Elem>(g: &Graph, e: &Edge, v: usize, aspects: &str, rep: &mut Report) {
    let mut op = norm_op::<T>(&e.op);
    op.v = v;
    let nm = |v: &Vec<i64>| -> Vec<i64> { v.iter().map(|i| T::norm(*i)).collect() };
    let what = format!("type={} layout={:?} content={:?} path={:?} op={}", T::NAME, e.s, nm(&e.sc), (g.path[&e.s].0, g.path[&e.s].1.iter().map(|i| g.edges[*i].op.text()).collect::<Vec<_>>()), op.text());
    journal(&what);
    ledger_reset();
    let c = match walk::<T>(g, &e.s) {
        Ok(c) => c,
        Err(m) => {
            if has(aspects, "value") {
                rep.fail(format!("{}: on the way: {}", what, m));
            }
            return;
        }
    };
    let mut regs = vec![c];
    let pre = observe(&mut regs[0], false);
    if has(aspects, "value") && (pre.vw.iter().all(|w| *w != nm(&e.sc)) || pre.cap != e.s[0]) {
        rep.fail(format!("{}: the buffer reached is {:?}", what, pre));
        return;
    }
    let d = step::<T>(&mut regs, &op, 0, has(aspects, "oob"));
    rep.cases += 1;
    if !e.sc.is_empty() {
        rep.nontrivial += 1;
    }
    let post = &d.post[0];
    let want = nm(&e.dc);
    let ctx = |m: &str| format!("{}: {} (expected content={:?} cap={} res={:?} p={}; got {:?} res={:?} p={} {} ot={:?})", what, m, want, e.d[0], nm(&e.res), e.p, post, d.res, d.p, d.pm, d.ot);
    if has(aspects, "value") {
        if d.p != e.p {
            rep.fail(ctx("panic behaviour"));
        } else if d.p == 0 && d.res != nm(&e.res) {
            rep.fail(ctx("result"));
        } else if !post.vw.contains(&want) || post.len != want.len() as i64 || post.cap != e.d[0] {
            rep.fail(ctx("content"));
        } else if post.em != (want.is_empty() as i64) || post.fu != (want.len() as i64 == e.d[0]) as i64 {
            rep.fail(ctx("empty/full"));
        } else if op.n == "append" && d.ot != vec![e.op.x.len() as i64 + e.op.a[1], 0] {
            rep.fail(ctx("source of append"));
        }
    }
    if has(aspects, "views") && (post.vw.len() != 1 || post.vw[0].len() as i64 != post.len || post.oob != 1) {
        rep.fail(ctx("views"));
    }
    if has(aspects, "owner") && T::NAME == "tracked" {
        if let Some(m) = owner_fault(&pre, &d) {
            rep.fail(ctx(&m));
        }
        // and nothing is left when the buffer goes
        let live: HashSet<i64> = post.u.iter().cloned().collect();
        drop(regs);
        let (_, _, dr, bad) = ledger_take();
        let dd: HashSet<i64> = dr.iter().cloned().collect();
        if bad != 0 || dd != live || dd.len() != dr.len() {
            rep.fail(format!("{}: dropping the buffer destroyed {:?} (garbage {}), stored were {:?}", what, dr, bad, live));
        }
    }
    if has(aspects, "owner") && d.live != UNCOUNTED && d.live != post.len {
        rep.fail(ctx(&format!("{} elements exist", d.live)));
    }
    if rep.samples.len() < 2 && e.sc.len() > 1 {
        rep.samples.push(format!("{} -> {:?}", what, post.vw));
    }
}

fn owner_fault(pre: &Obs, d: &Done) -> Option<String> {
    let mut live: HashSet<i64> = pre.u.iter().cloned().collect();
    live.extend(d.mk.iter());
    live.extend(d.cl.iter().map(|c| c.1));
    if d.bad != 0 {
        return Some("garbage cloned or dropped".into());
    }
    for u in &d.dr {
        if !live.remove(u) {
            return Some(format!("element {} dropped twice or while not owned", u));
        }
    }
    let mut now: Vec<i64> = vec![];
    for p in &d.post {
        now.extend(&p.u);
    }
    now.extend(&d.ru);
    now.extend(&d.tu);
    let ns: HashSet<i64> = now.iter().cloned().collect();
    if ns.len() != now.len() {
        return Some(format!("an element is in two places: {:?}", now));
    }
    if ns != live {
        return Some(format!("alive are {:?} but stored or handed out {:?}", live, now));
    }
    None
}

fn wanted(focus: &str, n: &str) -> bool {
    focus == "all" || focus.split(',').any(|f| f == n)
}

fn replay_type<T: Elem>(g: &Graph, focus: &str, aspects: &str, rep: &mut Report) {
    for e in &g.edges {
        if !wanted(focus, &e.op.n) || (needs_clone(&e.op.n) && !T::CLONES) {
            continue;
        }
        for v in variants::<T>(&e.op.n) {
            replay_one::<T>(g, e, v, aspects, rep);
        }
    }
}

// ---------------------------------------------------------------------------------------
// Recording histories for TraceCB.tla

pub struct Sink {
    files: Vec<std::io::BufWriter<std::fs::File>>,
    cur: usize,
    pub events: u64,
    pub histories: u64,
}
impl Sink {
    pub fn new(dir: &str, shards: usize) -> Sink {
        std::fs::create_dir_all(dir).expect("TOOL: out dir");
        Sink {
            files: (0..shards).map(|i| std::io::BufWriter::with_capacity(1 << 16, std::fs::File::create(format!("{}/t{}.ndjson", dir, i)).expect("TOOL: trace file"))).collect(),
            cur: 0,
            events: 0,
            histories: 0,
        }
    }
    pub fn emit(&mut self, j: &J) {
        use std::io::Write;
        let mut t = j.text();
        t.push('\n');
        self.files[self.cur].write_all(t.as_bytes()).expect("TOOL: write");
        self.events += 1;
    }
    /// histories go round robin to the shards
    pub fn history(&mut self) {
        self.cur = (self.cur + 1) % self.files.len();
        self.histories += 1;
    }
    pub fn flush(&mut self) {
        use std::io::Write;
        for f in &mut self.files {
            f.flush().expect("TOOL: flush")
        }
    }
}

fn start_event<T: Elem>(sink: &mut Sink, regs: &mut [CB<T>], oob: bool, what: &str) -> Vec<Obs> {
    let post: Vec<Obs> = regs.iter_mut().map(|c| observe(c, oob)).collect();
    sink.emit(&obj(vec![("e", s("start")), ("t", s(T::NAME)), ("w", s(what)), ("post", J::A(post.iter().map(|p| p.json()).collect()))]));
    post
}
fn end_event<T: Elem>(sink: &mut Sink, regs: Vec<CB<T>>) {
    ledger_take();
    journal(&format!("type={} dropping the buffers", T::NAME));
    let r = guarded(|| drop(regs));
    let (_, _, dr, bad) = ledger_take();
    sink.emit(&obj(vec![("e", s("end")), ("dr", ia(dr)), ("bad", J::I(bad)), ("live", J::I(alive::<T>())), ("p", J::I(r.is_err() as i64))]));
}

const ALL: [&str; 24] = [
    "push_back", "push_front", "pop_back", "pop_front", "clear", "resize", "swap", "reverse", "linearize", "write", "extend", "append", "drain", "drain_skip", "into_iter", "renew", "from_vec",
    "from_iter", "reclone", "clone_away", "move", "clone_to", "cmp", "cmps",
];

struct Gen {
    ids: i64,
    capmax: usize,
    /// draw element values from few (for comparisons) or all distinct
    few: bool,
    nan: bool,
}
impl Gen {
    fn id(&mut self, rng: &mut Rng) -> i64 {
        if self.few {
            if self.nan && rng.chance(1, 6) {
                return -1;
            }
            return rng.range(0, 3);
        }
        self.ids += 1;
        self.ids
    }
    fn idv(&mut self, rng: &mut Rng, n: usize) -> Vec<i64> {
        (0..n).map(|_| self.id(rng)).collect()
    }
    fn idx(&mut self, rng: &mut Rng, len: usize) -> i64 {
        let i = match rng.below(12) {
            0 => len,
            1 | 2 if len > 0 => len - 1,
            3 => 0,
            _ => {
                if len == 0 {
                    0
                } else {
                    rng.below(len)
                }
            }
        };
        i as i64
    }
    fn op<T: Elem>(&mut self, rng: &mut Rng, n: &str, regs: &[CB<T>]) -> Option<Op> {
        if (needs_clone(n) && !T::CLONES) || ((n == "cmp" || n == "cmps") && !T::ORDERED) {
            return None;
        }
        let r = rng.below(regs.len());
        let (len, cap) = (regs[r].len().min(1 << 17), regs[r].capacity().min(1 << 17));
        let mut q = 0;
        if matches!(n, "move" | "clone_to") || (n == "cmp" && rng.chance(7, 8)) {
            if regs.len() < 2 {
                if n != "cmp" {
                    return None;
                }
                q = r
            } else {
                q = (r + 1 + rng.below(regs.len() - 1)) % regs.len();
            }
        } else if n == "cmp" {
            q = r
        }
        let (mut a, mut x) = (vec![], vec![]);
        match n {
            "push_back" | "push_front" => x = vec![self.id(rng)],
            "resize" => {
                a = vec![match rng.below(6) {
                    0 => len,
                    1 => len + 1,
                    2 => len.saturating_sub(1),
                    3 => cap + 1,
                    _ => rng.below(self.capmax + 2),
                } as i64]
            }
            "swap" => a = vec![self.idx(rng, len), self.idx(rng, len)],
            "write" => {
                a = vec![self.idx(rng, len), rng.range(0, 7)];
                if len > 0 && rng.chance(1, 3) {
                    a = if rng.chance(1, 2) { vec![0, 1] } else { vec![len as i64 - 1, 2] }
                }
                x = vec![self.id(rng)];
            }
            "extend" => {
                let k = rng.below(cap + 3);
                x = self.idv(rng, k)
            }
            "append" => {
                let k = rng.below(cap + 3);
                x = self.idv(rng, k);
                a = vec![rng.range(0, 3), rng.range(0, 2)]
            }
            "drain" | "leak_drain" => a = vec![rng.below(len + 2) as i64],
            "drain_skip" => a = vec![rng.below(len + 1) as i64 + 1, rng.below(len + 1) as i64],
            "into_iter" | "leak_into_iter" => a = vec![rng.below(len + 2) as i64, rng.below(self.capmax + 1) as i64],
            "renew" => a = vec![rng.below(self.capmax + 1) as i64],
            "from_vec" | "from_iter" | "cmps" => {
                let k = rng.below(self.capmax + 1);
                x = self.idv(rng, k);
                if n == "cmps" && rng.chance(3, 4) {
                    // something close to the content
                    x = regs[r].iter().take(1 << 17).map(|e| e.id()).collect();
                    match rng.below(4) {
                        0 => {
                            x.pop();
                        }
                        1 => x.push(1),
                        2 if !x.is_empty() => {
                            let i = rng.below(x.len());
                            x[i] = self.id(rng)
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        let v = *rng.pick(&variants::<T>(n));
        let o = Op { n: n.into(), r, q, a, x, v };
        Some(norm_op::<T>(&o))
    }
}

fn random_history<T: Elem>(rng: &mut Rng, sink: &mut Sink, focus: &[String], len: usize, big: bool, oob: bool, few: bool, huge: usize) {
    ledger_reset();
    let capmax = if huge > 0 { (*rng.pick(&[255, 256, 257, 1000, 4096, 16384, 32768, 65535, 65536, 65537, 70001])).min(huge) } else if big { 40 + rng.below(260) } else { *rng.pick(&[1, 2, 3, 4, 5, 6, 8, 12]) };
    let mut g = Gen { ids: 0, capmax, few, nan: T::NAME == "f64" };
    let huge = huge > 0;
    let nregs = if huge { 1 + few as usize } else if few { 2 + rng.below(2) } else { *rng.pick(&[1, 1, 2, 3]) };
    sink.history();
    journal(&format!("type={} creating buffers", T::NAME));
    let caps: Vec<usize> = (0..nregs).map(|_| if big || huge { capmax } else { rng.below(capmax + 1) }).collect();
    let mut regs: Vec<CB<T>> = caps.iter().map(|c| CB::new(*c)).collect();
    let post = start_event(sink, &mut regs, oob, &format!("{:?}", caps));
    if post.iter().zip(&caps).any(|(p, c)| p.cap != *c as i64) {
        // a wrong capacity is reported by the specification through this extra event
        sink.emit(&obj(vec![("e", s("newcap")), ("want", ia(caps.iter().map(|c| *c as i64))), ("got", ia(post.iter().map(|p| p.cap)))]));
    }
    let mut hist: Vec<String> = vec![];
    // a phase of filling dominates some histories, emptying others
    for i in 0..len {
        let n: String = match if huge && i < 2 { 21 } else { rng.below(20) } {
            21 => "extend".into(),
            0..=10 => rng.pick(focus).clone(),
            11..=13 => "push_back".into(),
            14 | 15 => "push_front".into(),
            16 => "pop_front".into(),
            17 => if i % 3 == 0 { "pop_back".into() } else { "extend".into() },
            18 => if rng.chance(1, 3) { (*rng.pick(&ALL)).into() } else { "push_back".into() },
            _ => "pop_front".into(),
        };
        let o = match g.op::<T>(rng, &n, &regs) {
            Some(o) => o,
            None => continue,
        };
        hist.push(o.text());
        journal(&format!("type={} caps={:?} history={:?}", T::NAME, caps, &hist[hist.len().saturating_sub(40)..]));
        let d = step::<T>(&mut regs, &o, 0, oob);
        sink.emit(&d.json(&o));
    }
    end_event(sink, regs);
}

/// setup to a layout, one operation (with a fault at every callback in turn), a few healthy operations
fn fault_histories(g: &Graph, rng: &mut Rng, sink: &mut Sink, stride: usize, follow: usize, types: u64) {
    let mut k = rng.below(stride.max(1));
    let mut ops: Vec<(Vec<i64>, Op)> = g.edges.iter().map(|e| (e.s.clone(), e.op.clone())).collect();
    for s in &g.order {
        let len = g.content[s].len() as i64;
        for j in 0..=len + 1 {
            ops.push((s.clone(), Op::new("leak_drain", vec![j], vec![])));
            ops.push((s.clone(), Op::new("leak_into_iter", vec![j, s[0]], vec![])));
        }
    }
    let _ = types;
    for (s, op) in &ops {
        if op.n == "write" || op.n == "swap" {
            continue;
        }
        for v in variants::<Tr>(&op.n) {
            k += 1;
            if k % stride != 0 && !op.n.starts_with("leak") {
                continue;
            }
            let mut n = 1;
            loop {
                let mut o = op.clone();
                o.v = v;
                let hit = fault_history(g, s, &o, n, rng, sink, follow);
                if !hit || n > 40 {
                    break;
                }
                n += 1;
            }
        }
    }
}
fn fault_history(g: &Graph, s: &[i64], op: &Op, n: i64, rng: &mut Rng, sink: &mut Sink, follow: usize) -> bool {
    ledger_reset();
    journal(&format!("type=tracked layout={:?} content={:?} fault at callback {} of {}", s, g.content[s], n, op.text()));
    let c = match walk::<Tr>(g, s) {
        Ok(c) => c,
        Err(_) => return false, // not a matter of faults
    };
    let mut regs = vec![c, CB::new(2)];
    regs[1].push_back(Tr::make(901));
    regs[1].push_back(Tr::make(902));
    regs[1].push_back(Tr::make(903));
    sink.history();
    start_event(sink, &mut regs, false, &format!("layout {:?}", s));
    let d = step::<Tr>(&mut regs, op, n, true);
    sink.emit(&d.json(op));
    let hit = d.p == 2;
    let mut gen = Gen { ids: 1000, capmax: s[0].max(2) as usize + 1, few: false, nan: false };
    let follow_ops = ["push_back", "push_front", "push_back", "pop_front", "pop_back", "resize", "linearize", "extend", "append", "move", "clone_to", "drain", "reverse", "swap", "into_iter", "clear", "cmp", "reclone"];
    for _ in 0..follow {
        let nm = *rng.pick(&follow_ops);
        if let Some(mut o) = gen.op::<Tr>(rng, nm, &regs) {
            if rng.chance(3, 4) && !matches!(nm, "move" | "clone_to" | "cmp") {
                o.r = 0
            }
            journal(&format!("type=tracked layout={:?} content={:?} fault at callback {} of {} then {}", s, g.content[s], n, op.text(), o.text()));
            // sometimes a second fault
            let f = if rng.chance(1, 6) { 1 + rng.below(3) as i64 } else { 0 };
            let d = step::<Tr>(&mut regs, &o, f, false);
            sink.emit(&d.json(&o));
        }
    }
    end_event(sink, regs);
    hit
}

/// Sequence pairs enumerated by the specification, on every layout of both buffers.
fn compare_pairs<T: Elem>(path: &str, rep: &mut Report, nan: bool, slices: bool) {
    let text = std::fs::read_to_string(path).expect("TOOL: pairs");
    for l in text.lines() {
        let j = parse(l);
        if j.get("k").str() != "C" {
            continue;
        }
        let (a, b, want) = (j.get("s").ints(), j.get("t").ints(), j.get("r").ints());
        if !nan && (a.contains(&-1) || b.contains(&-1)) {
            continue;
        }
        let mk = |s: &Vec<i64>, off: usize, extra: usize| build::<T>(s.iter().map(|i| T::make(*i)).collect(), off, extra);
        let (na, nb): (Vec<i64>, Vec<i64>) = (a.iter().map(|i| T::norm(*i)).collect(), b.iter().map(|i| T::norm(*i)).collect());
        if na != a || nb != b {
            continue;
        }
        for ea in 0..2 {
            for oa in 0..(a.len() + ea + 1) {
                let ca = mk(&a, oa, ea);
                for eb in 0..2 {
                    for ob in 0..(b.len() + eb + 1) {
                        let cb = mk(&b, ob, eb);
                        let what = format!("type={} {:?} (rotated {}, free {}) against {:?} (rotated {}, free {})", T::NAME, a, oa, ea, b, ob, eb);
                        journal(&what);
                        let got = guarded(|| T::compare(&ca, &cb).expect("TOOL: no order"));
                        rep.cases += 1;
                        if !a.is_empty() && !b.is_empty() {
                            rep.nontrivial += 1;
                        }
                        if got.as_ref().ok() != Some(&want) {
                            rep.fail(format!("{}: expected {:?} got {:?}", what, want, got));
                        }
                        if rep.samples.len() < 2 && a.len() == 3 && oa > 0 {
                            rep.samples.push(format!("{} -> {:?}", what, want));
                        }
                    }
                }
                if slices {
                    let v: Vec<T> = b.iter().map(|i| T::make(*i)).collect();
                    let what = format!("type={} {:?} (rotated {}, free {}) against slice {:?}", T::NAME, a, oa, ea, b);
                    journal(&what);
                    let got = guarded(|| T::compare_slice(&ca, &v).expect("TOOL: no eq"));
                    rep.cases += 1;
                    if got.as_ref().ok() != Some(&vec![want[0], want[1]]) {
                        rep.fail(format!("{}: expected {:?} got {:?}", what, &want[..2], got));
                    }
                }
            }
        }
    }
}

macro_rules! with_type {
    ($name:expr, $t:ident => $e:expr) => {
        match $name {
            "i32" => { type $t = i32; $e }
            #[cfg(debug_assertions)]
            "i64" => { type $t = i64; $e }
            #[cfg(debug_assertions)]
            "u8" => { type $t = u8; $e }
            #[cfg(debug_assertions)]
            "u128" => { type $t = u128; $e }
            #[cfg(debug_assertions)]
            "bool" => { type $t = bool; $e }
            #[cfg(debug_assertions)]
            "unit" => { type $t = (); $e }
            #[cfg(debug_assertions)]
            "char" => { type $t = char; $e }
            "String" => { type $t = String; $e }
            #[cfg(debug_assertions)]
            "Box" => { type $t = Box<i32>; $e }
            #[cfg(debug_assertions)]
            "Rc" => { type $t = std::rc::Rc<i64>; $e }
            #[cfg(debug_assertions)]
            "OptBox" => { type $t = Option<Box<i64>>; $e }
            #[cfg(debug_assertions)]
            "array" => { type $t = [u64; 5]; $e }
            #[cfg(debug_assertions)]
            "Vec" => { type $t = Vec<u8>; $e }
            #[cfg(debug_assertions)]
            "NonZeroU8" => { type $t = std::num::NonZeroU8; $e }
            #[cfg(debug_assertions)]
            "&str" => { type $t = &'static str; $e }
            #[cfg(debug_assertions)]
            "tuple" => { type $t = (u8, &'static i64); $e }
            "f64" => { type $t = f64; $e }
            #[cfg(debug_assertions)]
            "plain" => { type $t = Plain; $e }
            #[cfg(debug_assertions)]
            "fn" => { type $t = fn() -> i64; $e }
            "tracked" => { type $t = Tr; $e }
            "token" => { type $t = Token; $e }
            o => panic!("TOOL: type {}", o),
        }
    };
}

pub fn main(mode: &str, args: &[String]) -> i32 {
    let focus = arg(args, "--focus").unwrap_or("all".into());
    let aspects = arg(args, "--aspects").unwrap_or("value".into());
    let types: Vec<String> = arg(args, "--types").unwrap_or("i32".into()).split(',').map(|x| x.to_string()).collect();
    match mode {
        "replay" => {
            let g = read_graph(&arg(args, "--graph").expect("TOOL: --graph"));
            let mut rep = Report::new();
            for t in &types {
                with_type!(t.as_str(), T => replay_type::<T>(&g, &focus, &aspects, &mut rep));
            }
            rep.finish()
        }
        "compare" => {
            let mut rep = Report::new();
            let p = arg(args, "--pairs").expect("TOOL: --pairs");
            for t in &types {
                with_type!(t.as_str(), T => compare_pairs::<T>(&p, &mut rep, t == "f64", T::ORDERED));
            }
            rep.finish()
        }
        "record" => {
            let mut sink = Sink::new(&arg(args, "--out").expect("TOOL: --out"), arg_u(args, "--shards", 4) as usize);
            let mut rng = Rng::new(arg_u(args, "--seed", 1), 11);
            let foc: Vec<String> = if focus == "all" { ALL.iter().map(|x| x.to_string()).collect() } else { focus.split(',').map(|x| x.to_string()).collect() };
            let n = arg_u(args, "--histories", 10);
            let len = arg_u(args, "--len", 40) as usize;
            let big = arg_u(args, "--big", 0);
            let few = arg_u(args, "--few", 0) == 1;
            let (huge, hugecap) = (arg_u(args, "--huge", 0), arg_u(args, "--hugecap", 80000) as usize);
            let oob = has(&aspects, "oob");
            for t in &types {
                for h in 0..n {
                    let is_big = h < big;
                    with_type!(t.as_str(), T => random_history::<T>(&mut rng, &mut sink, &foc, if is_big { len / 2 } else { len }, is_big, oob, few, 0));
                }
                for _ in 0..huge {
                    with_type!(t.as_str(), T => random_history::<T>(&mut rng, &mut sink, &foc, 12, false, oob, few, hugecap));
                }
            }
            sink.flush();
            println!("STATS histories={} events={}", sink.histories, sink.events);
            0
        }
        "faults" => {
            let g = read_graph(&arg(args, "--graph").expect("TOOL: --graph"));
            let mut sink = Sink::new(&arg(args, "--out").expect("TOOL: --out"), arg_u(args, "--shards", 4) as usize);
            let mut rng = Rng::new(arg_u(args, "--seed", 1), 12);
            fault_histories(&g, &mut rng, &mut sink, arg_u(args, "--stride", 1) as usize, arg_u(args, "--follow", 4) as usize, 0);
            sink.flush();
            println!("STATS histories={} events={}", sink.histories, sink.events);
            0
        }
        _ => panic!("TOOL: mode {}", mode),
    }
}
