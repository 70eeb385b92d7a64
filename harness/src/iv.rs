//! Intervals: replay of MCInterval's and MCIntervalMath's rows on many types, and recording of
//! histories for TraceInterval.
use crate::cb::{Report, Sink};
use crate::elems::{arm, callback, disarm, fired};
use crate::json::*;
use crate::util::*;
use advanced_collections::interval::{Interval, LowerBound, UpperBound};
use std::cmp::{Ordering, Reverse};
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::net::Ipv4Addr;
use std::num::Wrapping;
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use std::time::Duration;

/// [] or [lower, lower closed, upper, upper closed]
type Q = Vec<i64>;

pub trait Val: Ord + Clone + Debug + Hash + 'static {
    const NAME: &'static str;
    /// at least n distinct values in ascending order
    fn pool(rng: &mut Rng, n: usize) -> Vec<Self>;
    fn disp(_: &Interval<Self>) -> Option<String> {
        None
    }
    fn show(&self) -> String {
        String::new()
    }
    fn copy(i: &Interval<Self>) -> Interval<Self> {
        i.clone()
    }
    /// values of recorded histories: order preserving
    fn mk(i: i64) -> Self;
    fn un(&self) -> i64;
    fn arith(_: &Interval<Self>, _n: &str, _c: i64, _v: usize) -> Option<Interval<Self>> {
        None
    }
    const ARITH: bool = false;
}
macro_rules! display_and_copy {
    () => {
        display_only!();
        fn copy(i: &Interval<Self>) -> Interval<Self> {
            let j = *i;
            let k = j;
            assert!(j == k, "copies differ");
            k
        }
    };
}
macro_rules! display_only {
    () => {
        fn disp(i: &Interval<Self>) -> Option<String> {
            Some(format!("{}", i))
        }
        fn show(&self) -> String {
            format!("{}", self)
        }
    };
}
fn choose<T: Ord + Clone>(rng: &mut Rng, n: usize, mut special: Vec<T>, mut any: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    let mode = rng.below(3);
    while v.len() < n {
        let x = if mode == 0 || (mode == 1 && rng.chance(1, 2)) {
            if special.is_empty() {
                any(rng)
            } else {
                let i = rng.below(special.len());
                special.swap_remove(i)
            }
        } else {
            any(rng)
        };
        if !v.contains(&x) {
            v.push(x)
        }
    }
    v.sort();
    v
}
/// all four operations and negation
fn num_arith<T>(i: &Interval<T>, n: &str, c: T, v: usize) -> Option<Interval<T>>
where
    T: Ord + Clone + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Div<Output = T> + AddAssign + SubAssign + MulAssign + DivAssign + Neg<Output = T>,
{
    Some(if n == "neg" {
        -i.clone()
    } else if v == 0 {
        by_val(i.clone(), n, c)
    } else {
        let mut j = i.clone();
        in_place(&mut j, n, c);
        j
    })
}
fn by_val<T, U>(i: Interval<T>, n: &str, c: U) -> Interval<T>
where
    T: Ord + Add<U, Output = T> + Sub<U, Output = T> + Mul<U, Output = T> + Div<U, Output = T>,
    U: Clone,
{
    match n {
        "add" => i + c,
        "sub" => i - c,
        "mul" => i * c,
        _ => i / c,
    }
}
fn in_place<T>(i: &mut Interval<T>, n: &str, c: T)
where
    T: Ord + Clone + AddAssign + SubAssign + MulAssign + DivAssign,
{
    match n {
        "add" => *i += c,
        "sub" => *i -= c,
        "mul" => *i *= c,
        _ => *i /= c,
    }
}
impl Val for i32 {
    const NAME: &'static str = "i32";
    const ARITH: bool = true;
    fn pool(rng: &mut Rng, n: usize) -> Vec<Self> {
        choose(rng, n, vec![i32::MIN, i32::MIN + 1, -1, 0, 1, 2, i32::MAX - 1, i32::MAX], |r| r.next() as i32)
    }
    display_and_copy!();
    fn mk(i: i64) -> Self {
        i as i32
    }
    fn un(&self) -> i64 {
        *self as i64
    }
    fn arith(i: &Interval<Self>, n: &str, c: i64, v: usize) -> Option<Interval<Self>> {
        num_arith(i, n, c as i32, v)
    }
}
impl Val for i64 {
    const NAME: &'static str = "i64";
    const ARITH: bool = true;
    fn pool(rng: &mut Rng, n: usize) -> Vec<Self> {
        choose(rng, n, vec![i64::MIN, i64::MIN + 1, -1, 0, 1, 2, i64::MAX - 1, i64::MAX], |r| r.next() as i64)
    }
    display_and_copy!();
    fn mk(i: i64) -> Self {
        i
    }
    fn un(&self) -> i64 {
        *self
    }
    fn arith(i: &Interval<Self>, n: &str, c: i64, v: usize) -> Option<Interval<Self>> {
        num_arith(i, n, c, v)
    }
}
impl Val for i128 {
    const NAME: &'static str = "i128";
    fn pool(rng: &mut Rng, n: usize) -> Vec<Self> {
        choose(rng, n, vec![i128::MIN, -1, 0, 1, i128::MAX], |r| (r.next() as i128) << (r.next() % 64))
    }
    display_and_copy!();
    fn mk(i: i64) -> Self {
        i as i128 * 1_000_000_007_000_000_007_000
    }
    fn un(&self) -> i64 {
        (*self / 1_000_000_007_000_000_007_000) as i64
    }
}
macro_rules! unsigned {
    ($t:ty, $name:expr) => {
        impl Val for $t {
            const NAME: &'static str = $name;
            fn pool(rng: &mut Rng, n: usize) -> Vec<Self> {
                choose(rng, n, vec![0, 1, 2, <$t>::MAX - 1, <$t>::MAX, <$t>::MAX / 2, <$t>::MAX / 2 + 1], |r| r.next() as $t)
            }
            display_and_copy!();
            fn mk(i: i64) -> Self {
                (i + 100) as $t
            }
            fn un(&self) -> i64 {
                *self as i64 - 100
            }
        }
    };
}
unsigned!(u8, "u8");
unsigned!(u64, "u64");
unsigned!(usize, "usize");
impl Val for i8 {
    const NAME: &'static str = "i8";
    fn pool(rng: &mut Rng, n: usize) -> Vec<Self> {
        choose(rng, n, vec![i8::MIN, i8::MIN + 1, -1, 0, 1, 2, i8::MAX - 1, i8::MAX], |r| r.next() as i8)
    }
    display_and_copy!();
    fn mk(i: i64) -> Self {
        i as i8
    }
    fn un(&self) -> i64 {
        *self as i64
    }
}
impl Val for char {
    const NAME: &'static str = "char";
    fn pool(rng: &mut Rng, n: usize) -> Vec<Self> {
        choose(rng, n, vec!['\0', 'a', 'b', '\u{D7FF}', '\u{E000}', char::MAX], |r| char::from_u32((r.next() % 0xD800) as u32).unwrap())
    }
    display_and_copy!();
    fn mk(i: i64) -> Self {
        char::from_u32((0x4000 + i) as u32).unwrap()
    }
    fn un(&self) -> i64 {
        *self as i64 - 0x4000
    }
}
fn word(r: &mut Rng) -> String {
    let n = r.below(4);
    (0..n).map(|_| *r.pick(&['a', 'b', 'Z', ' ', 'é'])).collect()
}
impl Val for String {
    const NAME: &'static str = "String";
    fn pool(rng: &mut Rng, n: usize) -> Vec<Self> {
        choose(rng, n, vec!["".into(), "a".into(), "ab".into(), "b".into(), "a".repeat(40)], word)
    }
    display_only!();
    fn mk(i: i64) -> Self {
        format!("v{:07}", i + 1_000_000)
    }
    fn un(&self) -> i64 {
        self[1..].parse::<i64>().unwrap_or(-7) - 1_000_000
    }
}
const WORDS: [&str; 9] = ["", "0", "00", "01", "1", "A", "a", "aa", "b"];
impl Val for &'static str {
    const NAME: &'static str = "&str";
    fn pool(rng: &mut Rng, n: usize) -> Vec<Self> {
        choose(rng, n, WORDS.to_vec(), |r| *r.pick(&WORDS))
    }
    display_and_copy!();
    fn mk(_: i64) -> Self {
        unreachable!()
    }
    fn un(&self) -> i64 {
        unreachable!()
    }
}
impl Val for Ipv4Addr {
    const NAME: &'static str = "Ipv4Addr";
    fn pool(rng: &mut Rng, n: usize) -> Vec<Self> {
        choose(rng, n, vec![Ipv4Addr::UNSPECIFIED, Ipv4Addr::LOCALHOST, Ipv4Addr::BROADCAST], |r| Ipv4Addr::from(r.next() as u32))
    }
    display_and_copy!();
    fn mk(i: i64) -> Self {
        Ipv4Addr::from((0x0A00_0000 + i) as u32)
    }
    fn un(&self) -> i64 {
        u32::from(*self) as i64 - 0x0A00_0000
    }
}
macro_rules! plain {
    ($t:ty, $name:expr, $special:expr, $any:expr, $mk:expr, $un:expr) => {
        impl Val for $t {
            const NAME: &'static str = $name;
            fn pool(rng: &mut Rng, n: usize) -> Vec<Self> {
                choose(rng, n, $special, $any)
            }
            fn mk(i: i64) -> Self {
                let f: fn(i64) -> $t = $mk;
                f(i)
            }
            fn un(&self) -> i64 {
                let f: fn(&$t) -> i64 = $un;
                f(self)
            }
        }
    };
}
plain!(Reverse<i32>, "Reverse", vec![Reverse(i32::MAX), Reverse(0), Reverse(i32::MIN)], |r| Reverse(r.next() as i32), |i| Reverse(-i as i32), |x| -x.0 as i64);
plain!(Vec<u8>, "Vec", vec![vec![], vec![0], vec![0, 0], vec![255]], |r| (0..r.below(3)).map(|_| r.below(3) as u8).collect(), |i| ((i + 1_000_000) as u32).to_be_bytes().to_vec(), |x| {
    x.iter().fold(0, |a, b| a * 256 + *b as i64) - 1_000_000
});
plain!((i8, String), "tuple", vec![(-1, "".into()), (-1, "a".into()), (0, "".into())], |r| (r.below(2) as i8, word(r)), |i| ((i.div_euclid(5)) as i8, "x".repeat(i.rem_euclid(5) as usize)), |x| {
    x.0 as i64 * 5 + x.1.len() as i64
});
plain!(Box<i16>, "Box", vec![Box::new(i16::MIN), Box::new(0), Box::new(i16::MAX)], |r| Box::new(r.next() as i16), |i| Box::new(i as i16), |x| **x as i64);
plain!(Option<u16>, "Option", vec![None, Some(0), Some(u16::MAX)], |r| Some(r.next() as u16), |i| if i == -500 { None } else { Some((i + 500) as u16) }, |x| x.map(|y| y as i64 - 500).unwrap_or(-500));
plain!(Wrapping<u8>, "Wrapping", vec![Wrapping(0), Wrapping(255)], |r| Wrapping(r.next() as u8), |i| Wrapping((i + 100) as u8), |x| x.0 as i64 - 100);
plain!(Duration, "Duration", vec![Duration::ZERO, Duration::MAX, Duration::from_nanos(1)], |r| Duration::new(r.next() % 3, (r.next() % 4) as u32), |i| Duration::new((i + 1000) as u64 / 3, ((i + 1000) % 3) as u32), |x| {
    x.as_secs() as i64 * 3 + x.subsec_nanos() as i64 - 1000
});

/// exact rational numbers, not Copy; equal values may be written differently
#[derive(Clone, Debug)]
pub struct Frac(Box<(i128, i128)>);
impl Frac {
    fn new(n: i128, d: i128) -> Frac {
        assert!(d != 0, "TOOL: division by zero");
        Frac(Box::new(if d < 0 { (-n, -d) } else { (n, d) }))
    }
}
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs().max(1)
    } else {
        gcd(b, a % b)
    }
}
impl PartialEq for Frac {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Frac {}
impl PartialOrd for Frac {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Frac {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.0 .0 * o.0 .1).cmp(&(o.0 .0 * self.0 .1))
    }
}
impl Hash for Frac {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let g = gcd(self.0 .0, self.0 .1);
        (self.0 .0 / g, self.0 .1 / g).hash(h)
    }
}
impl Display for Frac {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let g = gcd(self.0 .0, self.0 .1);
        write!(f, "{}/{}", self.0 .0 / g, self.0 .1 / g)
    }
}
macro_rules! frac_op {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, |$a:ident, $b:ident| $e:expr) => {
        impl $tr for Frac {
            type Output = Frac;
            fn $f(self, o: Frac) -> Frac {
                let ($a, $b) = (*self.0, *o.0);
                let (n, d): (i128, i128) = $e;
                let g = gcd(n, d);
                Frac::new(n / g, d / g)
            }
        }
        impl $tra for Frac {
            fn $fa(&mut self, o: Frac) {
                *self = $tr::$f(self.clone(), o)
            }
        }
    };
}
frac_op!(Add, add, AddAssign, add_assign, |a, b| (a.0 * b.1 + b.0 * a.1, a.1 * b.1));
frac_op!(Sub, sub, SubAssign, sub_assign, |a, b| (a.0 * b.1 - b.0 * a.1, a.1 * b.1));
frac_op!(Mul, mul, MulAssign, mul_assign, |a, b| (a.0 * b.0, a.1 * b.1));
frac_op!(Div, div, DivAssign, div_assign, |a, b| (a.0 * b.1, a.1 * b.0));
impl Neg for Frac {
    type Output = Frac;
    fn neg(self) -> Frac {
        Frac::new(-self.0 .0, self.0 .1)
    }
}
impl Val for Frac {
    const NAME: &'static str = "Frac";
    fn pool(rng: &mut Rng, n: usize) -> Vec<Self> {
        choose(rng, n, vec![Frac::new(0, 3), Frac::new(1, 2), Frac::new(2, 4), Frac::new(-1, 3)], |r| Frac::new(r.range(-9, 9) as i128, r.range(1, 6) as i128))
    }
    display_only!();
    fn mk(i: i64) -> Self {
        Frac::new(i as i128 * 3, 9)
    }
    fn un(&self) -> i64 {
        (self.0 .0 * 3 / self.0 .1) as i64
    }
}
/// a length that only knows how to be changed by another type
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Length(i64);
#[derive(Clone, Debug)]
pub struct Step(Box<i64>);
macro_rules! len_op {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $op:tt) => {
        impl $tr<Step> for Length {
            type Output = Length;
            fn $f(self, o: Step) -> Length {
                Length(self.0 $op *o.0)
            }
        }
        impl $tra<Step> for Length {
            fn $fa(&mut self, o: Step) {
                self.0 = self.0 $op *o.0
            }
        }
    };
}
len_op!(Add, add, AddAssign, add_assign, +);
len_op!(Sub, sub, SubAssign, sub_assign, -);
len_op!(Mul, mul, MulAssign, mul_assign, *);
len_op!(Div, div, DivAssign, div_assign, /);

// ---------------------------------------------------------------------------------------
fn build<T: Val>(q: &Q, vals: &[T]) -> Interval<T> {
    if q.is_empty() {
        Interval::empty()
    } else {
        Interval::new(vals[q[0] as usize].clone(), q[1] == 1, vals[q[2] as usize].clone(), q[3] == 1)
    }
}
fn see<T: Val>(i: &Interval<T>, vals: &[T]) -> Q {
    let at = |v: &T| vals.iter().position(|x| x == v).map(|x| x as i64).unwrap_or(-9);
    match i.bounds() {
        None => vec![],
        Some((l, u)) => vec![at(l.val()), l.is_closed() as i64, at(u.val()), u.is_closed() as i64],
    }
}
fn hash<H: Hash>(x: &H) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn ord(o: Option<Ordering>) -> i64 {
    match o {
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
        None => 2,
    }
}
macro_rules! rel {
    ($a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        vec![(a < b) as i64, (a <= b) as i64, (a > b) as i64, (a >= b) as i64, (a == b) as i64, (a != b) as i64, ord(a.partial_cmp(b))]
    }};
}

fn want<X: PartialEq + Debug>(name: &str, got: X, want: X) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} gives {:?} instead of {:?}", name, got, want))
    }
}

fn access<T: Val>(q: &Q, vals: &[T]) -> Result<(), String> {
    let i = build(q, vals);
    want("is_empty", i.is_empty(), q.is_empty())?;
    want("is_single", i.is_single(), !q.is_empty() && q[0] == q[2])?;
    want("is_lower_closed", i.is_lower_closed(), q.get(1).map(|x| *x == 1))?;
    want("is_upper_closed", i.is_upper_closed(), q.get(3).map(|x| *x == 1))?;
    let val = |k: usize| q.get(k).map(|x| vals[*x as usize].clone());
    want("lower", i.lower().map(|b| (b.val().clone(), b.is_closed())), val(0).map(|v| (v, q[1] == 1)))?;
    want("upper", i.upper().map(|b| (b.val().clone(), b.is_closed())), val(2).map(|v| (v, q[3] == 1)))?;
    want("bounds", see(&i, vals), q.clone())?;
    let t = i.clone().into_tuple();
    want("into_tuple", t.clone(), val(0).map(|l| (l, q[1] == 1, val(2).unwrap(), q[3] == 1)))?;
    let b = i.clone().into_bounds();
    want("into_bounds", b.clone().map(|(l, u)| (l.into_tuple(), u.into_tuple())), val(0).map(|l| ((l, q[1] == 1), (val(2).unwrap(), q[3] == 1))))?;
    if let Some((l, lc, u, uc)) = t {
        let j = Interval::new(l, lc, u, uc);
        want("== of a rebuilt interval", j == i, true)?;
        want("hash of a rebuilt interval", hash(&j), hash(&i))?;
        want("rebuilt from the tuple", see(&j, vals), q.clone())?;
    }
    if let Some((l, u)) = b {
        want("== of bounds", (i.lower() == Some(&l), i.upper() == Some(&u)), (true, true))?;
        want("hash of bounds", (hash(i.lower().unwrap()), hash(i.upper().unwrap())), (hash(&l), hash(&u)))?;
        let j = Interval::from_bounds(l, u);
        want("== of an interval from bounds", j == i, true)?;
        want("hash of an interval from bounds", hash(&j), hash(&i))?;
    }
    // a copy is independent
    let mut c = T::copy(&i);
    want("copy", c == i && i == c && !(c != i), true)?;
    want("hash of a copy", hash(&c), hash(&i))?;
    c.span(Interval::single(vals[0].clone()));
    c.span(Interval::single(vals[vals.len() - 1].clone()));
    c.intersection(Interval::empty());
    want("the original after changing a copy", see(&i, vals), q.clone())?;
    want("hash of the empty interval", hash(&c) == hash(&Interval::<T>::empty()) && c == Interval::empty(), true)?;
    if let Some(d) = T::disp(&i) {
        if q.is_empty() {
            want("display of the empty interval has brackets or values", d.contains(['[', '(', ']', ')', ',']), false)?;
        } else {
            let w = format!("{}{},{}{}", if q[1] == 1 { '[' } else { '(' }, val(0).unwrap().show(), val(2).unwrap().show(), if q[3] == 1 { ']' } else { ')' });
            want("display", d, w)?;
        }
    }
    Ok(())
}

fn constructors<T: Val>(q: &Q, ok: bool, vals: &[T]) -> Result<(), String> {
    let (l, lc, u, uc) = (vals[q[0] as usize].clone(), q[1] == 1, vals[q[2] as usize].clone(), q[3] == 1);
    let mut made: Vec<(&str, Result<Interval<T>, String>)> = vec![];
    made.push(("new", guarded(|| Interval::new(l.clone(), lc, u.clone(), uc))));
    made.push(("from_bounds", guarded(|| Interval::from_bounds(LowerBound::new(l.clone(), lc), UpperBound::new(u.clone(), uc)))));
    made.push(match (lc, uc) {
        (true, true) => ("closed", guarded(|| Interval::closed(l.clone(), u.clone()))),
        (false, false) => ("open", guarded(|| Interval::open(l.clone(), u.clone()))),
        (true, false) => ("lower_closed", guarded(|| Interval::lower_closed(l.clone(), u.clone()))),
        (false, true) => ("upper_closed", guarded(|| Interval::upper_closed(l.clone(), u.clone()))),
    });
    if lc && uc && l == u {
        made.push(("single", guarded(|| Interval::single(l.clone()))));
    }
    for (n, r) in made {
        match r {
            Ok(i) if ok => {
                want(n, see(&i, vals), q.clone())?;
                want("is_empty", i.is_empty(), false)?
            }
            Err(_) if !ok => {}
            Ok(i) => return Err(format!("{} accepts {:?} and makes {:?}", n, q, i)),
            Err(e) => return Err(format!("{} panics: {}", n, e)),
        }
    }
    Ok(())
}

fn pair<T: Val>(j: &J, vals: &[T], what: &str) -> Result<(), String> {
    let (qa, qb) = (j.get("a").ints(), j.get("b").ints());
    let (a, b) = (build(&qa, vals), build(&qb, vals));
    let flag = |k: &str| j.get(k).int() == 1;
    match what {
        "contain" => want("contains_interval", a.contains_interval(&b), flag("hi"))?,
        "intersect" => {
            want("intersects", a.intersects(&b), flag("is"))?;
            let w = j.get("in").ints();
            let i = a.clone().into_intersection(b.clone());
            want("into_intersection", see(&i, vals), w.clone())?;
            want("is_empty of the intersection", i.is_empty(), !flag("is"))?;
            let mut i = a.clone();
            i.intersection(b.clone());
            want("intersection", see(&i, vals), w)?;
        }
        "merge" => {
            let ok = flag("cm");
            want("can_be_merged", a.can_be_merged(&b), ok)?;
            let w = if ok { j.get("sp").ints() } else { qa.clone() };
            match a.clone().into_merged(b.clone()) {
                Ok(i) => want("into_merged", (true, see(&i, vals), Q::new()), (ok, w.clone(), vec![]))?,
                Err((x, y)) => want("into_merged fails and", (false, see(&x, vals), see(&y, vals)), (ok, w.clone(), qb.clone()))?,
            }
            let mut i = a.clone();
            match i.merge(b.clone()) {
                Ok(()) => want("merge", (true, see(&i, vals)), (ok, w))?,
                Err(y) => want("merge fails and", (false, see(&i, vals), see(&y, vals)), (ok, w, qb.clone()))?,
            }
        }
        "span" => {
            let w = j.get("sp").ints();
            want("into_span", see(&a.clone().into_span(b.clone()), vals), w.clone())?;
            let mut i = a.clone();
            i.span(b.clone());
            want("span", see(&i, vals), w)?;
        }
        "cmp" => want("< <= > >= == != partial_cmp", rel!(&a, &b), j.get("rel").ints())?,
        "access" => {
            if a == b {
                want("hash of equal intervals", hash(&a), hash(&b))?
            }
        }
        _ => {}
    }
    want("the operands afterwards", (see(&a, vals), see(&b, vals)), (qa, qb))
}

fn bounds<T: Val>(j: &J, vals: &[T]) -> Result<(), String> {
    let (p, q) = (j.get("l").ints(), j.get("u").ints());
    let v = |x: &Q| vals[x[0] as usize].clone();
    let (lp, lq) = (LowerBound::new(v(&p), p[1] == 1), LowerBound::new(v(&q), q[1] == 1));
    let (up, uq) = (UpperBound::new(v(&p), p[1] == 1), UpperBound::new(v(&q), q[1] == 1));
    let w = |k: &str| j.get(k).ints();
    want("value and closedness of bounds", (lp.val().clone(), lp.is_closed(), up.val().clone(), up.is_closed()), (v(&p), p[1] == 1, v(&p), p[1] == 1))?;
    want("into_tuple", (lp.clone().into_tuple(), up.clone().into_tuple()), ((v(&p), p[1] == 1), (v(&p), p[1] == 1)))?;
    want("lower with lower", rel!(&lp, &lq), w("ll"))?;
    want("upper with upper", rel!(&up, &uq), w("uu"))?;
    want("lower with upper", rel!(&lp, &uq), w("lu"))?;
    want("upper with lower", rel!(&uq, &lp), w("ul"))?;
    want("lower with value", rel!(&lp, &v(&q)), w("lv"))?;
    want("upper with value", rel!(&up, &v(&q)), w("uv"))?;
    want("is_separated_from", (lp.is_separated_from(&uq), uq.is_separated_from(&lp)), (j.get("sep").int() == 1, j.get("sep").int() == 1))?;
    want("cmp of lower bounds", ord(Some(lp.cmp(&lq))), w("ll")[6])?;
    want("cmp of upper bounds", ord(Some(up.cmp(&uq))), w("uu")[6])?;
    let (lo, hi) = if w("ll")[0] == 1 { (&lp, &lq) } else { (&lq, &lp) };
    want("min and max of lower bounds", (lp.clone().min(lq.clone()), lp.clone().max(lq.clone())), (lo.clone(), hi.clone()))?;
    let (lo, hi) = if w("uu")[0] == 1 { (&up, &uq) } else { (&uq, &up) };
    want("min and max of upper bounds", (up.clone().min(uq.clone()), up.clone().max(uq.clone())), (lo.clone(), hi.clone()))?;
    for (k, m) in w("lcl").iter().enumerate() {
        let x = LowerBound::new(vals[k / 2].clone(), k % 2 == 1);
        // the point 2v is the closed bound at v, 2v+1 the open one
        let y = LowerBound::new(vals[m.div_euclid(2) as usize].clone(), m.rem_euclid(2) == 0);
        want("clamp of lower bounds", x.clamp(lp.clone(), lq.clone()), y)?;
    }
    for (k, m) in w("ucl").iter().enumerate() {
        let x = UpperBound::new(vals[k / 2].clone(), k % 2 == 1);
        // the point 2v is the closed bound at v, 2v-1 the open one
        let y = UpperBound::new(vals[(m + 1).div_euclid(2) as usize].clone(), m.rem_euclid(2) == 0);
        want("clamp of upper bounds", x.clamp(up.clone(), uq.clone()), y)?;
    }
    if w("ll")[4] == 1 {
        want("hash of equal lower bounds", hash(&lp), hash(&lq))?;
        want("hash of equal upper bounds", hash(&up), hash(&uq))?;
    }
    Ok(())
}

fn rows<T: Val>(rows: &[J], what: &str, pools: usize, rng: &mut Rng, rep: &mut Report) {
    for _ in 0..pools {
        let vals = T::pool(rng, 4);
        for j in rows {
            let k = j.get("k").str();
            let r = match (k, what) {
                ("I", "contain" | "intersect" | "merge" | "span" | "cmp" | "access") => guarded(|| pair(j, &vals, what)),
                ("V", "value") => guarded(|| {
                    let i = build(&j.get("a").ints(), &vals);
                    want("contains_val", i.contains_val(&vals[j.get("v").int() as usize]), j.get("has").int() == 1)
                }),
                ("V", "cmp") => guarded(|| {
                    let i = build(&j.get("a").ints(), &vals);
                    want("with a value: < <= > >= == != partial_cmp", rel!(&i, &vals[j.get("v").int() as usize]), j.get("rel").ints())
                }),
                ("V", "access") if j.get("v").int() == 0 => guarded(|| access(&j.get("a").ints(), &vals)),
                ("V", "form") if j.get("a").ints().is_empty() => guarded(|| want("is_empty of empty()", Interval::<T>::empty().is_empty(), true)),
                ("B", "bounds") => guarded(|| bounds(j, &vals)),
                ("N", "form") => guarded(|| constructors(&j.get("q").ints(), j.get("ok").int() == 1, &vals)),
                _ => continue,
            };
            rep.cases += 1;
            rep.nontrivial += 1;
            let text = || format!("type={} values={:?} row={}", T::NAME, vals, j.text());
            match r {
                Ok(Ok(())) => {
                    if rep.samples.len() < 4 && rng.chance(1, 5000) {
                        rep.samples.push(text())
                    }
                }
                Ok(Err(e)) => rep.fail(format!("{}: {}", text(), e)),
                Err(e) => rep.fail(format!("{}: panics: {}", text(), e)),
            }
        }
    }
}

// ---------------------------------------------------------------------------------------
// Arithmetic

/// compares an interval with what the specification says, values made by mk
fn same<T: Ord + Clone + Debug>(name: &str, i: &Interval<T>, q: &Q, mk: &dyn Fn(i64) -> T) -> Result<(), String> {
    let got = i.bounds().map(|(l, u)| (l.val().clone(), l.is_closed(), u.val().clone(), u.is_closed()));
    let w = if q.is_empty() { None } else { Some((mk(q[0]), q[1] == 1, mk(q[2]), q[3] == 1)) };
    want(name, got, w)
}
fn make<T: Ord>(q: &Q, mk: &dyn Fn(i64) -> T) -> Interval<T> {
    if q.is_empty() {
        Interval::empty()
    } else {
        Interval::new(mk(q[0]), q[1] == 1, mk(q[2]), q[3] == 1)
    }
}
struct M<'a> {
    a: &'a Q,
    n: &'a str,
    c: i64,
    r: &'a Q,
    w: &'a [i64],
}
/// all by-value forms: interval and bounds
fn forms_val<T, U>(m: &M, mk: &dyn Fn(i64) -> T, mr: &dyn Fn(i64) -> T, c: U) -> Result<(), String>
where
    T: Ord + Clone + Debug + Add<U, Output = T> + Sub<U, Output = T> + Mul<U, Output = T> + Div<U, Output = T>,
    U: Clone,
{
    same(m.n, &by_val(make(m.a, mk), m.n, c.clone()), m.r, mr)?;
    if let Some((l, u)) = make(m.a, mk).into_bounds() {
        let (lc, uc) = (l.is_closed(), u.is_closed());
        let (l, u) = match m.n {
            "add" => (l + c.clone(), u + c),
            "sub" => (l - c.clone(), u - c),
            "mul" => (l * c.clone(), u * c),
            _ => (l / c.clone(), u / c),
        };
        want("bounds by value", (l.into_tuple(), u.into_tuple()), ((mr(m.w[0]), lc), (mr(m.w[1]), uc)))?;
    }
    Ok(())
}
/// in-place forms of the interval (operand of the same type)
fn forms_assign<T>(m: &M, mk: &dyn Fn(i64) -> T, mr: &dyn Fn(i64) -> T, c: T) -> Result<(), String>
where
    T: Ord + Clone + Debug + AddAssign + SubAssign + MulAssign + DivAssign,
{
    let mut i = make(m.a, mk);
    in_place(&mut i, m.n, c);
    same(&format!("{} in place", m.n), &i, m.r, mr)
}
/// in-place forms of the bounds (any operand type)
fn forms_bound<T, U>(m: &M, mk: &dyn Fn(i64) -> T, mr: &dyn Fn(i64) -> T, c: U) -> Result<(), String>
where
    T: Ord + Clone + Debug + AddAssign<U> + SubAssign<U> + MulAssign<U> + DivAssign<U>,
    U: Clone,
{
    if let Some((mut l, mut u)) = make(m.a, mk).into_bounds() {
        let (lc, uc) = (l.is_closed(), u.is_closed());
        match m.n {
            "add" => {
                l += c.clone();
                u += c
            }
            "sub" => {
                l -= c.clone();
                u -= c
            }
            "mul" => {
                l *= c.clone();
                u *= c
            }
            _ => {
                l /= c.clone();
                u /= c
            }
        }
        want("bounds in place", (l.into_tuple(), u.into_tuple()), ((mr(m.w[0]), lc), (mr(m.w[1]), uc)))?;
    }
    Ok(())
}

fn math_row(d: &str, m: &M, scale: i64) -> Result<u64, String> {
    let mut done = 0;
    let nonneg = m.c >= 0 && m.a.iter().chain(m.r.iter()).chain(m.w.iter()).all(|x| *x >= 0);
    // scaling: how the operand and the result scale when the bounds do
    let (sc, sr) = match m.n {
        "add" | "sub" => (scale, scale),
        "mul" => (1, scale),
        "div" if d == "int" => (scale, 1),
        _ => (1, scale),
    };
    macro_rules! number {
        ($t:ty, $s:expr, $sc:expr, $sr:expr) => {{
            let (s, sc, sr) = ($s as i128, $sc as i128, $sr as i128);
            let mk = move |x: i64| (x as i128 * s) as $t;
            let mr = move |x: i64| (x as i128 * sr) as $t;
            let c = (m.c as i128 * sc) as $t;
            forms_val(m, &mk, &mr, c).map_err(|e| format!("{}: {}", stringify!($t), e))?;
            forms_val(m, &mk, &mr, &c).map_err(|e| format!("{} with a reference: {}", stringify!($t), e))?;
            forms_assign(m, &mk, &mr, c).map_err(|e| format!("{}: {}", stringify!($t), e))?;
            forms_bound(m, &mk, &mr, c).map_err(|e| format!("{}: {}", stringify!($t), e))?;
            forms_bound(m, &mk, &mr, &c).map_err(|e| format!("{} with a reference: {}", stringify!($t), e))?;
            done += 5;
        }};
    }
    match (d, m.n) {
        ("int", "neg") | ("exact", "neg") => {
            same("i8", &-make(m.a, &|x| x as i8), m.r, &|x| x as i8)?;
            same("i32", &-make(m.a, &|x| x as i32), m.r, &|x| x as i32)?;
            same("i64 scaled", &-make(m.a, &|x| x * scale), m.r, &|x| x * scale)?;
            same("i128 scaled", &-make(m.a, &|x| x as i128 * scale as i128), m.r, &|x| x as i128 * scale as i128)?;
            same("Frac", &-make(m.a, &|x| Frac::new(x as i128, 7)), m.r, &|x| Frac::new(x as i128, 7))?;
            same("Reverse of nothing", &-make(m.a, &|x| x as isize), m.r, &|x| x as isize)?;
            done += 6;
        }
        ("int", _) => {
            number!(i8, 1, 1, 1);
            number!(i16, 1, 1, 1);
            number!(i32, 1, 1, 1);
            number!(i64, scale, sc, sr);
            let big = scale as i128 * 1_000_000_007;
            number!(i128, big, if matches!(m.n, "mul") { 1 } else { big }, if m.n == "div" { 1 } else { big });
            number!(isize, scale, sc, sr);
            if nonneg {
                number!(u8, 1, 1, 1);
                number!(u32, 1, 1, 1);
                number!(u64, scale, sc, sr);
                number!(usize, 1, 1, 1);
            }
            if m.n != "div" {
                let (f, g) = (|x: i64| Frac::new(x as i128, 5), |x: i64| Frac::new(x as i128 * 3, 15));
                let c = if m.n == "mul" { Frac::new(m.c as i128 * 2, 2) } else { f(m.c) };
                forms_val(m, &f, &g, c.clone())?;
                forms_assign(m, &f, &g, c.clone())?;
                forms_bound(m, &f, &g, c)?;
            }
            forms_val(m, &Length, &Length, Step(Box::new(m.c)))?;
            forms_bound(m, &Length, &Length, Step(Box::new(m.c)))?;
            if nonneg && m.n != "div" {
                let mk = |x: i64| Duration::from_millis(x as u64 * 700);
                match m.n {
                    "add" => {
                        same("Duration add", &(make(m.a, &mk) + mk(m.c)), m.r, &mk)?;
                        let mut i = make(m.a, &mk);
                        i += mk(m.c);
                        same("Duration add in place", &i, m.r, &mk)?;
                        let base = std::time::Instant::now();
                        let at = |x: i64| base + Duration::from_secs(x as u64);
                        same("Instant add", &(make(m.a, &at) + Duration::from_secs(m.c as u64)), m.r, &at)?;
                    }
                    "sub" => {
                        same("Duration sub", &(make(m.a, &mk) - mk(m.c)), m.r, &mk)?;
                        let mut i = make(m.a, &mk);
                        i -= mk(m.c);
                        same("Duration sub in place", &i, m.r, &mk)?;
                    }
                    _ => same("Duration mul", &(make(m.a, &mk) * m.c as u32), m.r, &mk)?,
                }
            }
            done += 6;
        }
        ("exact", _) => {
            number!(i16, 1, 1, 1);
            number!(i64, scale, 1, scale);
            let f = |x: i64| Frac::new(x as i128, 11);
            let c = Frac::new(m.c as i128 * 4, 4);
            forms_val(m, &f, &f, c.clone())?;
            forms_assign(m, &f, &f, c.clone())?;
            forms_bound(m, &f, &f, c)?;
            if nonneg {
                let mk = |x: i64| Duration::from_secs(x as u64);
                same("Duration div", &(make(m.a, &mk) / m.c as u32), m.r, &mk)?;
            }
            done += 4;
        }
        ("wrap", "neg") => {
            let mk = |x: i64| Wrapping(x as u8);
            same("Wrapping", &-make(m.a, &mk), m.r, &mk)?;
            done += 1;
        }
        ("wrap", _) => {
            let mk = |x: i64| Wrapping(x as u8);
            forms_val(m, &mk, &mk, mk(m.c))?;
            forms_assign(m, &mk, &mk, mk(m.c))?;
            forms_bound(m, &mk, &mk, mk(m.c))?;
            done += 3;
        }
        _ => panic!("TOOL: domain {}", d),
    }
    Ok(done)
}

fn math(path: &str, rng: &mut Rng, rounds: usize, rep: &mut Report) {
    let text = std::fs::read_to_string(path).expect("TOOL: rows");
    for l in text.lines() {
        let j = parse(l);
        let (a, r, w) = (j.get("a").ints(), j.get("r").ints(), j.get("w").ints());
        let (d, n, c) = (j.get("d").str(), j.get("n").str(), j.get("c").int());
        let m = M { a: &a, n, c, r: &r, w: &w };
        for k in 0..rounds {
            let scale = if k == 0 { 1 } else { rng.range(2, 1 << 40) };
            journal(&format!("scale={} row={}", scale, l));
            match guarded(|| math_row(d, &m, scale)) {
                Ok(Ok(x)) => {
                    rep.cases += x;
                    if !a.is_empty() {
                        rep.nontrivial += x
                    }
                    if rep.samples.len() < 4 && rng.chance(1, 9000) {
                        rep.samples.push(l.to_string())
                    }
                }
                Ok(Err(e)) => rep.fail(format!("scale={} row={}: {}", scale, l, e)),
                Err(e) => rep.fail(format!("scale={} row={}: panics: {}", scale, l, e)),
            }
        }
    }
}

// ---------------------------------------------------------------------------------------
// Histories

fn qj(q: &Q) -> J {
    ia(q.iter().cloned())
}
fn look<T: Val>(i: &Interval<T>) -> Q {
    match i.bounds() {
        None => vec![],
        Some((l, u)) => vec![l.val().un(), l.is_closed() as i64, u.val().un(), u.is_closed() as i64],
    }
}
const NONE: i64 = -1_000_000;

fn history<T: Val>(rng: &mut Rng, sink: &mut Sink, focus: &[String], len: usize) {
    let nregs = 3;
    let span = *rng.pick(&[2, 3, 4, 6, 10, 25]);
    let mut regs: Vec<Interval<T>> = (0..nregs).map(|_| Interval::empty()).collect();
    sink.history();
    // an interval that cannot be observed is shown as a triple
    let post = |regs: &[Interval<T>]| {
        J::A(regs.iter().map(|i| guarded(|| J::A(vec![qj(&look(i)), J::I(i.is_empty() as i64)])).unwrap_or_else(|_| J::A(vec![ia(vec![0, 0, 0]), J::I(0)]))).collect())
    };
    sink.emit(&obj(vec![("e", s("start")), ("t", s(T::NAME)), ("post", post(&regs))]));
    let setup = ["new", "new", "single", "copy_to", "span", "intersection", "merge"];
    let mut hist: Vec<String> = vec![];
    for _ in 0..len {
        let mut n: String = if rng.chance(3, 5) { rng.pick(focus).clone() } else { (*rng.pick(&setup)).into() };
        if matches!(n.as_str(), "add" | "sub" | "mul" | "div" | "neg") && !T::ARITH {
            n = "new".into()
        }
        let r = rng.below(nregs);
        let mut q = rng.below(nregs);
        if q == r && rng.chance(3, 4) {
            q = (r + 1) % nregs
        }
        // values: mostly near the bounds in play
        let near = |rng: &mut Rng, regs: &[Interval<T>]| -> i64 {
            let all: Vec<i64> = regs.iter().flat_map(|i| { let l = look(i); if l.is_empty() { vec![] } else { vec![l[0], l[2]] } }).filter(|x| x.abs() < 90).collect();
            if !all.is_empty() && rng.chance(2, 3) { *rng.pick(&all) + *rng.pick(&[0, 0, 0, 1, -1]) } else { rng.range(-span, span) }
        };
        let big = look(&regs[r]).iter().any(|x| x.abs() > 20_000);
        let x: Vec<i64> = match n.as_str() {
            "new" => {
                let (a, b) = (near(rng, &regs), near(rng, &regs));
                let (a, b) = if rng.chance(9, 10) { (a.min(b), a.max(b)) } else { (a, b) };
                vec![a, rng.below(2) as i64, b, rng.below(2) as i64]
            }
            "single" | "has_val" | "rel_val" => vec![near(rng, &regs)],
            "add" | "sub" => vec![rng.range(-3, 3)],
            "mul" => vec![if big { *rng.pick(&[-1, 0, 1]) } else { rng.range(-3, 3) }],
            "div" => vec![*rng.pick(&[-3, -2, -1, 1, 2, 3, 5])],
            _ => vec![],
        };
        if big && matches!(n.as_str(), "add" | "sub") && look(&regs[r]).iter().any(|x| x.abs() > 1_000_000) {
            continue;
        }
        let v = rng.below(match n.as_str() {
            "new" => 4,
            "empty" => 1,
            "copy_to" => 3,
            _ => 2,
        });
        hist.push(format!("{} r{} r{} {:?} #{}", n, r, q, x, v));
        journal(&format!("type={} history={:?}", T::NAME, &hist[hist.len().saturating_sub(25)..]));
        let mut res: Vec<i64> = vec![];
        let b2 = |x: bool| x as i64;
        let p = guarded(|| match n.as_str() {
            "new" => {
                let (l, lc, u, uc) = (T::mk(x[0]), x[1] == 1, T::mk(x[2]), x[3] == 1);
                regs[r] = match v {
                    0 => Interval::new(l, lc, u, uc),
                    1 => Interval::from_bounds(LowerBound::new(l, lc), UpperBound::new(u, uc)),
                    _ => match (lc, uc) {
                        (true, true) => Interval::closed(l, u),
                        (false, false) => Interval::open(l, u),
                        (true, false) => Interval::lower_closed(l, u),
                        (false, true) => Interval::upper_closed(l, u),
                    },
                }
            }
            "single" => regs[r] = Interval::single(T::mk(x[0])),
            "empty" => regs[r] = Interval::empty(),
            "copy_to" => {
                let c = regs[r].clone();
                match v {
                    0 => regs[q] = c,
                    1 => regs[q] = T::copy(&regs[r]),
                    _ => regs[q].clone_from(&c),
                }
            }
            "intersection" => {
                let b = regs[q].clone();
                if v == 0 {
                    regs[r].intersection(b)
                } else {
                    let a = std::mem::replace(&mut regs[r], Interval::empty());
                    regs[r] = a.into_intersection(b)
                }
            }
            "span" => {
                let b = regs[q].clone();
                if v == 0 {
                    regs[r].span(b)
                } else {
                    let a = std::mem::replace(&mut regs[r], Interval::empty());
                    regs[r] = a.into_span(b)
                }
            }
            "merge" => {
                let b = regs[q].clone();
                if v == 0 {
                    match regs[r].merge(b) {
                        Ok(()) => res.push(1),
                        Err(y) => {
                            res.push(0);
                            res.push(b2(y == regs[q]))
                        }
                    }
                } else {
                    let a = regs[r].clone();
                    match a.into_merged(b) {
                        Ok(i) => {
                            regs[r] = i;
                            res.push(1)
                        }
                        Err((x, y)) => {
                            regs[r] = x;
                            res.push(0);
                            res.push(b2(y == regs[q]))
                        }
                    }
                }
            }
            "add" | "sub" | "mul" | "div" | "neg" => regs[r] = T::arith(&regs[r], &n, x.first().cloned().unwrap_or(0), v).expect("TOOL: arithmetic"),
            "has_val" => res.push(b2(regs[r].contains_val(&T::mk(x[0])))),
            "has_interval" => res.push(b2(regs[r].contains_interval(&regs[q]))),
            "intersects" => res.push(b2(regs[r].intersects(&regs[q]))),
            "mergeable" => res.push(b2(regs[r].can_be_merged(&regs[q]))),
            "rel" => res = rel!(&regs[r], &regs[q]),
            "rel_val" => res = rel!(&regs[r], &T::mk(x[0])),
            "access" => {
                let i = &regs[r];
                let t = i.clone().into_tuple();
                res = vec![
                    b2(i.is_empty()),
                    b2(i.is_single()),
                    i.is_lower_closed().map(b2).unwrap_or(NONE),
                    i.is_upper_closed().map(b2).unwrap_or(NONE),
                    i.lower().map(|b| b.val().un()).unwrap_or(NONE),
                    i.upper().map(|b| b.val().un()).unwrap_or(NONE),
                    t.as_ref().map(|t| t.0.un()).unwrap_or(NONE),
                    t.as_ref().map(|t| b2(t.1)).unwrap_or(NONE),
                    t.as_ref().map(|t| t.2.un()).unwrap_or(NONE),
                    t.as_ref().map(|t| b2(t.3)).unwrap_or(NONE),
                ];
                if let Some((l, u)) = i.clone().into_bounds() {
                    let j = Interval::from_bounds(l, u);
                    res.push(b2(j == *i && hash(&j) == hash(i)));
                }
                if regs[r] == regs[q] {
                    res.push(b2(hash(&regs[r]) == hash(&regs[q])))
                }
            }
            o => panic!("TOOL: operation {}", o),
        })
        .is_err();
        sink.emit(&obj(vec![
            ("e", s("op")),
            ("n", s(&n)),
            ("r", J::I(r as i64 + 1)),
            ("q", J::I(q as i64 + 1)),
            ("x", ia(x)),
            ("res", ia(res)),
            ("p", J::I(p as i64)),
            ("post", post(&regs)),
        ]));
    }
    sink.emit(&obj(vec![("e", s("end"))]));
}

/// calls back whenever the interval uses it
#[derive(Debug)]
pub struct Brit(i64);
impl Clone for Brit {
    fn clone(&self) -> Self {
        callback();
        Brit(self.0)
    }
}
impl PartialEq for Brit {
    fn eq(&self, o: &Self) -> bool {
        callback();
        self.0 == o.0
    }
}
impl Eq for Brit {}
impl PartialOrd for Brit {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Brit {
    fn cmp(&self, o: &Self) -> Ordering {
        callback();
        self.0.cmp(&o.0)
    }
}
impl Hash for Brit {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
macro_rules! brit_op {
    ($tr:ident, $f:ident, $op:tt) => {
        impl $tr for Brit {
            fn $f(&mut self, o: Brit) {
                callback();
                self.0 = self.0 $op o.0;
                callback();
            }
        }
    };
}
brit_op!(AddAssign, add_assign, +);
brit_op!(SubAssign, sub_assign, -);
brit_op!(MulAssign, mul_assign, *);
brit_op!(DivAssign, div_assign, /);
impl Val for Brit {
    const NAME: &'static str = "brittle";
    fn pool(_: &mut Rng, _: usize) -> Vec<Self> {
        unreachable!()
    }
    fn mk(i: i64) -> Self {
        Brit(i)
    }
    fn un(&self) -> i64 {
        self.0
    }
}

/// In-place operations abandoned at the first, second, ... call into the value type (or by an
/// overflow, for a type that has them).
fn fault_histories<T>(rng: &mut Rng, sink: &mut Sink, focus: &[String], tries: usize, native: bool)
where
    T: Val + AddAssign + SubAssign + MulAssign + DivAssign,
{
    let post = |regs: &[Interval<T>]| {
        J::A(regs.iter().map(|i| guarded(|| J::A(vec![qj(&look(i)), J::I(i.is_empty() as i64)])).unwrap_or_else(|_| J::A(vec![ia(vec![0, 0, 0]), J::I(0)]))).collect())
    };
    let m = if native { 127 } else { 6 };
    let any = |rng: &mut Rng| -> Q {
        let at = |rng: &mut Rng| if native && rng.chance(2, 3) { *rng.pick(&[1, -1]) * rng.range(100, 127) } else { rng.range(-m, m) };
        let (a, b) = (at(rng), at(rng));
        let (lc, uc) = (rng.below(2) as i64, rng.below(2) as i64);
        match rng.below(8) {
            0 => vec![],
            1 => vec![a, 1, a, 1],
            _ if a != b => vec![a.min(b), lc, a.max(b), uc],
            _ => vec![a, 1, b, 1],
        }
    };
    let ev = |sink: &mut Sink, n: &str, r: usize, q: usize, x: Vec<i64>, p: i64, post: J| {
        sink.emit(&obj(vec![
            ("e", s("op")),
            ("n", s(n)),
            ("r", J::I(r as i64 + 1)),
            ("q", J::I(q as i64 + 1)),
            ("x", ia(x)),
            ("res", ia(vec![])),
            ("p", J::I(p)),
            ("post", post),
        ]))
    };
    for _ in 0..tries {
        let qs = [any(rng), any(rng)];
        let n = rng.pick(focus).clone();
        let c = match n.as_str() {
            "div" => *rng.pick(&[-3, -2, -1, 1, 2, 3]),
            "add" | "sub" => rng.range(-30, 30),
            _ => rng.range(-4, 4),
        };
        let next = rng.pick(focus).clone();
        for at in 1..60 {
            let mut regs: Vec<Interval<T>> = vec![Interval::empty(), Interval::empty()];
            sink.history();
            sink.emit(&obj(vec![("e", s("start")), ("t", s(T::NAME)), ("post", post(&regs))]));
            for (i, q) in qs.iter().enumerate() {
                if !q.is_empty() {
                    regs[i] = Interval::new(T::mk(q[0]), q[1] == 1, T::mk(q[2]), q[3] == 1);
                    ev(sink, "new", i, i, q.clone(), 0, post(&regs));
                }
            }
            // a second operation, undisturbed, on what the first has left
            let mut fault = false;
            for (k, n) in [&n, &next].into_iter().enumerate() {
                journal(&format!("type={} {:?} {} {} with a panic at call {} into the value type", T::NAME, qs, n, c, if k == 0 { at } else { 0 }));
                let b = regs[1].clone();
                let given = if k == 0 { c } else { 1 };
                let c = T::mk(given);
                let arith = matches!(n.as_str(), "add" | "sub" | "mul" | "div");
                if k == 0 {
                    arm(at)
                }
                let res = guarded(|| {
                    if arith {
                        in_place(&mut regs[0], n, c)
                    } else {
                        match n.as_str() {
                            "span" => regs[0].span(b),
                            "intersection" => regs[0].intersection(b),
                            _ => drop(regs[0].merge(b)),
                        }
                    }
                });
                disarm();
                let p = if k == 0 && fired() != "" {
                    fault = true;
                    2
                } else if res.is_err() {
                    if native && arith { 2 } else { 1 }
                } else {
                    0
                };
                ev(sink, n, 0, 1, if arith { vec![given] } else { vec![] }, p, post(&regs));
            }
            sink.emit(&obj(vec![("e", s("end"))]));
            if !fault {
                break;
            }
        }
    }
}

macro_rules! with_val {
    ($name:expr, $t:ident => $e:expr) => {
        match $name {
            "i8" => { type $t = i8; $e }
            "i32" => { type $t = i32; $e }
            #[cfg(debug_assertions)]
            "i64" => { type $t = i64; $e }
            #[cfg(debug_assertions)]
            "i128" => { type $t = i128; $e }
            #[cfg(debug_assertions)]
            "u8" => { type $t = u8; $e }
            #[cfg(debug_assertions)]
            "u64" => { type $t = u64; $e }
            #[cfg(debug_assertions)]
            "usize" => { type $t = usize; $e }
            "char" => { type $t = char; $e }
            "String" => { type $t = String; $e }
            #[cfg(debug_assertions)]
            "&str" => { type $t = &'static str; $e }
            #[cfg(debug_assertions)]
            "Ipv4Addr" => { type $t = Ipv4Addr; $e }
            #[cfg(debug_assertions)]
            "Reverse" => { type $t = Reverse<i32>; $e }
            #[cfg(debug_assertions)]
            "Vec" => { type $t = Vec<u8>; $e }
            #[cfg(debug_assertions)]
            "tuple" => { type $t = (i8, String); $e }
            #[cfg(debug_assertions)]
            "Box" => { type $t = Box<i16>; $e }
            #[cfg(debug_assertions)]
            "Option" => { type $t = Option<u16>; $e }
            #[cfg(debug_assertions)]
            "Wrapping" => { type $t = Wrapping<u8>; $e }
            "Duration" => { type $t = Duration; $e }
            #[cfg(debug_assertions)]
            "Frac" => { type $t = Frac; $e }
            o => panic!("TOOL: type {}", o),
        }
    };
}

const ALL: [&str; 20] = [
    "new", "single", "empty", "copy_to", "intersection", "span", "merge", "add", "sub", "mul", "div", "neg", "has_val", "has_interval", "intersects", "mergeable", "rel", "rel_val", "access", "merge",
];
pub fn main(mode: &str, args: &[String]) -> i32 {
    let what = arg(args, "--what").unwrap_or("access".into());
    let types: Vec<String> = arg(args, "--types").unwrap_or("i32".into()).split(',').map(|x| x.to_string()).collect();
    let seed = arg_u(args, "--seed", 1);
    match mode {
        "rows" => {
            let mut rep = Report::new();
            let text = std::fs::read_to_string(arg(args, "--graph").expect("TOOL: --graph")).expect("TOOL: rows");
            let js: Vec<J> = text.lines().map(parse).collect();
            let pools = arg_u(args, "--pools", 5) as usize;
            let mut rng = Rng::new(seed, 41);
            for t in &types {
                journal(&format!("rows {} {}", what, t));
                with_val!(t.as_str(), T => rows::<T>(&js, &what, pools, &mut rng, &mut rep));
            }
            rep.finish()
        }
        "math" => {
            let mut rep = Report::new();
            let mut rng = Rng::new(seed, 43);
            math(&arg(args, "--graph").expect("TOOL: --graph"), &mut rng, arg_u(args, "--rounds", 2) as usize, &mut rep);
            rep.finish()
        }
        "record" => {
            let mut sink = Sink::new(&arg(args, "--out").expect("TOOL: --out"), arg_u(args, "--shards", 4) as usize);
            let mut rng = Rng::new(seed, 47);
            let focus = arg(args, "--focus").unwrap_or("all".into());
            let foc: Vec<String> = if focus == "all" { ALL.iter().map(|x| x.to_string()).collect() } else { focus.split(',').map(|x| x.to_string()).collect() };
            let (n, len) = (arg_u(args, "--histories", 10), arg_u(args, "--len", 40) as usize);
            for t in &types {
                for _ in 0..n {
                    with_val!(t.as_str(), T => history::<T>(&mut rng, &mut sink, &foc, len));
                }
            }
            sink.flush();
            println!("STATS histories={} events={}", sink.histories, sink.events);
            0
        }
        "faults" => {
            let mut sink = Sink::new(&arg(args, "--out").expect("TOOL: --out"), arg_u(args, "--shards", 4) as usize);
            let mut rng = Rng::new(seed, 53);
            let foc: Vec<String> = arg(args, "--focus").expect("TOOL: --focus").split(',').map(|x| x.to_string()).collect();
            let (n, tries) = (arg_u(args, "--histories", 10), arg_u(args, "--tries", 3) as usize);
            for t in &types {
                for _ in 0..n {
                    match t.as_str() {
                        "brittle" => fault_histories::<Brit>(&mut rng, &mut sink, &foc, tries, false),
                        "i8" => fault_histories::<i8>(&mut rng, &mut sink, &foc, tries, true),
                        o => panic!("TOOL: type {}", o),
                    }
                }
            }
            sink.flush();
            println!("STATS histories={} events={}", sink.histories, sink.events);
            0
        }
        _ => panic!("TOOL: mode {}", mode),
    }
}
