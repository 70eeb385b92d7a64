//! Element types for circular buffers, and the ledger of tracked elements.
use advanced_collections::circular_buffer::CircularBuffer;
use crate::util::loose;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::iter::FromIterator;
use std::rc::Rc;

// A fault can be armed to fire at the n-th callback into user code.
thread_local! {
    static FAULT: Cell<i64> = const { Cell::new(0) };
    static CALLBACKS: Cell<i64> = const { Cell::new(0) };
    static FIRED: Cell<&'static str> = const { Cell::new("") };
}
pub fn arm(n: i64) {
    FAULT.with(|f| f.set(n));
    CALLBACKS.with(|f| f.set(0));
    FIRED.with(|f| f.set(""));
}
/// which callback panicked since the fault was armed
pub fn fired() -> &'static str {
    FIRED.with(|f| f.get())
}
pub fn disarm() -> i64 {
    FAULT.with(|f| f.set(0));
    CALLBACKS.with(|f| f.get())
}
pub fn callback() {
    callback_in("?")
}
pub fn callback_in(what: &'static str) {
    CALLBACKS.with(|c| c.set(c.get() + 1));
    let n = FAULT.with(|f| f.get());
    if n > 0 && !std::thread::panicking() {
        FAULT.with(|f| f.set(n - 1));
        if n == 1 {
            FIRED.with(|f| f.set(what));
            panic!("injected");
        }
    }
}

#[derive(Default)]
pub struct Ledger {
    pub next: i64,
    pub dead: Vec<bool>,
    pub made: Vec<i64>,
    pub cloned: Vec<(i64, i64)>,
    pub dropped: Vec<i64>,
    pub bad: i64,
}
thread_local! { pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger{next:1, ..Default::default()}); }
pub fn ledger_reset() {
    TOKENS.with(|t| t.set(0));
    LEDGER.with(|l| *l.borrow_mut() = Ledger { next: 1, dead: vec![false], ..Default::default() });
}
/// (clones, drops, garbage accesses) since the last call
pub fn ledger_take() -> (Vec<i64>, Vec<(i64, i64)>, Vec<i64>, i64) {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        let b = l.bad;
        l.bad = 0;
        (
            std::mem::take(&mut l.made),
            std::mem::take(&mut l.cloned),
            std::mem::take(&mut l.dropped),
            b,
        )
    })
}

pub trait Elem: Sized + 'static {
    const NAME: &'static str;
    const CLONES: bool = false;
    fn make(id: i64) -> Self;
    fn id(&self) -> i64;
    fn norm(id: i64) -> i64 {
        id
    }
    fn uid(&self) -> i64 {
        0
    }
    /// hint: None for a plain slice, or which honest size hint to give
    fn extend_ref(_c: &mut CircularBuffer<Self>, _v: &[Self], _hint: Option<usize>) {
        unreachable!()
    }
    fn extend_cb_ref(_c: &mut CircularBuffer<Self>, _v: &CircularBuffer<Self>) {
        unreachable!()
    }
    fn from_ref(_v: &[Self], _hint: Option<usize>) -> CircularBuffer<Self> {
        unreachable!()
    }
    fn clone_cb(_c: &CircularBuffer<Self>) -> CircularBuffer<Self> {
        unreachable!()
    }
    fn clone_from_cb(_d: &mut CircularBuffer<Self>, _c: &CircularBuffer<Self>) {
        unreachable!()
    }
    const ORDERED: bool = false;
    /// eq ne against a slice
    fn compare_slice(_a: &CircularBuffer<Self>, _b: &[Self]) -> Option<Vec<i64>> {
        None
    }
    /// eq ne lt le gt ge partial_cmp, see Deque!Compare; None if the type has no order
    fn compare(_a: &CircularBuffer<Self>, _b: &CircularBuffer<Self>) -> Option<Vec<i64>> {
        None
    }
}

fn ord(o: Option<Ordering>) -> i64 {
    match o {
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
        None => 2,
    }
}

macro_rules! clone_part {
    () => {
        const CLONES: bool = true;
        fn extend_ref(c: &mut CircularBuffer<Self>, v: &[Self], hint: Option<usize>) {
            match hint {
                None => c.extend(v.iter()),
                Some(m) => c.extend(loose(v.iter(), m)),
            }
        }
        fn extend_cb_ref(c: &mut CircularBuffer<Self>, v: &CircularBuffer<Self>) {
            c.extend(v)
        }
        fn from_ref(v: &[Self], hint: Option<usize>) -> CircularBuffer<Self> {
            match hint {
                None => CircularBuffer::from_iter(v),
                Some(m) => CircularBuffer::from_iter(loose(v.iter(), m)),
            }
        }
        fn clone_cb(c: &CircularBuffer<Self>) -> CircularBuffer<Self> {
            c.clone()
        }
        fn clone_from_cb(d: &mut CircularBuffer<Self>, c: &CircularBuffer<Self>) {
            d.clone_from(c)
        }
    };
}
macro_rules! partial_part {
    ($full:expr) => {
        const ORDERED: bool = true;
        fn compare_slice(a: &CircularBuffer<Self>, b: &[Self]) -> Option<Vec<i64>> {
            let r = vec![(*a == *b) as i64, (*a != *b) as i64];
            let r2 = vec![(*a == b) as i64, (*a != b) as i64];
            Some(if r == r2 { r } else { vec![r[0], r[1], r2[0], r2[1]] })
        }
        fn compare(a: &CircularBuffer<Self>, b: &CircularBuffer<Self>) -> Option<Vec<i64>> {
            let i = |x: bool| x as i64;
            let mut r = vec![i(a == b), i(a != b), i(a < b), i(a <= b), i(a > b), i(a >= b), ord(a.partial_cmp(b))];
            // against slices: the same verdict is expected
            let (x, y) = b.slices();
            if y.is_empty() {
                if i(*a == *x) != r[0] || i(*a == x) != r[0] || i(*a != *x) != r[1] || i(*a != x) != r[1] {
                    r.push(9);
                }
            }
            #[allow(clippy::redundant_closure_call)]
            ($full)(a, b, &mut r);
            Some(r)
        }
    };
}
macro_rules! ord_part {
    () => {
        partial_part!(|a: &CircularBuffer<Self>, b: &CircularBuffer<Self>, r: &mut Vec<i64>| {
            if ord(Some(a.cmp(b))) != r[6] {
                r.push(8);
            }
            let (lo, hi) = if r[6] == 1 { (b, a) } else { (a, b) };
            let (min, max) = (a.clone().min(b.clone()), a.clone().max(b.clone()));
            let mid = a.clone().clamp(lo.clone(), hi.clone());
            if !min.iter().eq(lo.iter()) || !max.iter().eq(hi.iter()) || !mid.iter().eq(a.iter()) {
                r.push(7);
            }
        });
    };
}
macro_rules! elem {
    ($t:ty, $n:expr, $make:expr, $id:expr, $norm:expr) => {
        impl Elem for $t {
            const NAME: &'static str = $n;
            fn make(id: i64) -> Self {
                ($make)(id)
            }
            fn id(&self) -> i64 {
                ($id)(self)
            }
            fn norm(id: i64) -> i64 {
                ($norm)(id)
            }
            clone_part!();
            ord_part!();
        }
    };
}

elem!(i32, "i32", |i| i as i32, |x: &i32| *x as i64, |i| i);
elem!(i64, "i64", |i: i64| i * 1_000_000_007, |x: &i64| x / 1_000_000_007, |i| i);
elem!(u8, "u8", |i: i64| (i & 255) as u8, |x: &u8| *x as i64, |i: i64| i & 255);
elem!(u128, "u128", |i: i64| (i as u128) << 70 | 5, |x: &u128| (x >> 70) as i64, |i| i);
elem!(bool, "bool", |i: i64| i & 1 == 1, |x: &bool| *x as i64, |i: i64| i & 1);
elem!((), "unit", |_| (), |_: &()| 0, |_| 0);
elem!(char, "char", |i: i64| char::from_u32(0x4E00 + (i as u32 & 0x3FFF)).unwrap(), |x: &char| (*x as u32 - 0x4E00) as i64, |i: i64| i & 0x3FFF);
elem!(String, "String", |i| format!("{:012}", i), |x: &String| x.parse().unwrap(), |i| i);
elem!(Box<i32>, "Box", |i| Box::new(i as i32), |x: &Box<i32>| **x as i64, |i| i);
elem!(Rc<i64>, "Rc", Rc::new, |x: &Rc<i64>| **x, |i| i);
elem!(Option<Box<i64>>, "OptBox", |i: i64| if i == 0 { None } else { Some(Box::new(i)) }, |x: &Option<Box<i64>>| x.as_ref().map_or(0, |b| **b), |i| i);
elem!([u64; 5], "array", |i: i64| [7, i as u64, 1, 2, 3], |x: &[u64; 5]| x[1] as i64, |i| i);
elem!(Vec<u8>, "Vec", |i: i64| i.to_be_bytes().to_vec(), |x: &Vec<u8>| i64::from_be_bytes(x[..].try_into().unwrap()), |i| i);
elem!(std::num::NonZeroU8, "NonZeroU8", |i: i64| std::num::NonZeroU8::new((i % 251) as u8 + 1).unwrap(), |x: &std::num::NonZeroU8| x.get() as i64 - 1, |i: i64| i % 251);
elem!(&'static str, "&str", static_str, |x: &&'static str| x.parse().unwrap(), |i| i);
elem!((u8, &'static i64), "tuple", |i: i64| (i as u8, static_i64(i)), |x: &(u8, &'static i64)| *x.1, |i| i);

fn static_str(i: i64) -> &'static str {
    thread_local! { static C: RefCell<HashMap<i64, &'static str>> = RefCell::new(HashMap::new()); }
    C.with(|c| *c.borrow_mut().entry(i).or_insert_with(|| Box::leak(format!("{:012}", i).into_boxed_str())))
}
fn static_i64(i: i64) -> &'static i64 {
    thread_local! { static C: RefCell<HashMap<i64, &'static i64>> = RefCell::new(HashMap::new()); }
    C.with(|c| *c.borrow_mut().entry(i).or_insert_with(|| Box::leak(Box::new(i))))
}

impl Elem for f64 {
    const NAME: &'static str = "f64";
    fn make(id: i64) -> Self {
        if id < 0 {
            f64::NAN
        } else {
            id as f64
        }
    }
    fn id(&self) -> i64 {
        if self.is_nan() {
            -1
        } else {
            *self as i64
        }
    }
    clone_part!();
    partial_part!(|_: &CircularBuffer<Self>, _: &CircularBuffer<Self>, _: &mut Vec<i64>| ());
}

/// no trait at all, over-aligned
#[repr(align(64))]
pub struct Plain(i64);
impl Elem for Plain {
    const NAME: &'static str = "plain";
    fn make(id: i64) -> Self {
        Plain(id)
    }
    fn id(&self) -> i64 {
        self.0
    }
}

/// a function pointer
impl Elem for fn() -> i64 {
    const NAME: &'static str = "fn";
    fn make(id: i64) -> Self {
        fn f<const N: i64>() -> i64 {
            N
        }
        [f::<0>, f::<1>, f::<2>, f::<3>, f::<4>, f::<5>, f::<6>][(id % 7) as usize]
    }
    fn id(&self) -> i64 {
        self()
    }
    fn norm(id: i64) -> i64 {
        id % 7
    }
}

// zero-sized elements are not distinguishable, but they can be counted
thread_local! { static TOKENS: Cell<i64> = const { Cell::new(0) }; }
pub const UNCOUNTED: i64 = -1_000_000_000;
/// How many zero-sized elements with a destructor exist; UNCOUNTED for every other type.
pub fn alive<T: Elem>() -> i64 {
    if T::NAME == "token" {
        TOKENS.with(|t| t.get())
    } else {
        UNCOUNTED
    }
}
/// An element without size, but with a destructor.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Token(());
impl Drop for Token {
    fn drop(&mut self) {
        TOKENS.with(|t| t.set(t.get() - 1));
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        Token::make(0)
    }
}
impl Elem for Token {
    const NAME: &'static str = "token";
    fn make(_: i64) -> Self {
        TOKENS.with(|t| t.set(t.get() + 1));
        Token(())
    }
    fn id(&self) -> i64 {
        0
    }
    fn norm(_: i64) -> i64 {
        0
    }
    clone_part!();
    ord_part!();
}

const COOKIE: i64 = 0x5A5A_1234_77EE_0F0F;
/// An element every construction, clone and drop of which is recorded.
pub struct Tr {
    uid: i64,
    val: i64,
    cookie: i64,
}
impl Tr {
    fn genuine(&self) -> bool {
        self.cookie == COOKIE ^ self.uid.rotate_left(7) ^ self.val
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        let ok = self.genuine();
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            if !ok {
                l.bad += 1;
            } else {
                let u = self.uid;
                l.dropped.push(u);
                if (u as usize) < l.dead.len() {
                    l.dead[u as usize] = true;
                }
            }
        });
        callback();
    }
}
fn new_uid() -> i64 {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        let u = l.next;
        l.next += 1;
        l.dead.push(false);
        u
    })
}
impl Clone for Tr {
    fn clone(&self) -> Self {
        callback();
        if !self.genuine() {
            LEDGER.with(|l| l.borrow_mut().bad += 1);
            let uid = new_uid();
            return Tr { uid, val: -77, cookie: COOKIE ^ uid.rotate_left(7) ^ -77 };
        }
        let uid = new_uid();
        LEDGER.with(|l| l.borrow_mut().cloned.push((self.uid, uid)));
        Tr { uid, val: self.val, cookie: COOKIE ^ uid.rotate_left(7) ^ self.val }
    }
}
impl PartialEq for Tr {
    fn eq(&self, o: &Tr) -> bool {
        callback();
        self.val == o.val
    }
}
impl Eq for Tr {}
impl PartialOrd for Tr {
    fn partial_cmp(&self, o: &Tr) -> Option<Ordering> {
        callback();
        Some(self.val.cmp(&o.val))
    }
}
impl Ord for Tr {
    fn cmp(&self, o: &Tr) -> Ordering {
        callback();
        self.val.cmp(&o.val)
    }
}
impl Elem for Tr {
    const NAME: &'static str = "tracked";
    fn make(id: i64) -> Self {
        let uid = new_uid();
        LEDGER.with(|l| l.borrow_mut().made.push(uid));
        Tr { uid, val: id, cookie: COOKIE ^ uid.rotate_left(7) ^ id }
    }
    fn id(&self) -> i64 {
        if self.genuine() {
            self.val
        } else {
            -88
        }
    }
    fn uid(&self) -> i64 {
        if self.genuine() {
            self.uid
        } else {
            -88
        }
    }
    clone_part!();
    ord_part!();
}
