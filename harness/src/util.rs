//! Random numbers, journal, watchdog, panic capture.
use std::cell::Cell;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j)
        }
    }
}

static JOURNAL: Mutex<Option<File>> = Mutex::new(None);
static TICK: AtomicU64 = AtomicU64::new(0);

pub fn open_journal(path: &str) {
    *JOURNAL.lock().unwrap() = Some(File::create(path).expect("TOOL: journal"));
}
/// Remember what is about to run, so that a crash or a hang can be attributed.
pub fn journal(what: &str) {
    TICK.fetch_add(1, Ordering::Relaxed);
    if let Some(f) = JOURNAL.lock().unwrap().as_ref() {
        let line = format!("{}\n\0", what);
        let _ = f.write_at(line.as_bytes(), 0);
    }
}
pub fn tick() {
    TICK.fetch_add(1, Ordering::Relaxed);
}
/// Exit code 12 if one step of the code under test takes more than `secs` seconds.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut seen = TICK.load(Ordering::Relaxed);
        let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = TICK.load(Ordering::Relaxed);
            if now != seen {
                seen = now;
                since = std::time::Instant::now();
            } else if since.elapsed().as_secs() > secs {
                eprintln!("HANG: a single step ran for more than {} s", secs);
                std::process::exit(12);
            }
        }
    });
}

thread_local! { static INSIDE: Cell<bool> = const { Cell::new(false) }; }
thread_local! { static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) }; }
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if m.starts_with("TOOL") || m.contains("TOOL:") {
            eprintln!("{} at {:?}", m, i.location());
            std::process::exit(3);
        }
        // a mistake in the harness itself must never look like a verdict (inside guarded, the
        // location may be the harness's because the code under test tracks its caller)
        if let Some(l) = i.location() {
            if !INSIDE.with(|c| c.get()) && l.file().starts_with("src/") && !m.starts_with("injected") {
                eprintln!("TOOL: harness panic {} at {}", m, l);
                std::process::exit(3);
            }
        }
        if !INSIDE.with(|c| c.get()) && !m.starts_with("injected") {
            eprintln!("PANIC {} at {:?}", m, i.location());
        }
        LAST_PANIC.with(|c| c.set(Some(m)));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|c| c.take()).unwrap_or_default()
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = INSIDE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    INSIDE.with(|c| c.set(was));
    match r {
        Ok(r) => Ok(r),
        Err(_) => Err(last_panic()),
    }
}

pub fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}
pub fn arg_u(args: &[String], k: &str, d: u64) -> u64 {
    arg(args, k).map(|s| s.parse().expect("TOOL: number argument")).unwrap_or(d)
}

/// Items of an iterator under test, never more than n + 40 of them.
pub fn lim<T, I: IntoIterator<Item = T>>(it: I, n: usize) -> Vec<T> {
    let mut v = vec![];
    for x in it {
        v.push(x);
        if v.len() >= n + 40 {
            break;
        }
    }
    v
}

/// An iterator with a chosen size hint.
pub struct Loose<I> {
    it: I,
    mode: usize,
}
pub const LOOSE: usize = 7;
pub fn loose<I: ExactSizeIterator>(it: I, mode: usize) -> Loose<I> {
    Loose { it, mode }
}
impl<I: ExactSizeIterator> Iterator for Loose<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        crate::elems::callback_in("source");
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.mode {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(usize::MAX)),
            3 => (0, Some(n)),
            4 => (0, Some(2 * n + 3)),
            5 => (n, None),
            _ => (n.saturating_sub(1), Some(n + 1)),
        }
    }
}
