//! Native stand-in for the Kani API: values come from a recorded counterexample or from a
//! generator. Only used to exhibit a failing input on the real code after a proof has failed.
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

use crate::dict::DICT;

pub struct Source {
    /// Values Kani wrote out, in the order of the `any` calls (one entry per primitive).
    pub recorded: Option<Vec<Vec<u8>>>,
    pub next: usize,
    pub rng: u64,
    /// The source file whose numbers this run draws on.
    pub file: u64,
}
/// What was handed out: shown when the harness fails (or does not end).
pub static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
static RUNS: AtomicU64 = AtomicU64::new(0);
fn note(t: String) { LOG.lock().unwrap().push(t) }
thread_local! {
    pub static SRC: RefCell<Source> = const { RefCell::new(Source { recorded: None, next: 0, rng: 1, file: 0 }) };
}
/// Marker panic: the input does not satisfy the harness's assumptions.
pub struct Rejected;

impl Source {
    fn rnd(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// A number written in the source or the specification, or one next to it.
    fn word(&mut self) -> u64 {
        if DICT.is_empty() { return self.rnd() }
        let file = DICT[self.file as usize % DICT.len()];
        let x = file[self.rnd() as usize % file.len()];
        x.wrapping_add(match self.rnd() % 4 { 0 => 1, 1 => u64::MAX, _ => 0 })
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        if let Some(r) = &self.recorded {
            let v = r.get(self.next).cloned().unwrap_or_else(|| vec![0; n]);
            self.next += 1;
            let mut v = v;
            v.resize(n, 0);
            return v;
        }
        let k = self.rnd();
        let mut x = match k % 10 {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << (self.rnd() % (8 * n as u64)),
            3 => !(1 << (self.rnd() % (8 * n as u64))),
            4 => self.rnd() % 64,
            5..=7 => self.word(),
            _ => self.rnd(),
        };
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(x as u8);
            x >>= 8;
        }
        v
    }
}

pub trait Arbitrary: Sized {
    fn make() -> Self;
}
macro_rules! int {
    ($($t:ty),*) => {$(impl Arbitrary for $t {
        fn make() -> Self {
            const N: usize = core::mem::size_of::<$t>();
            SRC.with(|s| {
                let v = s.borrow_mut().bytes(N);
                <$t>::from_le_bytes(v.try_into().unwrap())
            })
        }
    })*};
}
int!(u8, u16, u32, u64, usize);
impl Arbitrary for bool {
    fn make() -> Self { u8::make() & 1 == 1 }
}
impl<T: Arbitrary, const N: usize> Arbitrary for [T; N] {
    fn make() -> Self { core::array::from_fn(|_| T::make()) }
}

pub fn any_slice() -> &'static [u8] {
    let replay = SRC.with(|s| s.borrow().recorded.is_some());
    let (len, data): (usize, Vec<u8>) = if replay {
        let len = usize::make();
        let a: [u8; 128] = Arbitrary::make();
        if len > 128 { std::panic::panic_any(Rejected) }
        (len, a[..len].to_vec())
    } else {
        let len = SRC.with(|s| {
            let mut s = s.borrow_mut();
            match s.rnd() % 8 { 0 => s.rnd() % 16, 1..=4 => s.rnd() % 96, 5 => 256, 6 if s.rnd() % 8 == 0 => s.rnd() % 4096, _ => s.rnd() % 300 }
        }) as usize;
        let mode = SRC.with(|s| s.borrow_mut().rnd() % 4);
        let mut data: Vec<u8> = (0..len).map(|_| match mode { 0 => 0xff, 1 => SRC.with(|s| s.borrow_mut().rnd() as u8), _ => u8::make() }).collect();
        SRC.with(|s| {
            let mut s = s.borrow_mut();
            for _ in 0..s.rnd() % 4 {
                let w = s.word().to_le_bytes();
                let n = 2 << (s.rnd() % 2);
                let at = s.rnd() as usize % (len.min(64) + 1);
                if at + n <= len { data[at..at + n].copy_from_slice(&w[..n]) }
            }
        });
        (len, data)
    };
    note(format!("slice of {} bytes: {:02x?}", len, data));
    Box::leak(data.into_boxed_slice())
}

/// Names the harnesses use.
pub mod kani {
    pub fn any<T: super::Arbitrary + std::fmt::Debug>() -> T {
        let v = T::make();
        super::note(format!("{} = {:?}", std::any::type_name::<T>(), v));
        v
    }
    pub fn assume(c: bool) {
        if !c { std::panic::panic_any(super::Rejected) }
    }
    #[allow(unused_macros)]
    macro_rules! cover { ($($t:tt)*) => { let _ = || { let _ = ($($t)*); }; }; }
    #[allow(unused_imports)]
    pub(crate) use cover;
}

fn begin() {
    LOG.lock().unwrap().clear();
    RUNS.fetch_add(1, Ordering::SeqCst);
}
/// A run that takes longer than this many seconds does not end.
const HANG: u64 = 8;
fn watchdog() {
    let mut seen = 0;
    loop {
        std::thread::sleep(std::time::Duration::from_secs(HANG));
        let now = RUNS.load(Ordering::SeqCst);
        if now == seen && now != 0 {
            let log = LOG.lock().unwrap().join("\n  ");
            println!("FAILING-INPUT (found by {now} native runs)\nfailing input:\n  {log}\nfailure on the real code: no result after {HANG} s");
            std::process::exit(1);
        }
        seen = now;
    }
}
/// Runs `h` on one input. `Some(text)` when it fails: the input and the failure.
fn run_one(h: fn()) -> Option<String> {
    match std::panic::catch_unwind(h) {
        Ok(()) => None,
        Err(e) if e.is::<Rejected>() => None,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let log = LOG.lock().unwrap().join("\n  ");
            Some(format!("failing input:\n  {log}\nfailure on the real code: {m}"))
        }
    }
}
/// Replays recorded values, then searches; prints the first failing input and exits 1.
pub fn main(h: fn(), recorded: Vec<Vec<Vec<u8>>>, seed: u64, seconds: u64) -> ! {
    std::thread::spawn(watchdog);
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    for r in recorded {
        SRC.with(|s| { let mut s = s.borrow_mut(); s.recorded = Some(r); s.next = 0; });
        begin();
        if let Some(t) = run_one(h) {
            println!("FAILING-INPUT (from the verifier's counterexample)\n{t}");
            std::process::exit(1);
        }
    }
    let t0 = std::time::Instant::now();
    let mut n = 0u64;
    while t0.elapsed().as_secs() < seconds {
        for _ in 0..1000 {
            SRC.with(|s| {
                let mut s = s.borrow_mut();
                s.recorded = None;
                s.rng = (seed << 40) ^ n;
                s.file = s.rnd();
            });
            begin();
            n += 1;
            if let Some(t) = run_one(h) {
                println!("FAILING-INPUT (found by {n} native runs)\n{t}");
                std::process::exit(1);
            }
        }
    }
    std::panic::set_hook(hook);
    println!("no failing input in {n} native runs");
    std::process::exit(0)
}
