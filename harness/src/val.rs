//! Instrumented values: every construction, hand-over and destruction is recorded.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU8, AtomicUsize, Ordering};
use std::sync::Mutex;

const N: usize = if cfg!(miri) { 1 << 8 } else { 1 << 20 };
const LEDGERS: usize = if cfg!(miri) { 3 } else { 40 };
const MAGIC: u32 = 0x5eed_cafe;

const UNUSED: u8 = 0;
/// owned by the library
const HELD: u8 = 1;
/// handed back to the caller
const BACK: u8 = 2;
const GONE: u8 = 3;

pub struct Ledger {
    status: [AtomicU8; N],
    next: AtomicU32,
    /// destroyed twice, or destroyed without ever having been a value
    errors: AtomicI64,
    /// tags of the values the library destroyed
    gone: Mutex<Vec<(u32, i64)>>,
    /// the destructor of this value panics (once)
    bomb: AtomicU32,
    /// cloning the value with this tag panics (once)
    clone_bomb: AtomicI64,
}

#[allow(clippy::declare_interior_mutable_const)]
const Z8: AtomicU8 = AtomicU8::new(UNUSED);
#[allow(clippy::declare_interior_mutable_const)]
const L: Ledger = Ledger {
    status: [Z8; N],
    next: AtomicU32::new(0),
    errors: AtomicI64::new(0),
    gone: Mutex::new(Vec::new()),
    bomb: AtomicU32::new(u32::MAX),
    clone_bomb: AtomicI64::new(i64::MIN),
};
static ALL: [Ledger; LEDGERS] = [L; LEDGERS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
/// Destructions of things that are not values at all.
pub static GARBAGE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static SLOT: Cell<usize> = Cell::new(usize::MAX);
}

fn slot() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            let n = NEXT_SLOT.fetch_add(1, Ordering::SeqCst);
            assert!(n < LEDGERS, "harness: too many threads");
            s.set(n);
        }
        s.get()
    })
}

/// The ledger of one case; one at a time per thread.
#[derive(Clone, Copy)]
pub struct Led(usize);

impl Led {
    /// A fresh ledger for the case starting on this thread.
    pub fn start() -> Led {
        let l = Led(slot());
        let a = &ALL[l.0];
        let n = a.next.swap(0, Ordering::SeqCst) as usize;
        for s in &a.status[..n.min(N)] {
            s.store(UNUSED, Ordering::Relaxed);
        }
        a.errors.store(0, Ordering::SeqCst);
        a.gone.lock().unwrap_or_else(|e| e.into_inner()).clear();
        a.bomb.store(u32::MAX, Ordering::SeqCst);
        a.clone_bomb.store(i64::MIN, Ordering::SeqCst);
        l
    }
    fn a(self) -> &'static Ledger {
        &ALL[self.0]
    }
    /// A new value, to be given to the library.
    pub fn val(self, tag: i64) -> Val {
        let uid = self.a().next.fetch_add(1, Ordering::SeqCst);
        assert!((uid as usize) < N, "harness: too many values in one case");
        self.a().status[uid as usize].store(HELD, Ordering::SeqCst);
        Val { magic: MAGIC, led: self.0 as u32, uid, tag }
    }
    /// The library handed the value back.
    pub fn take(self, v: Val) -> i64 {
        v.check();
        let s = self.a().status[v.uid as usize].swap(BACK, Ordering::SeqCst);
        if s != HELD {
            self.a().errors.fetch_add(1, Ordering::SeqCst);
        }
        v.tag
    }
    pub fn errors(self) -> i64 {
        self.a().errors.load(Ordering::SeqCst) + GARBAGE.load(Ordering::SeqCst) as i64
    }
    /// The tags of the values destroyed since the last call.
    pub fn gone(self) -> Vec<i64> {
        self.gone_before(u32::MAX)
    }
    /// As `gone`, leaving out values made since `mark` returned the given number.
    pub fn gone_before(self, mark: u32) -> Vec<i64> {
        let v = std::mem::take(&mut *self.a().gone.lock().unwrap_or_else(|e| e.into_inner()));
        v.into_iter().filter(|(u, _)| *u < mark).map(|(_, t)| t).collect()
    }
    pub fn mark(self) -> u32 {
        self.a().next.load(Ordering::SeqCst)
    }
    /// How many values the library owns.
    pub fn held(self) -> i64 {
        let n = self.a().next.load(Ordering::SeqCst) as usize;
        self.a().status[..n].iter().filter(|s| s.load(Ordering::Relaxed) == HELD).count() as i64
    }
    pub fn set_bomb(self, uid: u32) {
        self.a().bomb.store(uid, Ordering::SeqCst);
    }
    pub fn bomb_armed(self) -> bool {
        self.a().bomb.swap(u32::MAX, Ordering::SeqCst) != u32::MAX
    }
    pub fn set_clone_bomb(self, tag: i64) {
        self.a().clone_bomb.store(tag, Ordering::SeqCst);
    }
    pub fn clear_clone_bomb(self) {
        self.a().clone_bomb.store(i64::MIN, Ordering::SeqCst);
    }
}

#[derive(Debug)]
pub struct Val {
    magic: u32,
    led: u32,
    uid: u32,
    pub tag: i64,
}

impl Val {
    /// What a reader sees; a value that is not one, or no longer one, reads as a negative number.
    pub fn see(&self) -> i64 {
        if self.magic != MAGIC || self.led as usize >= LEDGERS || self.uid as usize >= N {
            return -7;
        }
        match ALL[self.led as usize].status[self.uid as usize].load(Ordering::SeqCst) {
            HELD => self.tag,
            _ => -8,
        }
    }
    pub fn uid(&self) -> u32 {
        self.uid
    }
    fn check(&self) {
        if self.magic != MAGIC || self.led as usize >= LEDGERS || self.uid as usize >= N {
            GARBAGE.store(true, Ordering::SeqCst);
            std::panic::panic_any("the storage handed out something that is not a value".to_string());
        }
    }
    /// A copy the harness keeps for comparison only.
    pub fn ledger(&self) -> Led {
        Led(self.led as usize)
    }
}

impl Clone for Val {
    fn clone(&self) -> Val {
        self.check();
        let l = Led(self.led as usize);
        if l.a().clone_bomb.compare_exchange(self.tag, i64::MIN, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            std::panic::panic_any("clone bomb".to_string());
        }
        l.val(self.tag)
    }
}

impl Drop for Val {
    fn drop(&mut self) {
        if self.magic != MAGIC || self.led as usize >= LEDGERS || self.uid as usize >= N {
            GARBAGE.store(true, Ordering::SeqCst);
            return;
        }
        let a = &ALL[self.led as usize];
        match a.status[self.uid as usize].swap(GONE, Ordering::SeqCst) {
            HELD => a.gone.lock().unwrap_or_else(|e| e.into_inner()).push((self.uid, self.tag)),
            BACK => {}
            _ => {
                a.errors.fetch_add(1, Ordering::SeqCst);
            }
        }
        if a.bomb.load(Ordering::SeqCst) == self.uid && !std::thread::panicking() {
            a.bomb.store(u32::MAX, Ordering::SeqCst);
            std::panic::panic_any("bomb".to_string());
        }
    }
}

/// Drops x, as usual or while a panic unwinds.
pub fn dispose<T>(x: T, unwinding: bool) {
    if unwinding {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _x = x;
            std::panic::panic_any("harness: unwinding");
        }));
    }
}
