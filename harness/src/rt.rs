//! Run-time accounting shared by all drivers: tokens for slices, the log of user callbacks, panic
//! injection, and the list of faults noticed outside of any trace ("double drop", "use of a dead
//! slice", ...).
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, AtomicUsize, AtomicU8, Ordering::SeqCst};
use std::sync::Mutex;

pub const MAX_TOK: usize = 1 << 24;
static NEXT_TOK: AtomicUsize = AtomicUsize::new(1);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
static FAULTS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static NFAULTS: AtomicUsize = AtomicUsize::new(0);
pub static CLONES: AtomicU64 = AtomicU64::new(0);

// 0 = never used, 1 = live, 2 = dropped
static TOK: once::Table = once::Table;
mod once {
    use super::*;
    pub struct Table;
    static mut T: Option<Box<[AtomicU8]>> = None;
    static INIT: std::sync::Once = std::sync::Once::new();
    impl Table {
        pub fn get(&self, i: usize) -> &'static AtomicU8 {
            INIT.call_once(|| unsafe {
                let mut v = Vec::with_capacity(MAX_TOK);
                v.resize_with(MAX_TOK, || AtomicU8::new(0));
                T = Some(v.into_boxed_slice());
            });
            #[allow(static_mut_refs)]
            unsafe { &T.as_ref().unwrap()[i % MAX_TOK] }
        }
    }
}

pub fn fault(s: impl Into<String>) {
    let s = s.into();
    NFAULTS.fetch_add(1, SeqCst);
    if let Ok(mut f) = FAULTS.lock() {
        if f.len() < 50 { f.push(s) }
    }
}
pub fn take_faults() -> Vec<String> {
    NFAULTS.store(0, SeqCst);
    std::mem::take(&mut *FAULTS.lock().unwrap_or_else(|e| e.into_inner()))
}

pub fn tok_new() -> u32 {
    let mut t = NEXT_TOK.fetch_add(1, SeqCst);
    if t >= MAX_TOK - 8 {
        // wrap: only tokens that are not live are taken again
        loop {
            t = t % (MAX_TOK - 8) + 1;
            if TOK.get(t).load(SeqCst) != 1 { break }
            t += 1;
        }
        NEXT_TOK.store(t + 1, SeqCst);
    }
    TOK.get(t).store(1, SeqCst);
    LIVE.fetch_add(1, SeqCst);
    life('n', t as u32);
    t as u32
}
pub fn tok_drop(t: u32) {
    life('d', t);
    if t == 0 || t as usize >= MAX_TOK { fault(format!("drop of garbage slice (token {t})")); return }
    match TOK.get(t as usize).swap(2, SeqCst) {
        1 => { LIVE.fetch_sub(1, SeqCst); }
        2 => fault("slice dropped twice"),
        _ => fault(format!("drop of a slice that never existed (token {t})")),
    }
}
pub fn tok_live(t: u32) -> bool { (t as usize) < MAX_TOK && t != 0 && TOK.get(t as usize).load(SeqCst) == 1 }
pub fn live() -> usize { LIVE.load(SeqCst) }

thread_local! {
    static LIFE_ON: Cell<bool> = const { Cell::new(false) };
    static LIFE: RefCell<Vec<(char, u32)>> = const { RefCell::new(Vec::new()) };
}
/// What happens to a slice: n = made, d = dropped, u = used by the tree, r = shown to the caller, x = overwritten memory
pub fn life(k: char, t: u32) {
    if LIFE_ON.try_with(|l| l.get()).unwrap_or(false) { crate::alloc::untracked(|| LIFE.with(|l| l.borrow_mut().push((k, t)))) }
}
pub fn life_start() { LIFE_ON.with(|l| l.set(true)); LIFE.with(|l| l.borrow_mut().clear()); }
pub fn life_stop() { LIFE_ON.with(|l| l.set(false)); }
pub fn life_take() -> Vec<(char, u32)> { LIFE.with(|l| std::mem::take(&mut *l.borrow_mut())) }

/// One call from the tree into the slice type
#[derive(Clone, Debug)]
pub enum Call { Split(String, String), Join(String, String, bool) }

thread_local! {
    pub static LOG: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
    pub static LOGGING: Cell<bool> = const { Cell::new(false) };
    /// user callbacks since `arm`
    pub static IN_CALL: Cell<bool> = const { Cell::new(false) };
    pub static TICK: Cell<u64> = const { Cell::new(0) };
    pub static ARMED: Cell<u64> = const { Cell::new(0) };
    pub static COUNT_OPS: Cell<u64> = const { Cell::new(0) };
    pub static FIRED: RefCell<String> = const { RefCell::new(String::new()) };
}

pub struct Injected;
/// Called at the start of every user callback: panics when it is told to; true: give a wrong answer
#[inline]
pub fn tick(what: &'static str) -> bool {
    let a = ARMED.try_with(|a| a.get()).unwrap_or(0);
    if a == 0 || !IN_CALL.with(|c| c.get()) || std::thread::panicking() { return false }
    let n = TICK.with(|t| { t.set(t.get() + 1); t.get() });
    let lies = LIES.with(|l| l.get());
    if lies > 1 && n > a { return lie() % lies as u64 == 0 }
    if n == a {
        FIRED.with(|f| *f.borrow_mut() = what.to_string());
        if lies > 0 { return true }
        ARMED.with(|a| a.set(u64::MAX));
        std::panic::panic_any(Injected);
    }
    false
}
thread_local! {
    /// 0: `arm` makes a call panic; 1: one call gives a wrong answer; n > 1: every n-th from then on
    pub static LIES: Cell<u32> = const { Cell::new(0) };
    static LIE: Cell<u64> = const { Cell::new(0) };
}
pub fn lies(n: u32, seed: u64) { LIES.with(|l| l.set(n)); LIE.with(|l| l.set(seed)) }
pub fn lying() -> bool { LIES.with(|l| l.get()) > 0 }
/// something arbitrary
pub fn lie() -> u64 { LIE.with(|l| { let mut r = Rng(l.get()); let x = r.next(); l.set(r.0); x }) }
/// `n` = u64::MAX counts without firing
pub fn arm(n: u64) { TICK.with(|t| t.set(0)); ARMED.with(|a| a.set(n)); FIRED.with(|f| f.borrow_mut().clear()); }
pub fn disarm() -> u64 { ARMED.with(|a| a.set(0)); TICK.with(|t| t.get()) }
pub fn fired() -> String { FIRED.with(|f| f.borrow().clone()) }

pub fn log_start() { LOG.with(|l| l.borrow_mut().clear()); LOGGING.with(|l| l.set(true)); }
pub fn log_stop() -> Vec<Call> { LOGGING.with(|l| l.set(false)); LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
pub fn log_call(c: impl FnOnce() -> Call) {
    if LOGGING.with(|l| l.get()) { LOG.with(|l| l.borrow_mut().push(c())) }
}
#[inline]
pub fn op_count() { let _ = COUNT_OPS.try_with(|c| c.set(c.get() + 1)); }
pub fn ops() -> u64 { COUNT_OPS.with(|c| c.get()) }

thread_local! {
    static PROBE: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
    static LINKS: RefCell<std::collections::HashMap<u32, Box<dyn FnOnce()>>> = RefCell::new(Default::default());
}
/// Something to be asked from inside of user code
pub fn probe_set(f: Option<Box<dyn FnMut()>>) { PROBE.with(|p| *p.borrow_mut() = f) }
pub fn probe() {
    let f = PROBE.try_with(|p| p.try_borrow_mut().ok().and_then(|mut p| p.take())).ok().flatten();
    if let Some(mut f) = f {
        crate::alloc::untracked(|| f());
        PROBE.with(|p| *p.borrow_mut() = Some(f));
    }
}
/// What is to go when a slice goes
pub fn link(tok: u32, f: Box<dyn FnOnce()>) { LINKS.with(|l| { if let Some(old) = l.borrow_mut().insert(tok, f) { std::mem::forget(old) } }) }
pub fn linked(tok: u32) -> bool { LINKS.with(|l| l.borrow().contains_key(&tok)) }
pub fn unlink(tok: u32) {
    let f = LINKS.try_with(|l| l.borrow_mut().remove(&tok)).ok().flatten();
    if let Some(f) = f { f() }
}
pub fn unlink_none() { LINKS.with(|l| for (_, f) in l.borrow_mut().drain() { std::mem::forget(f) }) }

// ---- randomness -------------------------------------------------------------------------------
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x9E3779B97F4A7C15); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, pct: u64) -> bool { self.below(100) < pct }
}

thread_local! { static AT: RefCell<(&'static str, u32)> = const { RefCell::new(("", 0)) }; }
/// Panic hook: remembers where
pub fn at(i: &std::panic::PanicHookInfo) {
    if let Some(l) = i.location() {
        // (locations live as long as the program)
        let f: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(l.file()) };
        let _ = AT.try_with(|a| if let Ok(mut a) = a.try_borrow_mut() { *a = (f, l.line()) });
    }
}
/// is the place that was thought unreachable one where release builds do not even look?
fn relied_upon() -> bool {
    thread_local! { static SEEN: RefCell<std::collections::HashMap<(&'static str, u32), bool>> = RefCell::new(Default::default()); }
    let a = AT.with(|a| *a.borrow());
    SEEN.with(|s| *s.borrow_mut().entry(a).or_insert_with(|| {
        let t = std::fs::read_to_string(a.0).unwrap_or_default();
        let r = t.lines().nth(a.1.wrapping_sub(1) as usize).is_some_and(|l| l.contains("weak_unreachable"));
        if std::env::var("VERBOSE_AT").is_ok() { eprintln!("unreachable: {a:?} {r}") }
        r
    }))
}
/// Runs `f`, turning a panic into `Err(message)`
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = IN_CALL.with(|c| c.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_CALL.with(|c| c.set(old));
    match r {
        Ok(r) => Ok(r),
        Err(e) => Err(crate::alloc::untracked(|| {
            let s: String = if e.is::<Injected>() { "injected".into() }
                else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
                else { "?".into() };
            // what is checked by debug builds only, release builds rely on
            if s.starts_with("debug assertion failed") || s.starts_with("internal error: entered unreachable code") && relied_upon() { fault(format!("undefined behaviour in release builds: {s}")) }
            s
        })),
    }
}
