//! Global allocator: counts live blocks, poisons freed memory, and (in quarantine mode) keeps freed
//! blocks out of circulation so that a read or second free of one is noticed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering::SeqCst};
use std::cell::Cell;

pub struct A;
pub static BLOCKS: AtomicIsize = AtomicIsize::new(0);
pub static QUARANTINE: AtomicBool = AtomicBool::new(false);
pub static DOUBLE_FREE: AtomicUsize = AtomicUsize::new(0);
thread_local! { static TRACK: Cell<bool> = const { Cell::new(false) }; }

// quarantine table: open addressing over freed block addresses of the tracked section
const N: usize = 1 << 20;
static TAB: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
static SIZES: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
static USED: AtomicUsize = AtomicUsize::new(0);
static LIST: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
fn slot(a: usize) -> usize { (a >> 4).wrapping_mul(0x9E3779B97F4A7C15) >> 44 }

/// address of a block that was freed since the quarantine began?
pub fn is_freed(a: usize) -> bool {
    let mut i = slot(a) % N;
    for _ in 0..N {
        match TAB[i].load(SeqCst) { 0 => return false, x if x == a => return true, _ => i = (i + 1) % N }
    }
    false
}
fn put(a: usize, layout: Layout) -> bool {
    if USED.load(SeqCst) * 2 > N { return false }
    let mut i = slot(a) % N;
    loop {
        match TAB[i].compare_exchange(0, a, SeqCst, SeqCst) {
            Ok(_) => { SIZES[i].store(layout.size(), SeqCst); LIST[USED.fetch_add(1, SeqCst)].store(i, SeqCst); return true }
            Err(_) => i = (i + 1) % N,
        }
    }
}

/// Releases all quarantined blocks, checking that nobody wrote to them meanwhile. Returns the number
/// of blocks whose poison was disturbed.
pub fn flush_quarantine() -> usize {
    let mut bad = 0;
    if USED.load(SeqCst) == 0 { return 0 }
    for x in 0..USED.load(SeqCst) {
        let i = LIST[x].load(SeqCst);
        let a = TAB[i].swap(0, SeqCst);
        if a != 0 {
            let n = SIZES[i].load(SeqCst);
            unsafe {
                let p = a as *const u8;
                for k in 0..n { if *p.add(k) != 0xDD { bad += 1; break } }
                // the unix system allocator frees without looking at the layout
                System.dealloc(a as *mut u8, Layout::from_size_align_unchecked(n, 8));
            }
        }
    }
    USED.store(0, SeqCst);
    bad
}

/// Counts (and quarantines) blocks of `f`'s thread only while `f` runs
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    let old = TRACK.with(|t| t.replace(true));
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { TRACK.with(|t| t.set(self.0)) } }
    let _g = G(old);
    f()
}
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let old = TRACK.with(|t| t.replace(false));
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { TRACK.with(|t| t.set(self.0)) } }
    let _g = G(old);
    f()
}
fn on() -> bool { TRACK.try_with(|t| t.get()).unwrap_or(false) }

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if on() { BLOCKS.fetch_add(1, SeqCst); }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if on() {
            BLOCKS.fetch_sub(1, SeqCst);
            if QUARANTINE.load(SeqCst) {
                if is_freed(p as usize) { DOUBLE_FREE.fetch_add(1, SeqCst); return }
                unsafe { std::ptr::write_bytes(p, 0xDD, l.size()) };
                if put(p as usize, l) { return }
            } else if l.size() <= 1 << 16 {
                unsafe { std::ptr::write_bytes(p, 0xDD, l.size()) };
            }
        }
        unsafe { System.dealloc(p, l) }
    }
}
pub fn blocks() -> isize { BLOCKS.load(SeqCst) }
