//! Counting allocator: peak of live bytes during one run, live blocks between runs.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
static BLOCKS: AtomicIsize = AtomicIsize::new(0);
static LARGE: AtomicIsize = AtomicIsize::new(0);
static OWN: AtomicIsize = AtomicIsize::new(0);
/// Blocks larger than any buffer that is kept for reuse.
const BIG: usize = (8 << 20) + 4096;

fn block(size: usize, n: isize) {
    BLOCKS.fetch_add(n, Relaxed);
    if size > BIG {
        LARGE.fetch_add(n, Relaxed);
    }
}
/// Live blocks, and how many of them are large.
pub fn blocks() -> (isize, isize) {
    (BLOCKS.load(Relaxed), LARGE.load(Relaxed))
}

fn add(n: isize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
}

thread_local! {
    static LIB: Cell<bool> = const { Cell::new(false) };
}
/// Runs `f` with its allocations (not) attributed to the code under test.
pub fn lib<R>(on: bool, f: impl FnOnce() -> R) -> R {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            LIB.with(|l| l.set(self.0));
        }
    }
    let _back = Back(LIB.with(|l| l.replace(on)));
    f()
}
/// Live bytes that were allocated by the code under test.
pub fn lib_bytes() -> isize {
    OWN.load(Relaxed)
}

/// Every block starts with a note of whom it belongs to.
fn head(l: Layout) -> usize {
    l.align().max(16)
}
fn outer(l: Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + head(l), head(l)) }
}
unsafe fn born(p: *mut u8, l: Layout) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    add(l.size() as isize);
    block(l.size(), 1);
    let own = LIB.with(|x| x.get());
    *p = own as u8;
    if own {
        OWN.fetch_add(l.size() as isize, Relaxed);
    }
    p.add(head(l))
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        born(System.alloc(outer(l)), l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        born(System.alloc_zeroed(outer(l)), l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let p = p.sub(head(l));
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        block(l.size(), -1);
        if *p == 1 {
            OWN.fetch_sub(l.size() as isize, Relaxed);
        }
        System.dealloc(p, outer(l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p.sub(head(l)), outer(l), n + head(l));
        if q.is_null() {
            return q;
        }
        add(n as isize - l.size() as isize);
        block(l.size(), -1);
        block(n, 1);
        if *q == 1 {
            OWN.fetch_add(n as isize - l.size() as isize, Relaxed);
        }
        q.add(head(l))
    }
}

/// Starts a measurement.
pub fn start() -> isize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}
/// Peak of live bytes since `start`.
pub fn peak(start: isize) -> u64 {
    (PEAK.load(Relaxed) - start).max(0) as u64
}

/// Whether a run had to leave something behind.
static ABANDONED: AtomicBool = AtomicBool::new(false);
/// Leaks what cannot be dropped any more.
pub fn abandon<T>(x: T) {
    ABANDONED.store(true, Relaxed);
    std::mem::forget(x);
}
pub fn abandoned() -> bool {
    ABANDONED.swap(false, Relaxed)
}
