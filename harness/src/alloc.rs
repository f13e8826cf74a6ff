//! Counting allocator: the largest block and the peak of live bytes requested by the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}

fn note(grow: i64, block: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + grow;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
    let _ = BIGGEST.try_with(|b| b.set(b.get().max(block)));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, l.size());
        let _ = BLOCKS.try_with(|b| b.set(b.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), 0);
        let _ = BLOCKS.try_with(|b| b.set(b.get() - 1));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, l.size());
        let _ = BLOCKS.try_with(|b| b.set(b.get() + 1));
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64, n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

/// runs `f`; -> (result, peak of additional live bytes, largest block, bytes still live, blocks still live)
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, i64, usize, i64, i64) {
    let l0 = LIVE.with(|l| l.get());
    let b0 = BLOCKS.with(|b| b.get());
    PEAK.with(|p| p.set(l0));
    BIGGEST.with(|b| b.set(0));
    let r = f();
    let l1 = LIVE.with(|l| l.get());
    (r, PEAK.with(|p| p.get()) - l0, BIGGEST.with(|b| b.get()), l1 - l0, BLOCKS.with(|b| b.get()) - b0)
}
