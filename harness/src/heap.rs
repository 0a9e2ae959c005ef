//! Counts this thread's heap allocations: what a case leaves behind (C11) and
//! what an operation allocates (C10).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;

#[derive(Clone, Copy, Default, Debug)]
pub struct Heap {
    /// allocated and not yet released
    pub live: i64,
    pub blocks: i64,
    /// allocated so far
    pub bytes: u64,
    pub allocs: u64,
}

thread_local! {
    static HEAP: Cell<Heap> = const { Cell::new(Heap { live: 0, blocks: 0, bytes: 0, allocs: 0 }) };
    static MUTED: Cell<bool> = const { Cell::new(false) };
}

#[inline]
fn note(got: usize, gone: usize) {
    let _ = HEAP.try_with(|h| {
        if MUTED.try_with(|m| m.get()).unwrap_or(true) {
            return;
        }
        let mut x = h.get();
        x.live += got as i64 - gone as i64;
        x.blocks += (got > 0) as i64 - (gone > 0) as i64;
        x.bytes += got as u64;
        x.allocs += (got > 0) as u64;
        h.set(x);
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(0, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n, l.size());
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static COUNTING: Counting = Counting;

pub fn heap() -> Heap {
    HEAP.with(|h| h.get())
}
/// run without counting (the harness's own bookkeeping)
pub fn muted<R>(f: impl FnOnce() -> R) -> R {
    let was = MUTED.with(|m| m.replace(true));
    let r = f();
    MUTED.with(|m| m.set(was));
    r
}
/// what f allocates: (bytes, allocations)
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let a = heap();
    let r = f();
    let b = heap();
    (r, b.bytes - a.bytes, b.allocs - a.allocs)
}
