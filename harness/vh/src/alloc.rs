//! Allocation ledger: a global allocator counting this thread's events and the
//! bytes/blocks outstanding. Install with `vh::counting_alloc!()` in a binary.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
}

/// (allocation events incl. realloc, frees, live bytes) of this thread.
pub fn snapshot() -> (u64, u64, i64) {
    (ALLOCS.with(|c| c.get()), FREES.with(|c| c.get()), LIVE_BYTES.with(|c| c.get()))
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = LIVE_BYTES.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = LIVE_BYTES.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = FREES.try_with(|c| c.set(c.get() + 1));
        let _ = LIVE_BYTES.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = LIVE_BYTES.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        System.realloc(p, l, n)
    }
}

#[macro_export]
macro_rules! counting_alloc {
    () => {
        #[global_allocator]
        static COUNTING: $crate::alloc::Counting = $crate::alloc::Counting;
    };
}
