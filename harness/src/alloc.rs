//! Counting allocator: a case may not hold more than its budget of live memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(isize::MAX) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

pub const EXIT_ALLOC: i32 = 77;

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = LIMIT.try_with(|m| {
            if v > m.get() {
                unsafe { libc::_exit(EXIT_ALLOC) }
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as isize));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// Starts a budgeted region on this thread (bytes of live memory above the present level).
pub fn set_budget(bytes: Option<isize>) {
    let now = LIVE.with(|l| l.get());
    LIMIT.with(|m| m.set(match bytes { Some(b) => now + b, None => isize::MAX }));
    PEAK.with(|p| p.set(now));
}

pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

/// Peak of live bytes since the last set_budget, relative to `base`.
pub fn peak() -> isize {
    PEAK.with(|p| p.get())
}
