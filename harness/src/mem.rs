//! Counts what the current thread allocates.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static NOW: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}
fn add(n: isize) {
    let _ = NOW.try_with(|c| {
        c.set(c.get() + n);
        let v = c.get();
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
fn big(n: usize) {
    let _ = LARGEST.try_with(|c| {
        if n > c.get() {
            c.set(n)
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        big(l.size());
        if l.size() > 16 << 30 {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as isize)
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        big(l.size());
        if l.size() > 16 << 30 {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as isize)
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
}
/// run f and return the peak of additional bytes live on this thread, and the largest single request
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    let base = NOW.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    LARGEST.with(|p| p.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get()) - base;
    (r, peak.max(0) as usize, LARGEST.with(|p| p.get()))
}
