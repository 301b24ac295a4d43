//! Counting allocator: live and peak heap bytes per thread, plus a cap so that a runaway
//! allocation becomes an allocation failure of the guarded call instead of exhausting the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;


thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CAP: Cell<isize> = const { Cell::new(if cfg!(target_pointer_width = "64") { (3u64 << 30) as isize } else { isize::MAX }) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

#[inline]
fn add(n: isize) -> bool {
    CUR.with(|c| {
        let v = c.get() + n;
        if n > 0 && v > CAP.with(|c| c.get()) {
            return false;
        }
        c.set(v);
        if n > 0 {
            ALLOCS.with(|a| a.set(a.get() + 1));
            TOTAL.with(|a| a.set(a.get() + n as u64));
            PEAK.with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
        true
    })
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        if n > l.size() {
            // what is there already may have to be moved
            TOTAL.with(|a| a.set(a.get() + l.size() as u64));
        }
        System.realloc(p, l, n)
    }
}

/// live heap bytes of this thread (may be negative when memory moved between threads)
pub fn live() -> isize {
    CUR.with(|c| c.get())
}
/// highest live value since the last reset
pub fn peak() -> isize {
    PEAK.with(|c| c.get())
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(CUR.with(|c| c.get())))
}
pub fn allocations() -> u64 {
    ALLOCS.with(|a| a.get())
}

/// all bytes this thread ever asked for
pub fn total() -> u64 {
    TOTAL.with(|a| a.get())
}

pub fn set_cap(n: isize) {
    CAP.with(|c| c.set(n))
}
