//! Notes of this thread's reads of the clock and of environment variables. The program `mon` puts its own
//! `clock_gettime`, `getenv` and so on in front of the C library's, and these report here.
use std::cell::Cell;

pub const CLOCK: usize = 0;
pub const ENVIRONMENT: usize = 1;

thread_local! {
    static SEEN: Cell<[u32; 2]> = const { Cell::new([0; 2]) };
}
pub fn note(what: usize) {
    // not while the thread is going down
    let _ = SEEN.try_with(|s| {
        let mut v = s.get();
        v[what] = v[what].saturating_add(1);
        s.set(v);
    });
}
/// what was noted on this thread since the last call
pub fn take() -> [u32; 2] {
    SEEN.with(|s| s.replace([0; 2]))
}
