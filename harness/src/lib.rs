pub mod alloc;
pub mod atomic64;
pub mod canon;
#[cfg(unix)]
pub mod cli;
pub mod conv;
pub mod gen;
pub mod io;
pub mod mutate;
pub mod props;
pub mod refdec;
pub mod refenc;
pub mod rng;
pub mod run;
pub mod source;
pub mod spec;
pub mod touch;
pub mod trace;

pub fn alloc_cap(n: u64) {
    alloc::set_cap(n.min(isize::MAX as u64) as isize)
}
