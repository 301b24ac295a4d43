//! 64-bit counters also where the machine has none of its own.
#[cfg(target_has_atomic = "64")]
pub use std::sync::atomic::AtomicU64;

#[cfg(not(target_has_atomic = "64"))]
pub use other::AtomicU64;
#[cfg(not(target_has_atomic = "64"))]
mod other {
    use std::sync::atomic::Ordering;
    use std::sync::Mutex;
    pub struct AtomicU64(Mutex<u64>);
    impl AtomicU64 {
        pub const fn new(n: u64) -> AtomicU64 {
            AtomicU64(Mutex::new(n))
        }
        pub fn load(&self, _: Ordering) -> u64 {
            *self.0.lock().unwrap()
        }
        pub fn store(&self, n: u64, _: Ordering) {
            *self.0.lock().unwrap() = n
        }
        pub fn fetch_add(&self, n: u64, _: Ordering) -> u64 {
            let mut g = self.0.lock().unwrap();
            let x = *g;
            *g = x.wrapping_add(n);
            x
        }
    }
}
