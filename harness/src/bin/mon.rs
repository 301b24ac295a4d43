#[global_allocator]
static A: mon::alloc::Counting = mon::alloc::Counting;

/// In front of the C library's functions: the standard library reads clocks and environment variables through these.
#[cfg(all(feature = "interpose", target_os = "linux", target_arch = "x86_64", target_pointer_width = "64"))]
mod front {
    use mon::touch::{note, CLOCK, ENVIRONMENT};
    use std::ffi::{c_char, c_int, c_long, c_void, CStr};
    extern "C" {
        static environ: *const *const c_char;
        fn syscall(nr: c_long, a: usize, b: usize) -> c_long;
    }
    #[no_mangle]
    unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut c_void) -> c_int {
        note(CLOCK);
        syscall(228, id as usize, ts as usize) as c_int
    }
    #[no_mangle]
    unsafe extern "C" fn gettimeofday(tv: *mut c_void, tz: *mut c_void) -> c_int {
        note(CLOCK);
        syscall(96, tv as usize, tz as usize) as c_int
    }
    #[no_mangle]
    unsafe extern "C" fn time(t: *mut c_long) -> c_long {
        note(CLOCK);
        syscall(201, t as usize, 0)
    }
    unsafe fn lookup(name: *const c_char) -> *mut c_char {
        let n = CStr::from_ptr(name).to_bytes();
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let b = CStr::from_ptr(*e).to_bytes();
            if b.len() > n.len() && b[n.len()] == b'=' && b.starts_with(n) {
                return (*e).add(n.len() + 1) as *mut c_char;
            }
            e = e.add(1);
        }
        std::ptr::null_mut()
    }
    #[no_mangle]
    unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
        note(ENVIRONMENT);
        lookup(name)
    }
    #[no_mangle]
    unsafe extern "C" fn secure_getenv(name: *const c_char) -> *mut c_char {
        note(ENVIRONMENT);
        lookup(name)
    }
}

fn main() {
    mon::cli::main(mon::props::build)
}
