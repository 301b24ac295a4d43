//! The workload of `mon::trace` on a 32-bit machine: WebAssembly, driven by run.js.
use mon::gen;
use mon::trace::{Counts, Tracer};
use std::cell::RefCell;

struct State {
    t: Option<Tracer>,
    n: Counts,
    text: String,
}
thread_local! {
    static S: RefCell<State> = RefCell::new(State { t: None, n: Counts::default(), text: String::new() });
}
/// input number and result of the latest case
static mut OUT: [u64; 2] = [0; 2];

#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}
#[no_mangle]
pub extern "C" fn out() -> *const u64 {
    &raw const OUT as *const u64
}
/// # Safety
/// `dict` points to `len` bytes written by the host
#[no_mangle]
pub unsafe extern "C" fn init(seed: u64, dict: *const u8, len: usize) {
    let t = std::str::from_utf8(std::slice::from_raw_parts(dict, len)).expect("dictionary");
    gen::set_dict(t);
    S.with(|s| s.borrow_mut().t = Some(Tracer::new(seed, false)));
}
/// A panic traps here, so the input's number is stored before the library is called.
#[no_mangle]
pub extern "C" fn case(idx: u64, text: u32) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let x = s.t.as_ref().expect("init").case(idx, text != 0, &mut |h| unsafe { OUT[0] = h });
        unsafe { OUT[1] = x.hash() };
        s.n.add(&x.n);
        s.text = x.text().to_string();
    })
}
#[no_mangle]
pub extern "C" fn text_ptr() -> *const u8 {
    S.with(|s| s.borrow().text.as_ptr())
}
#[no_mangle]
pub extern "C" fn text_len() -> usize {
    S.with(|s| s.borrow().text.len())
}
#[no_mangle]
pub extern "C" fn count(i: u32) -> u64 {
    S.with(|s| {
        let n = &s.borrow().n;
        [n.cases, n.decodes, n.packets, n.encodes, n.frames, n.ops][i as usize]
    })
}
#[no_mangle]
pub extern "C" fn panic_hash() -> u64 {
    mon::trace::panic_hash()
}
