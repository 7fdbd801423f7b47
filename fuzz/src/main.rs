//! libFuzzer around the generators of the harness; see harness/src/fuzz.rs.

use std::cell::RefCell;
use std::ffi::CString;
use std::os::raw::{c_char, c_int};

extern "C" {
    fn LLVMFuzzerRunDriver(argc: *mut c_int, argv: *mut *mut *mut c_char, cb: extern "C" fn(*const u8, usize) -> c_int) -> c_int;
}

type Callback = *mut dyn FnMut(&[u8]) -> bool;

thread_local! {
    static CALLBACK: RefCell<Option<Callback>> = const { RefCell::new(None) };
}

extern "C" fn one(data: *const u8, size: usize) -> c_int {
    let bytes = if size == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(data, size) } };
    let cb = CALLBACK.with(|c| c.borrow().expect("callback"));
    if unsafe { (*cb)(bytes) } {
        0
    } else {
        -1
    }
}

// libfuzzer-sys expects the symbol; the driver is given its callback directly
#[no_mangle]
pub extern "Rust" fn rust_fuzzer_test_input(_: &[u8]) -> i32 {
    0
}

fn drive(f: &mut dyn FnMut(&[u8]) -> bool) {
    let cb: Callback = unsafe { std::mem::transmute::<&mut dyn FnMut(&[u8]) -> bool, Callback>(f) };
    CALLBACK.with(|c| *c.borrow_mut() = Some(cb));
    let args = std::env::var("VH_FUZZ_ARGS").unwrap_or_default();
    let mut v: Vec<*mut c_char> = std::iter::once("vh-fuzz")
        .chain(args.lines())
        .map(|a| CString::new(a).expect("argument").into_raw())
        .collect();
    let mut argc = v.len() as c_int;
    v.push(std::ptr::null_mut());
    let mut argv = v.as_mut_ptr();
    let code = unsafe { LLVMFuzzerRunDriver(&mut argc, &mut argv, one) };
    std::process::exit(code);
}

fn main() {
    // keep libfuzzer-sys linked
    let _ = libfuzzer_sys::rust_libfuzzer_debug_path();
    vh::fuzz::main(drive);
}
