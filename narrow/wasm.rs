//! The wasm32 module: `enter(n)` makes room for n bytes of code, `run()`
//! executes it, `output()` and `output_len()` say what was observed.

#[path = "interp.rs"]
mod interp;

use std::vec::Vec;

static mut CODE: Vec<u8> = Vec::new();
static mut OUT: Vec<u8> = Vec::new();

#[no_mangle]
pub extern "C" fn enter(n: usize) -> *mut u8 {
    unsafe {
        let c = &mut *std::ptr::addr_of_mut!(CODE);
        c.clear();
        c.resize(n, 0);
        c.as_mut_ptr()
    }
}

#[no_mangle]
pub extern "C" fn run() {
    unsafe { OUT = interp::run(&*std::ptr::addr_of!(CODE)) }
}

#[no_mangle]
pub extern "C" fn output() -> *const u8 {
    unsafe { (*std::ptr::addr_of!(OUT)).as_ptr() }
}

#[no_mangle]
pub extern "C" fn output_len() -> usize {
    unsafe { (*std::ptr::addr_of!(OUT)).len() }
}

#[no_mangle]
pub extern "C" fn words() -> *const u8 {
    unsafe { std::ptr::addr_of!(std::last_words::WORDS.text) as *const u8 }
}

#[no_mangle]
pub extern "C" fn words_len() -> usize {
    unsafe { std::last_words::WORDS.len }
}
