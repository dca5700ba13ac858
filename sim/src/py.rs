//! The simulator as a shared object for py/host.py, with the C symbols the Python wrapper of the repository uses.
#![allow(invalid_runtime_symbol_definitions, static_mut_refs)]
include!("root.rs");
#[path = "/repo/platforms/python/ffi/src/lib.rs"]
#[allow(unused)]
mod wrapper_symbols;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int};

#[no_mangle] pub unsafe extern "C" fn simh_main(n: c_int, args: *const *const c_char) -> c_int {
    std::panic::catch_unwind(|| run((0..n as usize).map(|i| CStr::from_ptr(*args.add(i)).to_string_lossy().into_owned()).collect())).unwrap_or_else(|_| { eprintln!("harness panic {}", runner::PANIC_LOC.with(|l| l.borrow().clone())); 2 })
}
#[no_mangle] pub unsafe extern "C" fn simh_python(f: pyhost::Callback, command: *const c_char) { pyhost::install(f, CStr::from_ptr(command).to_str().expect("command")); }
#[no_mangle] pub unsafe extern "C" fn simh_put(p: *const u8, n: usize) { pyhost::put(std::slice::from_raw_parts(p, n)); }
/// a line of the wrapper is about to be executed
#[no_mangle] pub extern "C" fn simh_point(line: c_int) { rt::yield_now(0x80_0000 + line as u64); }
