//! Stands in for harness/src/ambient.rs: the sanitizers and Miri bring their own C library functions,
//! and the checks that need the real one do not run here.
use std::ffi::CStr;

pub const VALUES: [&CStr; 1] = [c"1"];

pub fn elsewhere<R>(_: &'static CStr, _: u64, f: impl FnOnce() -> R) -> (R, (u64, u64)) {
    (f(), (0, 0))
}
pub fn unwinding<R>(f: impl FnOnce() -> R) -> R {
    f()
}
