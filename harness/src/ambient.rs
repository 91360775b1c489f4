//! What a call may notice of the process around it: the environment variables and the clocks. This
//! program answers both itself, so that a library which asks is seen, and gets other answers.
use crate::rng::Rng;
use std::cell::{Cell, RefCell};
use std::ffi::{c_char, c_int, c_long, CStr};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static VALUE: Cell<Option<&'static CStr>> = const { Cell::new(None) };
    static AHEAD: Cell<i64> = const { Cell::new(0) };
    static LEAPS: RefCell<Option<Rng>> = const { RefCell::new(None) };
    static ASKED: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

pub const VALUES: [&CStr; 6] = [c"1", c"0", c"", c"true", c"full", c"debug"];

/// Runs `f` where every environment variable has that value and the clocks leap ahead each time they
/// are read. Returns how often either was asked.
pub fn elsewhere<R>(value: &'static CStr, seed: u64, f: impl FnOnce() -> R) -> (R, (u64, u64)) {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            ON.set(false);
        }
    }
    VALUE.set(Some(value));
    AHEAD.set(0);
    ASKED.set((0, 0));
    LEAPS.set(Some(Rng::new(seed)));
    let back = Back;
    ON.set(true);
    let r = f();
    drop(back);
    (r, ASKED.get())
}

extern "C" {
    static environ: *const *const c_char;
    fn syscall(n: c_long, ...) -> c_long;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
    let want = CStr::from_ptr(name).to_bytes();
    // those that the standard library reads when something panics are not the library's doing
    if ON.try_with(|o| o.get()).unwrap_or(false) && !want.starts_with(b"RUST") {
        let (e, c) = ASKED.get();
        ASKED.set((e + 1, c));
        if let Some(v) = VALUE.get() {
            return v.as_ptr();
        }
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let entry = CStr::from_ptr(*e).to_bytes();
        if entry.len() > want.len() && entry[want.len()] == b'=' && entry.starts_with(want) {
            return (*e).add(want.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: c_int, t: *mut Timespec) -> c_int {
    let r = syscall(228, clock as c_long, t) as c_int;
    if r == 0 && ON.try_with(|o| o.get()).unwrap_or(false) {
        let (e, c) = ASKED.get();
        ASKED.set((e, c + 1));
        LEAPS.with(|l| {
            if let Some(l) = l.borrow_mut().as_mut() {
                // microseconds to years
                let d = 1i64 << l.below(47);
                AHEAD.set(AHEAD.get().saturating_add(d).min(1 << 52));
            }
        });
        (*t).sec += AHEAD.get() / 1_000_000;
        (*t).nsec += AHEAD.get() % 1_000_000 * 1000;
        if (*t).nsec >= 1_000_000_000 {
            (*t).nsec -= 1_000_000_000;
            (*t).sec += 1;
        }
    }
    r
}

/// Runs `f` while this thread unwinds from a panic.
pub fn unwinding<R>(f: impl FnOnce() -> R) -> R {
    struct Then<'a>(Option<Box<dyn FnOnce() + 'a>>);
    impl Drop for Then<'_> {
        fn drop(&mut self) {
            if let Some(f) = self.0.take() {
                f();
            }
        }
    }
    let mut r = None;
    {
        let r = &mut r;
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _then = Then(Some(Box::new(move || *r = Some(f()))));
            std::panic::panic_any(0u8);
        }));
    }
    r.expect("ran")
}

/// Whether the answers above are what this program gets.
pub fn works() -> bool {
    std::env::set_var("HARNESS_AMBIENT", "x");
    let plain = std::env::var("HARNESS_AMBIENT").as_deref() == Ok("x") && std::env::var_os("HARNESS_NONE").is_none();
    let (ok, asked) = elsewhere(c"1", 7, || {
        let t = std::time::Instant::now();
        let w = std::time::SystemTime::now();
        let mut far = false;
        for _ in 0..30 {
            far |= t.elapsed().as_secs() > 86_400;
            let _ = w.elapsed();
        }
        far && std::env::var("HARNESS_NONE").as_deref() == Ok("1")
    });
    let seen = unwinding(std::thread::panicking);
    plain && ok && asked.0 == 1 && asked.1 > 30 && seen && !std::thread::panicking()
}
