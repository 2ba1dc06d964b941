//! Harness-side view of the symbolic executor's intrinsics.
#![allow(clippy::missing_safety_doc)]

pub mod lang;
pub mod stdm;
pub mod raw {
    extern "C" {
        pub fn symex_u8() -> u8;
        pub fn symex_u16() -> u16;
        pub fn symex_u32() -> u32;
        pub fn symex_u64() -> u64;
        pub fn symex_bytes(p: *mut u8, n: usize);
        pub fn symex_choose(n: u32) -> u32;
        pub fn symex_assume(c: u32);
        pub fn symex_check(c: u32, l: *const u8, n: usize);
        pub fn symex_observe(v: u64, l: *const u8, n: usize);
        pub fn symex_observe_bytes(p: *const u8, k: usize, l: *const u8, n: usize);
        pub fn symex_cover(l: *const u8, n: usize);
        pub fn symex_done() -> !;
        pub fn symex_conc(v: u64) -> u64;
        pub fn symex_log(l: *const u8, n: usize);
        pub fn symex_label(l: *const u8, n: usize);
        pub fn symex_symbolic() -> u32;
        pub fn symex_finish();
        pub fn symex_thread(f: extern "C" fn(*mut u8), x: *mut u8);
        pub fn symex_turn();
    }
}
use raw::*;

/// An arbitrary byte.
pub fn u8_() -> u8 { unsafe { symex_u8() } }
pub fn u16_() -> u16 { unsafe { symex_u16() } }
pub fn i16_() -> i16 { unsafe { symex_u16() as i16 } }
pub fn u32_() -> u32 { unsafe { symex_u32() } }
pub fn i32_() -> i32 { unsafe { symex_u32() as i32 } }
pub fn u64_() -> u64 { unsafe { symex_u64() } }
pub fn f64_() -> f64 { f64::from_bits(unsafe { symex_u64() }) }
pub fn bool_() -> bool { let b = u8_(); assume(b < 2); b == 1 }
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; unsafe { symex_bytes(v.as_mut_ptr(), n) }; v }
/// A structural choice in 0..n: every value gets its own paths.
pub fn choose(n: usize) -> usize { unsafe { symex_choose(n as u32) as usize } }
pub fn pick<T: Copy>(xs: &[T]) -> T { xs[choose(xs.len())] }
pub fn assume(c: bool) { unsafe { symex_assume(c as u32) } }
pub fn check(c: bool, label: &str) { unsafe { symex_check(c as u32, label.as_ptr(), label.len()) } }
pub fn fail(label: &str) -> ! { check(false, label); unsafe { symex_done() } }
pub fn observe(label: &str, v: u64) { unsafe { symex_observe(v, label.as_ptr(), label.len()) } }
pub fn observe_str(label: &str, v: &str) { unsafe { symex_observe_bytes(v.as_ptr(), v.len(), label.as_ptr(), label.len()) } }
pub fn cover(label: &str) { unsafe { symex_cover(label.as_ptr(), label.len()) } }
pub fn done() -> ! { unsafe { symex_done() } }
pub fn conc(v: u64) -> u64 { unsafe { symex_conc(v) } }
/// Starts the other thread, which runs when this one waits or gives it its turn and never ends.
pub fn thread(f: extern "C" fn(*mut u8), x: *mut u8) { unsafe { symex_thread(f, x) } }
pub fn turn() { unsafe { symex_turn() } }
pub fn log(s: &str) { unsafe { symex_log(s.as_ptr(), s.len()) } }
pub fn label(s: &str) { unsafe { symex_label(s.as_ptr(), s.len()) } }
pub fn symbolic() -> bool { unsafe { symex_symbolic() != 0 } }
/// An ASCII byte drawn from `set`.
pub fn byte_of(set: &[u8]) -> u8 {
    let b = u8_();
    let mut ok = false;
    for c in set { ok |= b == *c; }
    assume(ok);
    b
}

/// Runs a future to completion; every await in the harnesses resolves without external events.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    let mut n = 0;
    loop {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; }
        n += 1;
        if n > 10_000 { fail("future never completes"); }
    }
}

/// Command-line entry for native replay: HARNESS and CASE name what to run.
pub fn native_main(table: &[(&str, extern "C" fn(u32))]) {
    let h = std::env::var("HARNESS").unwrap_or_default();
    let c: u32 = std::env::var("CASE").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    for (n, f) in table {
        if *n == h {
            f(c);
            unsafe { symex_finish() }
            return;
        }
    }
    if h == "--list" { for (n, _) in table { println!("{}", n); } return; }
    eprintln!("unknown harness {}", h);
    std::process::exit(3);
}

/// Declares harness entry points and the native dispatcher.
#[macro_export]
macro_rules! harness_main {
    ($($name:ident),* $(,)?) => {
        fn main() { rt::native_main(&[$((stringify!($name), $name as extern "C" fn(u32))),*]); }
    };
}
