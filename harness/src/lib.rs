//! Harness API.  In the symbolic executor the `__sym_*` functions are built in; natively (replay) they are
//! provided by symrt.c and read the recorded input values.
pub mod cchx;
pub mod gr;
pub mod tdx;
pub use cchx::*;
pub use gr::*;
extern "C" {
    fn __sym_int(name: *const u8, len: usize, bits: u32) -> u64;
    fn __sym_assume(c: bool);
    fn __sym_assert(c: bool, name: *const u8, len: usize);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_reach(name: *const u8, len: usize);
    fn __sym_print(name: *const u8, len: usize, v: u64);
    fn __sym_end_path() -> !;
    fn __sym_reals();
    fn __sym_preempt(n: u64, d: u64);
}
#[inline(always)]
pub fn sym_u64(name: &str) -> u64 {
    unsafe { __sym_int(name.as_ptr(), name.len(), 64) }
}
#[inline(always)]
pub fn sym_u32(name: &str) -> u32 {
    unsafe { __sym_int(name.as_ptr(), name.len(), 32) as u32 }
}
#[inline(always)]
pub fn sym_bool(name: &str) -> bool {
    unsafe { __sym_int(name.as_ptr(), name.len(), 1) != 0 }
}
/// symbolic value in lo..=hi
#[inline(always)]
pub fn sym_range(name: &str, lo: u32, hi: u32) -> u32 {
    let v = sym_u32(name);
    assume(v >= lo);
    assume(v <= hi);
    v
}
/// case split: every value in 0..n is explored on separate paths, the result is concrete
#[inline(always)]
pub fn choice(name: &str, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let v = sym_range(name, 0, n as u32 - 1);
    unsafe { __sym_concretize(v as u64) as usize }
}
#[inline(always)]
pub fn concretize(v: u32) -> u32 {
    unsafe { __sym_concretize(v as u64) as u32 }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, msg: &str) {
    unsafe { __sym_assert(c, msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn reach(msg: &str) {
    unsafe { __sym_reach(msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn print(msg: &str, v: u64) {
    unsafe { __sym_print(msg.as_ptr(), msg.len(), v) }
}
/// from here on the solver reasons about floating point values as exact reals (rounding is outside of the bound)
#[inline(always)]
pub fn reals() {
    unsafe { __sym_reals() }
}
/// up to `n` times the running thread may be preempted at an atomic access (every position is explored)
#[inline(always)]
pub fn preemptions(n: u64) {
    unsafe { __sym_preempt(n, 0) }
}
/// the same, and up to `d` times a store may stay in the store buffer of its thread while another one runs
#[inline(always)]
pub fn preemptions_tso(n: u64, d: u64) {
    unsafe { __sym_preempt(n, d) }
}
#[inline(always)]
pub fn end_path() -> ! {
    unsafe { __sym_end_path() }
}
/// native main of a harness binary: run the entry named in argv[1]
pub fn native_main(entries: &[(&str, extern "C" fn())]) {
    let name = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in entries {
        if *n == name {
            f();
            return;
        }
    }
    for (n, _) in entries {
        println!("{}", n);
    }
}
/// Declares the entry points of a harness binary.
#[macro_export]
macro_rules! entries {
    ($($name:ident),* $(,)?) => {
        fn main() {
            $crate::native_main(&[$((stringify!($name), $name as extern "C" fn())),*]);
        }
    };
}
