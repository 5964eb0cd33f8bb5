//! Interface between the harnesses and whatever runs them: the symbolic engine (which implements the
//! `sx_*` symbols as intrinsics) or the native replayer (`src/bin/replay.rs`).
extern "C" {
    fn sx_sym(name: *const u8, len: usize, bits: u32) -> u64;
    fn sx_assume(b: bool);
    fn sx_check(tag: *const u8, len: usize, b: bool);
    fn sx_cover(tag: *const u8, len: usize);
    fn sx_want(tag: *const u8, len: usize) -> bool;
    fn sx_scope(tag: *const u8, len: usize);
    fn sx_conc(v: u64) -> u64;
    fn sx_and(a: bool, b: bool) -> bool;
    fn sx_or(a: bool, b: bool) -> bool;
    fn sx_ite(c: bool, a: u64, b: u64) -> u64;
    fn sx_stop() -> !;
}

/// A fresh unconstrained symbolic value of `bits` bits, zero-extended.
#[inline(always)]
pub fn sym(name: &str, bits: u32) -> u64 {
    unsafe { sx_sym(name.as_ptr(), name.len(), bits) }
}
/// Symbolic value in `0..n`, left symbolic.
#[inline(never)]
pub fn below(name: &str, n: u64) -> u64 {
    let bits = 64 - (n.max(2) - 1).leading_zeros();
    let v = sym(name, bits);
    assume(v < n);
    v
}
/// Symbolic value in `0..n`, one path per value.
#[inline(never)]
pub fn choose(name: &str, n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    conc(below(name, n))
}
#[inline(never)]
pub fn flag(name: &str) -> bool {
    conc(sym(name, 1)) == 1
}
#[inline(always)]
pub fn conc(v: u64) -> u64 {
    unsafe { sx_conc(v) }
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { sx_assume(b) }
}
#[inline(always)]
pub fn check(tag: &str, b: bool) {
    unsafe { sx_check(tag.as_ptr(), tag.len(), b) }
}
/// Do assertions of these properties count here? Spares the computation of what only they need.
#[inline(always)]
pub fn want(tag: &str) -> bool {
    unsafe { sx_want(tag.as_ptr(), tag.len()) }
}
/// From here on, every assertion on this path belongs to the given properties too.
#[inline(always)]
pub fn scope(tag: &str) {
    unsafe { sx_scope(tag.as_ptr(), tag.len()) }
}
#[inline(always)]
pub fn cover(tag: &str) {
    unsafe { sx_cover(tag.as_ptr(), tag.len()) }
}
#[inline(always)]
pub fn and(a: bool, b: bool) -> bool {
    unsafe { sx_and(a, b) }
}
#[inline(always)]
pub fn or(a: bool, b: bool) -> bool {
    unsafe { sx_or(a, b) }
}
#[inline(always)]
pub fn not(a: bool) -> bool {
    !a
}
#[inline(always)]
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { sx_ite(c, a, b) }
}
/// Ends this path (nothing left to explore on it).
pub fn stop() -> ! {
    unsafe { sx_stop() }
}
