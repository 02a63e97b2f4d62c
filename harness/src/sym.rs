//! Interface to the symbolic executor (or, in a native replay build, to replay.c).
extern "C" {
    fn sym_make(width: u64) -> u64;
    fn sym_pick(n: u64) -> u64;
    fn sym_assume(c: bool);
    fn sym_check(c: bool, msg: *const u8, len: u64);
    fn sym_unreached(msg: *const u8, len: u64);
    fn sym_cover(id: u64);
    fn sym_observe(v: u64);
    fn sym_param(i: u64) -> u64;
    fn sym_concretize(v: u64) -> u64;
}

/// A fresh symbolic input of `w` bits.
#[inline]
pub fn bits(w: u64) -> u64 {
    unsafe { sym_make(w) }
}
#[inline]
pub fn any_u8() -> u8 {
    bits(8) as u8
}
#[inline]
pub fn any_u16() -> u16 {
    bits(16) as u16
}
#[inline]
pub fn any_u32() -> u32 {
    bits(32) as u32
}
#[inline]
pub fn any_bool() -> bool {
    bits(1) & 1 == 1
}
/// A fresh symbolic value in 0..n
#[inline]
pub fn below(n: u64) -> u64 {
    let mut w = 1;
    while (1u64 << w) < n {
        w += 1;
    }
    let v = bits(w);
    assume(v < n);
    v
}
/// A nondeterministic concrete value in 0..n (the executor forks n ways).
#[inline]
pub fn pick(n: usize) -> usize {
    unsafe { sym_pick(n as u64) as usize }
}
#[inline]
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline]
pub fn check(c: bool, msg: &'static str) {
    unsafe { sym_check(c, msg.as_ptr(), msg.len() as u64) }
}
#[inline]
pub fn unreached(msg: &'static str) {
    unsafe { sym_unreached(msg.as_ptr(), msg.len() as u64) }
}
#[inline]
pub fn cover(id: u64) {
    unsafe { sym_cover(id) }
}
#[inline]
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
#[inline]
pub fn param(i: u64) -> usize {
    unsafe { sym_param(i) as usize }
}
#[inline]
pub fn concretize(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
