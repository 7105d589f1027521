//! The harness side of the symbolic executor's interface.  The executor
//! implements these functions symbolically; `bin/replay.rs` implements them
//! natively from a list of concrete inputs.
use core::cell::UnsafeCell;

extern "C" {
    fn sx_sym(id: u64, lo: u64, hi: u64) -> u64;
    fn sx_assume(c: u64);
    fn sx_check(c: u64, p: *const u8, n: usize);
    fn sx_ite(c: u64, a: u64, b: u64) -> u64;
    fn sx_conc(x: u64) -> u64;
    fn sx_obs(x: u64);
    fn sx_reach(x: u64);
    fn sx_cfg(i: u64) -> u64;
    fn sx_and(a: u64, b: u64) -> u64;
    fn sx_or(a: u64, b: u64) -> u64;
}

struct Ctr(UnsafeCell<u64>);
unsafe impl Sync for Ctr {}
static CTR: Ctr = Ctr(UnsafeCell::new(0));

/// restart input numbering (native replay runs many cases in one process)
pub fn reset() {
    unsafe { *CTR.0.get() = 0 }
}
/// a fresh symbolic input in lo..=hi (bounds must be concrete)
pub fn sym(lo: u64, hi: u64) -> u64 {
    unsafe {
        let c = CTR.0.get();
        let id = *c;
        *c = id + 1;
        sx_sym(id, lo, hi)
    }
}
pub fn symu(lo: u64, hi: u64) -> usize {
    sym(lo, hi) as usize
}
/// a symbolic choice, fixed per path
pub fn pick(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    conc(sym(0, n - 1))
}
pub fn assume(c: bool) {
    unsafe { sx_assume(c as u64) }
}
pub fn check(c: bool, m: &'static str) {
    unsafe { sx_check(c as u64, m.as_ptr(), m.len()) }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { sx_ite(c as u64, a, b) }
}
pub fn conc(x: u64) -> u64 {
    unsafe { sx_conc(x) }
}
pub fn obs(x: u64) {
    unsafe { sx_obs(x) }
}
pub fn reach(x: u64) {
    unsafe { sx_reach(x) }
}
pub fn cfg(i: u64) -> u64 {
    unsafe { sx_cfg(i) }
}
pub fn and(a: bool, b: bool) -> bool {
    unsafe { sx_and(a as u64, b as u64) != 0 }
}
pub fn or(a: bool, b: bool) -> bool {
    unsafe { sx_or(a as u64, b as u64) != 0 }
}
