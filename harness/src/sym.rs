//! Harness interface: in the executor these calls are interpreted symbolically, natively they read a replay file.
extern "C" {
    fn __sym_int(lo: i64, hi: i64) -> i64;
    fn __sym_pick(lo: i64, hi: i64) -> i64;
    fn __sym_assume(c: bool);
    fn __sym_assert(c: bool, msg: *const u8, len: usize);
    fn __sym_fail(msg: *const u8, len: usize) -> !;
    fn __sym_reach(id: u64);
    fn __sym_observe(v: u64);
    fn __sym_uf(f: u64, a: u64, b: u64) -> u64;
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_panic_ok(v: u64);
}
/// symbolic integer in [lo, hi]
pub fn int(lo: i64, hi: i64) -> i64 { unsafe { __sym_int(lo, hi) } }
pub fn uint(lo: usize, hi: usize) -> usize { int(lo as i64, hi as i64) as usize }
/// every value in [lo, hi], each on its own path
pub fn pick(lo: i64, hi: i64) -> i64 { unsafe { __sym_pick(lo, hi) } }
pub fn upick(lo: usize, hi: usize) -> usize { pick(lo as i64, hi as i64) as usize }
pub fn any_bool() -> bool { int(0, 1) == 1 }
pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
pub fn check(c: bool, msg: &'static str) { unsafe { __sym_assert(c, msg.as_ptr(), msg.len()) } }
pub fn fail(msg: &'static str) -> ! { unsafe { __sym_fail(msg.as_ptr(), msg.len()) } }
pub fn reach(id: u64) { unsafe { __sym_reach(id) } }
pub fn observe(v: i64) { unsafe { __sym_observe(v as u64) } }
pub fn uf(f: u64, a: u64, b: u64) -> u64 { unsafe { __sym_uf(f, a, b) } }
pub fn concretize(v: usize) -> usize { unsafe { __sym_concretize(v as u64) as usize } }
pub fn panic_ok(v: bool) { unsafe { __sym_panic_ok(v as u64) } }
/// from here on formatted text is really produced (otherwise messages are empty)
pub fn real_format() { unsafe { __sym_panic_ok(2) } }
extern "C" { fn __sym_param(i: u64) -> i64; }
/// run parameter (0: tier, 1 = thorough)
pub fn param(i: u64) -> i64 { unsafe { __sym_param(i) } }
pub fn thorough() -> bool { param(0) == 1 }
