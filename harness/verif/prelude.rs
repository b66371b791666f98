//! Harness intrinsics.  Natively they read concrete values from a replay file; under the engine they
//! introduce symbolic values, assumptions and reachability witnesses.
unsafe extern "C" {
    fn vf_sym(w: u32) -> u64;
    fn vf_sym_bytes(p: *mut u8, n: u64);
    fn vf_assume(c: u8);
    fn vf_cover(id: u32);
    fn vf_concretize(v: u64) -> u64;
    fn vf_print(p: *const u8, n: u64);
    fn vf_rival(f: extern "C" fn(*mut core::ffi::c_void), d: *mut core::ffi::c_void, at: u64);
    fn vf_rival_off();
    fn vf_rival_done();
}
/// Runs `main` on one thread while `other` runs to completion on another, starting at an arbitrary
/// synchronisation point (atomic access) of `main` - or not at all before `main` is over, in which
/// case it runs afterwards.  All symbolic inputs must have been drawn before.
pub(crate) fn race<A, B: FnOnce()>(main: impl FnOnce() -> A, other: B) -> (A, bool) {
    extern "C" fn go<B: FnOnce()>(p: *mut core::ffi::c_void) {
        let b = unsafe { (*(p as *mut Option<B>)).take() };
        if let Some(b) = b { b(); }
        unsafe { vf_rival_done() };
    }
    let mut slot = Some(other);
    let at = unsafe { vf_sym(32) };
    unsafe { vf_rival(go::<B>, &raw mut slot as *mut core::ffi::c_void, at) };
    let r = main();
    unsafe { vf_rival_off() };
    let slot = unsafe { &mut *(&raw mut slot) };
    match slot.take() {
        Some(b) => { b(); (r, false) }
        None => (r, true),
    }
}
pub(crate) fn sym_bool() -> bool { unsafe { vf_sym(1) != 0 } }
pub(crate) fn sym_u8() -> u8 { unsafe { vf_sym(8) as u8 } }
pub(crate) fn sym_u16() -> u16 { unsafe { vf_sym(16) as u16 } }
pub(crate) fn sym_u32() -> u32 { unsafe { vf_sym(32) as u32 } }
pub(crate) fn sym_i32() -> i32 { unsafe { vf_sym(32) as u32 as i32 } }
pub(crate) fn sym_u64() -> u64 { unsafe { vf_sym(64) } }
pub(crate) fn sym_i64() -> i64 { unsafe { vf_sym(64) as i64 } }
/// Arbitrary bytes.
pub(crate) fn sym_bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { vf_sym_bytes(v.as_mut_ptr(), n as u64) };
    v
}
pub(crate) fn assume(c: bool) { unsafe { vf_assume(c as u8) } }
/// Arbitrary value in `0..n`, kept symbolic.
pub(crate) fn below(n: u64) -> u64 { let v = unsafe { vf_sym(if n <= 256 { 8 } else { 64 }) }; assume(v < n); v }
/// Arbitrary value in `0..n`; the engine explores one path per feasible value.
pub(crate) fn choose(n: u64) -> u64 { let v = below(n); unsafe { vf_concretize(v) } }
/// Arbitrary decision; the engine explores one path per outcome.
pub(crate) fn flip() -> bool { choose(2) == 1 }
pub(crate) fn concrete(v: u64) -> u64 { unsafe { vf_concretize(v) } }
/// Reachability witness.
pub(crate) fn cover(id: u32) { unsafe { vf_cover(id) } }
pub(crate) fn say(s: &str) { unsafe { vf_print(s.as_ptr(), s.len() as u64) } }
/// Branch-free conjunction helper: accumulates conditions without forking.
pub(crate) fn all(c: &[bool]) -> bool { let mut r = true; for x in c { r &= *x; } r }
/// One of the conditions holds, without branching.
pub(crate) fn any(c: &[bool]) -> bool { let mut r = false; for x in c { r |= *x; } r }
