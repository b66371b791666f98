//! Native side of the harness binary: the same harness functions the engine executes symbolically
//! run here on concrete values (replay of a counterexample, and engine validation).
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
thread_local! { static VALS: RefCell<(Vec<u64>, usize)> = const { RefCell::new((Vec::new(), 0)) }; }
static SINK: AtomicU64 = AtomicU64::new(0);
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vf_sym(w: u32) -> u64 {
    let v = VALS.with(|v| {
        let mut v = v.borrow_mut();
        let i = v.1;
        v.1 += 1;
        v.0.get(i).copied().unwrap_or(0)
    });
    if w >= 64 { v } else { v & ((1u64 << w) - 1) }
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vf_sym_bytes(p: *mut u8, n: u64) {
    for i in 0..n as usize { let b = vf_sym(8) as u8; unsafe { p.add(i).write_volatile(b) } }
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vf_assume(c: u8) {
    if std::hint::black_box(c) & 1 == 0 { println!("ASSUMPTION-FAILED"); std::process::exit(77); }
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vf_cover(id: u32) { SINK.fetch_add(id as u64, Ordering::SeqCst); if SINK.load(Ordering::SeqCst) == u64::MAX { println!("cover"); } }
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vf_concretize(v: u64) -> u64 { SINK.fetch_xor(v, Ordering::SeqCst); std::hint::black_box(v) }
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vf_print(p: *const u8, n: u64) {
    let s = unsafe { std::slice::from_raw_parts(p, n as usize) };
    eprintln!("{}", String::from_utf8_lossy(std::hint::black_box(s)));
}
// ---- replay of a preemption: the operation of the other thread is run between two machine
// instructions of the operation under test, trying every instruction of the program text in turn
// (the engine's synchronisation points have no numbering in the native code).
mod step {
    use std::ffi::{c_int, c_void};
    unsafe extern "C" {
        fn sigaction(s: c_int, a: *const Act, o: *mut c_void) -> c_int;
        fn fork() -> c_int;
        fn waitpid(p: c_int, s: *mut c_int, o: c_int) -> c_int;
        fn alarm(s: u32) -> u32;
        fn _exit(c: c_int) -> !;
        fn dup2(a: c_int, b: c_int) -> c_int;
        static __executable_start: u8;
        static etext: u8;
    }
    #[repr(C)]
    struct Act { h: usize, mask: [u64; 16], flags: c_int, restorer: usize }
    static mut R: Option<(extern "C" fn(*mut c_void), *mut c_void)> = None;
    static mut STEPS: u64 = 0;
    const EFL: usize = 17;
    const RIP: usize = 16;
    extern "C" fn trap(_s: c_int, _i: *mut c_void, uc: *mut c_void) {
        unsafe {
            // ucontext_t: flags (8), link (8), stack (24), then the general registers
            let g = (uc as *mut u8).add(40) as *mut i64;
            let ip = *g.add(RIP) as usize;
            if R.is_none() { *g.add(EFL) &= !0x100; return; }
            let lo = &raw const __executable_start as usize;
            let hi = &raw const etext as usize;
            if ip < lo || ip >= hi { return; }
            STEPS += 1;
            if STEPS > 400_000 { R = None; *g.add(EFL) &= !0x100; return; }
            let pid = fork();
            if pid == 0 {
                dup2(3, 1);
                alarm(3);
                let (f, d) = R.take().unwrap();
                f(d);
                *g.add(EFL) &= !0x100;
                return;
            }
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            let (sig, code) = (st & 0x7f, (st >> 8) & 0xff);
            if sig == 14 { return; }
            if sig != 0 { _exit(100 + sig); }
            if code != 0 && code != 77 { eprintln!("(other thread's operation run after {STEPS} instructions)"); _exit(code); }
        }
    }
    pub fn arm(f: extern "C" fn(*mut c_void), d: *mut c_void) {
        unsafe {
            use std::os::fd::IntoRawFd;
            let n = std::fs::File::create("/dev/null").unwrap().into_raw_fd();
            dup2(n, 3);
            R = Some((f, d));
            let a = Act { h: trap as usize, mask: [0; 16], flags: 4, restorer: 0 };
            sigaction(5, &a, std::ptr::null_mut());
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        }
    }
    pub fn disarm() { unsafe { R = None; std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq"); } }
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vf_rival(f: extern "C" fn(*mut std::ffi::c_void), d: *mut std::ffi::c_void, at: u64) {
    std::hint::black_box(at);
    if std::env::var_os("VF_STEP").is_some() { step::arm(f, d); } else { std::hint::black_box(f as usize ^ d as usize); }
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vf_rival_off() { if std::env::var_os("VF_STEP").is_some() { step::disarm(); } SINK.fetch_add(1, Ordering::SeqCst); }
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vf_rival_done() { SINK.fetch_add(1, Ordering::SeqCst); }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { for (n, _) in tonbo::verif::table() { println!("{n}"); } return; }
    if let Some(f) = a.get(2) {
        let t = std::fs::read_to_string(f).expect("values file");
        let v: Vec<u64> = t.lines().filter(|l| !l.trim().is_empty()).map(|l| l.trim().parse::<u128>().expect("number") as u64).collect();
        VALS.with(|x| x.borrow_mut().0 = v);
    }
    for (n, f) in tonbo::verif::table() {
        if *n == a[1] { f(); println!("REPLAY-OK {n}"); return; }
    }
    eprintln!("no harness {}", a[1]);
    std::process::exit(3);
}
