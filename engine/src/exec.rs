//! The symbolic interpreter: one process per path, forking at feasible symbolic decisions.
use crate::expr::*;
use crate::ir::*;
use crate::mem::{self, Mem};
use crate::z3::{Res, Solver};
use std::collections::HashMap;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::*};
use std::time::Instant;

pub const NCOVER: usize = 512;
#[repr(C)]
pub struct Ctl {
    pub active: AtomicI64,
    pub started: AtomicU64,
    pub finished: AtomicU64,
    pub completed: AtomicU64,
    pub infeasible: AtomicU64,
    pub violations: AtomicU64,
    pub inconclusive: AtomicU64,
    pub errors: AtomicU64,
    pub queries: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub solver_us: AtomicU64,
    pub max_query_us: AtomicU64,
    pub order: AtomicU64,
    pub instrs: AtomicU64,
    pub forks: AtomicU64,
    pub abnormal: AtomicU64,
    pub stop: AtomicU32,
    pub asserts: AtomicU64,
    pub max_syms: AtomicU64,
    pub cover: [AtomicU64; NCOVER],
}
pub enum End { Done, Infeasible, Violation(String), Inconclusive(String), Error(String), Stopped }
struct Frame { func: u32, ret_pc: u32, base: u32, dst: u32, sp: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum X { Malloc, Calloc, Realloc, Free, Memalign, AlignedAlloc, Memcmp, Bcmp, Strlen, Memcpy, Memset, Clock, Syscall, Errno, Write, Writev, Zero, One, Sysconf, Abort, Panic, Trap, Sym, Assume, Cover, Concretize, Print, SymBytes, Fail, Getrandom, KeyCreate, Yield, Rival, RivalOff, RivalDone, Unknown, Sin }
fn ext_kind(n: &str) -> X {
    match n {
        "malloc" => X::Malloc, "calloc" => X::Calloc, "realloc" => X::Realloc, "free" => X::Free, "posix_memalign" => X::Memalign,
        "aligned_alloc" | "memalign" => X::AlignedAlloc, "memcmp" => X::Memcmp, "bcmp" => X::Bcmp, "strlen" => X::Strlen, "memcpy" | "memmove" => X::Memcpy,
        "memset" => X::Memset, "clock_gettime" => X::Clock, "syscall" => X::Syscall, "__errno_location" => X::Errno, "write" => X::Write,
        "writev" => X::Writev, "sysconf" => X::Sysconf, "abort" => X::Abort, "__panic" => X::Panic, "__trap" => X::Trap,
        "vf_sym" => X::Sym, "vf_assume" => X::Assume, "vf_cover" => X::Cover, "vf_concretize" => X::Concretize, "vf_print" => X::Print,
        "vf_sym_bytes" => X::SymBytes, "vf_fail" => X::Fail, "getrandom" => X::Getrandom,
        "pthread_key_create" => X::KeyCreate, "sched_yield" => X::Yield,
        "vf_rival" => X::Rival, "vf_rival_off" => X::RivalOff, "vf_rival_done" => X::RivalDone,
        "getenv" | "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "getauxval"
        | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_getspecific" | "sigaction" | "sigaltstack" | "poll" | "signal" | "munmap" | "mprotect"
        | "pthread_attr_destroy" | "gettid" | "madvise" => X::Zero,
        "pthread_self" | "getpid" => X::One,
        _ => X::Unknown,
    }
}
pub struct Exec<'a> {
    pub p: &'a Prog,
    pub pool: Pool,
    pub mem: Mem,
    pub solver: Solver,
    regs: *mut Val,
    frames: Vec<Frame>,
    pub ctl: &'static Ctl,
    fexec: *mut u8,
    pub fforks: &'static [AtomicU32],
    exts: Vec<X>,
    decided: HashMap<u32, bool>,
    /// Operations of other threads waiting to run: (function, argument, symbolic synchronisation point).
    rivals: Vec<(u64, u64, Val)>,
    sync: u64,
    in_rival: bool,
    pub trace: Vec<u32>, // var ids in creation order
    own_slot: bool,
    ncpu: i64,
    instrs: u64,
    max_instrs: u64,
    errno: u64,
    clock: u64,
    pub out: String,
    pub verbose: bool,
    cur_fn: u32,
    tmp: Vec<Val>,
    t0: Instant,
    sources: HashMap<u32, u32>,
    pub track_sites: bool,
    pc: Vec<u32>,
    pcv: Vec<std::rc::Rc<[u32]>>,
    vmemo: HashMap<u32, std::rc::Rc<[u32]>>,
    bv_done: usize,
    fp: bool,
}
extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
}
const MAX_REGS: usize = 1 << 23;
impl<'a> Exec<'a> {
    pub fn new(p: &'a Prog, ctl: &'static Ctl, fexec: *mut u8, fforks: &'static [AtomicU32], ncpu: i64, max_instrs: u64, rlimit: u32, fp: bool, out: String) -> Exec<'a> {
        let mem = Mem::new();
        for (a, b) in &p.inits { unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), *a as *mut u8, b.len()); } }
        let regs = mem::map(0, MAX_REGS * std::mem::size_of::<Val>(), false) as *mut Val;
        Exec {
            p, pool: Pool::new(), mem, solver: Solver::new(rlimit, fp), regs, frames: vec![], ctl, fexec, fforks,
            exts: p.exts.iter().map(|n| ext_kind(n)).collect(), decided: HashMap::new(), rivals: vec![], sync: 0, in_rival: false, trace: vec![], own_slot: true, ncpu, instrs: 0, max_instrs,
            errno: 0, clock: 1_700_000_000_000_000_000, out, verbose: false, cur_fn: 0, tmp: vec![], t0: Instant::now(), sources: HashMap::new(), track_sites: false, pc: vec![], pcv: vec![], vmemo: HashMap::new(), bv_done: 0, fp,
        }
    }
    // ---------- path management ----------
    fn check(&mut self, extra: &[u32]) -> Res {
        let t = Instant::now();
        let r = self.decide(extra);
        let us = t.elapsed().as_micros() as u64;
        self.ctl.queries.fetch_add(1, Relaxed);
        self.ctl.solver_us.fetch_add(us, Relaxed);
        self.ctl.max_query_us.fetch_max(us, Relaxed);
        match r { Res::Sat(_) => { self.ctl.sat.fetch_add(1, Relaxed); } Res::Unsat => { self.ctl.unsat.fetch_add(1, Relaxed); } _ => {} }
        r
    }
    /// Constraints of the path condition connected (through shared inputs) to `extra`, and `extra`.
    fn relevant(&mut self, extra: &[u32]) -> Vec<u32> {
        let mut vs: std::collections::HashSet<u32> = Default::default();
        for &e in extra { let v = self.vars_of(e); vs.extend(v.iter().copied()); }
        let n = self.pc.len();
        let mut take = vec![false; n];
        loop {
            let mut ch = false;
            for i in 0..n {
                if take[i] { continue; }
                if self.pcv[i].iter().any(|v| vs.contains(v)) { take[i] = true; ch = true; vs.extend(self.pcv[i].iter().copied()); }
            }
            if !ch { break; }
        }
        let mut r: Vec<u32> = (0..n).filter(|&i| take[i]).map(|i| self.pc[i]).collect();
        r.extend_from_slice(extra);
        r
    }
    fn vars_of(&mut self, e: u32) -> std::rc::Rc<[u32]> {
        if let Some(v) = self.vmemo.get(&e) { return v.clone(); }
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![e];
        let mut out = vec![];
        while let Some(i) = st.pop() {
            if !seen.insert(i) { continue; }
            let n = self.pool.nodes[i as usize];
            match n.op {
                Op::Const => {}
                Op::Var => out.push(n.a),
                _ => { for k in self.pool.kids(i) { st.push(k); } }
            }
        }
        out.sort();
        let r: std::rc::Rc<[u32]> = out.into();
        self.vmemo.insert(e, r.clone());
        r
    }
    fn decide(&mut self, extra: &[u32]) -> Res {
        if !self.fp {
            let fs = self.relevant(extra);
            if let Some(r) = self.solver.check_order(&self.pool, &fs) {
                let mut ok = true;
                if let Res::Sat(m) = &r {
                    let save = std::mem::replace(&mut self.pool.model, m.clone());
                    self.pool.epoch += 1;
                    for &f in &fs { ok &= self.pool.eval(f) == 1; }
                    self.pool.set_model(save);
                }
                if ok { self.ctl.order.fetch_add(1, Relaxed); return r; }
            }
        }
        while self.bv_done < self.pc.len() { let e = self.pc[self.bv_done]; self.solver.assert(&self.pool, e); self.bv_done += 1; }
        self.solver.check(&self.pool, extra)
    }
    fn assert(&mut self, e: u32) {
        let v = self.vars_of(e);
        self.pc.push(e);
        self.pcv.push(v);
        self.decided.insert(e, true);
        let n = self.pool.not(e);
        self.decided.insert(n, false);
    }
    /// true in the child
    fn fork(&mut self) -> Result<bool, End> {
        if self.ctl.stop.load(Relaxed) != 0 { return Err(End::Stopped); }
        self.ctl.forks.fetch_add(1, Relaxed);
        self.fforks[self.cur_fn as usize].fetch_add(1, Relaxed);
        self.ctl.started.fetch_add(1, Relaxed);
        let par = {
            let a = self.ctl.active.fetch_add(1, Relaxed);
            if a >= self.ncpu { self.ctl.active.fetch_sub(1, Relaxed); false } else { true }
        };
        self.ctl.instrs.fetch_add(self.instrs, Relaxed);
        let keep = self.instrs;
        let pid = unsafe { fork() };
        if pid < 0 { return Err(End::Error("fork failed".into())); }
        if pid == 0 { self.own_slot = par; self.instrs = 0; self.max_instrs = self.max_instrs.saturating_sub(keep); return Ok(true); }
        self.instrs = 0;
        self.max_instrs = self.max_instrs.saturating_sub(keep);
        if !par {
            let mut st = 0;
            unsafe { while waitpid(pid, &mut st, 0) < 0 { if std::io::Error::last_os_error().raw_os_error() != Some(4) { break; } } }
            if st != 0 { self.ctl.abnormal.fetch_add(1, Relaxed); }
            if self.ctl.stop.load(Relaxed) != 0 { return Err(End::Stopped); }
        }
        Ok(false)
    }
    fn branch(&mut self, e: u32) -> Result<bool, End> {
        if let Some(k) = self.pool.is_k(e) { return Ok(k == 1); }
        if let Some(&b) = self.decided.get(&e) { return Ok(b); }
        let cur = self.pool.eval(e) == 1;
        let other = if cur { self.pool.not(e) } else { e };
        match self.check(&[other]) {
            Res::Unsat => {
                self.decided.insert(e, cur);
                let n = self.pool.not(e);
                self.decided.insert(n, !cur);
                Ok(cur)
            }
            Res::Sat(m) => {
                if self.fork()? {
                    self.pool.set_model(m);
                    self.assert(other);
                    Ok(!cur)
                } else {
                    let me = if cur { e } else { self.pool.not(e) };
                    self.assert(me);
                    Ok(cur)
                }
            }
            Res::Unknown => Err(End::Inconclusive("solver unknown".into())),
        }
    }
    fn assume(&mut self, e: u32) -> Result<(), End> {
        if let Some(k) = self.pool.is_k(e) { return if k == 1 { Ok(()) } else { Err(End::Infeasible) }; }
        if self.pool.eval(e) == 1 { self.assert(e); return Ok(()); }
        match self.check(&[e]) {
            Res::Sat(m) => { self.pool.set_model(m); self.assert(e); Ok(()) }
            Res::Unsat => Err(End::Infeasible),
            Res::Unknown => Err(End::Inconclusive("solver unknown (assume)".into())),
        }
    }
    fn concretize(&mut self, v: Val, w: u8) -> Result<u128, End> {
        if v.e == 0 { return Ok(v.c); }
        loop {
            let cur = self.pool.eval(v.e);
            let k = self.pool.konst(w, cur);
            let eq = self.pool.bin(Op::Eq, w, v.e, k);
            if self.branch(eq)? { return Ok(cur); }
        }
    }
    fn c64(&mut self, v: Val) -> Result<u64, End> { Ok(self.concretize(v, 64)? as u64) }
    /// All feasible values of `e` (at most `cap`), or None.
    fn enumerate(&mut self, e: u32, cap: usize) -> Result<Option<Vec<u128>>, End> {
        let w = self.pool.w(e);
        let first = self.pool.eval(e);
        let mut vals = vec![first];
        let mut ex = vec![];
        loop {
            let k = self.pool.konst(w, *vals.last().unwrap());
            let q = self.pool.bin(Op::Eq, w, e, k);
            let n = self.pool.not(q);
            ex.push(n);
            match self.check(&ex) {
                Res::Unsat => return Ok(Some(vals)),
                Res::Sat(m) => {
                    if vals.len() >= cap { return Ok(None); }
                    let save = std::mem::replace(&mut self.pool.model, m);
                    self.pool.epoch += 1;
                    let v = self.pool.eval(e);
                    self.pool.set_model(save);
                    if vals.contains(&v) { return Err(End::Error("enumerate: model does not satisfy".into())); }
                    vals.push(v);
                }
                Res::Unknown => return Err(End::Inconclusive("solver unknown (enumerate)".into())),
            }
        }
    }
    pub fn stack(&self) -> String {
        let mut s = String::new();
        let mut names = vec![self.p.funcs[self.cur_fn as usize].name.clone()];
        for f in self.frames.iter().rev() { names.push(self.p.funcs[f.func as usize].name.clone()); }
        for n in names.iter().take(40) { s.push_str("  at "); s.push_str(n); s.push('\n'); }
        s
    }
    pub fn finish(&mut self, e: End) -> ! {
        let c = self.ctl;
        c.instrs.fetch_add(self.instrs, Relaxed);
        c.max_syms.fetch_max(self.trace.len() as u64, Relaxed);
        match e {
            End::Done => {
                let n = c.completed.fetch_add(1, Relaxed);
                // keep witnesses of completed paths (1st, 2nd, 4th, 8th, ...): replayed natively afterwards
                if (n + 1).is_power_of_two() {
                    let mut s = String::new();
                    for &v in &self.trace { s.push_str(&format!("{}\n", self.pool.model[v as usize])); }
                    let _ = std::fs::write(format!("{}/sample-{n}.txt", self.out), s);
                }
            }
            End::Infeasible => { c.infeasible.fetch_add(1, Relaxed); }
            End::Stopped => {}
            End::Violation(m) => {
                let n = c.violations.fetch_add(1, SeqCst);
                if n == 0 {
                    let mut s = String::new();
                    for &v in &self.trace { s.push_str(&format!("{}\n", self.pool.model[v as usize])); }
                    let _ = std::fs::write(format!("{}/values.txt", self.out), s);
                    let _ = std::fs::write(format!("{}/violation.txt", self.out), format!("{m}\n{}", self.stack()));
                }
                c.stop.store(1, SeqCst);
            }
            End::Inconclusive(m) => {
                if c.inconclusive.fetch_add(1, SeqCst) == 0 {
                    let _ = std::fs::write(format!("{}/inconclusive.txt", self.out), format!("{m}\n{}", self.stack()));
                }
            }
            End::Error(m) => {
                if c.errors.fetch_add(1, SeqCst) == 0 {
                    let mut s = String::new();
                    for &v in &self.trace { s.push_str(&format!("{}\n", self.pool.model[v as usize])); }
                    let _ = std::fs::write(format!("{}/error-values.txt", self.out), s);
                    let _ = std::fs::write(format!("{}/error.txt", self.out), format!("{m}\n{}", self.stack()));
                }
                c.stop.store(1, SeqCst);
            }
        }
        c.finished.fetch_add(1, SeqCst);
        if self.own_slot { c.active.fetch_sub(1, SeqCst); }
        unsafe { _exit(0) }
    }
    // ---------- memory with symbolic addresses ----------
    fn bad(&self, a: u64, n: u64) -> End { End::Violation(format!("invalid memory access at {a:#x} size {n}")) }
    fn load(&mut self, a: Val, off: u32, n: u8, w: u8) -> Result<Val, End> {
        if a.e == 0 {
            let ad = (a.c as u64).wrapping_add(off as u64);
            if !self.mem.valid(ad, n as u64) { return Err(self.bad(ad, n as u64)); }
            return Ok(self.mem.read(&mut self.pool, ad, n, w));
        }
        self.load_sym(a.e, off, n, w)
    }
    fn load_sym(&mut self, a: u32, off: u32, n: u8, w: u8) -> Result<Val, End> {
        if let Some(r) = self.pool.small_root(a) {
            let rw = self.pool.w(r);
            let cnt = 1u32 << rw;
            let mut tab = Vec::with_capacity(cnt as usize);
            let mut ok = true;
            for v in 0..cnt {
                match self.pool.eval_with(a, r, v as u128, 64) {
                    Some(ad) => {
                        let ad = (ad as u64).wrapping_add(off as u64);
                        if self.mem.valid(ad, n as u64) { let x = self.mem.read(&mut self.pool, ad, n, w); tab.push(x); } else { tab.push(Val::k(0)); }
                    }
                    None => { ok = false; break; }
                }
            }
            if ok {
                if tab.iter().all(|v| v.e == 0) && rw >= 3 {
                    let c0 = tab[0].c;
                    let basis: Vec<u128> = (0..rw).map(|i| tab[1usize << i].c ^ c0).collect();
                    let aff = (0..cnt as usize).all(|v| { let mut x = c0; for i in 0..rw as usize { if v >> i & 1 == 1 { x ^= basis[i]; } } x == tab[v].c });
                    if aff {
                        let mut acc = self.pool.konst(w, c0);
                        for i in 0..rw {
                            let b = self.pool.extract(r, i, 1);
                            let s = self.pool.sext(b, w);
                            let k = self.pool.konst(w, basis[i as usize]);
                            let t = self.pool.bin(Op::And, w, s, k);
                            acc = self.pool.bin(Op::Xor, w, acc, t);
                        }
                        return Ok(self.pool.val(acc));
                    }
                }
                return Ok(self.mux(r, rw, &tab, w));
            }
        }
        match self.enumerate(a, 128)? {
            Some(vals) => {
                let mut acc: Option<Val> = None;
                for v in vals {
                    let ad = (v as u64).wrapping_add(off as u64);
                    if !self.mem.valid(ad, n as u64) { return Err(self.bad(ad, n as u64)); }
                    let x = self.mem.read(&mut self.pool, ad, n, w);
                    acc = Some(match acc {
                        None => x,
                        Some(y) => {
                            let k = self.pool.konst(64, v);
                            let c = self.pool.bin(Op::Eq, 64, a, k);
                            let c = self.pool.val(c);
                            self.pool.vite(c, x, y, w)
                        }
                    });
                }
                Ok(acc.unwrap())
            }
            None => {
                let ad = self.c64(Val { c: 0, e: a })?;
                self.load(Val::k(ad as u128), off, n, w)
            }
        }
    }
    fn mux(&mut self, r: u32, bits: u8, tab: &[Val], w: u8) -> Val {
        if bits == 0 { return tab[0]; }
        let h = tab.len() / 2;
        let lo = self.mux(r, bits - 1, &tab[..h], w);
        let hi = self.mux(r, bits - 1, &tab[h..], w);
        let b = self.pool.extract(r, bits - 1, 1);
        let c = self.pool.val(b);
        self.pool.vite(c, hi, lo, w)
    }
    fn store(&mut self, a: Val, off: u32, n: u8, w: u8, v: Val) -> Result<(), End> {
        if a.e == 0 {
            let ad = (a.c as u64).wrapping_add(off as u64);
            if !self.mem.valid(ad, n as u64) { return Err(self.bad(ad, n as u64)); }
            self.mem.write(&mut self.pool, ad, n, w, v);
            return Ok(());
        }
        if let Some(vals) = self.enumerate(a.e, 32)? {
            for x in vals {
                let ad = (x as u64).wrapping_add(off as u64);
                if !self.mem.valid(ad, n as u64) { return Err(self.bad(ad, n as u64)); }
                let old = self.mem.read(&mut self.pool, ad, n, w);
                let k = self.pool.konst(64, x);
                let c = self.pool.bin(Op::Eq, 64, a.e, k);
                let c = self.pool.val(c);
                let nv = self.pool.vite(c, v, old, w);
                self.mem.write(&mut self.pool, ad, n, w, nv);
            }
            return Ok(());
        }
        let ad = self.c64(a)?;
        self.store(Val::k(ad as u128), off, n, w, v)
    }
    // ---------- scalar helpers ----------
    fn icmp(&mut self, p: u8, w: u8, a: Val, b: Val) -> Val {
        let (op, x, y, neg) = match p {
            32 => (Op::Eq, a, b, false), 33 => (Op::Eq, a, b, true),
            34 => (Op::Ult, b, a, false), 35 => (Op::Ule, b, a, false), 36 => (Op::Ult, a, b, false), 37 => (Op::Ule, a, b, false),
            38 => (Op::Slt, b, a, false), 39 => (Op::Sle, b, a, false), 40 => (Op::Slt, a, b, false), _ => (Op::Sle, a, b, false),
        };
        let r = self.pool.vbin(op, w, x, y);
        if neg { self.pool.vnot(r) } else { r }
    }
    fn fcmp(&mut self, p: u8, w: u8, a: Val, b: Val) -> Val {
        if a.e == 0 && b.e == 0 {
            let (x, y) = if w == 64 { (f64::from_bits(a.c as u64), f64::from_bits(b.c as u64)) } else { (f32::from_bits(a.c as u32) as f64, f32::from_bits(b.c as u32) as f64) };
            let un = x.is_nan() || y.is_nan();
            let r = match p { 0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => !un && x != y, 7 => !un, 8 => un,
                9 => un || x == y, 10 => un || x > y, 11 => un || x >= y, 12 => un || x < y, 13 => un || x <= y, 14 => un || x != y, _ => true };
            return Val::k(r as u128);
        }
        let p_ = &mut self.pool;
        let absm = mask(w - 1);
        let inf: u128 = if w == 64 { 0x7ff0_0000_0000_0000 } else { 0x7f80_0000 };
        let aa = p_.vbin(Op::And, w, a, Val::k(absm));
        let ab = p_.vbin(Op::And, w, b, Val::k(absm));
        let na = p_.vbin(Op::Ult, w, Val::k(inf), aa);
        let nb = p_.vbin(Op::Ult, w, Val::k(inf), ab);
        let un = p_.vbin(Op::Or, 1, na, nb);
        let za = p_.vbin(Op::Eq, w, aa, Val::k(0));
        let zb = p_.vbin(Op::Eq, w, ab, Val::k(0));
        let bz = p_.vbin(Op::And, 1, za, zb);
        let same = p_.vbin(Op::Eq, w, a, b);
        let eq = p_.vbin(Op::Or, 1, bz, same);
        let sign = 1u128 << (w - 1);
        let mut key = |p_: &mut Pool, x: Val| {
            let s = p_.vextract(x, w - 1, 1);
            let inv = p_.vbin(Op::Xor, w, x, Val::k(mask(w)));
            let pos = p_.vbin(Op::Xor, w, x, Val::k(sign));
            p_.vite(s, inv, pos, w)
        };
        let ka = key(p_, a);
        let kb = key(p_, b);
        let klt = p_.vbin(Op::Ult, w, ka, kb);
        let kgt = p_.vbin(Op::Ult, w, kb, ka);
        let nbz = p_.vnot(bz);
        let lt = p_.vbin(Op::And, 1, klt, nbz);
        let gt = p_.vbin(Op::And, 1, kgt, nbz);
        let ord = p_.vnot(un);
        let base = match p & 7 {
            0 => Val::k(0), 1 => eq, 2 => gt, 3 => p_.vbin(Op::Or, 1, gt, eq), 4 => lt, 5 => p_.vbin(Op::Or, 1, lt, eq),
            6 => p_.vnot(eq), _ => Val::k(1),
        };
        let o = p_.vbin(Op::And, 1, ord, base);
        if p & 8 != 0 { p_.vbin(Op::Or, 1, un, o) } else { o }
    }
    fn intr(&mut self, k: Intr, w: u8, rw: u8, d: usize, x: [Val; 3]) -> Result<(), End> {
        let (a, b) = (x[0], x[1]);
        let m = mask(w);
        macro_rules! set { ($v:expr) => {{ let v = $v; self.setr(d, v) }}; }
        macro_rules! unsup { () => { return Err(End::Error(format!("symbolic {k:?}"))) }; }
        macro_rules! f1 { ($f64:expr, $f32:expr) => {{
            if a.e != 0 { unsup!() }
            if w == 64 { let z: f64 = $f64(f64::from_bits(a.c as u64)); set!(Val::k(z.to_bits() as u128)) }
            else { let z: f32 = $f32(f32::from_bits(a.c as u32)); set!(Val::k(z.to_bits() as u128)) }
        }}; }
        let p = &mut self.pool;
        match k {
            Intr::UAddO | Intr::USubO | Intr::UMulO => {
                let op = match k { Intr::UAddO => Op::Add, Intr::USubO => Op::Sub, _ => Op::Mul };
                let r = p.vbin(op, w, a, b);
                let o = match k {
                    Intr::UAddO => p.vbin(Op::Ult, w, r, a),
                    Intr::USubO => p.vbin(Op::Ult, w, a, b),
                    _ => {
                        if a.e == 0 && b.e == 0 {
                            let (hi, ov) = if w <= 64 { (a.c * b.c, false) } else { a.c.overflowing_mul(b.c) };
                            Val::k((ov || hi > m) as u128)
                        } else if a.e == 0 || b.e == 0 {
                            let (kk, v) = if a.e == 0 { (a.c, b) } else { (b.c, a) };
                            if kk == 0 { Val::k(0) } else { p.vbin(Op::Ult, w, Val::k(m / kk), v) }
                        } else if w <= 64 {
                            let za = p.vzext(a, 2 * w);
                            let zb = p.vzext(b, 2 * w);
                            let pr = p.vbin(Op::Mul, 2 * w, za, zb);
                            let hi = p.vextract(pr, w, w);
                            let z = p.vbin(Op::Eq, w, hi, Val::k(0));
                            p.vnot(z)
                        } else { unsup!() }
                    }
                };
                self.setr(d, r);
                self.setr(d + 1, o);
            }
            Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let op = match k { Intr::SAddO => Op::Add, Intr::SSubO => Op::Sub, _ => Op::Mul };
                let r = p.vbin(op, w, a, b);
                let o = if a.e == 0 && b.e == 0 && w <= 64 {
                    let (x, y) = (sext(a.c, w), sext(b.c, w));
                    let t = match k { Intr::SAddO => x + y, Intr::SSubO => x - y, _ => x * y };
                    Val::k((t != sext(t as u128 & m, w)) as u128)
                } else if w <= 64 {
                    let xa = p.vsext(a, w, 2 * w);
                    let xb = p.vsext(b, w, 2 * w);
                    let t = p.vbin(op, 2 * w, xa, xb);
                    let sr = p.vsext(r, w, 2 * w);
                    let e = p.vbin(Op::Eq, 2 * w, t, sr);
                    p.vnot(e)
                } else { unsup!() };
                self.setr(d, r);
                self.setr(d + 1, o);
            }
            Intr::UAddS => { let r = p.vbin(Op::Add, w, a, b); let o = p.vbin(Op::Ult, w, r, a); let v = p.vite(o, Val::k(m), r, w); set!(v) }
            Intr::USubS => { let r = p.vbin(Op::Sub, w, a, b); let o = p.vbin(Op::Ult, w, a, b); let v = p.vite(o, Val::k(0), r, w); set!(v) }
            Intr::SAddS | Intr::SSubS => {
                if w > 64 { unsup!() }
                let op = if k == Intr::SAddS { Op::Add } else { Op::Sub };
                let xa = p.vsext(a, w, w + 1);
                let xb = p.vsext(b, w, w + 1);
                let t = p.vbin(op, w + 1, xa, xb);
                let mx = m >> 1;
                let mn = (mx + 1) | (1u128 << w); // sign-extended minimum in w+1 bits
                let hi = p.vbin(Op::Slt, w + 1, Val::k(mx), t);
                let lo = p.vbin(Op::Slt, w + 1, t, Val::k(mn & mask(w + 1)));
                let r = p.vextract(t, 0, w);
                let r = p.vite(lo, Val::k(mx + 1), r, w);
                let r = p.vite(hi, Val::k(mx), r, w);
                set!(r)
            }
            Intr::UMin => { let c = p.vbin(Op::Ult, w, a, b); let v = p.vite(c, a, b, w); set!(v) }
            Intr::UMax => { let c = p.vbin(Op::Ult, w, a, b); let v = p.vite(c, b, a, w); set!(v) }
            Intr::SMin => { let c = p.vbin(Op::Slt, w, a, b); let v = p.vite(c, a, b, w); set!(v) }
            Intr::SMax => { let c = p.vbin(Op::Slt, w, a, b); let v = p.vite(c, b, a, w); set!(v) }
            Intr::Abs => { let c = p.vbin(Op::Slt, w, a, Val::k(0)); let n = p.vbin(Op::Sub, w, Val::k(0), a); let v = p.vite(c, n, a, w); set!(v) }
            Intr::Ctpop => {
                if a.e == 0 { set!(Val::k(a.c.count_ones() as u128)) }
                else {
                    let mut acc = Val::k(0);
                    for i in 0..w { let bt = p.vextract(a, i, 1); let z = p.vzext(bt, w); acc = p.vbin(Op::Add, w, acc, z); }
                    set!(acc)
                }
            }
            Intr::Ctlz => {
                if a.e == 0 { set!(Val::k((a.c.leading_zeros() - (128 - w as u32)) as u128)) }
                else { let mut r = Val::k(w as u128); for i in 0..w { let bt = p.vextract(a, i, 1); r = p.vite(bt, Val::k((w - 1 - i) as u128), r, w); } set!(r) }
            }
            Intr::Cttz => {
                if a.e == 0 { set!(Val::k(if a.c == 0 { w as u128 } else { a.c.trailing_zeros() as u128 })) }
                else { let mut r = Val::k(w as u128); for i in (0..w).rev() { let bt = p.vextract(a, i, 1); r = p.vite(bt, Val::k(i as u128), r, w); } set!(r) }
            }
            Intr::Bswap => {
                let n = w / 8;
                let mut r = p.vextract(a, 0, 8);
                for i in 1..n { let bb = p.vextract(a, i * 8, 8); r = p.vconcat(r, i * 8, bb, 8); }
                set!(r)
            }
            Intr::Bitrev => {
                let mut r = p.vextract(a, 0, 1);
                for i in 1..w { let bb = p.vextract(a, i, 1); r = p.vconcat(r, i, bb, 1); }
                set!(r)
            }
            Intr::Fshl | Intr::Fshr => {
                let c = x[2];
                let s = p.vbin(Op::URem, w, c, Val::k(w as u128));
                let inv = p.vbin(Op::Sub, w, Val::k(w as u128), s);
                // shift amounts >= w give zero, which makes the zero-shift case fall out right
                let (l, r) = if k == Intr::Fshl { (p.vbin(Op::Shl, w, a, s), p.vbin(Op::LShr, w, b, inv)) } else { (p.vbin(Op::Shl, w, a, inv), p.vbin(Op::LShr, w, b, s)) };
                let v = p.vbin(Op::Or, w, l, r);
                set!(v)
            }
            Intr::UCmp | Intr::SCmp => {
                let op = if k == Intr::UCmp { Op::Ult } else { Op::Slt };
                let lt = p.vbin(op, w, a, b);
                let gt = p.vbin(op, w, b, a);
                let v = p.vite(gt, Val::k(1), Val::k(0), rw);
                let v = p.vite(lt, Val::k(mask(rw)), v, rw);
                set!(v)
            }
            Intr::FAbs => { let v = p.vbin(Op::And, w, a, Val::k(m >> 1)); set!(v) }
            Intr::CopySign => {
                let s = 1u128 << (w - 1);
                let l = p.vbin(Op::And, w, a, Val::k(m >> 1));
                let h = p.vbin(Op::And, w, b, Val::k(s));
                let v = p.vbin(Op::Or, w, l, h);
                set!(v)
            }
            Intr::FMinNum | Intr::FMaxNum => {
                if a.e != 0 || b.e != 0 { unsup!() }
                let mx = k == Intr::FMaxNum;
                if w == 64 { let (x, y) = (f64::from_bits(a.c as u64), f64::from_bits(b.c as u64)); let z = if mx { x.max(y) } else { x.min(y) }; set!(Val::k(z.to_bits() as u128)) }
                else { let (x, y) = (f32::from_bits(a.c as u32), f32::from_bits(b.c as u32)); let z = if mx { x.max(y) } else { x.min(y) }; set!(Val::k(z.to_bits() as u128)) }
            }
            Intr::Floor => f1!(f64::floor, f32::floor),
            Intr::Ceil => f1!(f64::ceil, f32::ceil),
            Intr::Trunc => f1!(f64::trunc, f32::trunc),
            Intr::Rint => f1!(f64::round_ties_even, f32::round_ties_even),
            Intr::Round => f1!(f64::round, f32::round),
            Intr::Sqrt => f1!(f64::sqrt, f32::sqrt),
            Intr::Fma => {
                if a.e != 0 || b.e != 0 || x[2].e != 0 { unsup!() }
                if w == 64 { let z = f64::from_bits(a.c as u64).mul_add(f64::from_bits(b.c as u64), f64::from_bits(x[2].c as u64)); set!(Val::k(z.to_bits() as u128)) }
                else { let z = f32::from_bits(a.c as u32).mul_add(f32::from_bits(b.c as u32), f32::from_bits(x[2].c as u32)); set!(Val::k(z.to_bits() as u128)) }
            }
            Intr::Pow => {
                if a.e != 0 || b.e != 0 || w != 64 { unsup!() }
                let z = f64::from_bits(a.c as u64).powf(f64::from_bits(b.c as u64));
                set!(Val::k(z.to_bits() as u128))
            }
            Intr::FpToUiSat | Intr::FpToSiSat => {
                if a.e != 0 { unsup!() }
                let v = fold1(if k == Intr::FpToUiSat { Op::FToU } else { Op::FToS }, rw, w, a.c, 0);
                set!(Val::k(v))
            }
            Intr::UShlSat => {
                if a.e != 0 || b.e != 0 { unsup!() }
                let r = fold2(Op::Shl, w, a.c, b.c);
                let back = fold2(Op::LShr, w, r, b.c);
                set!(Val::k(if back == a.c { r } else { m }))
            }
        }
        Ok(())
    }
    #[inline(always)]
    fn setr(&mut self, i: usize, v: Val) { unsafe { *self.regs.add(i) = v } }

    fn mem_range(&self, a: u64, n: u64) -> Result<(), End> {
        if n > 0 && !self.mem.valid(a, n) { return Err(self.bad(a, n)); }
        Ok(())
    }
    fn alloc(&mut self, sz: u64, al: u64) -> Result<u64, End> {
        self.mem.alloc(sz, al).ok_or_else(|| End::Error(format!("allocation of {sz} bytes")))
    }
    fn external(&mut self, e: u16, args: &[Val], d: usize) -> Result<bool, End> {
        // returns Ok(true) when the path continues
        let k = self.exts[e as usize];
        match k {
            X::Malloc => { let n = self.c64(args[0])?; let a = self.alloc(n, 16)?; self.setr(d, Val::k(a as u128)); }
            X::Calloc => {
                let n = self.c64(args[0])?;
                let s = self.c64(args[1])?;
                let a = self.alloc(n * s, 16)?;
                self.mem.set(a, Val::k(0), n * s);
                self.setr(d, Val::k(a as u128));
            }
            X::Realloc => {
                let o = self.c64(args[0])?;
                let n = self.c64(args[1])?;
                let a = self.alloc(n, 16)?;
                if o != 0 { let os = self.mem.size_of(o); self.mem.copy(a, o, os.min(n)); self.mem.free(o); }
                self.setr(d, Val::k(a as u128));
            }
            X::Free => { let a = self.c64(args[0])?; self.mem.free(a); }
            X::Memalign => {
                let out = self.c64(args[0])?;
                let al = self.c64(args[1])?;
                let n = self.c64(args[2])?;
                let a = self.alloc(n, al)?;
                self.mem.write(&mut self.pool, out, 8, 64, Val::k(a as u128));
                self.setr(d, Val::k(0));
            }
            X::AlignedAlloc => { let al = self.c64(args[0])?; let n = self.c64(args[1])?; let a = self.alloc(n, al)?; self.setr(d, Val::k(a as u128)); }
            X::Memcmp | X::Bcmp => {
                let a = self.c64(args[0])?;
                let b = self.c64(args[1])?;
                let n = self.c64(args[2])?;
                self.mem_range(a, n)?;
                self.mem_range(b, n)?;
                let sym = self.mem.any_sym(a, n) || self.mem.any_sym(b, n);
                if !sym {
                    let (x, y) = unsafe { (std::slice::from_raw_parts(a as *const u8, n as usize), std::slice::from_raw_parts(b as *const u8, n as usize)) };
                    let r: i32 = match x.cmp(y) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 };
                    self.setr(d, Val::k(r as u32 as u128));
                } else {
                    let mut r = Val::k(0);
                    for i in (0..n).rev() {
                        let x = self.mem.get_byte(a + i);
                        let y = self.mem.get_byte(b + i);
                        let p = &mut self.pool;
                        let eq = p.vbin(Op::Eq, 8, x, y);
                        let ne = if k == X::Bcmp { Val::k(1) } else { let lt = p.vbin(Op::Ult, 8, x, y); p.vite(lt, Val::k(0xffff_ffff), Val::k(1), 32) };
                        r = p.vite(eq, r, ne, 32);
                    }
                    self.setr(d, r);
                }
            }
            X::Strlen => {
                let a = self.c64(args[0])?;
                let mut n = 0;
                loop { let b = self.mem.get_byte(a + n); let b = self.concretize(b, 8)?; if b == 0 { break; } n += 1; }
                self.setr(d, Val::k(n as u128));
            }
            X::Memcpy => {
                let (a, b, n) = (self.c64(args[0])?, self.c64(args[1])?, self.c64(args[2])?);
                self.mem_range(a, n)?; self.mem_range(b, n)?;
                self.mem.copy(a, b, n);
                self.setr(d, args[0]);
            }
            X::Memset => {
                let (a, n) = (self.c64(args[0])?, self.c64(args[2])?);
                let v = self.pool.vextract(args[1], 0, 8);
                self.mem_range(a, n)?;
                self.mem.set(a, v, n);
                self.setr(d, args[0]);
            }
            X::Clock => {
                let ts = self.c64(args[1])?;
                self.clock += 1000;
                let (s, ns) = (self.clock / 1_000_000_000, self.clock % 1_000_000_000);
                self.mem.write(&mut self.pool, ts, 8, 64, Val::k(s as u128));
                self.mem.write(&mut self.pool, ts + 8, 8, 64, Val::k(ns as u128));
                self.setr(d, Val::k(0));
            }
            X::KeyCreate => { let p = self.c64(args[0])?; self.mem.write(&mut self.pool, p, 4, 32, Val::k(7)); self.setr(d, Val::k(0)); }
            X::Getrandom => { let (b, n) = (self.c64(args[0])?, self.c64(args[1])?); self.mem.set(b, Val::k(0x5a), n); self.setr(d, Val::k(n as u128)); }
            X::Syscall => {
                let nr = self.c64(args[0])?;
                match nr {
                    318 => { let (b, n) = (self.c64(args[1])?, self.c64(args[2])?); self.mem.set(b, Val::k(0x5a), n); self.setr(d, Val::k(n as u128)); }
                    186 | 39 => self.setr(d, Val::k(1)),
                    202 => {
                        let op = self.c64(args[2])? & 0x7f;
                        if (op == 0 || op == 9) && self.in_rival { return Err(End::Infeasible); }
                        if op == 0 || op == 9 { return Err(End::Violation("deadlock: blocking wait with no other thread".into())); }
                        self.setr(d, Val::k(0));
                    }
                    _ => return Err(End::Error(format!("syscall {nr}"))),
                }
            }
            X::Errno => {
                if self.errno == 0 { self.errno = self.alloc(16, 16)?; self.mem.set(self.errno, Val::k(0), 16); }
                self.setr(d, Val::k(self.errno as u128));
            }
            X::Write => {
                let (fd, b, n) = (self.c64(args[0])? as u32, self.c64(args[1])?, self.c64(args[2])?);
                if self.verbose && fd <= 2 { self.dump(b, n); }
                self.setr(d, Val::k(n as u128));
            }
            X::Writev => {
                let (iov, cnt) = (self.c64(args[1])?, self.c64(args[2])? as u32 as u64);
                let mut tot = 0;
                for i in 0..cnt {
                    let b = self.mem.read(&mut self.pool, iov + 16 * i, 8, 64).c as u64;
                    let n = self.mem.read(&mut self.pool, iov + 16 * i + 8, 8, 64).c as u64;
                    if self.verbose { self.dump(b, n); }
                    tot += n;
                }
                self.setr(d, Val::k(tot as u128));
            }
            X::Zero => self.setr(d, Val::k(0)),
            X::One => self.setr(d, Val::k(1)),
            X::Sysconf => { let n = self.c64(args[0])? as u32; self.setr(d, Val::k(match n { 30 => 4096, _ => 8 })); }
            X::Abort => return Err(End::Violation("abort".into())),
            X::Trap => return Err(End::Violation("trap".into())),
            X::Panic => return Err(End::Violation("panic".into())),
            X::Fail => { let id = self.c64(args[0])?; return Err(End::Violation(format!("vf_fail {id}"))); }
            X::Sym => {
                let w = self.concretize(args[0], 32)? as u8;
                let v = self.pool.new_var(w);
                self.trace.push(self.pool.vars.len() as u32 - 1);
                let r = self.pool.zext(v, 64);
                let r = self.pool.val(r);
                self.setr(d, r);
            }
            X::SymBytes => {
                let (b, n) = (self.c64(args[0])?, self.c64(args[1])?);
                self.mem_range(b, n)?;
                for i in 0..n {
                    let v = self.pool.new_var(8);
                    self.trace.push(self.pool.vars.len() as u32 - 1);
                    self.mem.set_byte(b + i, Val { c: 0, e: v });
                }
            }
            X::Assume => {
                let b = self.pool.vextract(args[0], 0, 1);
                if b.e == 0 { if b.c == 0 { return Err(End::Infeasible); } } else { self.assume(b.e)?; }
            }
            X::Yield => { if self.in_rival { return Err(End::Infeasible); } self.setr(d, Val::k(0)); }
            X::Rival => { let (f, a) = (self.c64(args[0])?, self.c64(args[1])?); if self.rivals.is_empty() { self.sync = 0; } self.rivals.push((f, a, args[2])); }
            X::RivalOff => self.rivals.clear(),
            X::RivalDone => self.in_rival = false,
            X::Cover => { let id = self.concretize(args[0], 32)? as usize; if id < NCOVER { self.ctl.cover[id].fetch_add(1, Relaxed); } }
            X::Concretize => { let v = self.c64(args[0])?; self.setr(d, Val::k(v as u128)); }
            X::Print => { let (b, n) = (self.c64(args[0])?, self.c64(args[1])?); if self.verbose { self.dump(b, n); eprintln!(); } }
            X::Sin | X::Unknown => return Err(End::Error(format!("external function {}", self.p.exts[e as usize]))),
        }
        Ok(true)
    }
    fn dump(&mut self, b: u64, n: u64) {
        let mut s = vec![];
        for i in 0..n { let v = self.mem.get_byte(b + i); s.push(if v.e == 0 { v.c as u8 } else { b'?' }); }
        eprint!("{}", String::from_utf8_lossy(&s));
    }
    pub fn run(&mut self, entry: u32) -> End {
        match self.run_inner(entry) { Ok(()) => End::Done, Err(e) => e }
    }
    fn run_inner(&mut self, entry: u32) -> Result<(), End> {
        let p = self.p;
        let code = p.code.as_ptr();
        let consts = p.consts.as_ptr();
        let mut base: usize = 0;
        let mut func = entry;
        self.cur_fn = func;
        unsafe { *self.fexec.add(func as usize) = 1; }
        let mut pc = p.funcs[func as usize].entry as usize;
        macro_rules! r { ($o:expr) => {{ let o = $o; if o >= 0 { unsafe { *self.regs.add(base + o as usize) } } else { unsafe { *consts.add(!o as usize) } } }}; }
        macro_rules! w { ($d:expr, $v:expr) => {{ let v = $v; unsafe { *self.regs.add(base + $d as usize) = v; } }}; }
        macro_rules! goto { ($e:expr) => {{
            let e = &p.edges[$e as usize];
            let n = e.copies.len();
            if n == 1 { let (d, s) = e.copies[0]; w!(d, r!(s)); }
            else if n > 0 {
                self.tmp.clear();
                for &(_, s) in e.copies.iter() { let v = r!(s); self.tmp.push(v); }
                for (i, &(d, _)) in e.copies.iter().enumerate() { let v = self.tmp[i]; w!(d, v); }
            }
            pc = e.target as usize;
            continue;
        }}; }
        loop {
            self.instrs += 1;
            if self.instrs & 0xfffff == 0 {
                if self.ctl.stop.load(Relaxed) != 0 { return Err(End::Stopped); }
                if self.instrs > self.max_instrs { return Err(End::Violation("the path does not end within the instruction bound".into())); }
            }
            let ins = unsafe { &*code.add(pc) };
            pc += 1;
            match ins {
                Inst::Bin { op, w: wd, d, a, b } => {
                    let (x, y) = (r!(*a), r!(*b));
                    if x.e | y.e == 0 { w!(*d, Val::k(fold2(*op, *wd, x.c, y.c))) } else { let v = self.pool.vbin(*op, *wd, x, y); w!(*d, v) }
                }
                Inst::ICmp { p: pr, w: wd, d, a, b } => {
                    let (x, y) = (r!(*a), r!(*b));
                    if x.e | y.e == 0 {
                        let v = match *pr {
                            32 => x.c == y.c, 33 => x.c != y.c, 34 => x.c > y.c, 35 => x.c >= y.c, 36 => x.c < y.c, 37 => x.c <= y.c,
                            38 => sext(x.c, *wd) > sext(y.c, *wd), 39 => sext(x.c, *wd) >= sext(y.c, *wd),
                            40 => sext(x.c, *wd) < sext(y.c, *wd), _ => sext(x.c, *wd) <= sext(y.c, *wd),
                        };
                        w!(*d, Val::k(v as u128))
                    } else { let v = self.icmp(*pr, *wd, x, y); w!(*d, v) }
                }
                Inst::Load { n, w: wd, d, a, off } => {
                    let ad = r!(*a);
                    let v = self.load(ad, *off, *n, *wd)?;
                    w!(*d, v)
                }
                Inst::Store { n, w: wd, v, a, off } => {
                    let (x, ad) = (r!(*v), r!(*a));
                    self.store(ad, *off, *n, *wd, x)?;
                }
                Inst::GepC { d, base: b, off } => {
                    let x = r!(*b);
                    if x.e == 0 { w!(*d, Val::k((x.c as u64).wrapping_add(*off as u64) as u128)) }
                    else { let v = self.pool.vbin(Op::Add, 64, x, Val::k(*off as u64 as u128)); w!(*d, v) }
                }
                Inst::Gep1 { d, base: b, idx, scale } => {
                    let (x, i) = (r!(*b), r!(*idx));
                    if x.e | i.e == 0 { w!(*d, Val::k((x.c as u64).wrapping_add((i.c as u64).wrapping_mul(*scale as u64)) as u128)) }
                    else {
                        let s = self.pool.vbin(Op::Mul, 64, i, Val::k(*scale as u64 as u128));
                        let v = self.pool.vbin(Op::Add, 64, x, s);
                        w!(*d, v)
                    }
                }
                Inst::Gep { d, base: b, off, idx } => {
                    let mut v = r!(*b);
                    for (i, iw, sc) in idx.iter() {
                        let x = r!(*i);
                        let x = if *iw < 64 { self.pool.vsext(x, *iw, 64) } else if *iw > 64 { self.pool.vextract(x, 0, 64) } else { x };
                        let s = self.pool.vbin(Op::Mul, 64, x, Val::k(*sc as u64 as u128));
                        v = self.pool.vbin(Op::Add, 64, v, s);
                    }
                    v = self.pool.vbin(Op::Add, 64, v, Val::k(*off as u64 as u128));
                    w!(*d, v)
                }
                Inst::Mov { d, a } => { let x = r!(*a); w!(*d, x) }
                Inst::Select { w: wd, d, c, a, b } => {
                    let cc = r!(*c);
                    if cc.e == 0 { let x = if cc.c & 1 == 1 { r!(*a) } else { r!(*b) }; w!(*d, x) }
                    else { let (x, y) = (r!(*a), r!(*b)); let v = self.pool.vite(cc, x, y, *wd); w!(*d, v) }
                }
                Inst::Br { e } => goto!(*e),
                Inst::CondBr { c, t, f } => {
                    let x = r!(*c);
                    let tk = if x.e == 0 { x.c & 1 == 1 } else { self.branch(x.e)? };
                    if tk { goto!(*t) } else { goto!(*f) }
                }
                Inst::Switch { w: wd, v, cases, def } => {
                    let x = r!(*v);
                    if x.e == 0 {
                        let e = cases.0.get(&x.c).copied().unwrap_or(*def);
                        goto!(e)
                    }
                    // group by edge
                    let mut groups: Vec<(u32, u32)> = vec![];
                    for (cv, e) in cases.1.iter() {
                        let k = self.pool.konst(*wd, *cv);
                        let q = self.pool.bin(Op::Eq, *wd, x.e, k);
                        match groups.iter_mut().find(|g| g.0 == *e) {
                            Some(g) => { g.1 = self.pool.bin(Op::Or, 1, g.1, q); }
                            None => groups.push((*e, q)),
                        }
                    }
                    let mut dest = *def;
                    for (e, q) in groups { if self.branch(q)? { dest = e; break; } }
                    goto!(dest)
                }
                Inst::Call { callee, args, d, .. } => {
                    let fi = match callee {
                        Callee::Fn(f) => *f,
                        Callee::Ext(e) => {
                            let mut av = [Val::k(0); 8];
                            for (i, a) in args.iter().enumerate().take(8) { av[i] = r!(*a); }
                            self.external(*e, &av[..args.len().min(8)], base + *d as usize)?;
                            continue;
                        }
                        Callee::Ind(o) => {
                            let t = r!(*o);
                            let t = self.c64(t)?;
                            let off = t.wrapping_sub(FUNC_BASE);
                            let i = off / FUNC_STRIDE;
                            if t < FUNC_BASE || off % FUNC_STRIDE != 0 || i as usize >= p.funcs.len() { return Err(End::Violation(format!("call of invalid function pointer {t:#x}"))); }
                            let f = &p.funcs[i as usize];
                            if f.ext != 0 {
                                let mut av = [Val::k(0); 8];
                                for (i, a) in args.iter().enumerate().take(8) { av[i] = r!(*a); }
                                self.external(f.ext, &av[..args.len().min(8)], base + *d as usize)?;
                                continue;
                            }
                            i as u32
                        }
                    };
                    let nb = base + p.funcs[func as usize].nslots as usize;
                    let f = &p.funcs[fi as usize];
                    if nb + f.nslots as usize >= MAX_REGS { return Err(End::Violation("stack overflow".into())); }
                    if f.nparams as usize != args.len() { return Err(End::Error(format!("argument count for {}", f.name))); }
                    for (i, a) in args.iter().enumerate() { let v = r!(*a); unsafe { *self.regs.add(nb + i) = v; } }
                    self.frames.push(Frame { func, ret_pc: pc as u32, base: base as u32, dst: *d, sp: self.mem.sp });
                    func = fi;
                    self.cur_fn = fi;
                    unsafe { *self.fexec.add(fi as usize) = 1; }
                    base = nb;
                    pc = f.entry as usize;
                }
                Inst::Sync => {
                    if self.rivals.is_empty() || self.in_rival { continue; }
                    self.sync += 1;
                    let mut go = None;
                    for i in 0..self.rivals.len() {
                        let at = self.rivals[i].2;
                        let hit = if at.e == 0 { at.c as u64 == self.sync } else {
                            let k = self.pool.konst(64, self.sync as u128);
                            let q = self.pool.bin(Op::Eq, 64, at.e, k);
                            self.branch(q)?
                        };
                        if hit { go = Some(i); break; }
                    }
                    if let Some(i) = go {
                        let (f, a, _) = self.rivals.remove(i);
                        let fi = ((f - FUNC_BASE) / FUNC_STRIDE) as u32;
                        let nb = base + p.funcs[func as usize].nslots as usize;
                        let fd = &p.funcs[fi as usize];
                        if nb + fd.nslots as usize >= MAX_REGS { return Err(End::Violation("stack overflow".into())); }
                        unsafe { *self.regs.add(nb) = Val::k(a as u128); }
                        self.frames.push(Frame { func, ret_pc: pc as u32, base: base as u32, dst: 0, sp: self.mem.sp });
                        self.in_rival = true;
                        func = fi;
                        self.cur_fn = fi;
                        unsafe { *self.fexec.add(fi as usize) = 1; }
                        base = nb;
                        pc = fd.entry as usize;
                    }
                }
                Inst::Ret { vals } => {
                    match self.frames.pop() {
                        None => return Ok(()),
                        Some(fr) => {
                            let nb = fr.base as usize;
                            for (i, v) in vals.iter().enumerate() { let x = r!(*v); unsafe { *self.regs.add(nb + fr.dst as usize + i) = x; } }
                            self.mem.sp = fr.sp;
                            base = nb;
                            func = fr.func;
                            self.cur_fn = func;
                            pc = fr.ret_pc as usize;
                        }
                    }
                }
                Inst::Trunc { w: wd, d, a } => { let x = r!(*a); if x.e == 0 { w!(*d, Val::k(x.c & mask(*wd))) } else { let v = self.pool.vextract(x, 0, *wd); w!(*d, v) } }
                Inst::ZExt { w: wd, d, a } => { let x = r!(*a); if x.e == 0 { w!(*d, x) } else { let v = self.pool.vzext(x, *wd); w!(*d, v) } }
                Inst::SExt { fw, w: wd, d, a } => { let x = r!(*a); let v = self.pool.vsext(x, *fw, *wd); w!(*d, v) }
                Inst::Alloca { d, size, align } => {
                    let al = *align as u64;
                    let a = (self.mem.sp + al - 1) / al * al;
                    self.mem.sp = a + *size + 16;
                    if self.mem.sp >= mem::STACK_END { return Err(End::Violation("stack overflow".into())); }
                    w!(*d, Val::k(a as u128))
                }
                Inst::MemCpy { d, s, n, .. } => {
                    let nn = r!(*n); let nn = self.c64(nn)?;
                    if nn > 0 {
                        let dd = r!(*d); let dd = self.c64(dd)?;
                        let ss = r!(*s); let ss = self.c64(ss)?;
                        self.mem_range(dd, nn)?; self.mem_range(ss, nn)?;
                        self.mem.copy(dd, ss, nn);
                    }
                }
                Inst::MemSet { d, v, n } => {
                    let nn = r!(*n); let nn = self.c64(nn)?;
                    if nn > 0 {
                        let dd = r!(*d); let dd = self.c64(dd)?;
                        let vv = r!(*v);
                        self.mem_range(dd, nn)?;
                        self.mem.set(dd, vv, nn);
                    }
                }
                Inst::Intr { k, w: wd, rw, d, x } => {
                    let xs = [r!(x[0]), r!(x[1]), r!(x[2])];
                    self.intr(*k, *wd, *rw, base + *d as usize, xs)?;
                }
                Inst::FCmp { p: pr, w: wd, d, a, b } => { let (x, y) = (r!(*a), r!(*b)); let v = self.fcmp(*pr, *wd, x, y); w!(*d, v) }
                Inst::FNeg { w: wd, d, a } => { let x = r!(*a); let v = self.pool.vbin(Op::Xor, *wd, x, Val::k(1u128 << (*wd - 1))); w!(*d, v) }
                Inst::FRem { w: wd, d, a, b } => {
                    let (x, y) = (r!(*a), r!(*b));
                    if x.e | y.e != 0 { return Err(End::Error("symbolic frem".into())); }
                    let v = if *wd == 64 { (f64::from_bits(x.c as u64) % f64::from_bits(y.c as u64)).to_bits() as u128 } else { (f32::from_bits(x.c as u32) % f32::from_bits(y.c as u32)).to_bits() as u128 };
                    w!(*d, Val::k(v))
                }
                Inst::FCast { op, fw, w: wd, d, a } => { let x = r!(*a); let v = self.pool.vun(*op, *wd, *fw, x); w!(*d, v) }
                Inst::CmpXchg { n, w: wd, d, a, c, v } => {
                    let (ad, c, v) = (r!(*a), r!(*c), r!(*v));
                    let ad = Val::k(self.c64(ad)? as u128);
                    let old = self.load(ad, 0, *n, *wd)?;
                    let eq = self.pool.vbin(Op::Eq, *wd, old, c);
                    let nv = self.pool.vite(eq, v, old, *wd);
                    self.store(ad, 0, *n, *wd, nv)?;
                    w!(*d, old);
                    w!(*d + 1, eq);
                }
                Inst::Rmw { op, n, w: wd, d, a, v } => {
                    let (ad, v) = (r!(*a), r!(*v));
                    let ad = Val::k(self.c64(ad)? as u128);
                    let old = self.load(ad, 0, *n, *wd)?;
                    let p = &mut self.pool;
                    let nv = match *op {
                        0 => v,
                        1 => p.vbin(Op::Add, *wd, old, v),
                        2 => p.vbin(Op::Sub, *wd, old, v),
                        3 => p.vbin(Op::And, *wd, old, v),
                        4 => { let t = p.vbin(Op::And, *wd, old, v); p.vbin(Op::Xor, *wd, t, Val::k(mask(*wd))) }
                        5 => p.vbin(Op::Or, *wd, old, v),
                        6 => p.vbin(Op::Xor, *wd, old, v),
                        7 => { let c = p.vbin(Op::Slt, *wd, old, v); p.vite(c, v, old, *wd) }
                        8 => { let c = p.vbin(Op::Slt, *wd, v, old); p.vite(c, v, old, *wd) }
                        9 => { let c = p.vbin(Op::Ult, *wd, old, v); p.vite(c, v, old, *wd) }
                        10 => { let c = p.vbin(Op::Ult, *wd, v, old); p.vite(c, v, old, *wd) }
                        _ => return Err(End::Error("atomicrmw".into())),
                    };
                    self.store(ad, 0, *n, *wd, nv)?;
                    w!(*d, old);
                }
                Inst::Pack { d, w: wd, parts } => {
                    let mut v = r!(parts[0]);
                    let mut cw = *wd;
                    for q in &parts[1..] { let h = r!(*q); v = self.pool.vconcat(h, *wd, v, cw); cw += *wd; }
                    w!(*d, v)
                }
                Inst::ExtractDyn { d, w: _, i, parts } => {
                    let ix = r!(*i); let ix = self.concretize(ix, 64)? as usize;
                    if ix >= parts.len() { return Err(End::Violation("vector index".into())); }
                    let x = r!(parts[ix]); w!(*d, x)
                }
                Inst::InsertDyn { d, w: _, i, v, parts } => {
                    let ix = r!(*i); let ix = self.concretize(ix, 64)? as usize;
                    for q in 0..parts.len() { let x = if q == ix { r!(*v) } else { r!(parts[q]) }; w!(*d + q as u32, x) }
                }
                Inst::Unreachable => return Err(End::Violation("reached unreachable code".into())),
                Inst::Trap { msg } => return Err(End::Error(p.msgs[*msg as usize].clone())),
                Inst::Nop => {}
            }
        }
    }
}
#[allow(dead_code)]
pub type _U = AtomicU8;
