//! Byte memory with a parallel symbolic shadow (one expression id per byte).
use crate::expr::*;
use std::ffi::{c_int, c_void};
extern "C" {
    fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
}
pub fn map(addr: u64, len: usize, shared: bool) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_{PRIVATE,SHARED}|ANON|NORESERVE|FIXED_NOREPLACE
    let fl = 0x20 | 0x4000 | if shared { 1 } else { 2 } | if addr != 0 { 0x100000 } else { 0 };
    let p = unsafe { mmap(addr as *mut c_void, len, 3, fl, -1, 0) };
    if p as isize == -1 { panic!("mmap failed"); }
    p as *mut u8
}
pub const BASE: u64 = 0x10_0000_0000;
pub const SIZE: u64 = 0x4_0000_0000; // 16 GiB of address space
const SHADOW: u64 = 0x40_0000_0000;
const FLAGS: u64 = 0x80_0000_0000;
pub const GLOBALS: u64 = BASE + 0x1000;
pub const STACK: u64 = BASE + 0x1_0000_0000;
pub const STACK_END: u64 = STACK + 0x4000_0000;
pub const HEAP: u64 = STACK_END + 0x1000;
pub struct Mem {
    pub brk: u64,
    pub sp: u64,
    free: Vec<Vec<u64>>,
    pub allocated: u64,
}
#[inline(always)]
fn class(sz: u64) -> (usize, u64) {
    let s = sz.max(16).next_power_of_two();
    (s.trailing_zeros() as usize, s)
}
impl Mem {
    pub fn new() -> Mem {
        map(BASE, SIZE as usize, false);
        map(SHADOW, SIZE as usize * 4, false);
        map(FLAGS, (SIZE >> 12) as usize, false);
        Mem { brk: HEAP, sp: STACK, free: vec![vec![]; 64], allocated: 0 }
    }
    #[inline(always)]
    pub fn valid(&self, a: u64, n: u64) -> bool { a >= GLOBALS && a < BASE + SIZE && n <= BASE + SIZE - a }
    #[inline(always)]
    fn flag(a: u64) -> *mut u8 { (FLAGS + ((a - BASE) >> 12)) as *mut u8 }
    #[inline(always)]
    fn sh(a: u64) -> *mut u32 { (SHADOW + (a - BASE) * 4) as *mut u32 }
    #[inline(always)]
    pub fn page_sym(&self, a: u64, n: u64) -> bool {
        unsafe {
            if *Self::flag(a) != 0 { return true; }
            let e = a + n - 1;
            if (a ^ e) >> 12 != 0 {
                let mut p = (a | 0xfff) + 1;
                while p <= e { if *Self::flag(p) != 0 { return true; } p += 4096; }
            }
            false
        }
    }
    pub fn any_sym(&self, a: u64, n: u64) -> bool {
        if n == 0 || !self.page_sym(a, n) { return false; }
        (0..n).any(|i| unsafe { *Self::sh(a + i) != 0 })
    }
    #[inline(always)]
    fn raw_read(a: u64, n: u8) -> u128 {
        unsafe {
            match n {
                1 => *(a as *const u8) as u128,
                2 => (a as *const u16).read_unaligned() as u128,
                4 => (a as *const u32).read_unaligned() as u128,
                8 => (a as *const u64).read_unaligned() as u128,
                16 => (a as *const u128).read_unaligned(),
                _ => { let mut r = 0u128; for i in 0..n as u64 { r |= (*((a + i) as *const u8) as u128) << (8 * i); } r }
            }
        }
    }
    #[inline(always)]
    pub fn read(&mut self, p: &mut Pool, a: u64, n: u8, w: u8) -> Val {
        if !self.page_sym(a, n as u64) {
            let r = Self::raw_read(a, n);
            return Val::k(if w == n * 8 { r } else { r & mask(w) });
        }
        self.read_slow(p, a, n, w)
    }
    fn read_slow(&mut self, p: &mut Pool, a: u64, n: u8, w: u8) -> Val {
        unsafe {
            let mut any = false;
            for i in 0..n as u64 { if *Self::sh(a + i) != 0 { any = true; break; } }
            if !any { return Val::k(Self::raw_read(a, n) & mask(w)); }
            let byte = |i: u64| -> Val { let e = *Self::sh(a + i); if e != 0 { Val { c: 0, e } } else { Val::k(*((a + i) as *const u8) as u128) } };
            let mut v = byte(n as u64 - 1);
            for i in (0..n as u64 - 1).rev() {
                let b = byte(i);
                v = p.vconcat(v, (n - 1 - i as u8) * 8, b, 8);
            }
            if w < n * 8 { v = p.vextract(v, 0, w); }
            v
        }
    }
    #[inline(always)]
    pub fn write(&mut self, p: &mut Pool, a: u64, n: u8, w: u8, v: Val) {
        if v.e == 0 {
            let c = v.c;
            unsafe {
                match n {
                    1 => *(a as *mut u8) = c as u8,
                    2 => (a as *mut u16).write_unaligned(c as u16),
                    4 => (a as *mut u32).write_unaligned(c as u32),
                    8 => (a as *mut u64).write_unaligned(c as u64),
                    16 => (a as *mut u128).write_unaligned(c),
                    _ => for i in 0..n as u64 { *((a + i) as *mut u8) = (c >> (8 * i)) as u8; },
                }
                if self.page_sym(a, n as u64) { for i in 0..n as u64 { *Self::sh(a + i) = 0; } }
            }
            return;
        }
        let v = if w < n * 8 { p.vzext(v, n * 8) } else { v };
        for i in 0..n {
            let b = p.vextract(v, i * 8, 8);
            self.set_byte(a + i as u64, b);
        }
    }
    pub fn set_byte(&mut self, a: u64, b: Val) {
        unsafe {
            if b.e == 0 {
                *(a as *mut u8) = b.c as u8;
                if *Self::flag(a) != 0 { *Self::sh(a) = 0; }
            } else {
                *Self::flag(a) = 1;
                *Self::sh(a) = b.e;
            }
        }
    }
    pub fn get_byte(&self, a: u64) -> Val {
        unsafe {
            if *Self::flag(a) != 0 { let e = *Self::sh(a); if e != 0 { return Val { c: 0, e }; } }
            Val::k(*(a as *const u8) as u128)
        }
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 { return; }
        unsafe {
            std::ptr::copy(s as *const u8, d as *mut u8, n as usize);
            let (ss, ds) = (self.page_sym(s, n), self.page_sym(d, n));
            if ss {
                // shadow copy (memmove semantics)
                std::ptr::copy(Self::sh(s), Self::sh(d), n as usize);
                // source pages may be mixed: pages without the flag hold zero shadow
                let mut p = d & !0xfff;
                while p < d + n { if *Self::flag(p) == 0 { *Self::flag(p) = 1; } p += 4096; }
            } else if ds {
                std::ptr::write_bytes(Self::sh(d), 0, n as usize);
            }
        }
    }
    pub fn set(&mut self, d: u64, v: Val, n: u64) {
        if n == 0 { return; }
        unsafe {
            if v.e == 0 {
                std::ptr::write_bytes(d as *mut u8, v.c as u8, n as usize);
                if self.page_sym(d, n) { std::ptr::write_bytes(Self::sh(d), 0, n as usize); }
            } else {
                for i in 0..n { self.set_byte(d + i, v); }
            }
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> Option<u64> {
        self.allocated += size;
        if size > 0x1_0000_0000 { return None; }
        if align <= 16 && size <= 1 << 20 {
            // header holds the size so realloc/free can find it
            let (c, s) = class(size + 16);
            if let Some(a) = self.free[c].pop() {
                unsafe { *((a) as *mut u64) = size; }
                self.clear_shadow(a, 16);
                return Some(a + 16);
            }
            let a = self.brk;
            self.brk += s;
            if self.brk >= BASE + SIZE { return None; }
            unsafe { *(a as *mut u64) = size; }
            return Some(a + 16);
        }
        let al = align.max(16);
        let a = (self.brk + 16 + al - 1) / al * al;
        self.brk = (a + size + 15) / 16 * 16;
        if self.brk >= BASE + SIZE { return None; }
        unsafe { *((a - 16) as *mut u64) = size | 1 << 63; }
        Some(a)
    }
    fn clear_shadow(&mut self, a: u64, n: u64) {
        if self.page_sym(a, n) { unsafe { std::ptr::write_bytes(Self::sh(a), 0, n as usize) } }
    }
    pub fn size_of(&self, a: u64) -> u64 { unsafe { *((a - 16) as *const u64) & !(1 << 63) } }
    pub fn free(&mut self, a: u64) {
        if a == 0 { return; }
        let h = unsafe { *((a - 16) as *const u64) };
        if h >> 63 == 0 {
            let (c, _) = class(h + 16);
            self.free[c].push(a - 16);
        }
    }
}
