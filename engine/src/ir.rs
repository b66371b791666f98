//! Translation of an LLVM module (the compiled real code) into a compact register IR.
use crate::expr::*;
use crate::llvm::*;
use std::collections::HashMap;
use std::ffi::c_uint;

pub type Opnd = i32; // >= 0: slot, < 0: constant index !x

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Intr {
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
    UAddS, USubS, SAddS, SSubS,
    UMin, UMax, SMin, SMax, Abs, Ctpop, Ctlz, Cttz, Bswap, Bitrev, Fshl, Fshr, UCmp, SCmp,
    FAbs, CopySign, FMinNum, FMaxNum, Floor, Ceil, Trunc, Rint, Round, Sqrt, Fma, Pow,
    FpToUiSat, FpToSiSat, UShlSat,
}
pub enum Callee { Fn(u32), Ext(u16), Ind(Opnd) }
pub enum Inst {
    Bin { op: Op, w: u8, d: u32, a: Opnd, b: Opnd },
    ICmp { p: u8, w: u8, d: u32, a: Opnd, b: Opnd },
    FCmp { p: u8, w: u8, d: u32, a: Opnd, b: Opnd },
    FRem { w: u8, d: u32, a: Opnd, b: Opnd },
    FNeg { w: u8, d: u32, a: Opnd },
    Trunc { w: u8, d: u32, a: Opnd },
    ZExt { w: u8, d: u32, a: Opnd },
    SExt { fw: u8, w: u8, d: u32, a: Opnd },
    FCast { op: Op, fw: u8, w: u8, d: u32, a: Opnd },
    Mov { d: u32, a: Opnd },
    Select { w: u8, d: u32, c: Opnd, a: Opnd, b: Opnd },
    Load { n: u8, w: u8, d: u32, a: Opnd, off: u32 },
    Store { n: u8, w: u8, v: Opnd, a: Opnd, off: u32 },
    Gep { d: u32, base: Opnd, off: i64, idx: Box<[(Opnd, u8, i64)]> },
    Gep1 { d: u32, base: Opnd, idx: Opnd, scale: i64 },
    GepC { d: u32, base: Opnd, off: i64 },
    Alloca { d: u32, size: u64, align: u32 },
    Call { callee: Callee, args: Box<[Opnd]>, d: u32, rw: u8 },
    Br { e: u32 },
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { w: u8, v: Opnd, cases: Box<(HashMap<u128, u32>, Vec<(u128, u32)>)>, def: u32 },
    Ret { vals: Box<[Opnd]> },
    Unreachable,
    CmpXchg { n: u8, w: u8, d: u32, a: Opnd, c: Opnd, v: Opnd },
    Rmw { op: u8, n: u8, w: u8, d: u32, a: Opnd, v: Opnd },
    MemCpy { d: Opnd, s: Opnd, n: Opnd, mv: bool },
    MemSet { d: Opnd, v: Opnd, n: Opnd },
    Intr { k: Intr, w: u8, rw: u8, d: u32, x: [Opnd; 3] },
    Pack { d: u32, w: u8, parts: Box<[Opnd]> },
    ExtractDyn { d: u32, w: u8, i: Opnd, parts: Box<[Opnd]> },
    InsertDyn { d: u32, w: u8, i: Opnd, v: Opnd, parts: Box<[Opnd]> },
    Trap { msg: u32 },
    Sync,
    Nop,
}
pub struct Edge { pub target: u32, pub copies: Box<[(u32, Opnd)]> }
pub struct Func { pub name: String, pub entry: u32, pub nslots: u32, pub nparams: u32, pub defined: bool, pub ext: u16, pub pub_insts: u32 }
pub struct Prog {
    pub funcs: Vec<Func>,
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub consts: Vec<Val>,
    pub msgs: Vec<String>,
    pub exts: Vec<String>,
    pub inits: Vec<(u64, Vec<u8>)>,
    pub globals_end: u64,
}
pub const FUNC_BASE: u64 = 0x5_0000_0000;
pub const FUNC_STRIDE: u64 = 64;

#[derive(Clone, Copy)]
struct Comp { w: u8, off: u32, n: u8 } // width in bits, byte offset, byte size

pub struct Tr {
    m: Ref,
    td: Ref,
    pub p: Prog,
    fidx: HashMap<usize, u32>,
    gaddr: HashMap<usize, u64>,
    cmap: HashMap<u128, i32>,
    flat_cache: HashMap<usize, Option<Vec<Comp>>>,
    extidx: HashMap<String, u16>,
}
type R<T> = Result<T, String>;
const INTERCEPT: &[&str] = &["vf_sym", "vf_assume", "vf_cover", "vf_concretize", "vf_print", "vf_sym_bytes", "vf_fail", "vf_symbolic_len", "vf_rival", "vf_rival_off", "vf_rival_done"];
/// Rust functions (matched on demangled fragments of the symbol) that end a path with a violation.
pub fn panic_name(n: &str) -> bool {
    n.contains("rust_begin_unwind") || n.contains("9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind_fmt")
        || n.contains("18handle_alloc_error") || n.contains("9panicking14assert_failed") || n.contains("9panicking19assert_failed_inner")
        || n.contains("9panicking18panic_bounds_check")
}
impl Tr {
    pub fn load(path: &str, gbase: u64) -> R<Prog> {
        let (ctx, m) = parse(path)?;
        unsafe {
            let td = LLVMGetModuleDataLayout(m);
            let mut t = Tr {
                m, td,
                p: Prog { funcs: vec![], code: vec![], edges: vec![], consts: vec![], msgs: vec![], exts: vec!["".into()], inits: vec![], globals_end: 0 },
                fidx: HashMap::new(), gaddr: HashMap::new(), cmap: HashMap::new(), flat_cache: HashMap::new(), extidx: HashMap::new(),
            };
            t.run(gbase)?;
            LLVMDisposeModule(m);
            LLVMContextDispose(ctx);
            Ok(t.p)
        }
    }
    fn ext(&mut self, n: &str) -> u16 {
        if let Some(&i) = self.extidx.get(n) { return i; }
        let i = self.p.exts.len() as u16;
        self.p.exts.push(n.to_string());
        self.extidx.insert(n.to_string(), i);
        i
    }
    unsafe fn run(&mut self, gbase: u64) -> R<()> {
        // functions
        let mut f = LLVMGetFirstFunction(self.m);
        let mut fs = vec![];
        while !f.is_null() {
            let n = name(f);
            let decl = LLVMIsDeclaration(f) != 0;
            let stop = panic_name(&n);
            let icpt = INTERCEPT.contains(&n.as_str()) || stop;
            let ext = if icpt { if stop { self.ext("__panic") } else { self.ext(&n) } } else if decl { self.ext(&n) } else { 0 };
            self.fidx.insert(f as usize, self.p.funcs.len() as u32);
            self.p.funcs.push(Func { name: n, entry: 0, nslots: 0, nparams: 0, defined: !decl && !icpt, ext, pub_insts: 0 });
            fs.push(f);
            f = LLVMGetNextFunction(f);
        }
        // globals layout
        let mut a = gbase;
        let mut g = LLVMGetFirstGlobal(self.m);
        let mut gs = vec![];
        while !g.is_null() {
            let t = LLVMGlobalGetValueType(g);
            let sz = LLVMABISizeOfType(self.td, t).max(1);
            let al = (LLVMGetAlignment(g) as u64).max(LLVMABIAlignmentOfType(self.td, t) as u64).max(16);
            a = (a + al - 1) / al * al;
            self.gaddr.insert(g as usize, a);
            gs.push((g, a, sz));
            a += sz + 16;
            g = LLVMGetNextGlobal(g);
        }
        self.p.globals_end = a;
        for (g, a, sz) in gs {
            if LLVMIsDeclaration(g) != 0 { continue; }
            let mut buf = vec![0u8; sz as usize];
            let init = LLVMGetInitializer(g);
            self.init(init, &mut buf, 0)?;
            if buf.iter().any(|&b| b != 0) { self.p.inits.push((a, buf)); }
        }
        for (i, f) in fs.iter().enumerate() {
            if !self.p.funcs[i].defined { continue; }
            self.func(i, *f)?;
        }
        Ok(())
    }
    unsafe fn fp_bits(&self, v: Ref, kind: i32) -> u128 {
        let mut l = 0;
        let d = LLVMConstRealGetDouble(v, &mut l);
        if kind == 2 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 }
    }
    unsafe fn int_const(&self, v: Ref) -> u128 {
        let w = LLVMGetIntTypeWidth(LLVMTypeOf(v));
        if w <= 64 { return LLVMConstIntGetZExtValue(v) as u128 & mask(w as u8); }
        let s = print(v);
        let t = s.rsplit(' ').next().unwrap();
        if let Some(x) = t.strip_prefix('-') { (x.parse::<u128>().unwrap_or(0)).wrapping_neg() & mask(w.min(128) as u8) }
        else { t.parse::<u128>().unwrap_or(0) }
    }
    unsafe fn init(&mut self, v: Ref, buf: &mut [u8], off: usize) -> R<()> {
        let t = LLVMTypeOf(v);
        let k = LLVMGetValueKind(v);
        match k {
            14 | 15 | 25 | 20 => Ok(()),
            11 | 12 | 13 | 16 | 17 => {
                let tk = LLVMGetTypeKind(t);
                if k == 16 && LLVMGetTypeKind(LLVMGetElementType(t)) == 8 && LLVMGetIntTypeWidth(LLVMGetElementType(t)) == 8 {
                    let mut n = 0usize;
                    let p = LLVMGetAsString(v, &mut n);
                    std::ptr::copy_nonoverlapping(p as *const u8, buf.as_mut_ptr().add(off), n);
                    return Ok(());
                }
                if tk == 10 {
                    for i in 0..LLVMCountStructElementTypes(t) {
                        let o = LLVMOffsetOfElement(self.td, t, i) as usize;
                        self.init(LLVMGetOperand(v, i), buf, off + o)?;
                    }
                } else {
                    let (n, et) = if tk == 11 { (LLVMGetArrayLength2(t), LLVMGetElementType(t)) } else { (LLVMGetVectorSize(t) as u64, LLVMGetElementType(t)) };
                    let es = LLVMABISizeOfType(self.td, et) as usize;
                    for i in 0..n {
                        let e = LLVMGetAggregateElement(v, i as u32);
                        self.init(e, buf, off + es * i as usize)?;
                    }
                }
                Ok(())
            }
            _ => {
                let c = self.scalar(v)?;
                let sz = LLVMABISizeOfType(self.td, t) as usize;
                let b = c.to_le_bytes();
                buf[off..off + sz.min(16)].copy_from_slice(&b[..sz.min(16)]);
                Ok(())
            }
        }
    }
    /// Evaluate a scalar constant.
    unsafe fn scalar(&mut self, v: Ref) -> R<u128> {
        let t = LLVMTypeOf(v);
        Ok(match LLVMGetValueKind(v) {
            18 => self.int_const(v),
            19 => self.fp_bits(v, LLVMGetTypeKind(t)),
            14 | 15 | 20 | 25 => 0,
            5 => (FUNC_BASE + self.fidx[&(v as usize)] as u64 * FUNC_STRIDE) as u128,
            8 => *self.gaddr.get(&(v as usize)).ok_or("global")? as u128,
            6 => { let a = LLVMAliasGetAliasee(v); self.scalar(a)? }
            10 => {
                let op = LLVMGetConstOpcode(v);
                let o0 = LLVMGetOperand(v, 0);
                match op {
                    29 => {
                        let mut a = self.scalar(o0)? as u64 as i64;
                        let (off, dynamic) = self.gep(v)?;
                        if !dynamic.is_empty() { return Err("dyn const gep".into()); }
                        a = a.wrapping_add(off);
                        a as u64 as u128
                    }
                    39 | 40 | 30 | 41 | 60 => {
                        let x = self.scalar(o0)?;
                        let w = self.comps(t)?[0].w;
                        x & mask(w)
                    }
                    8 | 10 | 25 => {
                        let x = self.scalar(o0)?;
                        let y = self.scalar(LLVMGetOperand(v, 1))?;
                        let w = self.comps(t)?[0].w;
                        fold2(match op { 8 => Op::Add, 10 => Op::Sub, _ => Op::Xor }, w, x, y)
                    }
                    _ => return Err(format!("constexpr {}", print(v))),
                }
            }
            k => return Err(format!("scalar kind {k} {}", print(v).chars().take(200).collect::<String>())),
        })
    }
    unsafe fn comps(&mut self, t: Ref) -> R<Vec<Comp>> {
        if let Some(c) = self.flat_cache.get(&(t as usize)) { return c.clone().ok_or_else(|| "type".into()); }
        let mut out = vec![];
        let ok = self.comps_into(t, 0, &mut out);
        self.flat_cache.insert(t as usize, if ok { Some(out.clone()) } else { None });
        if ok { Ok(out) } else { Err("type".into()) }
    }
    unsafe fn comps_into(&self, t: Ref, off: u32, out: &mut Vec<Comp>) -> bool {
        if out.len() > 4096 { return false; }
        match LLVMGetTypeKind(t) {
            0 => true,
            2 => { out.push(Comp { w: 32, off, n: 4 }); true }
            3 => { out.push(Comp { w: 64, off, n: 8 }); true }
            8 => {
                let w = LLVMGetIntTypeWidth(t);
                if w > 128 { return false; }
                out.push(Comp { w: w as u8, off, n: ((w + 7) / 8) as u8 });
                true
            }
            12 => { out.push(Comp { w: 64, off, n: 8 }); true }
            10 => {
                for i in 0..LLVMCountStructElementTypes(t) {
                    let o = LLVMOffsetOfElement(self.td, t, i) as u32;
                    if !self.comps_into(LLVMStructGetTypeAtIndex(t, i), off + o, out) { return false; }
                }
                true
            }
            11 => {
                let e = LLVMGetElementType(t);
                let s = LLVMABISizeOfType(self.td, e) as u32;
                for i in 0..LLVMGetArrayLength2(t) as u32 {
                    if !self.comps_into(e, off + i * s, out) { return false; }
                }
                true
            }
            13 => {
                let e = LLVMGetElementType(t);
                let n = LLVMGetVectorSize(t);
                let s = LLVMABISizeOfType(self.td, e) as u32;
                for i in 0..n { if !self.comps_into(e, off + i * s, out) { return false; } }
                true
            }
            _ => false,
        }
    }
    fn k(&mut self, c: u128) -> Opnd {
        if let Some(&i) = self.cmap.get(&c) { return i; }
        let i = !(self.p.consts.len() as i32);
        self.p.consts.push(Val::k(c));
        self.cmap.insert(c, i);
        i
    }
    /// (constant offset, dynamic (index, scale)) of a GEP instruction or constant expression.
    unsafe fn gep(&mut self, v: Ref) -> R<(i64, Vec<(Ref, i64)>)> {
        let mut off = 0i64;
        let mut dynv = vec![];
        let mut t = LLVMGetGEPSourceElementType(v);
        let n = LLVMGetNumOperands(v) as u32;
        for i in 1..n {
            let ix = LLVMGetOperand(v, i);
            let it = LLVMTypeOf(ix);
            if LLVMGetTypeKind(it) != 8 { return Err("vector gep".into()); }
            let cv = if LLVMGetValueKind(ix) == 18 { Some(sext(self.int_const(ix), LLVMGetIntTypeWidth(it) as u8) as i64) }
                else if matches!(LLVMGetValueKind(ix), 14 | 25) { Some(0) } else { None };
            if i == 1 {
                let s = LLVMABISizeOfType(self.td, t) as i64;
                match cv { Some(c) => off = off.wrapping_add(c.wrapping_mul(s)), None => dynv.push((ix, s)) }
                continue;
            }
            match LLVMGetTypeKind(t) {
                10 => {
                    let c = cv.ok_or("struct idx")?;
                    off += LLVMOffsetOfElement(self.td, t, c as u32) as i64;
                    t = LLVMStructGetTypeAtIndex(t, c as u32);
                }
                11 | 13 => {
                    t = LLVMGetElementType(t);
                    let s = LLVMABISizeOfType(self.td, t) as i64;
                    match cv { Some(c) => off = off.wrapping_add(c.wrapping_mul(s)), None => dynv.push((ix, s)) }
                }
                _ => return Err("gep type".into()),
            }
        }
        Ok((off, dynv))
    }
    unsafe fn func(&mut self, fi: usize, f: Ref) -> R<()> {
        let mut ft = FT { slots: HashMap::new(), n: 0, blocks: HashMap::new() };
        let np = LLVMCountParams(f);
        for i in 0..np {
            let p = LLVMGetParam(f, i);
            let c = match self.comps(LLVMTypeOf(p)) { Ok(c) => c.len(), Err(_) => 1 };
            ft.slots.insert(p as usize, ft.n);
            ft.n += c as u32;
        }
        self.p.funcs[fi].nparams = ft.n;
        // assign slots
        let mut b = LLVMGetFirstBasicBlock(f);
        let mut ninst = 0;
        while !b.is_null() {
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                ninst += 1;
                let c = match self.comps(LLVMTypeOf(i)) { Ok(c) => c.len() as u32, Err(_) => 1 };
                ft.slots.insert(i as usize, ft.n);
                ft.n += c;
                i = LLVMGetNextInstruction(i);
            }
            b = LLVMGetNextBasicBlock(b);
        }
        self.p.funcs[fi].pub_insts = ninst;
        let edge0 = self.p.edges.len();
        let mut pend: Vec<(usize, Ref)> = vec![];
        self.p.funcs[fi].entry = self.p.code.len() as u32;
        let mut b = LLVMGetFirstBasicBlock(f);
        while !b.is_null() {
            ft.blocks.insert(b as usize, self.p.code.len() as u32);
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                if let Err(e) = self.inst(&mut ft, b, i, &mut pend) {
                    let m = self.p.msgs.len() as u32;
                    self.p.msgs.push(format!("unsupported ({e}): {} in {}", print(i).chars().take(300).collect::<String>(), self.p.funcs[fi].name));
                    self.p.code.push(Inst::Trap { msg: m });
                }
                i = LLVMGetNextInstruction(i);
            }
            b = LLVMGetNextBasicBlock(b);
        }
        for (e, t) in pend {
            self.p.edges[e].target = *ft.blocks.get(&(t as usize)).ok_or("block")?;
        }
        let _ = edge0;
        self.p.funcs[fi].nslots = ft.n + 1;
        Ok(())
    }
    unsafe fn edge(&mut self, ft: &mut FT, from: Ref, to: Ref, pend: &mut Vec<(usize, Ref)>) -> R<u32> {
        let mut copies = vec![];
        let mut i = LLVMGetFirstInstruction(to);
        while !i.is_null() && LLVMGetInstructionOpcode(i) == 44 {
            let n = LLVMCountIncoming(i);
            for j in 0..n {
                if LLVMGetIncomingBlock(i, j) == from {
                    let d = ft.slots[&(i as usize)];
                    let src = self.ops(ft, LLVMGetIncomingValue(i, j))?;
                    for (q, s) in src.into_iter().enumerate() { copies.push((d + q as u32, s)); }
                    break;
                }
            }
            i = LLVMGetNextInstruction(i);
        }
        let e = self.p.edges.len();
        self.p.edges.push(Edge { target: 0, copies: copies.into() });
        pend.push((e, to));
        Ok(e as u32)
    }
    /// Flattened operands of a value.
    unsafe fn ops(&mut self, ft: &FT, v: Ref) -> R<Vec<Opnd>> {
        let t = LLVMTypeOf(v);
        let cs = self.comps(t)?;
        if let Some(&s) = ft.slots.get(&(v as usize)) {
            return Ok((0..cs.len()).map(|i| (s + i as u32) as i32).collect());
        }
        let k = LLVMGetValueKind(v);
        let mut out = vec![];
        match k {
            14 | 15 | 25 => for _ in 0..cs.len() { out.push(self.k(0)); },
            11 | 12 | 13 | 16 | 17 => {
                let tk = LLVMGetTypeKind(t);
                let n = match tk { 10 => LLVMCountStructElementTypes(t), 11 => LLVMGetArrayLength2(t) as u32, _ => LLVMGetVectorSize(t) };
                for i in 0..n {
                    let e = LLVMGetAggregateElement(v, i);
                    out.extend(self.ops(ft, e)?);
                }
            }
            _ => {
                let tk = LLVMGetTypeKind(t);
                if (k == 18 || k == 19) && tk == 13 {
                    // splat constant
                    let n = LLVMGetVectorSize(t);
                    for i in 0..n { let e = LLVMGetAggregateElement(v, i); out.extend(self.ops(ft, e)?); }
                } else {
                    let c = self.scalar(v)?;
                    out.push(self.k(c));
                }
            }
        }
        if out.len() != cs.len() { return Err(format!("ops len {} {}", out.len(), cs.len())); }
        Ok(out)
    }
    unsafe fn op1(&mut self, ft: &FT, v: Ref) -> R<Opnd> {
        let o = self.ops(ft, v)?;
        if o.len() != 1 { return Err("op1".into()); }
        Ok(o[0])
    }
    unsafe fn inst(&mut self, ft: &mut FT, blk: Ref, i: Ref, pend: &mut Vec<(usize, Ref)>) -> R<()> {
        let opc = LLVMGetInstructionOpcode(i);
        let d = ft.slots[&(i as usize)];
        let t = LLVMTypeOf(i);
        let o = |n: u32| LLVMGetOperand(i, n as c_uint);
        match opc {
            1 => {
                let vals = if LLVMGetNumOperands(i) == 0 { vec![] } else { self.ops(ft, o(0))? };
                self.p.code.push(Inst::Ret { vals: vals.into() });
            }
            2 => {
                if LLVMIsConditional(i) != 0 {
                    let c = self.op1(ft, LLVMGetCondition(i))?;
                    let te = self.edge(ft, blk, LLVMGetSuccessor(i, 0), pend)?;
                    let fe = self.edge(ft, blk, LLVMGetSuccessor(i, 1), pend)?;
                    self.p.code.push(Inst::CondBr { c, t: te, f: fe });
                } else {
                    let e = self.edge(ft, blk, LLVMGetSuccessor(i, 0), pend)?;
                    self.p.code.push(Inst::Br { e });
                }
            }
            3 => {
                let v = self.op1(ft, o(0))?;
                let w = self.comps(LLVMTypeOf(o(0)))?[0].w;
                let def = self.edge(ft, blk, LLVMGetSuccessor(i, 0), pend)?;
                let n = LLVMGetNumOperands(i) as u32 / 2;
                let mut map = HashMap::new();
                let mut list = vec![];
                let mut by_target: HashMap<usize, u32> = HashMap::new();
                for j in 1..n {
                    let c = self.int_const(o(2 * j));
                    let s = LLVMGetSuccessor(i, j);
                    let e = match by_target.get(&(s as usize)) {
                        Some(&e) => e,
                        None => { let e = self.edge(ft, blk, s, pend)?; by_target.insert(s as usize, e); e }
                    };
                    map.insert(c, e);
                    list.push((c, e));
                }
                self.p.code.push(Inst::Switch { w, v, cases: Box::new((map, list)), def });
            }
            5 | 45 => {
                self.call(ft, i, d, t)?;
                if opc == 5 {
                    let e = self.edge(ft, blk, LLVMGetNormalDest(i), pend)?;
                    self.p.code.push(Inst::Br { e });
                }
            }
            7 => self.p.code.push(Inst::Unreachable),
            8..=25 => {
                let op = match opc {
                    8 => Op::Add, 9 => Op::FAdd, 10 => Op::Sub, 11 => Op::FSub, 12 => Op::Mul, 13 => Op::FMul, 14 => Op::UDiv,
                    15 => Op::SDiv, 16 => Op::FDiv, 17 => Op::URem, 18 => Op::SRem, 19 => Op::Const, 20 => Op::Shl, 21 => Op::LShr,
                    22 => Op::AShr, 23 => Op::And, 24 => Op::Or, _ => Op::Xor,
                };
                let cs = self.comps(t)?;
                let a = self.ops(ft, o(0))?;
                let b = self.ops(ft, o(1))?;
                for q in 0..cs.len() {
                    let dd = d + q as u32;
                    if op == Op::Const { self.p.code.push(Inst::FRem { w: cs[q].w, d: dd, a: a[q], b: b[q] }); }
                    else { self.p.code.push(Inst::Bin { op, w: cs[q].w, d: dd, a: a[q], b: b[q] }); }
                }
            }
            66 => {
                let cs = self.comps(t)?;
                let a = self.ops(ft, o(0))?;
                for q in 0..cs.len() { self.p.code.push(Inst::FNeg { w: cs[q].w, d: d + q as u32, a: a[q] }); }
            }
            26 => {
                let ty = LLVMGetAllocatedType(i);
                let n = o(0);
                if LLVMGetValueKind(n) != 18 { return Err("dynamic alloca".into()); }
                let size = LLVMABISizeOfType(self.td, ty) * LLVMConstIntGetZExtValue(n);
                let align = LLVMGetAlignment(i).max(16);
                self.p.code.push(Inst::Alloca { d, size, align });
            }
            27 => {
                let cs = self.comps(t)?;
                self.no_bitvec(t)?;
                let a = self.op1(ft, o(0))?;
                if LLVMGetOrdering(i) != 0 { self.p.code.push(Inst::Sync); }
                for (q, c) in cs.iter().enumerate() { self.p.code.push(Inst::Load { n: c.n, w: c.w, d: d + q as u32, a, off: c.off }); }
            }
            28 => {
                let vt = LLVMTypeOf(o(0));
                self.no_bitvec(vt)?;
                let cs = self.comps(vt)?;
                let v = self.ops(ft, o(0))?;
                let a = self.op1(ft, o(1))?;
                if LLVMGetOrdering(i) != 0 { self.p.code.push(Inst::Sync); }
                for (q, c) in cs.iter().enumerate() { self.p.code.push(Inst::Store { n: c.n, w: c.w, v: v[q], a, off: c.off }); }
            }
            29 => {
                let base = self.op1(ft, o(0))?;
                let (off, dy) = self.gep(i)?;
                if dy.is_empty() { self.p.code.push(Inst::GepC { d, base, off }); }
                else {
                    let mut idx = vec![];
                    for (v, s) in dy {
                        let w = LLVMGetIntTypeWidth(LLVMTypeOf(v)) as u8;
                        idx.push((self.op1(ft, v)?, w, s));
                    }
                    if idx.len() == 1 && off == 0 && idx[0].1 == 64 { self.p.code.push(Inst::Gep1 { d, base, idx: idx[0].0, scale: idx[0].2 }); }
                    else { self.p.code.push(Inst::Gep { d, base, off, idx: idx.into() }); }
                }
            }
            30 | 31 | 32 | 33..=38 => {
                let fs = self.comps(LLVMTypeOf(o(0)))?;
                let ts = self.comps(t)?;
                let a = self.ops(ft, o(0))?;
                for q in 0..ts.len() {
                    let (fw, w, dd, a) = (fs[q].w, ts[q].w, d + q as u32, a[q]);
                    self.p.code.push(match opc {
                        30 => Inst::Trunc { w, d: dd, a },
                        31 => Inst::ZExt { w, d: dd, a },
                        32 => Inst::SExt { fw, w, d: dd, a },
                        33 => Inst::FCast { op: Op::FToU, fw, w, d: dd, a },
                        34 => Inst::FCast { op: Op::FToS, fw, w, d: dd, a },
                        35 => Inst::FCast { op: Op::FFromU, fw, w, d: dd, a },
                        36 => Inst::FCast { op: Op::FFromS, fw, w, d: dd, a },
                        _ => Inst::FCast { op: Op::FConv, fw, w, d: dd, a },
                    });
                }
            }
            39 | 40 | 60 | 68 => {
                let fs = self.comps(LLVMTypeOf(o(0)))?;
                let ts = self.comps(t)?;
                let a = self.ops(ft, o(0))?;
                for q in 0..ts.len() {
                    let (fw, w) = (fs[q].w, ts[q].w);
                    let dd = d + q as u32;
                    self.p.code.push(if fw == w { Inst::Mov { d: dd, a: a[q] } } else if fw > w { Inst::Trunc { w, d: dd, a: a[q] } } else { Inst::ZExt { w, d: dd, a: a[q] } });
                }
            }
            41 => {
                let fs = self.comps(LLVMTypeOf(o(0)))?;
                let ts = self.comps(t)?;
                let a = self.ops(ft, o(0))?;
                let (fw, tw) = (fs[0].w as u32, ts[0].w as u32);
                if fw == tw { for q in 0..ts.len() { self.p.code.push(Inst::Mov { d: d + q as u32, a: a[q] }); } }
                else if fw < tw && tw % fw == 0 {
                    let r = (tw / fw) as usize;
                    for q in 0..ts.len() { self.p.code.push(Inst::Pack { d: d + q as u32, w: fw as u8, parts: a[q * r..(q + 1) * r].to_vec().into() }); }
                } else if fw > tw && fw % tw == 0 {
                    let r = fw / tw;
                    for q in 0..ts.len() as u32 {
                        // extract slice: shift then truncate (temporary lives in the destination slot)
                        let s = self.k(((q % r) * tw) as u128);
                        self.p.code.push(Inst::Bin { op: Op::LShr, w: fw as u8, d: d + q, a: a[(q / r) as usize], b: s });
                        self.p.code.push(Inst::Trunc { w: tw as u8, d: d + q, a: (d + q) as i32 });
                    }
                } else { return Err("bitcast".into()); }
            }
            42 | 43 => {
                let fs = self.comps(LLVMTypeOf(o(0)))?;
                let a = self.ops(ft, o(0))?;
                let b = self.ops(ft, o(1))?;
                for q in 0..fs.len() {
                    let (w, dd, a, b) = (fs[q].w, d + q as u32, a[q], b[q]);
                    self.p.code.push(if opc == 42 { Inst::ICmp { p: LLVMGetICmpPredicate(i) as u8, w, d: dd, a, b } }
                        else { Inst::FCmp { p: LLVMGetFCmpPredicate(i) as u8, w, d: dd, a, b } });
                }
            }
            44 => {}
            46 => {
                let c = self.ops(ft, o(0))?;
                let a = self.ops(ft, o(1))?;
                let b = self.ops(ft, o(2))?;
                let cs = self.comps(t)?;
                for q in 0..cs.len() {
                    let cc = if c.len() == 1 { c[0] } else { c[q] };
                    self.p.code.push(Inst::Select { w: cs[q].w, d: d + q as u32, c: cc, a: a[q], b: b[q] });
                }
            }
            50 => {
                let a = self.ops(ft, o(0))?;
                let ix = o(1);
                if LLVMGetValueKind(ix) == 18 {
                    let c = LLVMConstIntGetZExtValue(ix) as usize;
                    self.p.code.push(Inst::Mov { d, a: a[c] });
                } else {
                    let w = self.comps(t)?[0].w;
                    let iv = self.op1(ft, ix)?;
                    self.p.code.push(Inst::ExtractDyn { d, w, i: iv, parts: a.into() });
                }
            }
            51 => {
                let a = self.ops(ft, o(0))?;
                let v = self.op1(ft, o(1))?;
                let ix = o(2);
                if LLVMGetValueKind(ix) == 18 {
                    let c = LLVMConstIntGetZExtValue(ix) as usize;
                    for q in 0..a.len() { self.p.code.push(Inst::Mov { d: d + q as u32, a: if q == c { v } else { a[q] } }); }
                } else {
                    let w = self.comps(t)?[0].w;
                    let iv = self.op1(ft, ix)?;
                    self.p.code.push(Inst::InsertDyn { d, w, i: iv, v, parts: a.into() });
                }
            }
            52 => {
                let mut a = self.ops(ft, o(0))?;
                a.extend(self.ops(ft, o(1))?);
                let n = LLVMGetNumMaskElements(i);
                let un = LLVMGetUndefMaskElem();
                for q in 0..n {
                    let mv = LLVMGetMaskValue(i, q);
                    let s = if mv == un { self.k(0) } else { a[mv as usize] };
                    self.p.code.push(Inst::Mov { d: d + q, a: s });
                }
            }
            53 => {
                let a = self.ops(ft, o(0))?;
                let (st, n) = self.agg_index(i, LLVMTypeOf(o(0)))?;
                for q in 0..n { self.p.code.push(Inst::Mov { d: d + q as u32, a: a[st + q] }); }
            }
            54 => {
                let a = self.ops(ft, o(0))?;
                let v = self.ops(ft, o(1))?;
                let (st, n) = self.agg_index(i, t)?;
                for q in 0..a.len() {
                    let s = if q >= st && q < st + n { v[q - st] } else { a[q] };
                    self.p.code.push(Inst::Mov { d: d + q as u32, a: s });
                }
            }
            55 => {}
            56 => {
                let a = self.op1(ft, o(0))?;
                let c = self.op1(ft, o(1))?;
                let v = self.op1(ft, o(2))?;
                let cm = self.comps(LLVMTypeOf(o(1)))?[0];
                self.p.code.push(Inst::Sync);
                self.p.code.push(Inst::CmpXchg { n: cm.n, w: cm.w, d, a, c, v });
            }
            57 => {
                let a = self.op1(ft, o(0))?;
                let v = self.op1(ft, o(1))?;
                let cm = self.comps(LLVMTypeOf(o(1)))?[0];
                self.p.code.push(Inst::Sync);
                self.p.code.push(Inst::Rmw { op: LLVMGetAtomicRMWBinOp(i) as u8, n: cm.n, w: cm.w, d, a, v });
            }
            58 | 59 => self.p.code.push(Inst::Unreachable),
            _ => return Err(format!("opcode {opc}")),
        }
        Ok(())
    }
    unsafe fn no_bitvec(&self, t: Ref) -> R<()> {
        if LLVMGetTypeKind(t) == 13 {
            let e = LLVMGetElementType(t);
            if LLVMGetTypeKind(e) == 8 && LLVMGetIntTypeWidth(e) % 8 != 0 { return Err("bit vector in memory".into()); }
        }
        Ok(())
    }
    unsafe fn agg_index(&mut self, i: Ref, t0: Ref) -> R<(usize, usize)> {
        let n = LLVMGetNumIndices(i);
        let p = LLVMGetIndices(i);
        let mut t = t0;
        let mut st = 0;
        for q in 0..n {
            let ix = *p.add(q as usize);
            match LLVMGetTypeKind(t) {
                10 => {
                    for j in 0..ix { st += self.comps(LLVMStructGetTypeAtIndex(t, j))?.len(); }
                    t = LLVMStructGetTypeAtIndex(t, ix);
                }
                11 => {
                    t = LLVMGetElementType(t);
                    st += ix as usize * self.comps(t)?.len();
                }
                _ => return Err("agg".into()),
            }
        }
        Ok((st, self.comps(t)?.len()))
    }
    unsafe fn call(&mut self, ft: &mut FT, i: Ref, d: u32, t: Ref) -> R<()> {
        let cv = LLVMGetCalledValue(i);
        let na = LLVMGetNumArgOperands(i);
        let kind = LLVMGetValueKind(cv);
        if kind == 23 {
            let mut n = 0usize;
            let p = LLVMGetInlineAsmAsmString(cv, &mut n);
            let s = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned();
            let cs = self.comps(t).unwrap_or_default();
            if s.trim().is_empty() {
                // compiler barrier / black_box identity
                if cs.len() == 1 && na == 1 { let a = self.op1(ft, LLVMGetOperand(i, 0))?; self.p.code.push(Inst::Mov { d, a }); }
                return Ok(());
            }
            if s.contains("cpuid") || s.contains("xgetbv") {
                let z = self.k(0);
                for q in 0..cs.len() { self.p.code.push(Inst::Mov { d: d + q as u32, a: z }); }
                return Ok(());
            }
            // full fence idiom of event_listener / crossbeam: a locked read-modify-write on a dummy word
            if cs.is_empty() && s.starts_with("lock not qword ptr") { return Ok(()); }
            return Err(format!("asm {s}"));
        }
        if kind == 5 {
            let nm = name(cv);
            if let Some(r) = nm.strip_prefix("llvm.") {
                let r = r.to_string();
                return self.intrinsic(ft, i, d, t, &r);
            }
        }
        let mut args = vec![];
        for q in 0..na { args.extend(self.ops(ft, LLVMGetOperand(i, q))?); }
        let callee = if kind == 5 {
            let fi = self.fidx[&(cv as usize)];
            let f = &self.p.funcs[fi as usize];
            if f.ext != 0 { Callee::Ext(f.ext) } else { Callee::Fn(fi) }
        } else { Callee::Ind(self.op1(ft, cv)?) };
        let rw = self.comps(t)?.first().map(|c| c.w).unwrap_or(0);
        self.p.code.push(Inst::Call { callee, args: args.into(), d, rw });
        Ok(())
    }
    unsafe fn intrinsic(&mut self, ft: &mut FT, i: Ref, d: u32, t: Ref, n: &str) -> R<()> {
        let base = n;
        let o = |k: u32| LLVMGetOperand(i, k as c_uint);
        let st = |p: &str| base.starts_with(p);
        if st("lifetime") || st("dbg") || st("assume") || st("experimental.noalias") || st("prefetch") || st("donothing")
            || st("x86.sse2.pause") || st("invariant") || st("sideeffect") { return Ok(()); }
        if st("memcpy") || st("memmove") {
            let (dd, s, nn) = (self.op1(ft, o(0))?, self.op1(ft, o(1))?, self.op1(ft, o(2))?);
            self.p.code.push(Inst::MemCpy { d: dd, s, n: nn, mv: st("memmove") });
            return Ok(());
        }
        if st("memset") {
            let (dd, v, nn) = (self.op1(ft, o(0))?, self.op1(ft, o(1))?, self.op1(ft, o(2))?);
            self.p.code.push(Inst::MemSet { d: dd, v, n: nn });
            return Ok(());
        }
        if st("trap") || st("ubsantrap") || st("debugtrap") {
            let e = self.ext("__trap");
            self.p.code.push(Inst::Call { callee: Callee::Ext(e), args: Box::new([]), d, rw: 0 });
            return Ok(());
        }
        if st("expect") || st("threadlocal.address") || st("launder") || st("strip.invariant") || st("ssa.copy") || st("arithmetic.fence") {
            let a = self.ops(ft, o(0))?;
            for (q, x) in a.into_iter().enumerate() { self.p.code.push(Inst::Mov { d: d + q as u32, a: x }); }
            return Ok(());
        }
        if st("is.constant") { let z = self.k(0); self.p.code.push(Inst::Mov { d, a: z }); return Ok(()); }
        if st("objectsize") { let z = self.k(u64::MAX as u128); self.p.code.push(Inst::Mov { d, a: z }); return Ok(()); }
        if st("stacksave") { let z = self.k(0); self.p.code.push(Inst::Mov { d, a: z }); return Ok(()); }
        if st("stackrestore") { return Ok(()); }
        if let Some(r) = base.strip_prefix("vector.reduce.") {
            let vt = LLVMTypeOf(o(0));
            let cs = self.comps(vt)?;
            let a = self.ops(ft, o(0))?;
            let w = cs[0].w;
            let kind = r.split('.').next().unwrap();
            self.p.code.push(Inst::Mov { d, a: a[0] });
            for q in 1..a.len() {
                let ins = match kind {
                    "add" => Inst::Bin { op: Op::Add, w, d, a: d as i32, b: a[q] },
                    "mul" => Inst::Bin { op: Op::Mul, w, d, a: d as i32, b: a[q] },
                    "and" => Inst::Bin { op: Op::And, w, d, a: d as i32, b: a[q] },
                    "or" => Inst::Bin { op: Op::Or, w, d, a: d as i32, b: a[q] },
                    "xor" => Inst::Bin { op: Op::Xor, w, d, a: d as i32, b: a[q] },
                    "umax" => Inst::Intr { k: Intr::UMax, w, rw: w, d, x: [d as i32, a[q], 0] },
                    "umin" => Inst::Intr { k: Intr::UMin, w, rw: w, d, x: [d as i32, a[q], 0] },
                    "smax" => Inst::Intr { k: Intr::SMax, w, rw: w, d, x: [d as i32, a[q], 0] },
                    "smin" => Inst::Intr { k: Intr::SMin, w, rw: w, d, x: [d as i32, a[q], 0] },
                    _ => return Err(format!("reduce {kind}")),
                };
                self.p.code.push(ins);
            }
            return Ok(());
        }
        let k = if st("uadd.with.overflow") { Intr::UAddO } else if st("usub.with.overflow") { Intr::USubO }
            else if st("umul.with.overflow") { Intr::UMulO } else if st("sadd.with.overflow") { Intr::SAddO }
            else if st("ssub.with.overflow") { Intr::SSubO } else if st("smul.with.overflow") { Intr::SMulO }
            else if st("uadd.sat") { Intr::UAddS } else if st("usub.sat") { Intr::USubS } else if st("sadd.sat") { Intr::SAddS }
            else if st("ssub.sat") { Intr::SSubS } else if st("ushl.sat") { Intr::UShlSat }
            else if st("umin") { Intr::UMin } else if st("umax") { Intr::UMax } else if st("smin") { Intr::SMin }
            else if st("smax") { Intr::SMax } else if st("abs") { Intr::Abs } else if st("ctpop") { Intr::Ctpop } else if st("ctlz") { Intr::Ctlz }
            else if st("cttz") { Intr::Cttz } else if st("bswap") { Intr::Bswap } else if st("bitreverse") { Intr::Bitrev }
            else if st("fshl") { Intr::Fshl } else if st("fshr") { Intr::Fshr } else if st("ucmp") { Intr::UCmp } else if st("scmp") { Intr::SCmp }
            else if st("fabs") { Intr::FAbs } else if st("copysign") { Intr::CopySign } else if st("minnum") || st("minimumnum") { Intr::FMinNum }
            else if st("maxnum") || st("maximumnum") { Intr::FMaxNum } else if st("floor") { Intr::Floor } else if st("ceil") { Intr::Ceil }
            else if st("trunc.f") { Intr::Trunc } else if st("rint") || st("nearbyint") || st("roundeven") { Intr::Rint } else if st("round.f") { Intr::Round }
            else if st("sqrt") { Intr::Sqrt } else if st("fma.") || st("fmuladd") { Intr::Fma } else if st("pow.") { Intr::Pow }
            else if st("fptoui.sat") { Intr::FpToUiSat } else if st("fptosi.sat") { Intr::FpToSiSat }
            else { return Err(format!("intrinsic {n}")); };
        let na = LLVMGetNumArgOperands(i);
        let w_cs = self.comps(LLVMTypeOf(o(0)))?;
        let r_cs = self.comps(t)?;
        let mut a: Vec<Vec<Opnd>> = vec![];
        for q in 0..na.min(3) { a.push(self.ops(ft, o(q))?); }
        let lanes = w_cs.len();
        let ovf = matches!(k, Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO);
        if ovf && lanes != 1 { return Err("vector overflow".into()); }
        for q in 0..lanes {
            let mut x = [0; 3];
            for z in 0..a.len() { x[z] = if a[z].len() == lanes { a[z][q] } else { a[z][0] }; }
            self.p.code.push(Inst::Intr { k, w: w_cs[q].w, rw: r_cs[q.min(r_cs.len() - 1)].w, d: d + q as u32, x });
        }
        Ok(())
    }
}
struct FT { slots: HashMap<usize, u32>, n: u32, blocks: HashMap<usize, u32> }
