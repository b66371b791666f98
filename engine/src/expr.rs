//! Hash-consed bit-vector expression DAG with local simplification and a concrete evaluator.
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Eq, Ult, Ule, Slt, Sle, Ite,
    FAdd, FSub, FMul, FDiv, FFromU, FFromS, FToU, FToS, FConv,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}
/// A runtime value: concrete when `e == 0`, otherwise the expression `e`.
#[derive(Clone, Copy, Debug)]
pub struct Val {
    pub c: u128,
    pub e: u32,
}
impl Val {
    #[inline(always)]
    pub fn k(c: u128) -> Val { Val { c, e: 0 } }
    #[inline(always)]
    pub fn is_c(&self) -> bool { self.e == 0 }
}
#[inline(always)]
pub fn mask(w: u8) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
#[inline(always)]
pub fn sext(v: u128, w: u8) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}
#[inline]
pub fn fold2(op: Op, w: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            if w == 64 {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                let r = match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y };
                r.to_bits() as u128
            } else {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                let r = match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y };
                r.to_bits() as u128
            }
        }
        _ => unreachable!("fold2 {op:?}"),
    }
}
/// Unary folds; `fw` is the operand width, `w` the result width.
pub fn fold1(op: Op, w: u8, fw: u8, a: u128, k: u128) -> u128 {
    match op {
        Op::Extract => (a >> k) & mask(w),
        Op::ZExt => a,
        Op::SExt => (sext(a, fw) as u128) & mask(w),
        Op::FFromU => if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
        Op::FFromS => {
            let s = sext(a, fw);
            if w == 64 { (s as f64).to_bits() as u128 } else { (s as f32).to_bits() as u128 }
        }
        Op::FToU => {
            let x = if fw == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 };
            let r = x as u128;
            if r > mask(w) { mask(w) } else { r }
        }
        Op::FToS => {
            let x = if fw == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 };
            let r = x as i128;
            let hi = (mask(w) >> 1) as i128;
            let r = if r > hi { hi } else if r < -hi - 1 { -hi - 1 } else { r };
            (r as u128) & mask(w)
        }
        Op::FConv => {
            if w == fw { a }
            else if w == 64 { (f32::from_bits(a as u32) as f64).to_bits() as u128 }
            else { (f64::from_bits(a as u64) as f32).to_bits() as u128 }
        }
        _ => unreachable!("fold1 {op:?}"),
    }
}
#[derive(Clone, Copy)]
pub struct VarInfo { pub w: u8 }
pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, u32>,
    pub vars: Vec<VarInfo>,
    parts: HashMap<(u32, u8, u8), u32>,
    // evaluator memo
    memo: Vec<(u32, u128)>,
    pub epoch: u32,
    pub model: Vec<u128>,
}
impl Pool {
    pub fn new() -> Pool {
        let z = Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 };
        Pool { nodes: vec![z], map: HashMap::new(), vars: vec![], parts: HashMap::new(), memo: vec![], epoch: 1, model: vec![] }
    }
    fn mk(&mut self, n: Node) -> u32 {
        if let Some(&i) = self.map.get(&n) { return i; }
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        self.map.insert(n, i);
        i
    }
    pub fn konst(&mut self, w: u8, k: u128) -> u32 {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn new_var(&mut self, w: u8) -> u32 {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { w });
        self.model.push(0);
        self.mk(Node { op: Op::Var, w, a: id, b: 0, c: 0, k: 0 })
    }
    #[inline]
    pub fn is_k(&self, i: u32) -> Option<u128> {
        let n = &self.nodes[i as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    #[inline]
    pub fn w(&self, i: u32) -> u8 { self.nodes[i as usize].w }
    pub fn id(&mut self, v: Val, w: u8) -> u32 {
        if v.e == 0 { self.konst(w, v.c) } else { v.e }
    }
    pub fn val(&self, i: u32) -> Val {
        match self.is_k(i) { Some(k) => Val::k(k), None => Val { c: 0, e: i } }
    }
    // ---- Val-level constructors ----
    pub fn vbin(&mut self, op: Op, w: u8, a: Val, b: Val) -> Val {
        if a.e == 0 && b.e == 0 { return Val::k(fold2(op, w, a.c, b.c)); }
        let x = self.id(a, w);
        let y = self.id(b, w);
        let r = self.bin(op, w, x, y);
        self.val(r)
    }
    pub fn vextract(&mut self, a: Val, lo: u8, w: u8) -> Val {
        if a.e == 0 { return Val::k((a.c >> lo) & mask(w)); }
        let r = self.extract(a.e, lo, w);
        self.val(r)
    }
    pub fn vzext(&mut self, a: Val, w: u8) -> Val {
        if a.e == 0 { return a; }
        let r = self.zext(a.e, w);
        self.val(r)
    }
    pub fn vsext(&mut self, a: Val, fw: u8, w: u8) -> Val {
        if a.e == 0 { return Val::k((sext(a.c, fw) as u128) & mask(w)); }
        let r = self.sext(a.e, w);
        self.val(r)
    }
    pub fn vite(&mut self, c: Val, a: Val, b: Val, w: u8) -> Val {
        if c.e == 0 { return if c.c & 1 == 1 { a } else { b }; }
        if a.e == 0 && b.e == 0 && a.c == b.c { return a; }
        let x = self.id(a, w);
        let y = self.id(b, w);
        let r = self.ite(c.e, x, y);
        self.val(r)
    }
    pub fn vconcat(&mut self, hi: Val, hw: u8, lo: Val, lw: u8) -> Val {
        if hi.e == 0 && lo.e == 0 { return Val::k((hi.c << lw) | lo.c); }
        let x = self.id(hi, hw);
        let y = self.id(lo, lw);
        let r = self.concat(x, y);
        self.val(r)
    }
    pub fn vnot(&mut self, a: Val) -> Val { self.vbin(Op::Xor, 1, a, Val::k(1)) }
    pub fn vun(&mut self, op: Op, w: u8, fw: u8, a: Val) -> Val {
        if a.e == 0 { return Val::k(fold1(op, w, fw, a.c, 0)); }
        let r = self.mk(Node { op, w, a: a.e, b: 0, c: 0, k: 0 });
        self.val(r)
    }
    // ---- id-level constructors ----
    pub fn not(&mut self, a: u32) -> u32 {
        let one = self.konst(1, 1);
        self.bin(Op::Xor, 1, a, one)
    }
    fn ite_consts(&self, i: u32) -> Option<(u32, u128, u128)> {
        let n = self.nodes[i as usize];
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.is_k(n.b), self.is_k(n.c)) { return Some((n.a, x, y)); }
        }
        None
    }
    /// Leaves of a (nested) ite whose leaves are all constants; None if more than `cap`.
    fn const_tree(&self, i: u32, cap: &mut u32) -> bool {
        let n = self.nodes[i as usize];
        match n.op {
            Op::Const => true,
            Op::Ite => {
                if *cap == 0 { return false; }
                *cap -= 1;
                self.const_tree(n.b, cap) && self.const_tree(n.c, cap)
            }
            _ => false,
        }
    }
    pub fn bin(&mut self, op: Op, w: u8, a: u32, b: u32) -> u32 {
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
        let (ka, kb) = (self.is_k(a), self.is_k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let r = fold2(op, w, x, y);
            return self.konst(rw, r);
        }
        let m = mask(w);
        // canonical order for commutative ops: constant on the right
        let (a, b, ka, kb) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq
                if ka.is_some() || (kb.is_none() && a > b) => (b, a, kb, ka),
            _ => (a, b, ka, kb),
        };
        match op {
            Op::Add => {
                if kb == Some(0) { return a; }
                if let Some(k2) = kb {
                    let n = self.nodes[a as usize];
                    if n.op == Op::Add {
                        if let Some(k1) = self.is_k(n.b) {
                            let k = self.konst(w, k1.wrapping_add(k2));
                            return self.bin(Op::Add, w, n.a, k);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b { return self.konst(w, 0); }
                if let Some(k) = kb {
                    let nk = self.konst(w, k.wrapping_neg());
                    return self.bin(Op::Add, w, a, nk);
                }
            }
            Op::Mul => {
                if kb == Some(0) { return b; }
                if kb == Some(1) { return a; }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, w, a, s);
                    }
                }
            }
            Op::UDiv => {
                if kb == Some(1) { return a; }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, w, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k - 1);
                        return self.bin(Op::And, w, a, s);
                    }
                }
            }
            Op::And => {
                if a == b { return a; }
                if kb == Some(0) { return b; }
                if kb == Some(m) { return a; }
                if let Some(k) = kb {
                    let n = self.nodes[a as usize];
                    if n.op == Op::And {
                        if let Some(k1) = self.is_k(n.b) {
                            let kk = self.konst(w, k & k1);
                            return self.bin(Op::And, w, n.a, kk);
                        }
                    }
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        if k & mask(iw) == mask(iw) { return a; }
                        let kk = self.konst(iw, k & mask(iw));
                        let inner = self.bin(Op::And, iw, n.a, kk);
                        return self.zext(inner, w);
                    }
                    // low mask 2^j-1 -> zext(extract)
                    if (k + 1).is_power_of_two() && k != 0 {
                        let j = (k + 1).trailing_zeros() as u8;
                        if j < w {
                            let x = self.extract(a, 0, j);
                            return self.zext(x, w);
                        }
                    }
                }
                if w == 1 {
                    // x & !x
                    let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                    if na.op == Op::Xor && na.a == b && self.is_k(na.b) == Some(1) { return self.konst(1, 0); }
                    if nb.op == Op::Xor && nb.a == a && self.is_k(nb.b) == Some(1) { return self.konst(1, 0); }
                }
            }
            Op::Or => {
                if a == b { return a; }
                if kb == Some(0) { return a; }
                if kb == Some(m) { return b; }
                if w == 1 {
                    let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                    if na.op == Op::Xor && na.a == b && self.is_k(na.b) == Some(1) { return self.konst(1, 1); }
                    if nb.op == Op::Xor && nb.a == a && self.is_k(nb.b) == Some(1) { return self.konst(1, 1); }
                }
                // (zext lo) | (x << s) with disjoint parts -> concat
                if let Some(r) = self.or_concat(w, a, b) { return r; }
                if let Some(r) = self.or_concat(w, b, a) { return r; }
            }
            Op::Xor => {
                if a == b { return self.konst(w, 0); }
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    let n = self.nodes[a as usize];
                    if n.op == Op::Xor {
                        if let Some(k1) = self.is_k(n.b) {
                            let kk = self.konst(w, k ^ k1);
                            return self.bin(Op::Xor, w, n.a, kk);
                        }
                    }
                    if w == 1 && k == 1 {
                        // push negation into comparisons
                        match n.op {
                            Op::Ult => return self.bin(Op::Ule, self.w(n.a), n.b, n.a),
                            Op::Ule => return self.bin(Op::Ult, self.w(n.a), n.b, n.a),
                            Op::Slt => return self.bin(Op::Sle, self.w(n.a), n.b, n.a),
                            Op::Sle => return self.bin(Op::Slt, self.w(n.a), n.b, n.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl | Op::LShr => {
                if kb == Some(0) { return a; }
                if ka == Some(0) { return a; }
                if let Some(s) = kb {
                    if s >= w as u128 { return self.konst(w, 0); }
                    let s = s as u8;
                    if op == Op::Shl {
                        let lo = self.konst(s, 0);
                        let hi = self.extract(a, 0, w - s);
                        return self.concat(hi, lo);
                    } else {
                        let hi = self.extract(a, s, w - s);
                        return self.zext(hi, w);
                    }
                }
            }
            Op::AShr => {
                if kb == Some(0) { return a; }
                if let Some(s) = kb {
                    if s < w as u128 {
                        let hi = self.extract(a, s as u8, w - s as u8);
                        return self.sext(hi, w);
                    }
                }
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1); }
                if let Some(k) = kb {
                    let n = self.nodes[a as usize];
                    if w == 1 { return if k == 1 { a } else { self.not(a) }; }
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if k > mask(iw) { return self.konst(1, 0); }
                            let kk = self.konst(iw, k);
                            return self.bin(Op::Eq, iw, n.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            let lowk = k & mask(iw);
                            if (sext(lowk, iw) as u128) & m != k { return self.konst(1, 0); }
                            let kk = self.konst(iw, lowk);
                            return self.bin(Op::Eq, iw, n.a, kk);
                        }
                        Op::Add => {
                            if let Some(k1) = self.is_k(n.b) {
                                let kk = self.konst(w, k.wrapping_sub(k1));
                                return self.bin(Op::Eq, w, n.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k1) = self.is_k(n.b) {
                                let kk = self.konst(w, k ^ k1);
                                return self.bin(Op::Eq, w, n.a, kk);
                            }
                            if k == 0 { return self.bin(Op::Eq, w, n.a, n.b); }
                        }
                        Op::Sub => { if k == 0 { return self.bin(Op::Eq, w, n.a, n.b); } }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let hw = self.w(n.a);
                            // only split when one side is constant
                            if self.is_k(n.a).is_some() || self.is_k(n.b).is_some() {
                                let kh = self.konst(hw, k >> lw);
                                let kl = self.konst(lw, k);
                                let x = self.bin(Op::Eq, hw, n.a, kh);
                                let y = self.bin(Op::Eq, lw, n.b, kl);
                                return self.bin(Op::And, 1, x, y);
                            }
                        }
                        Op::Or => {
                            if k == 0 {
                                let z = self.konst(w, 0);
                                let x = self.bin(Op::Eq, w, n.a, z);
                                let y = self.bin(Op::Eq, w, n.b, z);
                                return self.bin(Op::And, 1, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, self.w(na.a), na.a, nb.a);
                    }
                    if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, self.w(na.a), na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        if na.b == nb.b { return self.bin(Op::Eq, self.w(na.a), na.a, nb.a); }
                        if na.a == nb.a { return self.bin(Op::Eq, self.w(na.b), na.b, nb.b); }
                    }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b && self.is_k(na.b).is_some() {
                        return self.bin(Op::Eq, w, na.a, nb.a);
                    }
                }
            }
            Op::Ult => {
                if a == b { return self.konst(1, 0); }
                if kb == Some(0) { return self.konst(1, 0); }
                if ka == Some(m) { return self.konst(1, 0); }
                if kb == Some(1) {
                    let z = self.konst(w, 0);
                    return self.bin(Op::Eq, w, a, z);
                }
                if let Some(r) = self.cmp_zext(op, w, a, b) { return r; }
                if w == 1 {
                    let na = self.not(a);
                    return self.bin(Op::And, 1, na, b);
                }
            }
            Op::Ule => {
                if a == b { return self.konst(1, 1); }
                if ka == Some(0) { return self.konst(1, 1); }
                if kb == Some(m) { return self.konst(1, 1); }
                if let Some(r) = self.cmp_zext(op, w, a, b) { return r; }
                if w == 1 {
                    let na = self.not(a);
                    return self.bin(Op::Or, 1, na, b);
                }
            }
            Op::Slt => {
                if a == b { return self.konst(1, 0); }
                let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                if na.op == Op::ZExt && nb.op == Op::ZExt { return self.bin(Op::Ult, w, a, b); }
                if na.op == Op::ZExt && kb.is_some() {
                    return if kb.unwrap() >> (w - 1) & 1 == 1 { self.konst(1, 0) } else { self.bin(Op::Ult, w, a, b) };
                }
                if nb.op == Op::ZExt && ka.is_some() {
                    return if ka.unwrap() >> (w - 1) & 1 == 1 { self.konst(1, 1) } else { self.bin(Op::Ult, w, a, b) };
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, self.w(na.a), na.a, nb.a);
                }
            }
            Op::Sle => {
                if a == b { return self.konst(1, 1); }
                let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                if na.op == Op::ZExt && nb.op == Op::ZExt { return self.bin(Op::Ule, w, a, b); }
                if na.op == Op::ZExt && kb.is_some() {
                    return if kb.unwrap() >> (w - 1) & 1 == 1 { self.konst(1, 0) } else { self.bin(Op::Ule, w, a, b) };
                }
                if nb.op == Op::ZExt && ka.is_some() {
                    return if ka.unwrap() >> (w - 1) & 1 == 1 { self.konst(1, 1) } else { self.bin(Op::Ule, w, a, b) };
                }
            }
            _ => {}
        }
        // distribute over small constant ite trees
        if kb.is_some() || ka.is_some() {
            let (t, is_a) = if kb.is_some() { (a, true) } else { (b, false) };
            if self.nodes[t as usize].op == Op::Ite {
                let mut cap = 12;
                if self.const_tree(t, &mut cap) {
                    let n = self.nodes[t as usize];
                    let (x, y) = if is_a {
                        (self.bin(op, w, n.b, b), self.bin(op, w, n.c, b))
                    } else {
                        (self.bin(op, w, a, n.b), self.bin(op, w, a, n.c))
                    };
                    return self.ite(n.a, x, y);
                }
            }
        }
        self.mk(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    fn or_concat(&mut self, w: u8, lo: u32, hi: u32) -> Option<u32> {
        let (nl, nh) = (self.nodes[lo as usize], self.nodes[hi as usize]);
        if nl.op == Op::ZExt && nh.op == Op::Concat {
            let lw = self.w(nl.a);
            let s = self.w(nh.b);
            if self.is_k(nh.b) == Some(0) && lw <= s {
                let z = self.zext(nl.a, s);
                let _ = w;
                return Some(self.concat(nh.a, z));
            }
        }
        None
    }
    fn cmp_zext(&mut self, op: Op, _w: u8, a: u32, b: u32) -> Option<u32> {
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (x, y) = (self.w(na.a), self.w(nb.a));
            let t = x.max(y);
            let p = self.zext(na.a, t);
            let q = self.zext(nb.a, t);
            return Some(self.bin(op, t, p, q));
        }
        if na.op == Op::ZExt {
            if let Some(k) = self.is_k(b) {
                let x = self.w(na.a);
                if k > mask(x) { return Some(self.konst(1, 1)); }
                let kk = self.konst(x, k);
                return Some(self.bin(op, x, na.a, kk));
            }
        }
        if nb.op == Op::ZExt {
            if let Some(k) = self.is_k(a) {
                let x = self.w(nb.a);
                if k > mask(x) { return Some(self.konst(1, 0)); }
                let kk = self.konst(x, k);
                return Some(self.bin(op, x, kk, nb.a));
            }
        }
        None
    }
    pub fn extract(&mut self, a: u32, lo: u8, w: u8) -> u32 {
        let n = self.nodes[a as usize];
        if lo == 0 && w == n.w { return a; }
        debug_assert!(lo as u32 + w as u32 <= n.w as u32);
        // these recurse into both operands: remember results, shared operands would be visited over and over
        if matches!(n.op, Op::Ite | Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul) {
            if let Some(r) = self.parts.get(&(a, lo, w)) { return *r; }
            let r = self.extract1(n, a, lo, w);
            self.parts.insert((a, lo, w), r);
            return r;
        }
        self.extract1(n, a, lo, w)
    }
    fn extract1(&mut self, n: Node, a: u32, lo: u8, w: u8) -> u32 {
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, lo + n.k as u8, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.konst(w, 0); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let l = self.extract(n.a, lo, iw - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo == 0 { return self.sext(n.a, w); }
                if lo < iw {
                    let l = self.extract(n.a, lo, iw - lo);
                    return self.sext(l, w);
                }
            }
            Op::Ite => {
                let mut cap = 12;
                if self.const_tree(a, &mut cap) {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.is_k(n.b).is_some() || n.op == Op::Xor {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, w, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && w < n.w => {
                // low bits depend only on low bits
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, w, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, hi: u32, lo: u32) -> u32 {
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        let w = nh.w + nl.w;
        if nh.w == 0 { return lo; }
        if nl.w == 0 { return hi; }
        if let Some(k) = self.is_k(hi) {
            if let Some(k2) = self.is_k(lo) { return self.konst(w, (k << nl.w) | k2); }
            if k == 0 { return self.zext(lo, w); }
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a, nl.k as u8, w);
        }
        // hi = extract(x, lw..) , lo = x's low part when lo itself is whole? handled by extract == identity
        if nh.op == Op::Extract && nh.a == lo && false { unreachable!() }
        if nh.op == Op::ZExt {
            let c = self.concat(nh.a, lo);
            return self.zext(c, w);
        }
        // reassociate: concat(concat(a,b),c) -> concat(a, concat(b,c)) when b,c merge
        if nh.op == Op::Concat {
            let (b, bn) = (nh.b, self.nodes[nh.b as usize]);
            let merges = (bn.op == Op::Extract && nl.op == Op::Extract && bn.a == nl.a && bn.k == nl.k + nl.w as u128)
                || (bn.op == Op::Const && nl.op == Op::Const);
            if merges {
                let c = self.concat(b, lo);
                return self.concat(nh.a, c);
            }
        }
        if nl.op == Op::Concat {
            let (b, bn) = (nl.a, self.nodes[nl.a as usize]);
            let merges = (nh.op == Op::Extract && bn.op == Op::Extract && bn.a == nh.a && nh.k == bn.k + bn.w as u128)
                || (bn.op == Op::Const && nh.op == Op::Const);
            if merges {
                let c = self.concat(hi, b);
                return self.concat(c, nl.b);
            }
        }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn zext(&mut self, a: u32, w: u8) -> u32 {
        let n = self.nodes[a as usize];
        if n.w == w { return a; }
        match n.op {
            Op::Const => return self.konst(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                let mut cap = 12;
                if self.const_tree(a, &mut cap) {
                    let x = self.zext(n.b, w);
                    let y = self.zext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: u32, w: u8) -> u32 {
        let n = self.nodes[a as usize];
        if n.w == w { return a; }
        match n.op {
            Op::Const => return self.konst(w, sext(n.k, n.w) as u128),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                let mut cap = 12;
                if self.const_tree(a, &mut cap) {
                    let x = self.sext(n.b, w);
                    let y = self.sext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if let Some(k) = self.is_k(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let nc = self.nodes[c as usize];
        if nc.op == Op::Xor && self.is_k(nc.b) == Some(1) { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            let (ka, kb) = (self.is_k(a), self.is_k(b));
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, 1, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, 1, n, b); }
                (None, Some(0)) => return self.bin(Op::And, 1, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, 1, n, a); }
                _ => {}
            }
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        let _ = self.ite_consts(a);
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn show(&self, i: u32, d: u32) -> String {
        let n = self.nodes[i as usize];
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("v{}:{}", n.a, n.w),
            _ if d == 0 => "..".into(),
            _ => format!("({:?}{} {})", n.op, n.w, self.kids(i).iter().map(|&k| self.show(k, d - 1)).collect::<Vec<_>>().join(" ")),
        }
    }
    pub fn kids(&self, i: u32) -> Vec<u32> {
        let n = self.nodes[i as usize];
        match n.op {
            Op::Const | Op::Var => vec![],
            Op::Extract | Op::ZExt | Op::SExt | Op::FFromU | Op::FFromS | Op::FToU | Op::FToS | Op::FConv => vec![n.a],
            Op::Ite => vec![n.a, n.b, n.c],
            _ => vec![n.a, n.b],
        }
    }
    // ---- evaluation under the current model ----
    pub fn set_model(&mut self, m: Vec<u128>) {
        self.model = m;
        self.epoch += 1;
    }
    pub fn eval(&mut self, i: u32) -> u128 {
        if self.memo.len() < self.nodes.len() { self.memo.resize(self.nodes.len(), (0, 0)); }
        self.eval_rec(i)
    }
    fn eval_rec(&mut self, i: u32) -> u128 {
        let n = self.nodes[i as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return self.model[n.a as usize],
            _ => {}
        }
        let (ep, v) = self.memo[i as usize];
        if ep == self.epoch { return v; }
        let r = match n.op {
            Op::Ite => {
                if self.eval_rec(n.a) == 1 { self.eval_rec(n.b) } else { self.eval_rec(n.c) }
            }
            Op::Concat => {
                let h = self.eval_rec(n.a);
                let l = self.eval_rec(n.b);
                (h << self.w(n.b)) | l
            }
            Op::Extract | Op::ZExt | Op::SExt | Op::FFromU | Op::FFromS | Op::FToU | Op::FToS | Op::FConv => {
                let a = self.eval_rec(n.a);
                fold1(n.op, n.w, self.w(n.a), a, n.k)
            }
            _ => {
                let a = self.eval_rec(n.a);
                let b = self.eval_rec(n.b);
                fold2(n.op, self.w(n.a), a, b)
            }
        };
        self.memo[i as usize] = (self.epoch, r);
        r
    }
    /// Evaluate `i` assuming node `t` has value `v` (no model use); None if another variable is involved.
    pub fn eval_with(&self, i: u32, t: u32, v: u128, depth: u32) -> Option<u128> {
        if i == t { return Some(v); }
        if depth == 0 { return None; }
        let n = self.nodes[i as usize];
        Some(match n.op {
            Op::Const => n.k,
            Op::Var => return None,
            Op::Ite => {
                if self.eval_with(n.a, t, v, depth - 1)? == 1 { self.eval_with(n.b, t, v, depth - 1)? }
                else { self.eval_with(n.c, t, v, depth - 1)? }
            }
            Op::Concat => (self.eval_with(n.a, t, v, depth - 1)? << self.w(n.b)) | self.eval_with(n.b, t, v, depth - 1)?,
            Op::Extract | Op::ZExt | Op::SExt => fold1(n.op, n.w, self.w(n.a), self.eval_with(n.a, t, v, depth - 1)?, n.k),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FFromU | Op::FFromS | Op::FToU | Op::FToS | Op::FConv => return None,
            _ => fold2(n.op, self.w(n.a), self.eval_with(n.a, t, v, depth - 1)?, self.eval_with(n.b, t, v, depth - 1)?),
        })
    }
    /// Find a sub-node of small width (<= 8) such that `i` is a function of it alone.
    pub fn small_root(&self, i: u32) -> Option<u32> {
        fn walk(p: &Pool, i: u32, found: &mut Option<u32>, budget: &mut u32) -> bool {
            if *budget == 0 { return false; }
            *budget -= 1;
            let n = p.nodes[i as usize];
            if n.op == Op::Const { return true; }
            if Some(i) == *found { return true; }
            if n.w <= 8 && n.w > 1 {
                return match *found { None => { *found = Some(i); true } Some(f) => f == i };
            }
            match n.op {
                Op::Var => false,
                Op::Extract | Op::ZExt | Op::SExt => walk(p, n.a, found, budget),
                Op::Ite => walk(p, n.a, found, budget) && walk(p, n.b, found, budget) && walk(p, n.c, found, budget),
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FFromU | Op::FFromS | Op::FToU | Op::FToS | Op::FConv => false,
                _ => walk(p, n.a, found, budget) && walk(p, n.b, found, budget),
            }
        }
        let mut f = None;
        let mut budget = 64;
        if walk(self, i, &mut f, &mut budget) { f } else { None }
    }
}
