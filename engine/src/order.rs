//! Order abstraction: queries whose relevant constraints only compare inputs (and constants) with each other
//! are decided over the integers with the inputs' exact ranges, which is equivalent and much cheaper than
//! bit-blasting.  Anything else goes to the bit-vector solver.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
/// Interpretation of an input: 1 unsigned, 2 signed.
pub struct Classes { pub class: HashMap<u32, u8> }
enum Operand { Konst, Plain(u32), Zx(u32), Sx(u32), Ite, Sum }
/// Largest value of an expression built from constants, zero-extended inputs, choices and sums, when no sum wraps.
fn max_of(p: &Pool, i: u32, d: u32) -> Option<u128> {
    if d > 16 { return None; }
    let n = p.nodes[i as usize];
    match n.op {
        Op::Const => Some(n.k),
        Op::ZExt if p.nodes[n.a as usize].op == Op::Var && p.w(n.a) > 1 => Some(mask(p.w(n.a))),
        Op::Ite => Some(max_of(p, n.b, d + 1)?.max(max_of(p, n.c, d + 1)?)),
        Op::Add => { let s = max_of(p, n.a, d + 1)? + max_of(p, n.b, d + 1)?; if n.w > 1 && s <= mask(n.w - 1) { Some(s) } else { None } }
        _ => None,
    }
}
fn operand(p: &Pool, i: u32) -> Option<Operand> {
    let n = p.nodes[i as usize];
    Some(match n.op {
        Op::Const => Operand::Konst,
        Op::Var => Operand::Plain(n.a),
        Op::ZExt if p.nodes[n.a as usize].op == Op::Var && p.w(n.a) > 1 => Operand::Zx(p.nodes[n.a as usize].a),
        Op::SExt if p.nodes[n.a as usize].op == Op::Var && p.w(n.a) > 1 => Operand::Sx(p.nodes[n.a as usize].a),
        Op::Ite => Operand::Ite,
        Op::Add if max_of(p, i, 0).is_some() => Operand::Sum,
        _ => return None,
    })
}
struct Cx<'a> { p: &'a Pool, seen: HashSet<u32>, req: Vec<(u32, u8)>, eqs: Vec<(u32, u32)>, sx_eq: Vec<u32> }
impl<'a> Cx<'a> {
    fn leaves(&mut self, i: u32, out: &mut Vec<u32>, depth: u32) -> bool {
        if depth > 12 || out.len() > 64 { return false; }
        match operand(self.p, i) {
            None => false,
            Some(Operand::Ite) => { let n = self.p.nodes[i as usize]; self.boolean(n.a) && self.leaves(n.b, out, depth + 1) && self.leaves(n.c, out, depth + 1) }
            Some(Operand::Sum) => { let n = self.p.nodes[i as usize]; self.leaves(n.a, out, depth + 1) && self.leaves(n.b, out, depth + 1) }
            Some(_) => { out.push(i); true }
        }
    }
    fn boolean(&mut self, i: u32) -> bool {
        if !self.seen.insert(i) { return true; }
        let n = self.p.nodes[i as usize];
        if n.w != 1 { return false; }
        match n.op {
            Op::Const | Op::Var => true,
            Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub => self.boolean(n.a) && self.boolean(n.b),
            Op::Ite => self.boolean(n.a) && self.boolean(n.b) && self.boolean(n.c),
            Op::Eq if self.p.w(n.a) == 1 => self.boolean(n.a) && self.boolean(n.b),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let (mut l, mut r) = (vec![], vec![]);
                if !self.leaves(n.a, &mut l, 0) || !self.leaves(n.b, &mut r, 0) { return false; }
                match n.op {
                    Op::Eq => {
                        let all: Vec<u32> = l.iter().chain(r.iter()).copied().collect();
                        let mut plain = vec![]; let mut sx = false; let mut zx = false;
                        for &x in &all { match operand(self.p, x).unwrap() {
                            Operand::Plain(v) => plain.push(v),
                            Operand::Zx(v) => { self.req.push((v, 1)); zx = true; }
                            Operand::Sx(v) => { self.req.push((v, 2)); sx = true; }
                            _ => {} } }
                        if sx && zx { return false; }
                        for w in plain.windows(2) { self.eqs.push((w[0], w[1])); }
                        if sx { for &v in &plain { self.req.push((v, 2)); } if plain.is_empty() { self.sx_eq.push(i); } }
                    }
                    _ => {
                        let sg = matches!(n.op, Op::Slt | Op::Sle);
                        for &x in l.iter().chain(r.iter()) { match operand(self.p, x).unwrap() {
                            Operand::Plain(v) => self.req.push((v, if sg { 2 } else { 1 })),
                            Operand::Zx(v) => self.req.push((v, 1)),
                            Operand::Sx(v) => { if !sg { return false; } self.req.push((v, 2)); }
                            _ => {} } }
                    }
                }
                true
            }
            _ => false,
        }
    }
}
/// Some(classes) when every formula lies in the order fragment.
pub fn classify(p: &Pool, fs: &[u32]) -> Option<Classes> {
    let mut cx = Cx { p, seen: HashSet::new(), req: vec![], eqs: vec![], sx_eq: vec![] };
    for &f in fs { if !cx.boolean(f) { return None; } }
    let mut class: HashMap<u32, u8> = HashMap::new();
    for &(v, c) in &cx.req { if *class.entry(v).or_insert(c) != c { return None; } }
    loop {
        let mut ch = false;
        for &(a, b) in &cx.eqs {
            match (class.get(&a).copied(), class.get(&b).copied()) {
                (Some(x), Some(y)) => if x != y { return None; },
                (Some(x), None) => { class.insert(b, x); ch = true; }
                (None, Some(y)) => { class.insert(a, y); ch = true; }
                _ => {}
            }
        }
        if !ch { break; }
    }
    Some(Classes { class })
}
/// Is the constant in comparison `i` to be read as signed?
pub fn signed_cmp(p: &Pool, c: &Classes, i: u32) -> bool {
    let n = p.nodes[i as usize];
    match n.op {
        Op::Slt | Op::Sle => true,
        Op::Ult | Op::Ule => false,
        _ => {
            fn f(p: &Pool, c: &Classes, i: u32) -> bool {
                let n = p.nodes[i as usize];
                match n.op {
                    Op::Var => c.class.get(&n.a) == Some(&2),
                    Op::SExt => true,
                    Op::Ite => f(p, c, n.b) || f(p, c, n.c),
                    _ => false,
                }
            }
            f(p, c, n.a) || f(p, c, n.b)
        }
    }
}
