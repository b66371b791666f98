//! Row sets, prefix successors and predicate literals used to plan scans.
use std::cmp::Ordering;
use datafusion_common::ScalarValue;
use super::prelude::*;
use crate::{key::KeyOwned, query::{KeyPredicateValue, scan::{RowSet, next_prefix_string}}};

/// Two disjoint ascending ranges over `n` rows, and the matching membership bits.
fn ranges(n: usize) -> (RowSet, Vec<bool>) {
    let (a, b, c, d) = (below(n as u64 + 1) as usize, below(n as u64 + 1) as usize, below(n as u64 + 1) as usize, below(n as u64 + 1) as usize);
    assume((a <= b) & (b <= c) & (c <= d));
    let (a, b, c, d) = (concrete(a as u64) as usize, concrete(b as u64) as usize, concrete(c as u64) as usize, concrete(d as u64) as usize);
    let bits = (0..n).map(|i| (a..b).contains(&i) || (c..d).contains(&i)).collect();
    (RowSet::from_ranges(n, [a..b, c..d].into_iter().filter(|r| !r.is_empty())), bits)
}
fn check(s: &RowSet, bits: &[bool]) {
    let want: Vec<usize> = bits.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i).collect();
    assert!(s.total_rows() == bits.len() && s.len() == want.len(), "row count");
    assert!(s.iter().collect::<Vec<_>>() == want, "selected rows");
    assert!(s.is_empty() == want.is_empty() && s.is_full() == (want.len() == bits.len()), "empty/full");
    match s.to_row_selection() {
        None => assert!(want.len() == bits.len(), "only a full set may drop its selection"),
        Some(sel) => { assert!(RowSet::from_row_selection(bits.len() + 1, sel.clone()).is_err() && (bits.is_empty() || RowSet::from_row_selection(bits.len() - 1, sel.clone()).is_err()), "a selection for another number of rows is refused"); check_sel(&RowSet::from_row_selection(bits.len(), sel).expect("selection covers the source"), &want) }
    }
}
fn check_sel(s: &RowSet, want: &[usize]) { assert!(s.iter().collect::<Vec<_>>() == want, "round trip through a row selection"); }
fn rowset(n: u64) {
    let n = choose(n + 1) as usize;
    let ((a, x), (b, y)) = (ranges(n), ranges(n));
    check(&a, &x);
    check(&a.intersect(&b).expect("same source"), &x.iter().zip(&y).map(|(p, q)| *p && *q).collect::<Vec<_>>());
    check(&a.union(&b).expect("same source"), &x.iter().zip(&y).map(|(p, q)| *p || *q).collect::<Vec<_>>());
    check(&RowSet::all(n), &vec![true; n]);
    check(&RowSet::none(n), &vec![false; n]);
    assert!(a.intersect(&RowSet::all(n + 1)).is_err() && a.union(&RowSet::none(n + 1)).is_err(), "row sets of different sources must not combine");
    cover(1);
}
fn sym_char() -> char { let c = sym_u32(); assume((c < 0xD800) | ((c > 0xDFFF) & (c <= 0x10FFFF))); char::from_u32(c).expect("scalar value") }
fn prefix(len: usize) {
    let p: String = (0..len).map(|_| sym_char()).collect();
    let Some(u) = next_prefix_string(&p) else { cover(2); return };
    assert!(p.as_bytes().cmp(u.as_bytes()) == Ordering::Less, "successor must follow the prefix");
    let mut s = p.clone();
    if flip() { s.push(sym_char()); if flip() { s.push(char::MAX); } }
    assert!(s.as_bytes().cmp(u.as_bytes()) == Ordering::Less, "a string with the prefix lies beyond the successor");
    assert!(!u.starts_with(p.as_str()), "successor must not itself carry the prefix");
    cover(1);
}
fn ord_is(a: Ordering, b: Ordering) -> bool { a as i8 == b as i8 }
/// A literal compares with stored keys of its column by value, whatever width it was written in.
fn literal_int() {
    let (n, lit): (i128, ScalarValue) = match choose(8) {
        0 => { let v = sym_u8() as i8; (v.into(), ScalarValue::Int8(Some(v))) }
        1 => { let v = sym_u16() as i16; (v.into(), ScalarValue::Int16(Some(v))) }
        2 => { let v = sym_i32(); (v.into(), ScalarValue::Int32(Some(v))) }
        3 => { let v = sym_i64(); (v.into(), ScalarValue::Int64(Some(v))) }
        4 => { let v = sym_u8(); (v.into(), ScalarValue::UInt8(Some(v))) }
        5 => { let v = sym_u16(); (v.into(), ScalarValue::UInt16(Some(v))) }
        6 => { let v = sym_u32(); (v.into(), ScalarValue::UInt32(Some(v))) }
        _ => { let v = sym_u64(); (v.into(), ScalarValue::UInt64(Some(v))) }
    };
    let (m, stored): (i128, KeyOwned) = match choose(4) {
        0 => { let v = sym_i32(); (v.into(), v.into()) }
        1 => { let v = sym_i64(); (v.into(), v.into()) }
        2 => { let v = sym_u32(); (v.into(), v.into()) }
        _ => { let v = sym_u64(); (v.into(), v.into()) }
    };
    let k = <KeyOwned as KeyPredicateValue>::from_scalar(&lit).expect("integer literals are keys");
    assert!(ord_is(stored.cmp(&k), m.cmp(&n)) && ord_is(k.cmp(&stored), n.cmp(&m)), "a literal must compare with stored keys by value");
    if m == n { assert!(stored == k, "a literal must equal the stored key of the same value"); cover(1); }
    let i32l = <i32 as KeyPredicateValue>::from_scalar(&lit);
    let i64l = <i64 as KeyPredicateValue>::from_scalar(&lit);
    assert!(i32l.is_none_or(|x| i128::from(x) == n) && i64l.is_none_or(|x| i128::from(x) == n), "typed literal keeps its value");
    cover(2);
}
fn literal_bytes() {
    let n = choose(3) as usize;
    let b = sym_bytes(n);
    let mut ascii = true;
    for x in &b { ascii &= *x < 128; }
    let form = choose(7);
    if form < 3 { assume(ascii); }
    let s = || String::from_utf8(b.clone()).expect("ascii");
    let (lit, want): (ScalarValue, KeyOwned) = match form {
        0 => (ScalarValue::Utf8(Some(s())), s().into()),
        1 => (ScalarValue::LargeUtf8(Some(s())), s().into()),
        2 => (ScalarValue::Utf8View(Some(s())), s().into()),
        3 => (ScalarValue::Binary(Some(b.clone())), b.clone().into()),
        4 => (ScalarValue::LargeBinary(Some(b.clone())), b.clone().into()),
        5 => (ScalarValue::BinaryView(Some(b.clone())), b.clone().into()),
        _ => { let v = sym_bool(); (ScalarValue::Boolean(Some(v)), v.into()) }
    };
    assert!(<KeyOwned as KeyPredicateValue>::from_scalar(&lit).is_some_and(|k| k == want), "a literal must equal the stored key of the same value");
    cover(1);
}
fn literal_float() {
    let x = f32::from_bits(sym_u32());
    let (lit, stored): (ScalarValue, KeyOwned) = if flip() { (ScalarValue::Float32(Some(x)), x.into()) } else { let y = f64::from_bits(sym_u64()); (ScalarValue::Float64(Some(y)), y.into()) };
    assert!(<KeyOwned as KeyPredicateValue>::from_scalar(&lit).is_some_and(|k| k == stored && k.cmp(&stored) == Ordering::Equal), "a literal must equal the stored key of the same value");
    let o = f32::from_bits(sym_u32());
    if let Some(w) = x.partial_cmp(&o) {
        let k = <KeyOwned as KeyPredicateValue>::from_scalar(&ScalarValue::Float32(Some(x))).expect("key");
        assert!(k.cmp(&KeyOwned::from(o)) == w, "a literal must compare with stored keys by value");
        cover(1);
    }
}
crate::harness! {
    vh_rowset2 => rowset(2);
    vh_rowset3 => rowset(3);
    vh_prefix1 => prefix(1);
    vh_prefix2 => prefix(2);
    vh_literal_int => literal_int();
    vh_literal_bytes => literal_bytes();
    vh_literal_float => literal_float();
}
