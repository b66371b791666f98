//! Primary-key order, equality and hashing.
use std::{cmp::Ordering, hash::{Hash, Hasher}};
use typed_arrow_dyn::DynCell;
use super::prelude::*;
use crate::{key::{KeyOwned, KeyRow, KeyTsOwned, KeyTsViewRaw}, mvcc::Timestamp};

/// Records what is fed to the hasher.
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
fn fed<T: Hash>(t: &T) -> Vec<u8> { let mut r = Rec(vec![]); t.hash(&mut r); r.0 }
fn same_feed(a: &[u8], b: &[u8]) -> bool { let mut ok = a.len() == b.len(); for i in 0..a.len().min(b.len()) { ok &= a[i] == b[i]; } ok }
fn le(o: Ordering) -> bool { (o as i8) <= 0 }
fn is(o: Ordering, p: Ordering) -> bool { o as i8 == p as i8 }

/// Laws over three keys; `spec` is the expected order of the first two (when the type has one).
fn laws(a: KeyOwned, b: KeyOwned, c: KeyOwned, spec: Option<Ordering>) {
    let (ab, ba, bc, ac) = (a.cmp(&b), b.cmp(&a), b.cmp(&c), a.cmp(&c));
    assert!(is(a.cmp(&a), Ordering::Equal) & (a == a), "a key must equal itself");
    assert!(is(ab, ba.reverse()), "order must be antisymmetric");
    assert!(!(le(ab) & le(bc)) | le(ac), "order must be transitive");
    assert!(!(is(ab, Ordering::Equal)) | is(ac, bc), "equal keys must order alike against a third");
    assert!((a == b) == is(ab, Ordering::Equal), "equality must agree with order");
    if let Some(s) = spec { assert!(is(ab, s), "keys must be ordered by value"); }
    let eq = a == b;
    assert!(!eq | same_feed(&fed(&a), &fed(&b)), "equal keys must hash alike");
    // owned and borrowed forms agree
    let (ra, rb) = (KeyRow::from_owned(&a).expect("row"), KeyRow::from_owned(&b).expect("row"));
    assert!(is(ra.cmp(&rb), ab), "borrowed order differs from owned order");
    assert!((ra == rb) == eq, "borrowed equality differs from owned");
    assert!(ra.partial_cmp(&b).is_some_and(|o| is(o, ab)) & a.partial_cmp(&rb).is_some_and(|o| is(o, ab)), "mixed owned/borrowed order differs");
    assert!((ra == b) == eq && (a == rb) == eq, "mixed owned/borrowed equality differs");
    assert!(same_feed(&fed(&ra), &fed(&a)), "borrowed hash differs from owned hash");
    assert!(ra.to_owned() == a, "owned copy of a borrowed key differs");
    // (key ascending, timestamp descending)
    let (t, u) = (sym_u64(), sym_u64());
    let (va, vb) = (KeyTsViewRaw::new(ra, Timestamp::new(t)), KeyTsViewRaw::new(rb, Timestamp::new(u)));
    let want = if is(ab, Ordering::Equal) { u.cmp(&t) } else { ab };
    assert!(is(va.cmp(&vb), want), "versions must order by key, newest first");
    assert!((va == vb) == is(want, Ordering::Equal), "version equality must agree with order");
    let (oa, ob) = (KeyTsOwned::new(a, Timestamp::new(t)), KeyTsOwned::new(b, Timestamp::new(u)));
    assert!(is(oa.cmp(&ob), want) && (oa == ob) == is(want, Ordering::Equal), "owned versions must order by key, newest first");
    if is(want, Ordering::Equal) { cover(1); }
    if is(want, Ordering::Less) { cover(2); }
    if is(want, Ordering::Greater) { cover(3); }
}
fn bytes(max: u64) -> Vec<u8> { let n = choose(max + 1) as usize; sym_bytes(n) }
fn text(max: u64) -> String {
    let b = bytes(max);
    let mut ok = true;
    for x in &b { ok &= *x < 128; }
    assume(ok);
    String::from_utf8(b).expect("ascii")
}
fn comp(n: u64) -> KeyOwned {
    KeyOwned::tuple(vec![KeyOwned::from(bytes(n)), KeyOwned::from(sym_u32())])
}
fn fnum(a: f64, b: f64) -> Option<Ordering> { a.partial_cmp(&b) }
/// One of the given values, off by at most one; one path per value.
fn near(at: &[i64]) -> i64 { at[choose(at.len() as u64) as usize].wrapping_add(choose(3) as i64 - 1) }
fn kept(k: &KeyOwned, r: &KeyOwned) {
    assert!(r == k && r.len() == k.len(), "a key must survive serialisation");
    let mut same = true;
    for (x, y) in k.as_row().cells().iter().zip(r.as_row().cells()) {
        same &= match (x, y) {
            (Some(DynCell::F32(a)), Some(DynCell::F32(b))) => (a.to_bits() == b.to_bits()) | (a.is_nan() & b.is_nan()),
            (Some(DynCell::F64(a)), Some(DynCell::F64(b))) => (a.to_bits() == b.to_bits()) | (a.is_nan() & b.is_nan()),
            (Some(a), Some(b)) => std::mem::discriminant(a) == std::mem::discriminant(b),
            _ => false,
        };
    }
    assert!(same, "a key component must keep its type");
    cover(1);
}
fn serde_trip(k: KeyOwned) {
    let v = serde_json::to_value(&k).expect("serialise");
    kept(&k, &serde_json::from_value(v).expect("a stored key must be readable"));
}
fn json_trip(k: KeyOwned) {
    let v = serde_json::to_vec(&k).expect("serialise");
    kept(&k, &serde_json::from_slice(&v).expect("a stored key must be readable"));
}

crate::harness! {
    vh_key_int64 => { let (a, b) = (sym_i64(), sym_i64()); laws(a.into(), b.into(), sym_i64().into(), Some(a.cmp(&b))) };
    vh_key_int32 => { let (a, b) = (sym_i32(), sym_i32()); laws(a.into(), b.into(), sym_i32().into(), Some(a.cmp(&b))) };
    vh_key_uint => match choose(3) {
        0 => { let (a, b) = (sym_u64(), sym_u64()); laws(a.into(), b.into(), sym_u64().into(), Some(a.cmp(&b))) }
        1 => { let (a, b) = (sym_u32(), sym_u32()); laws(a.into(), b.into(), sym_u32().into(), Some(a.cmp(&b))) }
        _ => { let (a, b) = (sym_bool(), sym_bool()); laws(a.into(), b.into(), sym_bool().into(), Some(a.cmp(&b))) }
    };
    vh_key_bytes => { let (a, b) = (bytes(2), bytes(2)); let s = a.cmp(&b); laws(a.into(), b.into(), bytes(2).into(), Some(s)) };
    vh_key_bytes3 => { let (a, b) = (bytes(3), bytes(3)); let s = a.cmp(&b); laws(a.into(), b.into(), bytes(3).into(), Some(s)) };
    vh_key_text => { let (a, b) = (text(2), text(2)); let s = a.as_bytes().cmp(b.as_bytes()); laws(a.into(), b.into(), text(2).into(), Some(s)) };
    vh_key_f64 => { let (a, b) = (f64::from_bits(sym_u64()), f64::from_bits(sym_u64())); let s = fnum(a, b); laws(a.into(), b.into(), f64::from_bits(sym_u64()).into(), s) };
    vh_key_f32 => { let (a, b) = (f32::from_bits(sym_u32()), f32::from_bits(sym_u32())); let s = a.partial_cmp(&b); laws(a.into(), b.into(), f32::from_bits(sym_u32()).into(), s) };
    vh_key_composite => laws(comp(1), comp(1), comp(1), None);
    vh_key_composite2 => {
        let (a0, a1, b0, b1) = (sym_i64(), sym_i32(), sym_i64(), sym_i32());
        laws(KeyOwned::tuple(vec![a0.into(), a1.into()]), KeyOwned::tuple(vec![b0.into(), b1.into()]), KeyOwned::tuple(vec![sym_i64().into(), sym_i32().into()]), Some(if a0 != b0 { a0.cmp(&b0) } else { a1.cmp(&b1) }));
    };
    vh_key_composite3 => {
        let (a, b): (Vec<i32>, Vec<i32>) = ((0..3).map(|_| sym_i32()).collect(), (0..3).map(|_| sym_i32()).collect());
        let k = |v: &[i32]| KeyOwned::tuple(v.iter().map(|x| (*x).into()).collect());
        let flat = k(&a);
        assert!(KeyOwned::tuple(vec![k(&a[..2]), a[2].into()]) == flat && KeyOwned::tuple(vec![a[0].into(), k(&a[1..])]) == flat && flat.len() == 3, "a key made of parts has all their components");
        let s = a.cmp(&b);
        laws(k(&a), k(&b), k(&[sym_i32(), sym_i32(), sym_i32()]), Some(s));
    };
    vh_key_size => {
        // bytes a key holds beside its fixed-width components
        let (a, b) = (bytes(3), text(3));
        let want = a.len() + b.len();
        let k = KeyOwned::tuple(vec![sym_i64().into(), a.into(), sym_bool().into(), b.into()]);
        let r = KeyRow::from_owned(&k).expect("row");
        assert!(r.heap_size() == want, "size of a key");
        assert!(KeyRow::from_owned(&KeyOwned::from(sym_u64())).expect("row").heap_size() == 0, "size of a number");
        cover(1);
        if want == 6 { cover(2); }
    };
    vh_key_serde => serde_trip(match choose(6) { 0 => KeyOwned::from(sym_i64()), 1 => sym_i32().into(), 2 => sym_u64().into(), 3 => sym_u32().into(), 4 => sym_bool().into(), _ => comp(2) });
    vh_key_serde_text => serde_trip(match choose(3) { 0 => text(3).into(), 1 => bytes(3).into(), _ => KeyOwned::tuple(vec![text(1).into(), sym_i64().into(), bytes(1).into()]) });
    vh_key_serde_float => serde_trip(match choose(3) { 0 => f64::from_bits(sym_u64()).into(), 1 => f32::from_bits(sym_u32()).into(), _ => KeyOwned::tuple(vec![f32::from_bits(sym_u32()).into(), f64::from_bits(sym_u64()).into()]) });
    vh_key_json => json_trip(match choose(5) {
        0 => KeyOwned::from(near(&[0, i64::MIN, i64::MAX, -1, 1 << 53])),
        1 => (near(&[0, -1, i64::MAX, 1 << 53]) as u64).into(),
        2 => text(1).into(),
        3 => bytes(1).into(),
        _ => KeyOwned::tuple(vec![(near(&[i64::from(i32::MAX), i64::from(i32::MIN), 0]) as i32).into(), text(1).into()]),
    });
    vh_key_json_float => json_trip(if flip() { f64::from_bits(near(&[0, f64::NAN.to_bits() as i64, f64::INFINITY.to_bits() as i64, f64::NEG_INFINITY.to_bits() as i64, 0.1f64.to_bits() as i64, 0x0adb2b4c_1e5d6a3f, 0x7fefffff_ffffffff, i64::MIN]) as u64).into() } else { f32::from_bits(near(&[0, i64::from(f32::NAN.to_bits()), i64::from(f32::INFINITY.to_bits()), i64::from(0.1f32.to_bits()), 0x7f7fffff]) as u32).into() });
}
