//! Values compared by predicates, three-valued logic, and the batches handed to readers.
use std::cmp::Ordering;
use super::*;
use crate::verif::{prelude::*, util_data::*};
use arrow_array::{Array, BinaryArray, BooleanArray, Int32Array, Int64Array, StringArray};
use arrow_schema::{DataType, Field, Schema};
use typed_arrow_dyn::DynCell;

fn is(o: Option<Ordering>, p: Ordering) -> bool { match o { Some(o) => o as i8 == p as i8, None => false } }
fn int(kind: u64) -> (i128, ScalarValue) {
    match kind {
        0 => { let v = sym_u8() as i8; (v.into(), ScalarValue::Int8(Some(v))) }
        1 => { let v = sym_u16() as i16; (v.into(), ScalarValue::Int16(Some(v))) }
        2 => { let v = sym_i32(); (v.into(), ScalarValue::Int32(Some(v))) }
        3 => { let v = sym_i64(); (v.into(), ScalarValue::Int64(Some(v))) }
        4 => { let v = sym_u8(); (v.into(), ScalarValue::UInt8(Some(v))) }
        5 => { let v = sym_u16(); (v.into(), ScalarValue::UInt16(Some(v))) }
        6 => { let v = sym_u32(); (v.into(), ScalarValue::UInt32(Some(v))) }
        _ => { let v = sym_u64(); (v.into(), ScalarValue::UInt64(Some(v))) }
    }
}
fn ints() {
    let ((a, x), (b, y)) = (int(choose(8)), int(choose(8)));
    assert!(is(compare_scalar_values(&x, &y), a.cmp(&b)), "integers compare by value whatever their widths");
    cover(1);
}
/// 2^e for a small exponent, exactly.
fn pow2(e: i32) -> f64 { f64::from_bits(((1023 + e) as u64) << 52) }
/// An integer against a float, by value: the oracle uses the float's bits only.
fn int_float(kind: u64, all: bool) {
    let (n, x) = int(kind);
    let bits = sym_u64();
    let f = f64::from_bits(bits);
    let flipped = flip();
    let got = if flipped { compare_scalar_values(&ScalarValue::Float64(Some(f)), &x).map(Ordering::reverse) } else { compare_scalar_values(&x, &ScalarValue::Float64(Some(f))) };
    let (neg, exp, frac) = (bits >> 63 == 1, ((bits >> 52) & 0x7ff) as i32, bits & ((1 << 52) - 1));
    if (exp == 0x7ff) & (frac != 0) { assert!(got.is_none(), "not-a-number compares with nothing"); cover(1); return; }
    // |f| as whole part and a flag for a rest; beyond 2^65 every such float is larger than any integer here
    if !all { assume((exp < 1025) | (exp == 1022 + 53) | ((exp >= 1022 + 64) & (exp <= 1022 + 65)) | (exp > 1023 + 65)); }
    let e = concrete(if exp < 1023 { 0 } else if exp > 1023 + 65 { 100 } else { (exp - 1022) as u64 }) as u32;
    let m = (1u128 << 52) | frac as u128;
    let (whole, rest) = if e == 0 { (0u128, (exp != 0) | (frac != 0)) } else if e == 100 { (1u128 << 66, false) } else { let s = e - 1; if s >= 52 { (m << (s - 52), false) } else { (m >> (52 - s), m & ((1 << (52 - s)) - 1) != 0) } };
    let whole = if neg { -(whole as i128) } else { whole as i128 };
    let want = if n < whole { Ordering::Less } else if n > whole { Ordering::Greater } else if rest { if neg { Ordering::Greater } else { Ordering::Less } } else { Ordering::Equal };
    assert!(is(got, want), "an integer and a float compare by value");
    if is(got, Ordering::Equal) { cover(2); }
}
fn floats() {
    let (a, b) = (sym_u32(), sym_u64());
    let (x, y) = (f32::from_bits(a), f64::from_bits(b));
    let got = compare_scalar_values(&ScalarValue::Float32(Some(x)), &ScalarValue::Float64(Some(y)));
    let want = f64::from(x).partial_cmp(&y);
    assert!(got == want, "floats of different widths compare by value");
    assert!(compare_scalar_values(&ScalarValue::Float64(Some(y)), &ScalarValue::Float32(Some(x))).map(Ordering::reverse) == want);
    cover(1);
}
fn same_type() {
    let (a, b) = (sym_bytes(choose(3) as usize), sym_bytes(choose(3) as usize));
    assert!(is(compare_scalar_values(&ScalarValue::Binary(Some(a.clone())), &ScalarValue::Binary(Some(b.clone()))), a.cmp(&b)), "bytes");
    let (p, q) = (flip(), flip());
    assert!(is(compare_scalar_values(&ScalarValue::Boolean(Some(p)), &ScalarValue::Boolean(Some(q))), p.cmp(&q)), "booleans");
    let mut ok = true;
    for x in a.iter().chain(&b) { ok &= *x < 128; }
    assume(ok);
    let (s, t) = (String::from_utf8(a).expect("ascii"), String::from_utf8(b).expect("ascii"));
    assert!(is(compare_scalar_values(&ScalarValue::Utf8(Some(s.clone())), &ScalarValue::Utf8(Some(t.clone()))), s.cmp(&t)), "text");
    assert!(compare_scalar_values(&ScalarValue::Utf8(Some(s)), &ScalarValue::Int64(Some(1))).is_none(), "text and numbers do not compare");
    assert!(compare_scalar_values(&ScalarValue::Int32(None), &ScalarValue::Int64(Some(1))).is_none() && compare_scalar_values(&ScalarValue::Float64(None), &ScalarValue::Int64(Some(1))).is_none(), "a missing value compares with nothing");
    cover(1);
}
/// Text and bytes stored or asked for in any of Arrow's representations.
fn kinds() {
    let mut make = |_| { let mut v = sym_bytes(choose(2) as usize + 1); for x in v.iter_mut() { *x &= 0x7f; } v };
    let (a, b) = (make(0), make(1));
    let want = a.cmp(&b);
    let (s, t) = (String::from_utf8(a.clone()).expect("ascii"), String::from_utf8(b.clone()).expect("ascii"));
    let got = if flip() {
        let tx = |k: u64, v: String| match k { 0 => ScalarValue::Utf8(Some(v)), 1 => ScalarValue::LargeUtf8(Some(v)), _ => ScalarValue::Utf8View(Some(v)) };
        cover(1);
        compare_scalar_values(&tx(choose(3), s), &tx(choose(3), t))
    } else {
        let bx = |k: u64, b: Vec<u8>| match k { 0 => ScalarValue::Binary(Some(b)), 1 => ScalarValue::LargeBinary(Some(b)), 2 => ScalarValue::BinaryView(Some(b)), _ => ScalarValue::FixedSizeBinary(b.len() as i32, Some(b)) };
        cover(2);
        compare_scalar_values(&bx(choose(4), a), &bx(choose(4), b))
    };
    assert!(is(got, want), "text and bytes compare by content in any representation");
}
/// Floats of one type: by value; the sign of zero and not-a-number may follow Arrow's total order.
fn same_floats() {
    let (a, b) = (sym_u64(), sym_u64());
    let (got, x, y) = if flip() {
        let (p, q) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        (compare_scalar_values(&ScalarValue::Float32(Some(p)), &ScalarValue::Float32(Some(q))), f64::from(p), f64::from(q))
    } else {
        let (p, q) = (f64::from_bits(a), f64::from_bits(b));
        (compare_scalar_values(&ScalarValue::Float64(Some(p)), &ScalarValue::Float64(Some(q))), p, q)
    };
    let want = x.partial_cmp(&y);
    assert!(want.is_none() | ((x == 0.0) & (y == 0.0)) | (got == want), "floats of one type compare by value");
    cover(1);
}
fn tri(x: u64) -> TriState { match x { 0 => TriState::False, 1 => TriState::Unknown, _ => TriState::True } }
/// Truth tables: and = minimum, or = maximum, not = mirror, of false < unknown < true.
fn logic() {
    let (a, b) = (choose(3), choose(3));
    assert!(tri(a).and(tri(b)) == tri(a.min(b)), "and");
    assert!(tri(a).or(tri(b)) == tri(a.max(b)), "or");
    assert!(tri(a).not() == tri(2 - a), "not");
    assert!(tri(a).is_true() == (a == 2), "only true rows pass");
    let p = flip();
    assert!(TriState::from_bool(p) == tri(2 * p as u64));
    cover(1);
}
/// A stored cell becomes the literal of the same value and type.
fn cells() {
    let (i, l) = (sym_i32(), sym_u64());
    let (c, want) = match choose(13) {
        0 => (DynCell::Bool(i > 0), ScalarValue::Boolean(Some(i > 0))), 1 => (DynCell::I8(i as i8), ScalarValue::Int8(Some(i as i8))), 2 => (DynCell::I16(i as i16), ScalarValue::Int16(Some(i as i16))),
        3 => (DynCell::I32(i), ScalarValue::Int32(Some(i))), 4 => (DynCell::I64(l as i64), ScalarValue::Int64(Some(l as i64))), 5 => (DynCell::U8(i as u8), ScalarValue::UInt8(Some(i as u8))),
        6 => (DynCell::U16(i as u16), ScalarValue::UInt16(Some(i as u16))), 7 => (DynCell::U32(i as u32), ScalarValue::UInt32(Some(i as u32))), 8 => (DynCell::U64(l), ScalarValue::UInt64(Some(l))),
        9 => { let b = sym_bytes(2); (DynCell::Bin(b.clone()), ScalarValue::Binary(Some(b))) }
        10 => { let c = sym_u8(); assume(c < 128); let s = String::from_utf8(vec![c, b'x']).expect("ascii"); (DynCell::Str(s.clone()), ScalarValue::Utf8(Some(s))) }
        11 => (DynCell::Null, ScalarValue::Null),
        _ => { assert!(convert_owned_cell(&DynCell::List(vec![])).is_err(), "nested values are refused"); return; }
    };
    let got = match convert_owned_cell(&c) { Ok(g) => g, Err(_) => panic!("a scalar cell was refused") };
    assert!(got.data_type() == want.data_type() && got == want, "a cell changed on its way to a predicate");
    cover(1);
}
/// Batches handed to the reader hold the rows appended, in order; a new batch starts empty.
fn batches() {
    let s: SchemaRef = Arc::new(Schema::new(vec![Field::new("id", DataType::Int64, false), Field::new("v", DataType::Int32, true), Field::new("s", DataType::Utf8, true)]));
    let mut b = DynRecordBatchBuilder::new(s.clone(), 1 + choose(2) as usize);
    for round in 0..2 {
        let n = if round == 0 { 2 } else { choose(2) as usize };
        let rows: Vec<(i64, Option<i32>, u8)> = (0..n).map(|_| { let c = sym_u8(); assume(c < 128); (sym_i64(), if flip() { Some(sym_i32()) } else { None }, c) }).collect();
        for r in &rows { if b.append_row(DynRow(vec![Some(DynCell::I64(r.0)), r.1.map(DynCell::I32), Some(DynCell::Str(String::from_utf8(vec![r.2]).expect("ascii")))])).is_err() { panic!("a row was refused"); } }
        let out = match b.finish_batch() { Ok(o) => o, Err(_) => panic!("a batch was refused") };
        assert!(out.num_rows() == n && out.schema() == s, "rows of a batch");
        let ids = out.column(0).as_any().downcast_ref::<Int64Array>().expect("ids");
        let vs = out.column(1).as_any().downcast_ref::<Int32Array>().expect("vs");
        let ss = out.column(2).as_any().downcast_ref::<StringArray>().expect("ss");
        for (i, r) in rows.iter().enumerate() {
            assert!((ids.value(i) == r.0) & (vs.is_null(i) == r.1.is_none()) & (r.1.is_none() || vs.value(i) == r.1.unwrap_or(0)) & (ss.value(i).as_bytes() == [r.2]), "a row changed in its batch");
        }
        cover(1 + round);
    }
}

/// More rows than the builder was told to expect, and than any batch default.
fn big_batch() {
    let s: SchemaRef = Arc::new(Schema::new(vec![Field::new("id", DataType::Int64, false), Field::new("s", DataType::Utf8, true)]));
    let n = [1024usize, 1025, 1100][choose(3) as usize];
    let mut b = DynRecordBatchBuilder::new(s.clone(), [1usize, 1024, 2000][choose(3) as usize]);
    let x = sym_i64();
    for i in 0..n { if b.append_row(DynRow(vec![Some(DynCell::I64(if i == 1023 { x } else { i as i64 })), if i % 9 == 0 { None } else { Some(DynCell::Str("abc"[..i % 4].to_string())) }])).is_err() { panic!("a row was refused"); } }
    let out = match b.finish_batch() { Ok(o) => o, Err(_) => panic!("a batch was refused") };
    assert!(out.num_rows() == n, "rows of a large batch");
    let ids = out.column(0).as_any().downcast_ref::<Int64Array>().expect("ids");
    let ss = out.column(1).as_any().downcast_ref::<StringArray>().expect("ss");
    for i in 0..n { assert!(ids.value(i) == if i == 1023 { x } else { i as i64 } && ss.is_null(i) == (i % 9 == 0) && (i % 9 == 0 || ss.value(i) == &"abc"[..i % 4]), "a row of a large batch changed"); }
    cover(1);
}

crate::harness! {
    vh_row_batch_big => big_batch();
    vh_cmp_int => ints();
    vh_cmp_int_float => int_float([3, 7][choose(2) as usize], false);
    vh_cmp_int_float2 => int_float(choose(8), true);
    vh_cmp_float => floats();
    vh_cmp_same => same_type();
    vh_cmp_kinds => kinds();
    vh_cmp_float_same => same_floats();
    vh_cmp_logic => logic();
    vh_cmp_cells => cells();
    vh_row_batches => batches();
}
