//! Key extraction from batches and key declarations in schemas.
use std::{collections::HashMap, sync::Arc};
use arrow_array::{Array, ArrayRef, BinaryArray, BooleanArray, FixedSizeBinaryArray, Float32Array, Float64Array, Int32Array, Int64Array, LargeBinaryArray, LargeStringArray, RecordBatch, StringArray, UInt32Array, UInt64Array};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use typed_arrow_dyn::DynCell;
use super::{prelude::*, util_data::*};
use crate::{extractor::{KeyExtractError, KeyProjection, projection_for_columns, projection_for_field, row_from_batch}, key::KeyOwned, mode::DynModeConfig, inmem::immutable::memtable::MVCC_TOMBSTONE_COL, mvcc::MVCC_COMMIT_COL, schema::SchemaBuilder};

/// A column of three rows with arbitrary contents and where it must show up as a key.
fn column(kind: u64) -> (ArrayRef, Vec<KeyOwned>) {
    fn both<T: Clone, A: Array + From<Vec<T>> + 'static>(v: Vec<T>) -> (ArrayRef, Vec<KeyOwned>) where KeyOwned: From<T> { (Arc::new(A::from(v.clone())), v.into_iter().map(KeyOwned::from).collect()) }
    let text = || -> Vec<String> { [1usize, 0, 2].iter().map(|n| { let b = sym_bytes(*n); let mut ok = true; for x in &b { ok &= *x < 128; } assume(ok); String::from_utf8(b).expect("ascii") }).collect() };
    let bin = || -> Vec<Vec<u8>> { [0usize, 2, 1].iter().map(|n| sym_bytes(*n)).collect() };
    match kind {
        0 => both::<i64, Int64Array>((0..3).map(|_| sym_i64()).collect()),
        1 => both::<i32, Int32Array>((0..3).map(|_| sym_i32()).collect()),
        2 => both::<u64, UInt64Array>((0..3).map(|_| sym_u64()).collect()),
        3 => both::<u32, UInt32Array>((0..3).map(|_| sym_u32()).collect()),
        4 => both::<bool, BooleanArray>((0..3).map(|_| flip()).collect()),
        5 => both::<String, StringArray>(text()),
        6 => { let v = text(); (Arc::new(LargeStringArray::from(v.clone())), v.into_iter().map(KeyOwned::from).collect()) }
        7 => { let v = bin(); (Arc::new(BinaryArray::from_iter_values(v.iter())), v.into_iter().map(KeyOwned::from).collect()) }
        8 => { let v = bin(); (Arc::new(LargeBinaryArray::from_iter_values(v.iter())), v.into_iter().map(KeyOwned::from).collect()) }
        9 => { let v: Vec<Vec<u8>> = (0..3).map(|_| sym_bytes(2)).collect(); (Arc::new(FixedSizeBinaryArray::try_from_iter(v.iter()).expect("fixed")), v.into_iter().map(KeyOwned::from).collect()) }
        10 => both::<f64, Float64Array>((0..3).map(|_| f64::from_bits(sym_u64())).collect()),
        _ => both::<f32, Float32Array>((0..3).map(|_| f32::from_bits(sym_u32())).collect()),
    }
}
/// A batch of a value column and the key columns, optionally with the commit column behind.
fn table(cols: &[(ArrayRef, Vec<KeyOwned>)], commit: bool) -> (SchemaRef, RecordBatch) {
    let mut f = vec![Field::new("v", DataType::Int32, true)];
    let mut a: Vec<ArrayRef> = vec![Arc::new(Int32Array::from(vec![7, 8, 9]))];
    for (i, c) in cols.iter().enumerate() { f.push(Field::new(format!("k{i}"), c.0.data_type().clone(), true)); a.push(c.0.clone()); }
    let s = Arc::new(Schema::new(f.clone()));
    let mut bs = s.clone();
    if commit { f.push(Field::new(MVCC_COMMIT_COL, DataType::UInt64, false)); a.push(Arc::new(UInt64Array::from(vec![1, 2, 3]))); bs = Arc::new(Schema::new(f)); }
    (s, RecordBatch::try_new(bs, a).expect("batch"))
}
fn project(kinds: std::ops::Range<u64>) {
    let col = column(kinds.start + choose(kinds.end - kinds.start));
    let (s, b) = table(&[col.clone()], flip());
    let p = projection_for_field(s.clone(), 1).expect("supported key type");
    assert!(p.key_indices() == [1] && p.key_schema().fields().len() == 1 && p.key_schema().field(0) == s.field(1), "key column");
    let rows: Vec<usize> = (0..2).map(|_| choose(3) as usize).collect();
    let got = p.project_view(&b, &rows).expect("keys");
    assert!(got.len() == 2, "one key per requested row");
    for (k, r) in got.iter().zip(&rows) { assert!(k.to_owned() == col.1[*r] && k.len() == 1, "a key differs from its row"); }
    cover(1);
    let part = p.project_view(&b.slice(1, 2), &[1, 0]).expect("keys of a slice");
    assert!(part.len() == 2 && part[0].to_owned() == col.1[2] && part[1].to_owned() == col.1[1], "a key of a slice differs from its row");
    assert!(p.project_view(&b, &[]).expect("none").is_empty());
    assert!(matches!(p.project_view(&b, &[0, 3]), Err(KeyExtractError::RowOutOfBounds(3, 3))), "a row beyond the batch");
}
/// Composite keys: the declared columns in the declared order.
fn project_composite() {
    let cols = [column(0), column(5), column(3)];
    let (s, b) = table(&cols, flip());
    let orders: [&[usize]; 4] = [&[1, 2], &[2, 1], &[3, 1, 2], &[1, 2, 3]];
    let order = orders[choose(4) as usize];
    let p = projection_for_columns(s, order.to_vec()).expect("supported");
    assert!(p.key_indices() == order, "key columns");
    let r = choose(3) as usize;
    let got = p.project_view(&b, &[r]).expect("key");
    let want = KeyOwned::tuple(order.iter().map(|c| cols[*c - 1].1[r].clone()).collect());
    assert!(got.len() == 1 && got[0].len() == order.len() && got[0].to_owned() == want, "a composite key differs from its row");
    cover(1);
}
/// Rows without a key value are refused, whatever the others hold.
fn project_null() {
    let nul: Vec<bool> = (0..2).map(|_| flip()).collect();
    let v: Vec<i64> = (0..2).map(|_| sym_i64()).collect();
    let a: ArrayRef = Arc::new(Int64Array::from((0..2).map(|i| if nul[i] { None } else { Some(v[i]) }).collect::<Vec<_>>()));
    let pos = choose(2) as usize;
    let other: ArrayRef = Arc::new(Int64Array::from(vec![1, 2]));
    let s: SchemaRef = Arc::new(Schema::new(vec![Field::new("a", DataType::Int64, true), Field::new("b", DataType::Int64, true)]));
    let b = RecordBatch::try_new(s.clone(), if pos == 0 { vec![a, other] } else { vec![other, a] }).expect("batch");
    let p = projection_for_columns(s, vec![0, 1]).expect("key");
    for r in 0..2 {
        match p.project_view(&b, &[r]) {
            Ok(k) => { assert!(!nul[r], "a key without a value was accepted"); assert!(k[0].to_owned() == KeyOwned::tuple(if pos == 0 { vec![v[r].into(), (r as i64 + 1).into()] } else { vec![(r as i64 + 1).into(), v[r].into()] })); cover(1); }
            Err(_) => { assert!(nul[r], "a row with a key was refused"); cover(2); }
        }
    }
    assert!(p.project_view(&b, &[0, 1]).is_err() == (nul[0] | nul[1]));
}
/// Batches of another shape are refused; only a trailing commit column may be added.
fn shapes() {
    let s = schema();
    let p = extractor(&s);
    let id = || Field::new("id", DataType::Int64, false);
    let v = || Field::new("v", DataType::Int32, true);
    let ts = || Field::new(MVCC_COMMIT_COL, DataType::UInt64, false);
    let (f, ok) = match choose(12) {
        0 => (vec![id(), v()], true),
        1 => (vec![id(), v(), ts()], true),
        2 => (vec![id(), v(), Field::new(MVCC_COMMIT_COL, DataType::UInt64, true)], false),
        3 => (vec![id(), v(), Field::new(MVCC_COMMIT_COL, DataType::Int64, false)], false),
        4 => (vec![id(), v(), Field::new("ts", DataType::UInt64, false)], false),
        5 => (vec![ts(), id(), v()], false),
        6 => (vec![v(), id()], false),
        7 => (vec![id()], false),
        8 => (vec![id(), Field::new("w", DataType::Int32, true)], false),
        9 => (vec![Field::new("id", DataType::Int32, false), v()], false),
        10 => (vec![id(), v(), ts(), v()], false),
        _ => (vec![id(), Field::new("v", DataType::Int32, false), ts()], false),
    };
    let r: SchemaRef = Arc::new(Schema::new(f));
    assert!(p.validate_schema(&r).is_ok() == ok, "shape check");
    if ok { cover(1); } else {
        assert!(p.project_view(&RecordBatch::new_empty(r), &[]).is_err(), "keys of a batch of another shape");
        cover(2);
    }
}
/// A row read back from a batch holds what the batch holds, without the bookkeeping columns.
fn row() {
    let nul: Vec<bool> = (0..9).map(|i| if i < 3 { flip() } else { false }).collect();
    let all_null = flip();
    let o = |i: usize| !(nul[i] | all_null);
    let (b, i, l, u, w) = (flip(), sym_i32(), sym_i64(), sym_u32(), sym_u64());
    let (f, d) = (sym_u32(), sym_u64());
    let (st, bi) = (String::from("ab"), sym_bytes(2));
    let mut cols: Vec<(&str, ArrayRef)> = vec![
        ("b", Arc::new(BooleanArray::from(vec![None, o(0).then_some(b)]))),
        ("i", Arc::new(Int32Array::from(vec![None, o(1).then_some(i)]))),
        ("l", Arc::new(Int64Array::from(vec![Some(5), o(2).then_some(l)]))),
        ("u", Arc::new(UInt32Array::from(vec![None, o(3).then_some(u)]))),
        ("w", Arc::new(UInt64Array::from(vec![None, o(4).then_some(w)]))),
        ("f", Arc::new(Float32Array::from(vec![None, o(5).then_some(f32::from_bits(f))]))),
        ("d", Arc::new(Float64Array::from(vec![None, o(6).then_some(f64::from_bits(d))]))),
        ("s", Arc::new(StringArray::from(vec![Some("x"), o(7).then_some(st.as_str())]))),
        ("y", Arc::new(BinaryArray::from(vec![None, o(8).then_some(bi.as_slice())]))),
    ];
    cols.insert(choose(3) as usize, (MVCC_COMMIT_COL, Arc::new(UInt64Array::from(vec![1, 2]))));
    cols.insert(4, (MVCC_TOMBSTONE_COL, Arc::new(BooleanArray::from(vec![false, true]))));
    let s: SchemaRef = Arc::new(Schema::new(cols.iter().map(|c| Field::new(c.0, c.1.data_type().clone(), true)).collect::<Vec<_>>()));
    let rb = RecordBatch::try_new(s, cols.into_iter().map(|c| c.1).collect()).expect("batch");
    let r = row_from_batch(&rb, 1).expect("row").0;
    assert!(r.len() == 9, "one cell per user column");
    for (k, c) in r.iter().enumerate() {
        if !o(k) { assert!(c.is_none(), "a missing value became a value"); continue; }
        let same = match (k, c.as_ref().expect("a value is lost")) {
            (0, DynCell::Bool(x)) => *x == b, (1, DynCell::I32(x)) => *x == i, (2, DynCell::I64(x)) => *x == l, (3, DynCell::U32(x)) => *x == u, (4, DynCell::U64(x)) => *x == w,
            (5, DynCell::F32(x)) => x.to_bits() == f, (6, DynCell::F64(x)) => x.to_bits() == d, (7, DynCell::Str(x)) => *x == st, (8, DynCell::Bin(x)) => *x == bi,
            _ => false,
        };
        assert!(same, "a cell differs from the batch");
    }
    assert!(row_from_batch(&rb, 2).is_err(), "a row beyond the batch");
    cover(1);
}
fn key_names(c: &DynModeConfig) -> Vec<String> { c.extractor.key_schema().fields().iter().map(|f| f.name().clone()).collect() }
fn named(names: &[String]) -> SchemaRef { Arc::new(Schema::new(names.iter().map(|n| Field::new(n, DataType::Int64, false)).collect::<Vec<_>>())) }
/// A column name of arbitrary printable characters.
fn name(n: usize) -> String {
    let b = sym_bytes(n);
    let mut ok = true;
    for x in &b { ok &= (*x > 32) & (*x < 127); }
    assume(ok);
    String::from_utf8(b).expect("ascii")
}
fn distinct_names(v: &[String]) { for i in 0..v.len() { for j in i + 1..v.len() { assume(v[i] != v[j]); } } }
/// What the builder declares is what the configuration and, through the metadata, a later reader use.
fn declare(symbolic: bool) {
    let names = if symbolic { vec![name(1), name(3), name(1)] } else { vec!["a".to_string(), "b,\"".to_string(), "c".to_string()] };
    distinct_names(&names);
    let pick: [&[usize]; 5] = [&[0], &[1], &[2, 0], &[0, 2], &[1, 2]];
    let pick = pick[choose(5) as usize];
    let want: Vec<String> = pick.iter().map(|i| names[*i].clone()).collect();
    let b = SchemaBuilder::from_schema(named(&names));
    let b = if want.len() == 1 { b.primary_key(want[0].clone()) } else if flip() { b.composite_key(want.clone()) } else { let mut b = b.primary_key(want[0].clone()); for w in &want[1..] { b = b.add_key_part(w.clone()); } b };
    let c = b.with_metadata().build().expect("the columns exist");
    assert!(c.extractor.key_indices() == pick && key_names(&c) == want, "declared key columns");
    assert!(c.schema.fields() == named(&names).fields(), "columns changed");
    let again = match DynModeConfig::from_schema(c.schema()) { Ok(a) => a, Err(_) => panic!("the recorded key declaration cannot be read back") };
    assert!(again.extractor.key_indices() == pick && key_names(&again) == want, "the recorded key declaration names other columns");
    cover(1);
    if want.len() == 2 { cover(2); }
    if symbolic { return; }
    let d = crate::mode::table_definition(&again, "t");
    assert!(d.name == "t" && d.primary_key_columns == want && d.schema_fingerprint == crate::mode::fingerprint_schema(&again.schema()), "the table is registered under other columns");
    let whole = again.schema();
    let (s, ds, _, _) = again.build().expect("a table");
    assert!(s == whole && ds.fields().len() == pick.len() + 1 && pick.iter().enumerate().all(|(i, c)| ds.field(i) == s.field(*c)), "deletes name the key columns");
    assert!(ds.field(pick.len()).name()== MVCC_COMMIT_COL, "and their commit time");
}
/// Declarations by field markers: ordinals give the order, ambiguous markers are refused.
fn markers() {
    let vals: [&str; 8] = ["0", "1", "2", "10", "true", "YES", "no", " 1 "];
    let ord = [Some(0), Some(1), Some(2), Some(10), None, None, None, Some(1)];
    let truthy = [true, true, true, true, true, true, false, true];
    let n = 3;
    let m: Vec<Option<usize>> = (0..n).map(|_| { let x = choose(9) as usize; if x == 8 { None } else { Some(x) } }).collect();
    let schema_level = flip();
    let f: Vec<Field> = (0..n).map(|i| { let f = Field::new(format!("c{i}"), DataType::Int64, false); match m[i] { Some(x) => f.with_metadata(HashMap::from([("tonbo.key".to_string(), vals[x].to_string())])), None => f } }).collect();
    let md = if schema_level { HashMap::from([("tonbo.keys".to_string(), "[\"c2\", \"c0\"]".to_string())]) } else { HashMap::new() };
    let s: SchemaRef = Arc::new(Schema::new_with_metadata(f, md));
    let marked: Vec<(usize, Option<u32>)> = (0..n).filter_map(|i| m[i].filter(|x| truthy[*x]).map(|x| (i, ord[x]))).collect();
    let r = DynModeConfig::from_metadata(s);
    if marked.is_empty() {
        match r { Ok(c) => { assert!(schema_level && c.extractor.key_indices() == [2, 0], "schema level declaration"); cover(3); } Err(_) => assert!(!schema_level, "a declaration was refused") }
    } else if marked.len() == 1 {
        assert!(matches!(r, Ok(c) if c.extractor.key_indices() == [marked[0].0]), "the marked column is the key");
        cover(1);
    } else if marked.iter().any(|x| x.1.is_none()) {
        assert!(r.is_err(), "several markers without order were accepted");
        cover(4);
    } else {
        let mut w: Vec<(u32, usize)> = marked.iter().map(|x| (x.1.unwrap_or(0), x.0)).collect();
        w.sort();
        if w.windows(2).any(|p| p[0].0 == p[1].0) { return; } // equal ordinals: no order declared
        let w: Vec<usize> = w.into_iter().map(|x| x.1).collect();
        assert!(matches!(r, Ok(c) if c.extractor.key_indices() == w.as_slice()), "the key columns must follow their ordinals");
        cover(2);
    }
}
/// Declarations naming absent columns or unsupported types are refused by every route.
fn refused() {
    let names = vec![name(1), name(1)];
    distinct_names(&names);
    let q = name(1);
    let s = named(&names);
    let at = names.iter().position(|n| *n == q);
    match (SchemaBuilder::from_schema(s.clone()).primary_key(q.clone()).build(), at) { (Ok(c), Some(i)) => { assert!(c.extractor.key_indices() == [i]); cover(1); } (Err(KeyExtractError::NoSuchField { .. }), None) => cover(2), _ => panic!("a key column must exist") }
    assert!(matches!((DynModeConfig::from_key_name(s.clone(), &q), at), (Ok(_), Some(_)) | (Err(KeyExtractError::NoSuchField { .. }), None)), "by name");
    let i = sym_u64() as usize;
    let i = if i < 2 { i } else { assume(i == 2); i };
    assert!(DynModeConfig::from_key_col(s.clone(), i).is_ok() == (i < 2), "by position");
    assert!(SchemaBuilder::from_schema(s).build().is_err(), "a table needs a key");
    let odd = [DataType::Int8, DataType::Date32, DataType::List(Arc::new(Field::new("x", DataType::Int64, true))), DataType::Utf8View][choose(4) as usize].clone();
    let s: SchemaRef = Arc::new(Schema::new(vec![Field::new("a", DataType::Int64, false), Field::new("b", odd, false)]));
    assert!(matches!(SchemaBuilder::from_schema(s.clone()).composite_key(["a", "b"]).build(), Err(KeyExtractError::UnsupportedType { col: 1, .. })), "unsupported key type");
    assert!(SchemaBuilder::from_schema(s).primary_key("a").build().is_ok(), "the type matters for key columns only");
}
/// Two table definitions count as compatible exactly when their columns and metadata are the same.
fn fingerprint() {
    let shape = || {
        let d = [choose(2), choose(3), choose(2), choose(2), choose(3)];
        let f = |i: u64| {
            let n = if d[0] == i { "a" } else { "b" };
            let t = match d[1] { 0 => DataType::Int64, 1 => DataType::Utf8, _ => DataType::Int32 };
            if i == 0 { Field::new(n, t, d[2] == 1) } else { Field::new(n, DataType::Int64, false).with_metadata(if d[3] == 1 { HashMap::from([("k".to_string(), "1".to_string())]) } else { HashMap::new() }) }
        };
        let md = match d[4] { 0 => vec![("x", "1"), ("y", "2"), ("z", "3")], 1 => vec![("z", "3"), ("y", "2"), ("x", "1")], _ => vec![("x", "2"), ("y", "1"), ("z", "3")] };
        let s: SchemaRef = Arc::new(Schema::new_with_metadata(vec![f(0), f(1)], md.into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()));
        s
    };
    let (a, b) = (shape(), shape());
    let (x, y) = (crate::mode::fingerprint_schema(&a), crate::mode::fingerprint_schema(&b));
    assert!((x == y) == (a == b), "fingerprints are equal exactly for equal schemas");
    if a == b { cover(1); } else { cover(2); }
}
crate::harness! {
    vh_fingerprint => fingerprint();
    vh_project_num => project(0..5);
    vh_project_bytes => project(5..10);
    vh_project_float => project(10..12);
    vh_project_composite => project_composite();
    vh_project_null => project_null();
    vh_batch_shapes => shapes();
    vh_batch_row => row();
    vh_declare => declare(true);
    vh_declare_table => declare(false);
    vh_markers => markers();
    vh_declare_refused => refused();
}
