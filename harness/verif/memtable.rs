//! Multi-version visibility of the in-memory tables.
use std::ops::Bound;
use super::{prelude::*, util_data::*};
use arrow_array::{Array, Int32Array, Int64Array, RecordBatch, StringArray, UInt64Array};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use typed_arrow_dyn::DynCell;
use crate::extractor::{projection_for_columns, projection_for_field};
use crate::{inmem::{immutable::memtable::{ImmutableMemTable, ImmutableVisibleEntry}, mutable::memtable::{DynMem, DynRowScanEntry}}, key::KeyOwned};

/// One write as the model sees it.
#[derive(Clone, Copy)]
pub(crate) struct Op { key: i64, ts: u64, val: i32, del: bool }
/// One scan result.
#[derive(Clone, Copy)]
pub(crate) struct Out { key: i64, ts: u64, val: i32, del: bool }

fn apply(m: &DynMem, o: &Op) -> Option<ImmutableMemTable> {
    if o.del { m.insert_delete_batch(delete_batch(vec![o.key], vec![o.ts])).expect("delete accepted") }
    else { m.insert_batch(batch(&schema(), vec![o.key], vec![o.val]), ts(o.ts)).expect("insert accepted") }
}
fn scan_mut(m: &DynMem, read: u64, b: Option<(Bound<KeyOwned>, Bound<KeyOwned>)>) -> Vec<Out> {
    let g = m.read();
    let it = match b { None => g.scan_visible(None, ts(read)), Some((s, e)) => g.scan_visible_in_range(None, ts(read), s, e) }.expect("scan");
    let mut v = Vec::new();
    for e in it {
        match e.expect("row") {
            DynRowScanEntry::Row(k, r) => { let (id, x) = row_kv(r); let key = key_i64(k.key()); assert!(id == key); v.push(Out { key, ts: k.timestamp().get(), val: x, del: false }) }
            DynRowScanEntry::Tombstone(k) => v.push(Out { key: key_i64(k.key()), ts: k.timestamp().get(), val: 0, del: true }),
        }
    }
    v
}
fn scan_imm(m: &ImmutableMemTable, read: u64, b: Option<(Bound<KeyOwned>, Bound<KeyOwned>)>) -> Vec<Out> {
    let it = match b { None => m.scan_visible(None, ts(read)), Some((s, e)) => m.scan_visible_in_range(None, ts(read), s, e) }.expect("scan");
    let mut v = Vec::new();
    for e in it {
        match e.expect("row") {
            ImmutableVisibleEntry::Row(k, r) => { let (id, x) = row_kv(r); let key = key_i64(k.key()); assert!(id == key); v.push(Out { key, ts: k.timestamp().get(), val: x, del: false }) }
            ImmutableVisibleEntry::Tombstone(k) => v.push(Out { key: key_i64(k.key()), ts: k.timestamp().get(), val: 0, del: true }),
        }
    }
    v
}
/// The scan must be exactly: per key with a version at or below `read` (inside the range), the newest such
/// version, keys strictly ascending.  `ops` is in application order: a later write of the same (key, ts) replaces.
fn check_scan(ops: &[Op], out: &[Out], read: u64, inside: &dyn Fn(i64) -> bool) {
    for w in out.windows(2) { assert!(w[0].key < w[1].key, "keys must be strictly ascending"); }
    for o in out {
        let mut good = inside(o.key) & (o.ts <= read);
        let mut found = false;
        for (i, p) in ops.iter().enumerate() {
            let same = (p.key == o.key) & (p.ts == o.ts);
            let mut last = same;
            for q in &ops[i + 1..] { last &= !((q.key == p.key) & (q.ts == p.ts)); }
            let fits = (p.del == o.del) & (p.del | (p.val == o.val));
            good &= !last | fits;
            found |= last;
            good &= !((p.key == o.key) & (p.ts <= read) & (p.ts > o.ts));
        }
        assert!(good & found, "scan returned something other than the newest visible version");
    }
    for p in ops {
        let want = inside(p.key) & (p.ts <= read);
        let mut have = false;
        for o in out { have |= o.key == p.key; }
        assert!(!want | have, "a visible version is missing from the scan");
    }
}
fn some_ops(n: usize) -> Vec<Op> {
    let mut v = Vec::new();
    for _ in 0..n {
        let del = flip();
        let o = Op { key: sym_i64(), ts: sym_u64(), val: sym_i32(), del };
        v.push(o);
    }
    v
}
fn distinct_versions(ops: &[Op]) {
    for i in 0..ops.len() { for j in i + 1..ops.len() { assume((ops[i].key != ops[j].key) | (ops[i].ts != ops[j].ts)); } }
}
/// Arbitrary history of `n` single-row writes; scan at an arbitrary snapshot.
fn vis(n: usize) {
    let ops = some_ops(n);
    distinct_versions(&ops);
    let m = mem(8);
    for o in &ops { assert!(apply(&m, o).is_none()); }
    let read = sym_u64();
    let out = scan_mut(&m, read, None);
    check_scan(&ops, &out, read, &|_| true);
    if out.is_empty() { cover(1); }
    if out.len() == n { cover(2); }
    if out.iter().any(|o| o.del) { cover(3); }
}
/// Two rows arriving in one batch plus a two-key delete batch.
fn vis_batch() {
    let (k1, k2, k3, k4) = (sym_i64(), sym_i64(), sym_i64(), sym_i64());
    let (t1, t2) = (sym_u64(), sym_u64());
    let t3 = if flip() { t2 } else { sym_u64() };
    let (v1, v2) = (sym_i32(), sym_i32());
    let dels_first = flip();
    let m = mem(4);
    let ups = [Op { key: k1, ts: t1, val: v1, del: false }, Op { key: k2, ts: t1, val: v2, del: false }];
    let dels = [Op { key: k3, ts: t2, val: 0, del: true }, Op { key: k4, ts: t3, val: 0, del: true }];
    assume((t1 != t2) & (t1 != t3));
    let up = || assert!(m.insert_batch(batch(&schema(), vec![k1, k2], vec![v1, v2]), ts(t1)).expect("insert").is_none());
    let de = || assert!(m.insert_delete_batch(delete_batch(vec![k3, k4], vec![t2, t3])).expect("delete").is_none());
    let mut ops = vec![];
    if dels_first { de(); up(); ops.extend(dels); ops.extend(ups); } else { up(); de(); ops.extend(ups); ops.extend(dels); }
    let read = sym_u64();
    let out = scan_mut(&m, read, None);
    check_scan(&ops, &out, read, &|_| true);
    if out.len() == 4 { cover(1); }
    if out.len() == 1 { cover(2); }
}
fn any_bound(probe: i64, kind: u64) -> Bound<KeyOwned> {
    match kind { 0 => Bound::Included(KeyOwned::from(probe)), 1 => Bound::Excluded(KeyOwned::from(probe)), _ => Bound::Unbounded }
}
/// Range scan equals the full scan restricted to the range, mutable and sealed.
fn range(n: usize, sealed: bool) {
    let ops = some_ops(n);
    distinct_versions(&ops);
    let m = mem(8);
    for o in &ops { assert!(apply(&m, o).is_none()); }
    let (lo, hi, lk, hk) = (sym_i64(), sym_i64(), choose(3), choose(3));
    assume((lo < hi) | ((lo == hi) & (lk == 0) & (hk == 0)) | (lk == 2) | (hk == 2));
    let inside = |k: i64| {
        let a = match lk { 0 => k >= lo, 1 => k > lo, _ => true };
        let b = match hk { 0 => k <= hi, 1 => k < hi, _ => true };
        a & b
    };
    let read = sym_u64();
    let b = Some((any_bound(lo, lk), any_bound(hi, hk)));
    let out = if sealed { let s = m.seal_now().expect("seal").expect("nonempty"); scan_imm(&s, read, b) } else { scan_mut(&m, read, b) };
    check_scan(&ops, &out, read, &inside);
    if out.is_empty() { cover(1); }
    if out.len() == n { cover(2); }
    if (out.len() == 1) & (lk == 1) & (hk == 1) { cover(3); }
}
/// Sealing keeps every version: visibility, bounds, version enumeration and conflicts are unchanged.
fn sealed(n: usize) {
    let ops = some_ops(n);
    distinct_versions(&ops);
    let m = mem(8);
    for o in &ops { assert!(apply(&m, o).is_none()); }
    assert!(m.row_count() == n);
    let s = m.seal_now().expect("seal").expect("a table with versions seals to something");
    assert!(m.row_count() == 0);
    assert!(scan_mut(&m, u64::MAX, None).is_empty(), "sealed rows must leave the active table");
    let read = sym_u64();
    let out = scan_imm(&s, read, None);
    check_scan(&ops, &out, read, &|_| true);
    assert!(s.entry_count() == n);
    if out.is_empty() { cover(1); }
    if out.len() == n { cover(2); }
    if out.iter().any(|o| o.del) { cover(3); }
}
/// Every version is enumerated exactly once after sealing, in (key asc, newest first) order, and the
/// columnar form that gets flushed carries the same rows.
fn sealed_versions(n: usize) {
    let ops = some_ops(n);
    distinct_versions(&ops);
    let m = mem(8);
    for o in &ops { apply(&m, o); }
    let (lo, hi) = m.key_bounds();
    let tb = m.commit_ts_bounds().expect("bounds of a nonempty table");
    let s = m.seal_now().expect("seal").expect("some");
    let rows: Vec<_> = s.row_iter().map(|e| (key_owned_i64(&e.key), e.commit_ts.get(), e.tombstone)).collect();
    assert!(rows.len() == n);
    for w in rows.windows(2) { assert!((w[0].0 < w[1].0) | ((w[0].0 == w[1].0) & (w[0].1 > w[1].1)), "version order"); }
    for p in &ops {
        let mut hit = false;
        for r in &rows { hit |= (r.0 == p.key) & (r.1 == p.ts) & (r.2 == p.del); }
        assert!(hit, "a version was lost or changed by sealing");
    }
    let (lo, hi) = (key_owned_i64(&lo.expect("min")), key_owned_i64(&hi.expect("max")));
    assert!(s.commit_ts_bounds() == Some(tb), "timestamp bounds of the sealed table differ from those of the active one");
    let (slo, shi) = (key_owned_i64(&s.min_key().expect("min")), key_owned_i64(&s.max_key().expect("max")));
    let mut c = (lo == slo) & (hi == shi);
    let (mut el, mut eh, mut tl, mut th) = (false, false, false, false);
    for p in &ops {
        c &= (lo <= p.key) & (p.key <= hi) & (tb.0.get() <= p.ts) & (p.ts <= tb.1.get());
        el |= p.key == lo; eh |= p.key == hi; tl |= tb.0.get() == p.ts; th |= tb.1.get() == p.ts;
    }
    assert!(c & el & eh & tl & th, "key or timestamp bounds wrong");
    // columnar payload, in key order and newest first within a key
    let ups = ops.iter().filter(|o| !o.del).count();
    let b = s.storage();
    assert!(b.num_rows() == ups);
    let mv = s.mvcc_columns();
    assert!(mv.commit_ts.len() == ups);
    let ids = b.column(0).as_any().downcast_ref::<arrow_array::Int64Array>().expect("ids");
    let vs = b.column(1).as_any().downcast_ref::<arrow_array::Int32Array>().expect("vs");
    for r in 1..ups { assert!((ids.value(r - 1) < ids.value(r)) | ((ids.value(r - 1) == ids.value(r)) & (mv.commit_ts[r - 1] > mv.commit_ts[r])), "flushed rows out of order"); }
    for p in ops.iter().filter(|o| !o.del) {
        let mut hit = false;
        for r in 0..ups { hit |= (ids.value(r) == p.key) & (vs.value(r) == p.val) & (mv.commit_ts[r].get() == p.ts); }
        assert!(hit, "flushed columns lost a row");
    }
    let d = s.delete_sidecar();
    assert!(d.len() == n - ups);
    let db = d.to_record_batch().expect("delete batch");
    if d.len() > 0 {
        let ids = db.column(0).as_any().downcast_ref::<arrow_array::Int64Array>().expect("ids");
        let ct = db.column(1).as_any().downcast_ref::<arrow_array::UInt64Array>().expect("ts");
        for r in 1..d.len() { assert!((ids.value(r - 1) < ids.value(r)) | ((ids.value(r - 1) == ids.value(r)) & (ct.value(r - 1) > ct.value(r))), "flushed deletes out of order"); }
        for p in ops.iter().filter(|o| o.del) {
            let mut hit = false;
            for r in 0..d.len() { hit |= (ids.value(r) == p.key) & (ct.value(r) == p.ts); }
            assert!(hit, "flushed columns lost a delete");
        }
        cover(1);
    }
    if ups == n { cover(2); }
}
/// Conflict detection agrees with the history, before and after sealing.
fn conflict(n: usize) {
    let ops = some_ops(n);
    distinct_versions(&ops);
    let m = mem(8);
    for o in &ops { apply(&m, o); }
    let (probe, snap) = (sym_i64(), sym_u64());
    let k = KeyOwned::from(probe);
    let mut want = false;
    for p in &ops { want |= (p.key == probe) & (p.ts > snap); }
    let got = m.has_conflict(&k, ts(snap));
    assert!(got == want, "conflict detection on the active table disagrees with the history");
    let s = m.seal_now().expect("seal").expect("some");
    assert!(s.has_conflict(&k, ts(snap)) == want, "conflict detection on a sealed table disagrees with the history");
    assert!(!m.has_conflict(&k, ts(snap)));
    if got { cover(1); } else { cover(2); }
}
/// A full table seals itself: nothing is lost or duplicated between what was sealed and what stays active.
fn autoseal(n: usize) {
    let ops = some_ops(n);
    distinct_versions(&ops);
    let cap = 1 + choose(2) as usize;
    let m = mem(cap);
    let mut seals: Vec<ImmutableMemTable> = vec![];
    for o in &ops { if let Some(s) = apply(&m, o) { seals.push(s); } }
    let mut all: Vec<(i64, u64, bool)> = vec![];
    for s in &seals { assert!(s.entry_count() > 0); for e in s.row_iter() { all.push((key_owned_i64(&e.key), e.commit_ts.get(), e.tombstone)); } }
    assert!(all.len() + m.row_count() == n, "versions lost or duplicated by automatic sealing");
    if !seals.is_empty() { cover(1); }
    if let Some(s) = m.seal_now().expect("seal") { for e in s.row_iter() { all.push((key_owned_i64(&e.key), e.commit_ts.get(), e.tombstone)); } }
    for p in &ops {
        let (mut hit, mut twice) = (false, false);
        for r in &all { let h = (r.0 == p.key) & (r.1 == p.ts) & (r.2 == p.del); twice |= hit & h; hit |= h; }
        assert!(hit & !twice, "a version must be in exactly one place");
    }
    if seals.is_empty() { cover(2); }
}
/// A rejected or empty batch never makes later valid writes fail.
fn reject() {
    let m = mem(1 + choose(2) as usize);
    let n = 3;
    let mut good: Vec<Op> = vec![];
    let mut seen: Vec<(i64, u64)> = vec![];
    let mut t = 1u64;
    for _ in 0..n {
        match choose(4) {
            0 => { let s = m.insert_batch(batch(&schema(), vec![], vec![]), ts(t)).expect("an empty batch is accepted"); drain(s, &mut seen); }
            1 => {
                let bad = arrow_array::RecordBatch::try_new(key_schema(), vec![std::sync::Arc::new(arrow_array::Int64Array::from(vec![1i64]))]).expect("batch");
                assert!(m.insert_batch(bad, ts(t)).is_err(), "a batch of another schema is refused");
            }
            k => {
                let o = Op { key: sym_i64(), ts: t, val: sym_i32(), del: k == 3 };
                let s = apply(&m, &o);
                drain(s, &mut seen);
                good.push(o);
            }
        }
        t += 1;
    }
    let s = m.seal_now().expect("seal");
    drain(s, &mut seen);
    assert!(seen.len() == good.len());
    for o in &good { let mut h = false; for r in &seen { h |= (r.0 == o.key) & (r.1 == o.ts); } assert!(h); }
    cover(1);
}
fn drain(s: Option<ImmutableMemTable>, seen: &mut Vec<(i64, u64)>) { if let Some(s) = s { for e in s.row_iter() { seen.push((key_owned_i64(&e.key), e.commit_ts.get())); } } }

/// Rejected batches (another schema, or a null in a key column) on a table that may be full leave
/// everything already written where it was and do not stand in the way of later writes.
fn reject_null() {
    let s = nullable_schema();
    let ks: SchemaRef = std::sync::Arc::new(Schema::new(vec![Field::new("id", DataType::Int64, true)]));
    let ex: std::sync::Arc<dyn crate::extractor::KeyProjection> = projection_for_field(s.clone(), 0).expect("extractor").into();
    let dp: std::sync::Arc<dyn crate::extractor::KeyProjection> = projection_for_columns(ks, vec![0]).expect("delete projection").into();
    let m = DynMem::with_capacity(s.clone(), ex, dp, 1 + choose(2) as usize);
    let mut good: Vec<Op> = vec![];
    let mut seen: Vec<(i64, u64)> = vec![];
    let mut refused = false;
    for t in 1..4u64 {
        let (key, val) = (sym_i64(), sym_i32());
        match choose(4) {
            0 => { drain(m.insert_batch(nullable_batch(&s, vec![Some(key)], vec![val]), ts(t)).expect("accepted"), &mut seen); good.push(Op { key, ts: t, val, del: false }); }
            1 => { drain(m.insert_delete_batch(nullable_delete(vec![Some(key)], vec![t])).expect("accepted"), &mut seen); good.push(Op { key, ts: t, val, del: true }); }
            2 => { assert!(m.insert_batch(nullable_batch(&s, vec![Some(key), None], vec![val, val]), ts(t)).is_err(), "a null key is refused"); refused = true; }
            _ => { assert!(m.insert_delete_batch(nullable_delete(vec![Some(key), None], vec![t, t])).is_err(), "a null key is refused"); refused = true; }
        }
    }
    drain(m.seal_now().expect("seal"), &mut seen);
    assert!(seen.len() == good.len(), "rows lost, or rows of a refused batch kept");
    for o in &good { let mut h = false; for r in &seen { h |= (r.0 == o.key) & (r.1 == o.ts); } assert!(h, "a row accepted earlier was lost"); }
    if refused & (good.len() == 2) { cover(1); }
    if good.is_empty() { cover(2); }
}
fn nullable_schema() -> SchemaRef { std::sync::Arc::new(Schema::new(vec![Field::new("id", DataType::Int64, true), Field::new("v", DataType::Int32, true)])) }
fn nullable_batch(s: &SchemaRef, keys: Vec<Option<i64>>, vals: Vec<i32>) -> RecordBatch {
    RecordBatch::try_new(s.clone(), vec![std::sync::Arc::new(Int64Array::from(keys)), std::sync::Arc::new(Int32Array::from(vals))]).expect("batch")
}
fn nullable_delete(keys: Vec<Option<i64>>, t: Vec<u64>) -> RecordBatch {
    let s: SchemaRef = std::sync::Arc::new(Schema::new(vec![Field::new("id", DataType::Int64, true), Field::new(crate::mvcc::MVCC_COMMIT_COL, DataType::UInt64, false)]));
    RecordBatch::try_new(s, vec![std::sync::Arc::new(Int64Array::from(keys)), std::sync::Arc::new(UInt64Array::from(t))]).expect("batch")
}
/// A batch that carries its own commit timestamps, one per row.
fn per_row_ts(n: usize, seal: bool) {
    let m = mem(4);
    let mut ops = vec![];
    for _ in 0..n { ops.push(Op { key: sym_i64(), ts: sym_u64(), val: sym_i32(), del: false }); }
    let keys = ops.iter().map(|o| o.key).collect();
    let vals = ops.iter().map(|o| o.val).collect();
    let t: Vec<u64> = ops.iter().map(|o| o.ts).collect();
    assert!(m.insert_batch_with_mvcc(batch(&schema(), keys, vals), UInt64Array::from(t)).expect("insert").is_none());
    let read = sym_u64();
    let out = if seal { let s = m.seal_now().expect("seal").expect("some"); scan_imm(&s, read, None) } else { scan_mut(&m, read, None) };
    check_scan(&ops, &out, read, &|_| true);
    if out.len() == 1 { cover(1); }
    if out.len() == n { cover(2); }
}
/// A later row of the same key and timestamp replaces the earlier one, before and after sealing.
fn rewrite_sealed() {
    let (k1, k2, t, v1, v2, v3, k3) = (sym_i64(), sym_i64(), sym_u64(), sym_i32(), sym_i32(), sym_i32(), sym_i64());
    let m = mem(4);
    assert!(m.insert_batch(batch(&schema(), vec![k1, k2], vec![v1, v2]), ts(t)).expect("insert").is_none());
    assert!(m.insert_batch(batch(&schema(), vec![k3], vec![v3]), ts(t)).expect("insert").is_none());
    let ops = [Op { key: k1, ts: t, val: v1, del: false }, Op { key: k2, ts: t, val: v2, del: false }, Op { key: k3, ts: t, val: v3, del: false }];
    let s = m.seal_now().expect("seal").expect("some");
    let out = scan_imm(&s, t, None);
    check_scan(&ops, &out, t, &|_| true);
    assert!((s.entry_count() == out.len()) & (s.storage().num_rows() == out.len()), "replaced rows must not be flushed");
    if out.len() == 1 { cover(1); }
    if out.len() == 3 { cover(2); }
}
/// One write to a table whose key is made of two columns in another order than the schema's.
#[derive(Clone, Copy)]
struct WideOp { key: (i64, i32), ts: u64, v: Option<i32>, s: u8, del: bool }
fn wide_schema() -> SchemaRef {
    std::sync::Arc::new(Schema::new(vec![Field::new("v", DataType::Int32, true), Field::new("b", DataType::Int32, false), Field::new("s", DataType::Utf8, false), Field::new("a", DataType::Int64, false)]))
}
fn wide_mem() -> DynMem {
    let s = wide_schema();
    let ex: std::sync::Arc<dyn crate::extractor::KeyProjection> = projection_for_columns(s.clone(), vec![3, 1]).expect("extractor").into();
    let dp: std::sync::Arc<dyn crate::extractor::KeyProjection> = projection_for_columns(ex.key_schema(), vec![0, 1]).expect("delete projection").into();
    DynMem::with_capacity(s, ex, dp, 4)
}
fn wide_apply(m: &DynMem, o: &WideOp) {
    if o.del {
        let s: SchemaRef = std::sync::Arc::new(Schema::new(vec![Field::new("a", DataType::Int64, false), Field::new("b", DataType::Int32, false), Field::new(crate::mvcc::MVCC_COMMIT_COL, DataType::UInt64, false)]));
        let b = RecordBatch::try_new(s, vec![std::sync::Arc::new(Int64Array::from(vec![o.key.0])), std::sync::Arc::new(Int32Array::from(vec![o.key.1])), std::sync::Arc::new(UInt64Array::from(vec![o.ts]))]).expect("batch");
        assert!(m.insert_delete_batch(b).expect("delete").is_none());
    } else {
        let text = String::from_utf8(vec![o.s]).expect("ascii");
        let b = RecordBatch::try_new(wide_schema(), vec![std::sync::Arc::new(Int32Array::from(vec![o.v])), std::sync::Arc::new(Int32Array::from(vec![o.key.1])), std::sync::Arc::new(StringArray::from(vec![text])), std::sync::Arc::new(Int64Array::from(vec![o.key.0]))]).expect("batch");
        assert!(m.insert_batch(b, ts(o.ts)).expect("insert").is_none());
    }
}
type WideOut = ((i64, i32), u64, Option<Vec<Option<DynCell>>>);
fn wide_key(k: &crate::key::KeyRow) -> (i64, i32) {
    let o = k.to_owned();
    assert!(o.len() == 2);
    (i64_of(o.as_row().cells().first()), i32_of(o.as_row().cells().get(1)))
}
/// Composite keys, null and text values, and every projection of interest.
fn wide(n: usize, seal: bool) {
    let mut ops: Vec<WideOp> = vec![];
    for _ in 0..n {
        let (del, null) = (flip(), flip());
        let (v, s) = (sym_i32(), sym_u8());
        assume(s < 0x80);
        ops.push(WideOp { key: (sym_i64(), sym_i32()), ts: sym_u64(), v: if null { None } else { Some(v) }, s, del });
    }
    for i in 0..n { for j in i + 1..n { assume((ops[i].key.0 != ops[j].key.0) | (ops[i].key.1 != ops[j].key.1) | (ops[i].ts != ops[j].ts)); } }
    let read = sym_u64();
    let full = wide_schema();
    let pick: Vec<usize> = match choose(4) { 0 => vec![0, 1, 2, 3], 1 => vec![2, 0], 2 => vec![3, 2], _ => vec![0] };
    let proj: Option<SchemaRef> = if pick.len() == 4 { None } else { Some(std::sync::Arc::new(Schema::new(pick.iter().map(|i| full.field(*i).clone()).collect::<Vec<_>>()))) };
    let m = wide_mem();
    for o in &ops { wide_apply(&m, o); }
    let mut out: Vec<WideOut> = vec![];
    if seal {
        let s = m.seal_now().expect("seal").expect("some");
        for e in s.scan_visible(proj, ts(read)).expect("scan") {
            match e.expect("row") {
                ImmutableVisibleEntry::Row(k, r) => out.push((wide_key(k.key()), k.timestamp().get(), Some(r.into_owned().expect("row").0))),
                ImmutableVisibleEntry::Tombstone(k) => out.push((wide_key(k.key()), k.timestamp().get(), None)),
            }
        }
    } else {
        let g = m.read();
        for e in g.scan_visible(proj, ts(read)).expect("scan") {
            match e.expect("row") {
                DynRowScanEntry::Row(k, r) => out.push((wide_key(k.key()), k.timestamp().get(), Some(r.into_owned().expect("row").0))),
                DynRowScanEntry::Tombstone(k) => out.push((wide_key(k.key()), k.timestamp().get(), None)),
            }
        }
    }
    for w in out.windows(2) { let (x, y) = (w[0].0, w[1].0); assert!((x.0 < y.0) | ((x.0 == y.0) & (x.1 < y.1)), "keys must be strictly ascending"); }
    for o in &out {
        let (mut hit, mut newest) = (false, o.1 <= read);
        for p in &ops {
            let samekey = (p.key.0 == o.0.0) & (p.key.1 == o.0.1);
            newest &= !(samekey & (p.ts <= read) & (p.ts > o.1));
            let mut same = samekey & (p.ts == o.1) & (p.del == o.2.is_none());
            if let (Some(cells), false) = (&o.2, p.del) {
                assert!(cells.len() == pick.len());
                for (c, i) in cells.iter().zip(&pick) {
                    same &= match (*i, c) {
                        (0, None) => p.v.is_none(),
                        (0, Some(DynCell::I32(x))) => p.v.is_some() & (p.v.unwrap_or(0) == *x),
                        (1, Some(DynCell::I32(x))) => *x == p.key.1,
                        (2, Some(DynCell::Str(x))) => (x.len() == 1) & (x.as_bytes().first().copied() == Some(p.s)),
                        (3, Some(DynCell::I64(x))) => *x == p.key.0,
                        _ => false,
                    };
                }
            }
            hit |= same;
        }
        assert!(hit & newest, "scan returned something other than the newest visible version");
    }
    for p in &ops {
        let mut have = false;
        for o in &out { have |= (o.0.0 == p.key.0) & (o.0.1 == p.key.1); }
        assert!((p.ts > read) | have, "a visible version is missing from the scan");
    }
    if out.len() == n { cover(1); }
    if out.len() == 1 { cover(2); }
}

/// A large table: more rows than any batch or capacity default, in one batch or two, with rewrites and deletes of
/// some of them; read through the active and through the sealed table, whole and in a range.
fn big() {
    let n = 1100i64;
    let m = mem(8);
    let keys: Vec<i64> = (0..n).map(|i| if i % 2 == 0 { i } else { -i }).collect(); // not in key order
    let vals: Vec<i32> = (0..n as i32).collect();
    if flip() { assert!(m.insert_batch(batch(&schema(), keys.clone(), vals), ts(5)).expect("insert").is_none()); }
    else {
        assert!(m.insert_batch(batch(&schema(), keys[..1024].to_vec(), vals[..1024].to_vec()), ts(5)).expect("insert").is_none());
        assert!(m.insert_batch(batch(&schema(), keys[1024..].to_vec(), vals[1024..].to_vec()), ts(5)).expect("insert").is_none());
    }
    let gone: Vec<i64> = (0..n).filter(|i| i % 50 == 0).collect();
    assert!(m.insert_delete_batch(delete_batch(gone.clone(), vec![9; gone.len()])).expect("delete").is_none());
    let again: Vec<i64> = (0..n).filter(|i| i % 100 == 0).collect();
    let x = sym_i32();
    assert!(m.insert_batch(batch(&schema(), again.clone(), vec![x; again.len()]), ts(12)).expect("insert").is_none());
    let read = [4u64, 5, 9, 12, u64::MAX][choose(5) as usize];
    let range = if flip() { Some((-1000i64, 1000i64)) } else { None };
    let inside = |k: i64| range.is_none_or(|(a, b)| a <= k && k < b);
    let b = || range.map(|(a, b)| (Bound::Included(KeyOwned::from(a)), Bound::Excluded(KeyOwned::from(b))));
    let mut want = std::collections::BTreeMap::new();
    for i in 0..n {
        let k = keys[i as usize];
        if !inside(k) { continue; }
        if read >= 5 { want.insert(k, Out { key: k, ts: 5, val: i as i32, del: false }); }
        if read >= 9 && k >= 0 && k % 50 == 0 { want.insert(k, Out { key: k, ts: 9, val: 0, del: true }); }
        if read >= 12 && k >= 0 && k % 100 == 0 { want.insert(k, Out { key: k, ts: 12, val: x, del: false }); }
    }
    let check = |got: Vec<Out>| {
        assert!(got.len() == want.len(), "a large table shows another number of keys");
        for (g, w) in got.iter().zip(want.values()) { assert!(g.key == w.key && g.ts == w.ts && g.del == w.del && (g.del || g.val == w.val), "a large table shows another version"); }
    };
    check(scan_mut(&m, read, b()));
    let s = m.seal_now().expect("seal").expect("sealed");
    check(scan_imm(&s, read, b()));
    cover(if want.is_empty() { 2 } else { 1 });
}
crate::harness! {
    vh_mem_big => big();
    vh_mem_visible2 => vis(2);
    vh_mem_visible3 => vis(3);
    vh_mem_visible4 => vis(4);
    vh_mem_batches => vis_batch();
    vh_mem_range2 => range(2, false);
    vh_mem_range3 => range(3, false);
    vh_imm_range2 => range(2, true);
    vh_imm_range3 => range(3, true);
    vh_imm_visible2 => sealed(2);
    vh_imm_visible3 => sealed(3);
    vh_imm_visible4 => sealed(4);
    vh_imm_versions2 => sealed_versions(2);
    vh_imm_versions3 => sealed_versions(3);
    vh_conflict2 => conflict(2);
    vh_conflict3 => conflict(3);
    vh_autoseal3 => autoseal(3);
    vh_autoseal4 => autoseal(4);
    vh_reject => reject();
    vh_reject_null => reject_null();
    vh_mem_rowts2 => per_row_ts(2, false);
    vh_mem_rowts3 => per_row_ts(3, false);
    vh_imm_rowts2 => per_row_ts(2, true);
    vh_imm_rowts3 => per_row_ts(3, true);
    vh_imm_rewrite => rewrite_sealed();
    vh_mem_wide => wide(2, false);
    vh_imm_wide => wide(2, true);
}
