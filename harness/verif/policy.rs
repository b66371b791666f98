//! When the active table is sealed: the built-in policies over all statistics, and the statistics themselves.
use std::{sync::Arc, time::Duration};
use super::{prelude::*, util_data::*};
use arrow_array::{ArrayRef, BinaryArray, RecordBatch, StringArray};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use crate::{extractor::{KeyProjection, projection_for_columns}, inmem::{mutable::memtable::DynMem, policy::*}, mvcc::MVCC_COMMIT_COL};

fn stats() -> MemStats {
    MemStats {
        entries: sym_u32() as usize, inserts: sym_u64(), replaces: sym_u64(),
        approx_key_bytes: { let v = sym_u64(); assume(v < 1 << 62); v as usize }, entry_overhead: sym_u16() as usize,
        typed_open_rows: if flip() { Some(sym_u64() as usize) } else { None },
        dyn_batches: if flip() { Some(sym_u64() as usize) } else { None },
        dyn_approx_batch_bytes: None,
        since_last_seal: if flip() { let s = sym_u64(); assume(s < 1 << 40); Some(Duration::new(s, below(1_000_000_000) as u32)) } else { None },
    }
}
fn seals(d: SealDecision) -> bool { matches!(d, SealDecision::Seal(_)) }
fn each() {
    let s = stats();
    let limit = sym_u64() as usize;
    let used = s.approx_key_bytes + s.entries * s.entry_overhead;
    assert!(seals(BytesThreshold { limit }.evaluate(&s)) == (used >= limit));
    assert!(seals(OpenRowsThreshold { rows: limit }.evaluate(&s)) == s.typed_open_rows.is_some_and(|n| n >= limit));
    assert!(seals(BatchesThreshold { batches: limit }.evaluate(&s)) == s.dyn_batches.is_some_and(|n| n >= limit));
    let every = { let x = sym_u64(); assume(x < 1 << 40); Duration::new(x, below(1_000_000_000) as u32) };
    let due = TimeElapsedPolicy { min_interval: every }.evaluate(&s);
    let want = s.since_last_seal.is_some_and(|e| (e.as_secs() > every.as_secs()) | ((e.as_secs() == every.as_secs()) & (e.subsec_nanos() >= every.subsec_nanos())));
    assert!(seals(due) == want);
    assert!(!seals(NeverSeal.evaluate(&s)));
    cover(1);
}
fn any_of() {
    let s = stats();
    let (a, b) = (sym_u64() as usize, sym_u64() as usize);
    let p = AnyOf::new(vec![Arc::new(BytesThreshold { limit: a }), Arc::new(NeverSeal), Arc::new(BatchesThreshold { batches: b })]);
    let used = s.approx_key_bytes + s.entries * s.entry_overhead;
    let want = (used >= a) | s.dyn_batches.is_some_and(|n| n >= b);
    assert!(seals(p.evaluate(&s)) == want);
    assert!(!seals(AnyOf::new(vec![]).evaluate(&s)));
    if want { cover(1); } else { cover(2); }
}
fn default_limits() {
    let s = stats();
    let used = s.approx_key_bytes + s.entries * s.entry_overhead;
    let want = (used >= 64 << 20) | s.dyn_batches.is_some_and(|n| n >= 64) | s.typed_open_rows.is_some_and(|n| n >= 16_384) | s.since_last_seal.is_some_and(|d| d.as_secs() >= 30);
    assert!(seals(default_policy().evaluate(&s)) == want);
    if want { cover(1); } else { cover(2); }
}
/// Statistics describe the history of writes since the last seal.
fn counted(n: usize) {
    let m = mem(8);
    let mut keys: Vec<i64> = Vec::new();
    let (mut ups, mut dels) = (0, 0);
    let up = flip();
    for i in 0..n {
        // newer versions after older ones, or the other way round
        let (k, t, del) = ((sym_u8() & 7) as i64, if up { 1 + i as u64 } else { (n - i) as u64 }, flip());
        if del { dels += 1; assert!(m.insert_delete_batch(delete_batch(vec![k], vec![t])).expect("delete").is_none()); }
        else { ups += 1; assert!(m.insert_batch(batch(&schema(), vec![k], vec![1]), ts(t)).expect("insert").is_none()); }
        keys.push(k);
    }
    let mut distinct = 0u64;
    for i in 0..n { let mut first = true; for j in 0..i { first &= keys[i] != keys[j]; } if first { distinct += 1; } }
    let since = if flip() { Some(Duration::from_secs(7)) } else { None };
    let st = m.build_stats(since);
    assert!(st.entries as u64 == distinct, "distinct key count");
    assert!(st.inserts == n as u64);
    assert!(st.replaces == n as u64 - distinct);
    assert!(st.approx_key_bytes == 0, "fixed-width keys hold nothing beside the entry");
    assert!(st.dyn_batches == Some(ups + dels));
    assert!(st.since_last_seal == since);
    m.seal_now().expect("seal");
    let st = m.build_stats(None);
    assert!((st.entries == 0) & (st.inserts == 0) & (st.replaces == 0) & (st.approx_key_bytes == 0) & (st.dyn_batches == Some(0)), "statistics must start over after a seal");
    cover(1);
}
/// Key bytes: every distinct key counts once, with all its byte-string components; several rows per batch.
fn counted_bytes() {
    let s: SchemaRef = Arc::new(Schema::new(vec![Field::new("a", DataType::Binary, false), Field::new("n", DataType::Int64, false), Field::new("b", DataType::Utf8, false)]));
    let ds: SchemaRef = Arc::new(Schema::new(vec![Field::new("a", DataType::Binary, false), Field::new("b", DataType::Utf8, false), Field::new(MVCC_COMMIT_COL, DataType::UInt64, false)]));
    let ex: Arc<dyn KeyProjection> = projection_for_columns(s.clone(), vec![0, 2]).expect("extractor").into();
    let dp: Arc<dyn KeyProjection> = projection_for_columns(ds.clone(), vec![0, 1]).expect("delete projection").into();
    let m = DynMem::with_capacity(s.clone(), ex, dp, 8);
    let keys: Vec<(Vec<u8>, String)> = (0..3).map(|_| {
        let (a, b) = (sym_bytes(choose(2) as usize), sym_bytes(choose(3) as usize));
        let mut ok = true;
        for x in &b { ok &= *x < 128; }
        assume(ok);
        (a, String::from_utf8(b).expect("ascii"))
    }).collect();
    let cols = |r: std::ops::Range<usize>| -> (ArrayRef, ArrayRef) { (Arc::new(BinaryArray::from_iter_values(keys[r.clone()].iter().map(|k| &k.0))), Arc::new(StringArray::from_iter_values(keys[r].iter().map(|k| &k.1)))) };
    let (ups, dels) = if flip() { (0..2, 2..3) } else { (2..3, 0..2) };
    let n = ups.len();
    let (a, b) = cols(ups);
    assert!(m.insert_batch(RecordBatch::try_new(s, vec![a, Arc::new(arrow_array::Int64Array::from(vec![1; n])), b]).expect("batch"), ts(sym_u64() >> 1)).expect("insert").is_none());
    let n = dels.len();
    let (a, b) = cols(dels);
    assert!(m.insert_delete_batch(RecordBatch::try_new(ds, vec![a, b, Arc::new(arrow_array::UInt64Array::from(vec![u64::MAX; n]))]).expect("batch")).expect("delete").is_none());
    let (mut distinct, mut bytes) = (0u64, 0usize);
    for i in 0..3 {
        let mut first = true;
        for j in 0..i { first &= (keys[i].0 != keys[j].0) | (keys[i].1 != keys[j].1); }
        distinct += first as u64;
        bytes += first as usize * (keys[i].0.len() + keys[i].1.len());
    }
    let st = m.build_stats(None);
    assert!((st.entries as u64 == distinct) & (st.inserts == 3) & (st.replaces == 3 - distinct), "counts");
    assert!(st.approx_key_bytes == bytes, "bytes of the keys");
    assert!(st.dyn_batches == Some(2), "attached batches");
    if bytes == 9 { cover(1); }
    if distinct == 1 { cover(2); }
}
crate::harness! {
    vh_policy_bytes => counted_bytes();
    vh_policy_each => each();
    vh_policy_any => any_of();
    vh_policy_default => default_limits();
    vh_policy_stats => counted(3);
}
