//! Merging the layers of one read: newest visible version per key, deletes hide, keys ascending, limit.
use std::{collections::BTreeMap, sync::Arc};
use futures::StreamExt;
use fusio::executor::NoopExecutor;
use typed_arrow_dyn::{DynCell, DynRow};
use super::{prelude::*, util_data::*, util_poll::run};
use crate::{key::KeyOwned, mutation::DynMutation, query::stream::{OwnedImmutableScan, OwnedMutableScan, ScanStream, merge::MergeStream}, transaction::{TransactionScan, TransactionScanEntry}};

#[derive(Clone, Copy)]
struct Op { key: i64, ts: u64, val: i32, del: bool, src: u64 }
fn put(m: &crate::inmem::mutable::memtable::DynMem, o: &Op) {
    let r = if o.del { m.insert_delete_batch(delete_batch(vec![o.key], vec![o.ts])) } else { m.insert_batch(batch(&schema(), vec![o.key], vec![o.val]), ts(o.ts)) };
    assert!(r.expect("write accepted").is_none());
}
fn staged(ops: &[Op]) -> BTreeMap<KeyOwned, DynMutation<DynRow, ()>> {
    let mut b = BTreeMap::new();
    for o in ops.iter().filter(|o| o.src == 0) {
        let m = if o.del { DynMutation::Delete(()) } else { DynMutation::Upsert(DynRow(vec![Some(DynCell::I64(o.key)), Some(DynCell::I32(o.val))])) };
        b.insert(KeyOwned::from(o.key), m);
    }
    b
}
/// Writes spread over transaction staging (0), active table (1), newer sealed (2) and older sealed (3) tables;
/// `layouts` lists which source each write goes to.
fn merge(layouts: &[&[u64]], with_limit: bool) {
    let s = schema();
    let read = sym_u64();
    let lay = layouts[choose(layouts.len() as u64) as usize];
    let n = lay.len();
    let mut ops = vec![];
    for &src in lay {
        let del = flip();
        let t = if src == 0 { read } else { sym_u64() };
        if n > 2 { assume(t > 0); }
        ops.push(Op { key: sym_i64(), ts: t, val: sym_i32(), del, src });
    }
    for i in 0..n { for j in i + 1..n {
        // one staged mutation per key; committed versions of a key carry distinct timestamps
        let both_staged = (ops[i].src == 0) & (ops[j].src == 0);
        let any_staged = (ops[i].src == 0) | (ops[j].src == 0);
        if both_staged { assume(ops[i].key != ops[j].key); }
        else if !any_staged { assume((ops[i].key != ops[j].key) | (ops[i].ts != ops[j].ts)); }
    } }
    let (mt, i1, i2) = (mem(4), mem(4), mem(4));
    for o in &ops { match o.src { 1 => put(&mt, o), 2 => put(&i1, o), 3 => put(&i2, o), _ => {} } }
    let (i1, i2) = (i1.seal_now().expect("seal"), i2.seal_now().expect("seal"));
    let st = staged(&ops);
    let mut streams: Vec<ScanStream<'_, NoopExecutor>> = vec![];
    if !st.is_empty() { streams.push(TransactionScan::new(&st, &s, ts(read), None).expect("txn").into()); }
    streams.push(OwnedMutableScan::from_guard(mt.read(), None, ts(read)).expect("mutable").into());
    for i in [i1, i2].into_iter().flatten() { streams.push(OwnedImmutableScan::from_arc(Arc::new(i), None, ts(read)).expect("immutable").into()); }
    let limit = if with_limit { Some(choose(n as u64 + 2) as usize) } else { None };
    let mut ms = run(MergeStream::from_vec(streams, limit, Some(crate::query::stream::Order::Asc))).expect("merge");
    let mut out: Vec<(i64, i32)> = vec![];
    while let Some(e) = run(ms.next()) {
        let e = e.expect("entry");
        assert!(!e.is_tombstone(), "deletes must not surface");
        let row = e.into_row().expect("row");
        out.push((i64_of(row.0.first()), i32_of(row.0.get(1))));
        assert!(out.len() <= n, "more rows than were written");
    }
    // model: winner[i] = op i is the newest visible version of its key
    let mut winner = vec![];
    for (i, p) in ops.iter().enumerate() {
        let mut w = p.ts <= read;
        for (j, q) in ops.iter().enumerate() {
            if i == j { continue; }
            let beats = if p.src == 0 { false } else if q.src == 0 { true } else { (q.ts <= read) & (q.ts > p.ts) };
            w &= !((q.key == p.key) & beats);
        }
        winner.push(w & !p.del);
    }
    for w in out.windows(2) { assert!(w[0].0 < w[1].0, "rows must be strictly ascending by key"); }
    for r in &out {
        let mut ok = false;
        for (i, p) in ops.iter().enumerate() { ok |= winner[i] & (p.key == r.0) & (p.val == r.1); }
        assert!(ok, "the merge returned a version that is not the newest visible one");
    }
    match limit {
        None => {
            for (i, p) in ops.iter().enumerate() { let mut h = false; for r in &out { h |= r.0 == p.key; } assert!(!winner[i] | h, "a visible row is missing"); }
            if out.len() == n { cover(1); }
            if out.is_empty() { cover(2); }
            if out.len() == 1 { cover(3); }
        }
        Some(l) => {
            assert!(out.len() <= l, "limit exceeded");
            if out.len() < l { for (i, p) in ops.iter().enumerate() { let mut h = false; for r in &out { h |= r.0 == p.key; } assert!(!winner[i] | h, "a row is missing although the limit was not reached"); } }
            if l > 0 && out.len() == l { cover(5); }
            // the first rows in key order are the ones returned
            if let Some(last) = out.last() {
                for (i, p) in ops.iter().enumerate() { let mut h = p.key > last.0; for r in &out { h |= r.0 == p.key; } assert!(!winner[i] | h, "a limited scan skipped a row"); }
                cover(4);
            }
        }
    }
}
/// Staged writes alone: every staged mutation exactly once, in key order, at the read timestamp.
fn txn_scan(n: usize) {
    let s = schema();
    let read = sym_u64();
    let mut ops: Vec<Op> = vec![];
    for _ in 0..n { let del = flip(); ops.push(Op { key: sym_i64(), ts: read, val: sym_i32(), del, src: 0 }); }
    let st = staged(&ops);
    let proj = flip();
    let target = Arc::new(arrow_schema::Schema::new(vec![arrow_schema::Field::new("v", arrow_schema::DataType::Int32, true)]));
    let mut out: Vec<(i64, i32, bool)> = vec![];
    for e in TransactionScan::new(&st, &s, ts(read), if proj { Some(&target) } else { None }).expect("scan") {
        match e.expect("entry") {
            TransactionScanEntry::Row((k, r)) => {
                assert!(k.timestamp().get() == read);
                let key = key_i64(k.key());
                let o = r.into_owned().expect("row");
                if proj { assert!(o.0.len() == 1); out.push((key, i32_of(o.0.first()), false)); cover(1); }
                else { assert!(i64_of(o.0.first()) == key); out.push((key, i32_of(o.0.get(1)), false)); cover(2); }
            }
            TransactionScanEntry::Tombstone(k) => { assert!(k.timestamp().get() == read); out.push((key_i64(k.key()), 0, true)); cover(3); }
        }
    }
    for w in out.windows(2) { assert!(w[0].0 < w[1].0); }
    for (i, p) in ops.iter().enumerate() {
        let mut last = true;
        for q in &ops[i + 1..] { last &= q.key != p.key; }
        let mut h = false;
        for r in &out { h |= (r.0 == p.key) & (r.2 == p.del) & (p.del | (r.1 == p.val)); }
        assert!(!last | h, "the transaction does not see its own latest write");
    }
}
/// Layers larger than any batch default, overlapping, with deletes and rewrites.
fn big() {
    let n = 1100i64;
    let x = sym_i32();
    let (mt, i1, i2) = (mem(4), mem(4), mem(4));
    assert!(i2.insert_batch(batch(&schema(), (0..n).rev().collect(), (0..n as i32).rev().collect()), ts(3)).expect("write").is_none());
    assert!(i1.insert_delete_batch(delete_batch((0..n).filter(|k| k % 4 == 0).collect(), vec![5; (n as usize).div_ceil(4)])).expect("write").is_none());
    assert!(mt.insert_batch(batch(&schema(), (n - 30..n + 30).collect(), vec![x; 60]), ts(7)).expect("write").is_none());
    let (i1, i2) = (i1.seal_now().expect("seal"), i2.seal_now().expect("seal"));
    let read = [2u64, 3, 5, 7][choose(4) as usize];
    let limit = [None, Some(1usize), Some(600), Some(1050)][choose(4) as usize];
    let mut streams: Vec<ScanStream<'_, NoopExecutor>> = vec![OwnedMutableScan::from_guard(mt.read(), None, ts(read)).expect("mutable").into()];
    for i in [i1, i2].into_iter().flatten() { streams.push(OwnedImmutableScan::from_arc(Arc::new(i), None, ts(read)).expect("immutable").into()); }
    let mut ms = run(MergeStream::from_vec(streams, limit, Some(crate::query::stream::Order::Asc))).expect("merge");
    let mut want = BTreeMap::new();
    if read >= 3 { for k in 0..n { want.insert(k, k as i32); } }
    if read >= 5 { for k in (0..n).filter(|k| k % 4 == 0) { want.remove(&k); } }
    if read >= 7 { for k in n - 30..n + 30 { want.insert(k, x); } }
    let mut want = want.into_iter().take(limit.unwrap_or(usize::MAX));
    while let Some(e) = run(ms.next()) {
        let row = e.expect("entry").into_row().expect("row");
        let (k, v) = want.next().expect("a large merge returns too much");
        assert!(i64_of(row.0.first()) == k && i32_of(row.0.get(1)) == v, "a large merge returns another row");
    }
    assert!(want.next().is_none(), "a large merge stops early");
    cover(1);
}
crate::harness! {
    vh_mergeq_big => big();
    vh_merge2 => merge(&[&[0, 0], &[0, 1], &[0, 2], &[1, 1], &[1, 2], &[2, 2], &[2, 3]], false);
    vh_merge3 => merge(&[&[0, 1, 2], &[1, 1, 2], &[1, 2, 2], &[1, 2, 3]], false);
    vh_merge3x => merge(&[&[0, 1, 1], &[0, 2, 2], &[0, 0, 1], &[2, 2, 3], &[2, 3, 3], &[0, 2, 3], &[0, 1, 2], &[1, 1, 2], &[1, 2, 2], &[1, 2, 3]], false);
    vh_merge4x => merge(&[&[0, 1, 2, 3], &[1, 1, 2, 2]], false);
    vh_merge_limit2 => merge(&[&[0, 1], &[1, 1], &[1, 2]], true);
    vh_merge_limit3 => merge(&[&[1, 1, 2], &[0, 1, 2]], true);
    vh_txn_scan2 => txn_scan(2);
    vh_txn_scan3 => txn_scan(3);
}
