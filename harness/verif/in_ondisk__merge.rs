//! Compaction merge: the real merge loop over input tables whose batches arrive in any division.
use std::sync::{Arc, Mutex, atomic::AtomicU64};
use super::*;
use crate::verif::{prelude::*, sst::{self, Ver, any_ver, check_table, config, cut, data_rows, delete_rows, distinct, in_file_order}, util_data::*, util_env::*};
use crate::id::FileIdGenerator;
use parquet::standin;

type Feed = Vec<(RecordBatch, Option<RecordBatch>)>;
static INPUT: Mutex<Vec<(u64, Feed)>> = Mutex::new(Vec::new());
/// Stands for opening the table's files and streaming them (not built here: it needs the missing crate).
/// Pairs data and delete batches by position, as the real stream does; once one side is over its half is empty.
impl SsTableMergeSource {
    pub async fn new<E>(_c: Arc<SsTableConfig>, d: SsTableDescriptor, _e: E) -> Result<Self, SsTableError> where E: Executor + Clone + 'static {
        let mut all = INPUT.lock().unwrap();
        let i = all.iter().position(|x| x.0 == d.id().raw()).expect("known input");
        let feed = std::mem::take(&mut all[i].1);
        let items: Vec<Result<SsTableStreamBatch, SsTableError>> = feed.into_iter().map(|(data, delete)| Ok(SsTableStreamBatch { data, delete })).collect();
        Ok(Self { stream: futures::stream::iter(items).boxed() })
    }
}
fn feed(data: Vec<RecordBatch>, dels: Vec<RecordBatch>) -> Feed {
    let n = data.len().max(dels.len());
    let (mut d, mut x) = (data.into_iter(), dels.into_iter());
    (0..n).map(|_| (d.next().unwrap_or_else(|| RecordBatch::new_empty(schema())), x.next())).collect()
}
struct Out { all: Vec<Ver>, tables: usize, last_rows: usize }
/// Merge tables with the given numbers of rows and deletes.
fn merge(shape: &[(usize, usize)], cap: Option<usize>, chunk: usize) -> Out {
    reset();
    standin::reset();
    let mut input = vec![];
    let mut all: Vec<Ver> = vec![];
    let mut descs = vec![];
    let g = FileIdGenerator::default();
    let ids = [g.generate(), g.generate()];
    let mut want_wal: Vec<FileId> = vec![];
    for (i, (nd, nx)) in shape.iter().enumerate() {
        let rows: Vec<Ver> = (0..*nd).map(|_| any_ver(false, false)).collect();
        let dels: Vec<Ver> = (0..*nx).map(|_| any_ver(true, false)).collect();
        assume(in_file_order(&rows));
        assume(in_file_order(&dels));
        let f = feed(if *nd == 0 { vec![] } else { cut(data_rows(&rows)) }, if *nx == 0 { vec![] } else { cut(delete_rows(&dels)) });
        input.push((i as u64 + 1, f));
        all.extend(rows);
        all.extend(dels);
        let d = SsTableDescriptor::new(SsTableId::new(i as u64 + 1), 0);
        // inputs depend on: nothing recorded / both segments / the second one
        let w = match i { 0 => Some(vec![ids[1], ids[0]]), 1 => Some(vec![ids[1]]), _ => None };
        if let Some(w) = &w { want_wal.extend(w); }
        descs.push(d.with_wal_ids(w));
    }
    want_wal.sort();
    want_wal.dedup();
    distinct(&all);
    *INPUT.lock().unwrap() = input;
    let m = SsTableMerger::new(config(true), descs, SsTableDescriptor::new(SsTableId::new(10), 1)).with_output_id_allocator(Arc::new(AtomicU64::new(20))).with_output_caps(cap, None).with_chunk_rows(chunk);
    let r = block_on(m.execute(VExec)).expect("merge");
    let mut got: Vec<Ver> = vec![];
    let mut prev: Option<i64> = None;
    let (n, mut last_rows) = (r.len(), 0);
    for (i, t) in r.iter().enumerate() {
        let (rows, dels) = check_table(t, if i == 0 { 10 } else { 19 + i as u64 }, 1);
        assert!(in_file_order(&rows) & in_file_order(&dels), "order of the output");
        assert!(t.descriptor().wal_ids().map(|w| w.to_vec()) == if want_wal.is_empty() { None } else { Some(want_wal.clone()) }, "log segments the outputs depend on");
        if let Some(c) = cap { assert!(rows.len() <= c, "an output exceeds the row cap"); }
        let mut ok = true;
        let mut top = prev;
        for v in rows.iter().chain(&dels) { if let Some(p) = prev { ok &= v.key > p; } top = Some(top.map_or(v.key, |t| if t > v.key { t } else { v.key })); }
        assert!(ok, "outputs overlap or are out of order");
        prev = top;
        last_rows = rows.len();
        got.extend(rows);
        got.extend(dels);
    }
    // exactly the newest version of every key, deletes included
    for a in 0..got.len() { for b in a + 1..got.len() { assert!(got[a].key != got[b].key, "a key appears twice in the output"); } }
    for o in &got {
        let (mut found, mut best) = (false, true);
        for v in &all { found |= (v.key == o.key) & (v.ts == o.ts) & (v.del == o.del) & (v.del | (v.val == o.val)); best &= !((v.key == o.key) & (v.ts > o.ts)); }
        assert!(found & best, "the merge kept something other than the newest version");
    }
    for v in &all { let mut have = false; for o in &got { have |= o.key == v.key; } assert!(have, "a key is lost in the merge"); }
    Out { all: got, tables: n, last_rows }
}
fn m(shape: &[(usize, usize)], cap: Option<usize>, chunk: usize) {
    let n: usize = shape.iter().map(|x| x.0 + x.1).sum();
    let o = merge(shape, cap, chunk);
    if o.all.len() == n { cover(1); }
    if o.all.len() == 1 { cover(2); }
    if o.tables > 1 { cover(3); }
}
/// An error while merging leaves none of the finished outputs behind.
fn cleanup() {
    reset();
    standin::reset();
    let rows: Vec<Ver> = (0..2).map(|_| any_ver(false, false)).collect();
    assume(in_file_order(&rows));
    *INPUT.lock().unwrap() = vec![(1, feed(cut(data_rows(&rows)), vec![]))];
    let m = SsTableMerger::new(config(true), vec![SsTableDescriptor::new(SsTableId::new(1), 0)], SsTableDescriptor::new(SsTableId::new(10), 1));
    // no identifier for a further output: the merge fails once the first one is written
    let m = if flip() { m.with_output_caps(Some(1), None) } else { m.with_output_id_allocator(Arc::new(AtomicU64::new(20))).with_output_caps(Some(1), None).with_iteration_budget(1) };
    match block_on(m.execute(VExec)) {
        Ok(_) => { assert!(rows[0].key == rows[1].key, "the merge had to fail"); cover(2); }
        Err(_) => { assert!(names().is_empty(), "outputs of a failed merge are left behind"); cover(1); }
    }
}

/// Tables larger than one output chunk: an older one of rows, a newer one of rows and deletes over parts of it.
fn big() {
    reset();
    standin::reset();
    let n = sst::BIG as i64;
    let x = sym_i32();
    let row = |k: i64, t: u64, v: i32| Ver { key: k, ts: t, val: v, null: false, del: false };
    let old: Vec<Ver> = (0..n).map(|k| row(k, 5, if k == 1023 { x } else { k as i32 })).collect();
    let new: Vec<Ver> = (n - 60..n + 40).map(|k| row(k, 8, -1)).collect();
    let dels: Vec<Ver> = (10..50).map(|k| Ver { key: k * 20, ts: 8, val: 0, null: false, del: true }).collect();
    let l = [1024usize, 100, 1 << 20][choose(3) as usize];
    *INPUT.lock().unwrap() = vec![(1, feed(sst::cut_at(&data_rows(&old), l), vec![])), (2, feed(sst::cut_at(&data_rows(&new), l), sst::cut_at(&delete_rows(&dels), 7)))];
    let cap = [None, Some(1000usize), Some(1024)][choose(3) as usize];
    let m = SsTableMerger::new(config(true), vec![SsTableDescriptor::new(SsTableId::new(1), 0), SsTableDescriptor::new(SsTableId::new(2), 0)], SsTableDescriptor::new(SsTableId::new(10), 1)).with_output_id_allocator(Arc::new(AtomicU64::new(20))).with_output_caps(cap, None);
    let r = block_on(m.execute(VExec)).expect("merge");
    let mut want = std::collections::BTreeMap::new();
    for v in old.iter().chain(&new).chain(&dels) { want.insert(v.key, *v); }
    let mut got = vec![];
    for (i, t) in r.iter().enumerate() {
        let (rows, ds) = check_table(t, if i == 0 { 10 } else { 19 + i as u64 }, 1);
        if let Some(c) = cap { assert!(rows.len() <= c, "an output exceeds the row cap"); }
        assert!(in_file_order(&rows) && in_file_order(&ds), "order of the output");
        let mut part: Vec<Ver> = rows;
        part.extend(ds);
        part.sort_by_key(|v| v.key);
        got.extend(part);
    }
    assert!(got.len() == want.len() && got.iter().zip(want.values()).all(|(a, b)| a.key == b.key && a.ts == b.ts && a.del == b.del && (a.del || a.val == b.val)), "the merge of large tables differs");
    cover(if r.len() > 1 { 2 } else { 1 });
}

crate::harness! {
    vh_merge_big => big();
    vh_merge_a => m(&[(2, 1)], None, 1024);
    vh_merge_b => m(&[(1, 1), (1, 1)], None, 1024);
    vh_merge_c => m(&[(2, 0), (1, 1)], None, 1);
    vh_merge_d => m(&[(3, 0), (0, 1)], Some(1), 1024);
    vh_merge_e => m(&[(1, 2), (1, 0)], None, 2);
    vh_merge_f => m(&[(2, 2)], None, 1024);
    vh_merge_g => m(&[(1, 0), (1, 0), (1, 0)], Some(2), 1);
    vh_merge_h => m(&[(2, 1), (2, 1)], None, 2);
    vh_merge_cleanup => cleanup();
}
