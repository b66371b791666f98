//! Sorted tables on disk: what a flush writes and what a scan of the written table returns.
//! Parquet files are written and read through the stand-in of `harness/parquet`.
use std::sync::Arc;
use super::{prelude::*, util_data::*, util_env::*};
use arrow_array::{Array, Int32Array, Int64Array, RecordBatch, UInt64Array};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use fusio::path::Path;
use futures::StreamExt;
use parquet::standin;
use crate::{extractor::{KeyProjection, projection_for_columns}, id::{FileId, FileIdGenerator}, inmem::mutable::memtable::DynMem, key::KeyOwned, mvcc::MVCC_COMMIT_COL, ondisk::{scan::{DeleteStreamWithExtractor, ParquetStream, SstableScan, SstableVisibleEntry, UnpinExec}, sstable::{SsTable, SsTableBuilder, SsTableConfig, SsTableDescriptor, SsTableError, SsTableId}}};

/// One stored version.
#[derive(Clone, Copy)]
pub(crate) struct Ver { pub key: i64, pub ts: u64, pub val: i32, pub null: bool, pub del: bool }
pub(crate) fn file_schema() -> SchemaRef {
    Arc::new(Schema::new(vec![Field::new("id", DataType::Int64, false), Field::new("v", DataType::Int32, true), Field::new(MVCC_COMMIT_COL, DataType::UInt64, false)]))
}
fn opt_vals(v: &[Ver]) -> Int32Array { v.iter().map(|x| if x.null { None } else { Some(x.val) }).collect() }
/// The rows as a data file holds them.
pub(crate) fn data_rows(v: &[Ver]) -> RecordBatch {
    let k = Int64Array::from(v.iter().map(|x| x.key).collect::<Vec<_>>());
    let t = UInt64Array::from(v.iter().map(|x| x.ts).collect::<Vec<_>>());
    RecordBatch::try_new(file_schema(), vec![Arc::new(k), Arc::new(opt_vals(v)), Arc::new(t)]).expect("data rows")
}
pub(crate) fn delete_rows(v: &[Ver]) -> RecordBatch { delete_batch(v.iter().map(|x| x.key).collect(), v.iter().map(|x| x.ts).collect()) }
fn col<'a, T: 'static>(b: &'a RecordBatch, i: usize) -> &'a T { b.column(i).as_any().downcast_ref::<T>().expect("column type") }
pub(crate) fn read_data(bs: &[RecordBatch]) -> Vec<Ver> {
    let mut r = vec![];
    for b in bs {
        assert!(b.num_columns() == 3 && b.schema().field(2).name() == MVCC_COMMIT_COL, "layout of the data file");
        let (k, v, t) = (col::<Int64Array>(b, 0), col::<Int32Array>(b, 1), col::<UInt64Array>(b, 2));
        for i in 0..b.num_rows() { assert!(t.is_valid(i)); r.push(Ver { key: k.value(i), ts: t.value(i), val: v.value(i), null: v.is_null(i), del: false }); }
    }
    r
}
pub(crate) fn read_deletes(bs: &[RecordBatch]) -> Vec<Ver> {
    let mut r = vec![];
    for b in bs {
        assert!(b.num_columns() == 2 && b.schema().field(1).name() == MVCC_COMMIT_COL, "layout of the delete file");
        let (k, t) = (col::<Int64Array>(b, 0), col::<UInt64Array>(b, 1));
        for i in 0..b.num_rows() { r.push(Ver { key: k.value(i), ts: t.value(i), val: 0, null: false, del: true }); }
    }
    r
}
/// Keys ascending, versions of a key newest first.
pub(crate) fn in_file_order(v: &[Ver]) -> bool { let mut ok = true; for w in v.windows(2) { ok &= (w[0].key < w[1].key) | ((w[0].key == w[1].key) & (w[0].ts > w[1].ts)); } ok }
fn same(a: &Ver, b: &Ver) -> bool { (a.key == b.key) & (a.ts == b.ts) & (a.del == b.del) & (a.del | ((a.null == b.null) & (a.null | (a.val == b.val)))) }
/// `have` holds exactly the versions of `want` (which are distinct), in file order.
fn exactly(want: &[Ver], have: &[Ver]) {
    assert!(have.len() == want.len(), "number of versions written");
    assert!(in_file_order(have), "order of the file");
    for w in want { let mut f = false; for h in have { f |= same(w, h); } assert!(f, "a version is missing from the file or altered"); }
}
pub(crate) fn config(with_ex: bool) -> Arc<SsTableConfig> {
    let s = schema();
    let c = SsTableConfig::new(s.clone(), local_fs(), Path::from("sst"));
    Arc::new(if with_ex { let ex = extractor(&s); c.with_key_extractor(ex) } else { c })
}
fn insert(m: &DynMem, o: &Ver) {
    let r = if o.del { m.insert_delete_batch(delete_batch(vec![o.key], vec![o.ts])) } else {
        let b = RecordBatch::try_new(schema(), vec![Arc::new(Int64Array::from(vec![o.key])), Arc::new(opt_vals(&[*o]))]).expect("batch");
        m.insert_batch(b, ts(o.ts))
    };
    assert!(r.expect("accepted").is_none());
}
pub(crate) fn any_ver(del: bool, nulls: bool) -> Ver { Ver { key: sym_i64(), ts: sym_u64(), val: sym_i32(), null: nulls && !del && flip(), del } }
pub(crate) fn distinct(v: &[Ver]) { for i in 0..v.len() { for j in i + 1..v.len() { assume((v[i].key != v[j].key) | (v[i].ts != v[j].ts)); } } }
/// What a finished table says about itself must be true of the files it names.
pub(crate) fn check_table(t: &SsTable, id: u64, level: usize) -> (Vec<Ver>, Vec<Ver>) {
    let d = t.descriptor();
    assert!(d.id().raw() == id && d.level() == level, "identity of the table");
    let data = content(d.data_path().expect("data path").as_ref()).expect("data file exists");
    let rows = read_data(&standin::decode(&data).expect("data file complete"));
    let dels = match d.delete_path() { None => vec![], Some(p) => { let r = read_deletes(&standin::decode(&content(p.as_ref()).expect("delete file exists")).expect("delete file complete")); assert!(!r.is_empty(), "an empty delete file is named"); r } };
    let s = d.stats().expect("statistics");
    assert!(s.rows == rows.len() && s.tombstones == dels.len() && s.bytes == data.len(), "counts");
    let (lo, hi) = (s.min_key.as_ref().map(key_owned_i64).expect("smallest key"), s.max_key.as_ref().map(key_owned_i64).expect("largest key"));
    let (lt, ht) = (s.min_commit_ts.expect("oldest").get(), s.max_commit_ts.expect("newest").get());
    let (mut k0, mut k1, mut t0, mut t1, mut inside) = (false, false, false, false, true);
    for v in rows.iter().chain(&dels) {
        inside &= (lo <= v.key) & (v.key <= hi) & (lt <= v.ts) & (v.ts <= ht);
        k0 |= v.key == lo; k1 |= v.key == hi; t0 |= v.ts == lt; t1 |= v.ts == ht;
    }
    assert!(inside, "a version lies outside the recorded key or commit range");
    assert!(k0 & k1 & t0 & t1, "a recorded bound is not attained");
    (rows, dels)
}
/// Flush `segs` sealed tables of `per` arbitrary writes each.
fn flush(segs: usize, per: usize, with_ex: bool, nulls: bool) {
    reset();
    standin::reset();
    let id = choose(2) * 6 + 1;
    let level = choose(2) as usize;
    let cfg = config(with_ex);
    let mut b = SsTableBuilder::new(cfg, SsTableDescriptor::new(SsTableId::new(id), level));
    let mut all = vec![];
    let mut seg = vec![];
    for _ in 0..segs { for _ in 0..per { let d = flip(); seg.push(any_ver(d, nulls)); } all.append(&mut seg); }
    distinct(&all);
    for s in all.chunks(per) {
        let m = mem(8);
        for o in s { insert(&m, o); }
        b.add_immutable(&m.seal_now().expect("seal").expect("nonempty")).expect("staged");
    }
    let g = FileIdGenerator::default();
    let wal: Option<Vec<FileId>> = if flip() { Some(vec![g.generate(), g.generate()]) } else { None };
    b.set_wal_ids(wal.clone());
    let t = block_on(b.finish(VExec)).expect("flush");
    let (rows, dels) = check_table(&t, id, level);
    exactly(&all.iter().copied().filter(|v| !v.del).collect::<Vec<_>>(), &rows);
    exactly(&all.iter().copied().filter(|v| v.del).collect::<Vec<_>>(), &dels);
    assert!(t.descriptor().wal_ids().map(|w| w.to_vec()) == wal, "log segments the table depends on");
    let d = t.descriptor();
    assert!(d.data_path().map(|p| p.as_ref().to_string()) == Some(format!("sst/L{level}/{id:020}.parquet")) && (dels.is_empty() || d.delete_path().map(|p| p.as_ref().to_string()) == Some(format!("sst/L{level}/{id:020}.delete.parquet"))), "names of the files");
    if dels.is_empty() { cover(1); }
    if rows.is_empty() { cover(2); }
    if !rows.is_empty() && !dels.is_empty() { cover(3); }
}
/// Two tables of different identity never share a file: flush one row and one delete into each.
fn flush_names() {
    reset();
    standin::reset();
    let pick = || -> (u64, usize) { ([0u64, 1, 1001, 10_000_001, u32::MAX as u64 + 2, u64::MAX][choose(6) as usize], [0usize, 1, 11, 100][choose(4) as usize]) };
    let ids = [pick(), pick()];
    if ids[0] == ids[1] { return; }
    let mut ts_ = vec![];
    for (i, (id, level)) in ids.iter().enumerate() {
        let m = mem(8);
        insert(&m, &Ver { key: 5 + i as i64, ts: 3, val: 1, null: false, del: false });
        insert(&m, &Ver { key: 7 + i as i64, ts: 4, val: 0, null: false, del: true });
        let mut b = SsTableBuilder::new(config(true), SsTableDescriptor::new(SsTableId::new(*id), *level));
        b.add_immutable(&m.seal_now().expect("seal").expect("nonempty")).expect("staged");
        ts_.push(block_on(b.finish(VExec)).expect("flush"));
    }
    for (i, t) in ts_.iter().enumerate() {
        let (r, d) = check_table(t, ids[i].0, ids[i].1);
        assert!(r.len() == 1 && d.len() == 1 && r[0].key == 5 + i as i64 && d[0].key == 7 + i as i64, "a table's files were overwritten by another table's");
    }
    if ids[0].0 == ids[1].0 { cover(2); } else { cover(1); }
}
/// A disk error at any step of the flush is reported; no table is returned.
fn flush_fault() {
    reset();
    standin::reset();
    let v = [any_ver(false, false), any_ver(false, false)];
    distinct(&v);
    let m = mem(8);
    for o in &v { insert(&m, o); }
    let mut b = SsTableBuilder::new(config(true), SsTableDescriptor::new(SsTableId::new(1), 0));
    b.add_immutable(&m.seal_now().expect("seal").expect("nonempty")).expect("staged");
    faulty(true);
    let r = block_on(b.finish(VExec));
    faulty(false);
    match r { Ok(t) => { assert!(faults() == 0, "a failed flush was reported as done"); check_table(&t, 1, 0); cover(1); } Err(_) => { assert!(faults() > 0); cover(2); } }
}
/// Nothing staged: no table.
fn flush_empty() {
    reset();
    standin::reset();
    let b = SsTableBuilder::new(config(true), SsTableDescriptor::new(SsTableId::new(1), 0));
    assert!(matches!(block_on(b.finish(VExec)), Err(SsTableError::NoImmutableSegments)), "a table without contents");
    assert!(names().is_empty());
    cover(1);
}
fn stream(bs: Vec<RecordBatch>) -> ParquetStream<VExec> { ParquetStream::<VExec>::of(bs.into_iter().map(Ok).collect()) }
/// The rows cut into consecutive batches at arbitrary places.
pub(crate) fn cut(b: RecordBatch) -> Vec<RecordBatch> {
    let n = b.num_rows();
    let mut r = vec![];
    let mut at = 0;
    while at < n { let l = 1 + choose((n - at) as u64) as usize; r.push(b.slice(at, l)); at += l; }
    r
}
fn scan_out(data: Vec<RecordBatch>, dels: Option<Vec<RecordBatch>>, read: u64) -> Vec<Ver> {
    let dx: Arc<dyn KeyProjection> = projection_for_columns(delete_schema(), vec![0]).expect("delete extractor").into();
    let fx: Arc<dyn KeyProjection> = projection_for_columns(file_schema(), vec![0]).expect("extractor").into();
    let d = dels.map(|d| DeleteStreamWithExtractor { stream: stream(d), extractor: dx });
    let s = SstableScan::new(stream(data), d, fx, vec![0, 1], None, ts(read));
    block_on(async move {
        let mut s = std::pin::pin!(s);
        let mut out = vec![];
        while let Some(e) = s.next().await {
            match e.expect("entry") {
                SstableVisibleEntry::Row(r) => {
                    let (k, t) = (key_i64(r.key_ts().key()), r.key_ts().timestamp().get());
                    let o = r.into_row_owned().expect("row must be readable");
                    assert!(i64_of(o.0.first()) == k, "row under another key");
                    let (val, null) = match o.0.get(1) { Some(None) => (0, true), c => (i32_of(c), false) };
                    out.push(Ver { key: k, ts: t, val, null, del: false });
                }
                SstableVisibleEntry::Tombstone(k) => out.push(Ver { key: key_owned_i64(k.key()), ts: k.timestamp().get(), val: 0, null: false, del: true }),
            }
        }
        out
    })
}
/// Exactly the newest version at or below `read` of every key; a delete wins over a row of the same time.
fn check_newest(all: &[Ver], out: &[Ver], read: u64) {
    for w in out.windows(2) { assert!(w[0].key < w[1].key, "keys must be strictly ascending"); }
    for o in out {
        let mut found = false;
        let mut best = o.ts <= read;
        for v in all {
            found |= same(v, o);
            best &= !((v.key == o.key) & (v.ts <= read) & ((v.ts > o.ts) | ((v.ts == o.ts) & v.del & !o.del)));
        }
        assert!(found & best, "the scan returned something other than the newest visible version");
    }
    for v in all { let mut have = v.ts > read; for o in out { have |= o.key == v.key; } assert!(have, "a visible key is missing from the scan"); }
}
/// Scan of a table of `nd` rows and `nx` deletes in file order, cut into batches arbitrarily.
fn scan(nd: usize, nx: usize) {
    reset();
    let rows: Vec<Ver> = (0..nd).map(|_| any_ver(false, false)).collect();
    let dels: Vec<Ver> = (0..nx).map(|_| any_ver(true, false)).collect();
    assume(in_file_order(&rows));
    assume(in_file_order(&dels));
    let read = sym_u64();
    let d = if nx == 0 && flip() { None } else { Some(if nx == 0 { vec![] } else { cut(delete_rows(&dels)) }) };
    let out = scan_out(cut(data_rows(&rows)), d, read);
    let mut all = rows.clone();
    all.extend(dels);
    check_newest(&all, &out, read);
    if out.is_empty() { cover(1); }
    if out.len() == nd + nx { cover(2); }
    if (out.len() == 1) & (nx > 0) & out.first().is_some_and(|o| o.del) { cover(3); }
}
/// Flush, then scan the written files: the same as scanning the memory table.
fn roundtrip(n: usize) {
    reset();
    standin::reset();
    let mut all = vec![];
    for _ in 0..n { let d = flip(); all.push(any_ver(d, true)); }
    distinct(&all);
    let m = mem(8);
    for o in &all { insert(&m, o); }
    let mut b = SsTableBuilder::new(config(true), SsTableDescriptor::new(SsTableId::new(1), 0));
    b.add_immutable(&m.seal_now().expect("seal").expect("nonempty")).expect("staged");
    let t = block_on(b.finish(VExec)).expect("flush");
    let d = t.descriptor();
    let data = standin::decode(&content(d.data_path().expect("data path").as_ref()).expect("data file")).expect("complete");
    let dels = d.delete_path().map(|p| standin::decode(&content(p.as_ref()).expect("delete file")).expect("complete"));
    let read = sym_u64();
    let out = scan_out(data, dels, read);
    check_newest(&all, &out, read);
    if out.is_empty() { cover(1); }
    if out.len() == n { cover(2); }
}

pub(crate) const BIG: usize = 1100;
/// Cut at chosen places.
pub(crate) fn cut_at(b: &RecordBatch, l: usize) -> Vec<RecordBatch> { let n = b.num_rows(); let mut r = vec![]; let mut at = 0; while at < n { let k = l.min(n - at); r.push(b.slice(at, k)); at += k; } r }
/// A table larger than any batch default: flushed, then scanned in batches of one of several sizes.
fn big() {
    reset();
    standin::reset();
    let x = sym_i32();
    let mut rows: Vec<Ver> = vec![];
    for i in 0..BIG { rows.push(Ver { key: 2 * i as i64, ts: 5, val: if i % 1023 == 1 { x } else { i as i32 }, null: false, del: false }); }
    let m = mem(8);
    let b = RecordBatch::try_new(schema(), vec![Arc::new(Int64Array::from(rows.iter().rev().map(|r| r.key).collect::<Vec<_>>())), Arc::new(Int32Array::from(rows.iter().rev().map(|r| r.val).collect::<Vec<_>>()))]).expect("batch");
    assert!(m.insert_batch(b, ts(5)).expect("rows").is_none());
    let gone: Vec<i64> = (0..BIG as i64).filter(|k| k % 3 == 0).collect();
    assert!(m.insert_delete_batch(delete_batch(gone.clone(), vec![9; gone.len()])).expect("deletes").is_none());
    let mut b = SsTableBuilder::new(config(true), SsTableDescriptor::new(SsTableId::new(1), 0));
    b.add_immutable(&m.seal_now().expect("seal").expect("nonempty")).expect("staged");
    let t = block_on(b.finish(VExec)).expect("flush");
    let (got, dels) = check_table(&t, 1, 0);
    assert!(got.len() == BIG && got.iter().zip(&rows).all(|(a, b)| same(a, b)), "rows of a large table");
    assert!(dels.len() == gone.len() && dels.iter().zip(&gone).all(|(a, k)| a.key == *k && a.ts == 9), "deletes of a large table");
    let (ld, lx) = ([1024usize, BIG, 7, 1][choose(4) as usize], [1024usize, 5][choose(2) as usize]);
    let read = [4u64, 5, 9][choose(3) as usize];
    let out = scan_out(cut_at(&data_rows(&rows), ld), Some(cut_at(&delete_rows(&dels), lx)), read);
    let mut want: std::collections::BTreeMap<i64, Ver> = std::collections::BTreeMap::new();
    if read >= 5 { for r in &rows { want.insert(r.key, *r); } }
    if read >= 9 { for d in &dels { want.insert(d.key, *d); } }
    assert!(out.len() == want.len() && out.iter().zip(want.values()).all(|(a, b)| same(a, b)), "scan of a large table");
    cover(if want.is_empty() { 2 } else { 1 });
}
crate::harness! {
    vh_sst_big => big();
    vh_flush1 => flush(1, 2, true, true);
    vh_flush1x3 => flush(1, 3, true, false);
    vh_flush2 => flush(2, 1, true, true);
    vh_flush2n => flush(2, 1, false, false);
    vh_flush3 => flush(3, 1, true, false);
    vh_flush2x2 => flush(2, 2, true, false);
    vh_flush_names => flush_names();
    vh_flush_fault => flush_fault();
    vh_flush_empty => flush_empty();
    vh_sst_scan20 => scan(2, 0);
    vh_sst_scan21 => scan(2, 1);
    vh_sst_scan12 => scan(1, 2);
    vh_sst_scan22 => scan(2, 2);
    vh_sst_scan31 => scan(3, 1);
    vh_sst_scan32 => scan(3, 2);
    vh_sst_round2 => roundtrip(2);
    vh_sst_round3 => roundtrip(3);
}
