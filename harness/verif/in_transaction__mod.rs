//! Writes staged by a transaction and the batches they are committed as.
use super::*;
use arrow_array::{Array, Int32Array, Int64Array, UInt64Array};
use crate::{inmem::mutable::memtable::DynRowScanEntry, verif::{prelude::*, util_data::*}};

fn row(k: i64, v: Option<i32>) -> DynRow { DynRow(vec![Some(DynCell::I64(k)), v.map(DynCell::I32)]) }
#[derive(Clone, Copy)]
struct W { k: i64, v: Option<i32>, del: bool }
fn writes(n: usize) -> Vec<W> { (0..n).map(|_| { let kind = choose(3); W { k: sym_i64(), v: if kind == 0 { Some(sym_i32()) } else { None }, del: kind == 2 } }).collect() }
fn stage(ws: &[W], snap: u64) -> StagedMutations {
    let mut s = StagedMutations::new(ts(snap));
    assert!(s.is_empty() && s.len() == 0);
    for w in ws { if w.del { s.delete(KeyOwned::from(w.k)); } else { s.upsert(KeyOwned::from(w.k), row(w.k, w.v)); } }
    s
}
/// The last write of each key, in key order.
fn model(ws: &[W]) -> Vec<W> {
    let mut m: Vec<W> = vec![];
    for w in ws {
        let mut at = m.len();
        let mut hit = false;
        for (i, x) in m.iter().enumerate() { if w.k <= x.k { at = i; hit = w.k == x.k; break; } }
        if hit { m[at] = *w; } else { m.insert(at, *w); }
    }
    m
}
fn same(w: &W, m: &DynMutation<DynRow, ()>) -> bool {
    match m {
        DynMutation::Delete(()) => w.del,
        DynMutation::Upsert(r) => !w.del && r.0.len() == 2 && i64_of(r.0.first()) == w.k && match (&r.0[1], w.v) { (None, None) => true, (Some(DynCell::I32(x)), Some(y)) => *x == y, _ => false },
    }
}
fn staged(n: usize) {
    let ws = writes(n);
    let snap = sym_u64();
    let s = stage(&ws, snap);
    let m = model(&ws);
    assert!(s.snapshot_ts().get() == snap, "the snapshot of the transaction");
    assert!(s.len() == m.len() && s.is_empty() == m.is_empty(), "one staged write per key");
    for (w, (k, x)) in m.iter().zip(s.iter()) { assert!(key_owned_i64(k) == w.k, "staged keys in order"); assert!(same(w, x), "the last write of a key wins"); }
    let probe = sym_i64();
    let got = s.get(&KeyOwned::from(probe));
    match m.iter().find(|w| w.k == probe) { Some(w) => { assert!(got.is_some_and(|x| same(w, x)), "a transaction reads its own last write"); cover(1); } None => assert!(got.is_none(), "a key never written") }
    let (ups, dels) = s.into_mutations();
    let mut it = ups.iter();
    for w in m.iter().filter(|w| !w.del) { match it.next() { Some(r) => assert!(i64_of(r.0.first()) == w.k, "rows to commit"), None => panic!("a row is not committed") } }
    assert!(it.next().is_none());
    let mut it = dels.iter();
    for w in m.iter().filter(|w| w.del) { match it.next() { Some(k) => assert!(key_owned_i64(k) == w.k, "keys to delete"), None => panic!("a delete is not committed") } }
    assert!(it.next().is_none());
    if m.len() == 1 && n > 1 { cover(2); }
}
/// The batches a transaction commits hold exactly its writes; applied to a table they take effect together.
fn commit(n: usize) {
    let ws = writes(n);
    let t = sym_u64();
    let m = model(&ws);
    let (ups, dels) = stage(&ws, 0).into_mutations();
    let mem = mem(8);
    let (nu, nd) = (ups.len(), dels.len());
    let up = match build_record_batch(&schema(), ups) { Ok(b) => b, Err(_) => panic!("rows refused") };
    let de = match build_delete_batch(&delete_schema(), 1, dels, ts(t)) { Ok(b) => b, Err(_) => panic!("deletes refused") };
    assert!(up.num_rows() == nu && de.num_rows() == nd && de.schema() == delete_schema() && up.schema() == schema(), "one row for each write");
    if nu > 0 { assert!(mem.insert_batch(up, ts(t)).expect("rows").is_none()); }
    if nd > 0 { assert!(mem.insert_delete_batch(de).expect("deletes").is_none()); }
    let g = mem.read();
    let mut seen = vec![];
    for e in g.scan_visible(None, ts(t)).expect("scan") {
        match e.expect("row") {
            DynRowScanEntry::Row(k, r) => { let o = r.into_owned().expect("row"); let v = match o.0.get(1) { Some(Some(DynCell::I32(x))) => Some(*x), Some(None) => None, _ => panic!("value cell") }; assert!(k.timestamp().get() == t); seen.push(W { k: key_i64(k.key()), v, del: false }); }
            DynRowScanEntry::Tombstone(k) => { assert!(k.timestamp().get() == t, "deletes commit with the transaction"); seen.push(W { k: key_i64(k.key()), v: None, del: true }); }
        }
    }
    assert!(seen.len() == m.len(), "every staged write takes effect once");
    for (a, b) in seen.iter().zip(&m) { assert!((a.k == b.k) & (a.del == b.del) & (a.v == b.v), "the table holds what the transaction wrote"); }
    if (nu > 0) & (nd > 0) { cover(1); }
}
/// Deletes by keys that are not complete keys of the table are refused.
fn refused() {
    let (a, b) = (sym_i64(), sym_i64());
    let good = KeyOwned::from(a);
    let bad = if flip() { KeyOwned::tuple(vec![KeyOwned::from(b), KeyOwned::from(a)]) } else {
        match DynRowOwned::from_dyn_row(Fields::from(vec![arrow_schema::Field::new("id", arrow_schema::DataType::Int64, true)]), DynRow(vec![None])) { Ok(r) => { cover(2); KeyOwned::new(r) } Err(_) => return }
    };
    let keys = if flip() { vec![good, bad] } else { vec![bad, good] };
    assert!(build_delete_batch(&delete_schema(), 1, keys, ts(1)).is_err(), "an incomplete key is refused");
    assert!(match build_delete_batch(&delete_schema(), 1, vec![], ts(1)) { Ok(b) => b.num_rows() == 0, Err(_) => false });
    cover(1);
}
crate::harness! {
    vh_stage2 => staged(2);
    vh_stage3 => staged(3);
    vh_stage_commit2 => commit(2);
    vh_stage_commit3 => commit(3);
    vh_stage_refused => refused();
}
