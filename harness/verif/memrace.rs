//! The active in-memory table shared by several threads.
use super::{prelude::*, util_data::*};
use crate::{inmem::{immutable::memtable::{ImmutableMemTable, ImmutableVisibleEntry}, mutable::memtable::{DynMem, DynRowScanEntry}}, inmem::policy::StatsProvider, key::KeyOwned};

#[derive(Clone, Copy, PartialEq)]
struct V { key: i64, ts: u64, val: i32, del: bool }
fn up(key: i64, ts: u64, val: i32) -> V { V { key, ts, val, del: false } }
fn del(key: i64, ts: u64) -> V { V { key, ts, val: 0, del: true } }
/// One batch of writes with one commit timestamp (all upserts or all deletes).
fn put(m: &DynMem, vs: &[V]) -> Option<ImmutableMemTable> {
    let k: Vec<i64> = vs.iter().map(|v| v.key).collect();
    if vs[0].del { m.insert_delete_batch(delete_batch(k, vs.iter().map(|v| v.ts).collect())).expect("delete accepted") }
    else { m.insert_batch(batch(&schema(), k, vs.iter().map(|v| v.val).collect()), ts(vs[0].ts)).expect("insert accepted") }
}
fn scan(m: &DynMem, read: u64) -> Vec<V> {
    let g = m.read();
    let mut v = Vec::new();
    for e in g.scan_visible(None, ts(read)).expect("scan") {
        match e.expect("row") {
            DynRowScanEntry::Row(k, r) => { let (id, x) = row_kv(r); let key = key_i64(k.key()); assert!(id == key); v.push(up(key, k.timestamp().get(), x)) }
            DynRowScanEntry::Tombstone(k) => v.push(del(key_i64(k.key()), k.timestamp().get())),
        }
    }
    v
}
fn scan_imm(m: &ImmutableMemTable, read: u64) -> Vec<V> {
    let mut v = Vec::new();
    for e in m.scan_visible(None, ts(read)).expect("scan") {
        match e.expect("row") {
            ImmutableVisibleEntry::Row(k, r) => { let (id, x) = row_kv(r); let key = key_i64(k.key()); assert!(id == key); v.push(up(key, k.timestamp().get(), x)) }
            ImmutableVisibleEntry::Tombstone(k) => v.push(del(key_i64(k.key()), k.timestamp().get())),
        }
    }
    v
}
/// What a snapshot at `read` shows of `all`, keys ascending.
fn view(all: &[V], read: u64) -> Vec<V> {
    let mut out: Vec<V> = Vec::new();
    for v in all {
        if v.ts > read { continue; }
        match out.iter_mut().find(|o| o.key == v.key) {
            Some(o) => if v.ts >= o.ts { *o = *v; },
            None => out.push(*v),
        }
    }
    out.sort_by_key(|o| o.key);
    out
}
const OLD: [V; 3] = [V { key: 1, ts: 10, val: 100, del: false }, V { key: 3, ts: 10, val: 300, del: false }, V { key: 3, ts: 20, val: 301, del: false }];
fn filled(cap: usize) -> DynMem {
    let m = mem(cap);
    assert!(put(&m, &OLD[..2]).is_none());
    assert!(put(&m, &OLD[2..]).is_none());
    m
}
/// Writes in flight in the harnesses below.
fn new_writes(kind: u64) -> Vec<V> {
    match kind {
        0 => vec![up(1, 30, 101), up(2, 30, 200)],
        1 => vec![del(1, 30), del(3, 30)],
        2 => vec![up(3, 15, 399)],
        _ => vec![up(3, 30, 302)],
    }
}
/// A reader's result while `inflight` is being applied on top of `before`.
fn check_read(before: &[V], inflight: &[V], read: u64, got: &[V]) {
    for w in got.windows(2) { assert!(w[0].key < w[1].key, "keys out of order"); }
    for g in got {
        assert!(before.contains(g) | inflight.contains(g), "a reader saw a row nobody wrote");
        assert!(g.ts <= read, "a reader saw a version newer than its snapshot");
    }
    for b in view(before, read) {
        let ok = got.iter().any(|g| g.key == b.key && (*g == b || (inflight.contains(g) && g.ts >= b.ts)));
        assert!(ok, "a concurrent write hid a committed version");
    }
    if inflight.iter().all(|v| v.ts > read) { assert!(got == view(before, read).as_slice(), "a later write changed an older snapshot"); }
}
fn snapshots() -> u64 { sym_u64() }
/// A scan at any moment of an insert.
fn read_during_write() {
    let m = filled(4);
    let w = new_writes(choose(4));
    let read = snapshots();
    let mut got = Vec::new();
    let (r, inside) = race(|| put(&m, &w), || got = scan(&m, read));
    assert!(r.is_none());
    check_read(&OLD, &w, read, &got);
    let mut all = OLD.to_vec();
    all.extend(w);
    assert!(scan(&m, read) == view(&all, read), "an acknowledged write is not visible");
    if inside { cover(1); }
    if inside & (got.len() == 3) { cover(2); }
}
/// An insert at any moment of a scan.
fn write_during_read() {
    let m = filled(4);
    let w = new_writes(choose(4));
    let read = snapshots();
    let mut r = None;
    let (got, inside) = race(|| scan(&m, read), || r = put(&m, &w));
    assert!(r.is_none());
    check_read(&OLD, &w, read, &got);
    let mut all = OLD.to_vec();
    all.extend(w);
    assert!(scan(&m, 40) == view(&all, 40), "an acknowledged write is not visible");
    if inside { cover(1); }
}
/// Two writers: both writes end up in the table, or in what was sealed; nothing twice.
fn two_writers(cap: usize) {
    let m = filled(cap);
    let (a, b) = (new_writes(choose(3)), if flip() { vec![up(5, 40, 500)] } else { vec![del(3, 40)] });
    let mut rb = None;
    let (ra, inside) = race(|| put(&m, &a), || rb = put(&m, &b));
    if inside { cover(1); }
    if ra.is_some() { cover(2); }
    let mut all = OLD.to_vec();
    all.extend(a);
    all.extend(b);
    whole(&m, ra.iter().chain(rb.iter()), &all);
}
/// Every version is held exactly once across the active table and the sealed ones.
fn whole<'a>(m: &DynMem, sealed: impl Iterator<Item = &'a ImmutableMemTable>, all: &[V]) {
    let mut seen: Vec<(i64, u64, bool)> = Vec::new();
    for s in sealed { for e in s.row_iter() { seen.push((key_owned_i64(&e.key), e.commit_ts.get(), e.tombstone)); } }
    if let Some(s) = m.seal_now().expect("seal") {
        for e in s.row_iter() { seen.push((key_owned_i64(&e.key), e.commit_ts.get(), e.tombstone)); }
        let snap = scan_imm(&s, u64::MAX);
        for g in snap { assert!(all.contains(&g), "a sealed row differs from what was written"); }
    }
    assert!(seen.len() == all.len(), "a version was lost or duplicated");
    for v in all { assert!(seen.contains(&(v.key, v.ts, v.del)), "a version was lost"); }
}
/// A seal at any moment of a write.
fn seal_during_write(cap: usize) {
    let m = filled(cap);
    let w = new_writes(choose(3));
    let mut s = None;
    let (r, inside) = race(|| put(&m, &w), || s = m.seal_now().expect("seal"));
    if inside { cover(1); }
    let mut all = OLD.to_vec();
    all.extend(w);
    whole(&m, r.iter().chain(s.iter()), &all);
}
/// A write at any moment of a seal.
fn write_during_seal() {
    let m = filled(4);
    let w = new_writes(choose(3));
    let mut r = None;
    let (s, inside) = race(|| m.seal_now().expect("seal"), || r = put(&m, &w));
    if inside { cover(1); }
    let mut all = OLD.to_vec();
    all.extend(w);
    whole(&m, r.iter().chain(s.iter()), &all);
}
/// Conflict checks at any moment of a write are never wrong about what was committed before it.
fn conflict_during_write() {
    let m = filled(4);
    let w = new_writes(choose(4));
    let key = sym_i64();
    let at = snapshots();
    let mut got = false;
    let (_, inside) = race(|| put(&m, &w), || got = m.has_conflict(&KeyOwned::from(key), ts(at)));
    if inside { cover(1); }
    let old = OLD.iter().any(|v| v.key == key && v.ts > at);
    let new = w.iter().any(|v| v.key == key && v.ts > at);
    assert!(!old | got, "a committed newer version was missed by the conflict check");
    assert!(!got | old | new, "a conflict was reported without any newer version");
    assert!(m.has_conflict(&KeyOwned::from(key), ts(at)) == (old | new));
    let st = m.build_stats(None);
    if got { cover(2); }
    assert!(st.entries as u64 + st.replaces == st.inserts);
}
/// Statistics read at any moment are those of some moment in between.
fn stats_during_write() {
    let m = filled(4);
    let w = new_writes(choose(4));
    let mut got = None;
    let (_, inside) = race(|| put(&m, &w), || got = Some((m.build_stats(None), m.row_count(), m.commit_ts_bounds(), m.key_bounds())));
    if inside { cover(1); }
    let (s, n, tb, (lo, hi)) = got.expect("ran");
    assert!((n >= 3) & (n <= 3 + w.len()));
    assert!(s.inserts >= 3 && s.inserts <= 3 + w.len() as u64);
    let (t0, t1) = tb.expect("bounds");
    assert!(t0.get() == 10 && (t1.get() == 20 || t1.get() == 30));
    assert!(key_owned_i64(&lo.expect("min")) == 1 && key_owned_i64(&hi.expect("max")) == 3);
    assert!(m.row_count() == 3 + w.len());
}
crate::harness! {
    vh_race_read => read_during_write();
    vh_race_scan => write_during_read();
    vh_race_write => two_writers(4);
    vh_race_write_full => two_writers(2);
    vh_race_seal => seal_during_write(4);
    vh_race_seal_full => seal_during_write(2);
    vh_race_seal_write => write_during_seal();
    vh_race_conflict => conflict_during_write();
    vh_race_stats => stats_during_write();
}
