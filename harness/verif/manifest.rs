//! The table manifest on the virtual disk: publishing versions, time travel, conditional publishes,
//! crashes, concurrent publishers, and the table catalog.
use std::{future::Future, task::{Context, Poll, Waker}, time::Duration};
use fusio::{fs::FileSystemTag, path::Path};
use ulid::Ulid;
use super::{prelude::*, util_env::*};
use crate::{id::FileIdGenerator, manifest::{GcPlanState, ManifestError, SstEntry, TableDefinition, TableId, TableMeta, TonboManifest, VersionEdit, VersionState, WalSegmentRef, bootstrap::init_fs_manifest}, key::KeyOwned, mvcc::Timestamp, ondisk::sstable::{SsTableId, SsTableStats}};

type Man = TonboManifest<VFs, VExec>;
fn open() -> Man { block_on(init_fs_manifest(VFs(FileSystemTag::Local), &Path::parse("vfs/db").expect("path"), VExec)).expect("the manifest must open") }
fn def(name: &str) -> TableDefinition { TableDefinition { name: name.to_string(), schema_fingerprint: "f".to_string(), primary_key_columns: vec!["id".to_string()], retention: None, schema_version: 1 } }
fn entry(i: u64) -> SstEntry {
    let p = |s: &str| Path::parse(s).expect("path");
    if i != 2 { return SstEntry::new(SsTableId::new(i), None, None, p(["sst/0", "sst/1", "sst/2", "sst/3"][i as usize]), None); }
    let stats = SsTableStats { rows: 3, bytes: 1 << 40, tombstones: 1, min_key: Some(KeyOwned::from(-5i64)), max_key: Some(KeyOwned::from(1i64 << 62)), min_commit_ts: Some(Timestamp::new(0)), max_commit_ts: Some(Timestamp::new(u64::MAX)) };
    SstEntry::new(SsTableId::new(i), Some(stats), Some(vec![Ulid::from_parts(7, 2)]), p("sst/2"), Some(p("sst/2.del")))
}
fn same_entry(a: &SstEntry, b: &SstEntry) -> bool {
    a.sst_id() == b.sst_id() && a.data_path() == b.data_path() && a.delete_path() == b.delete_path() && a.wal_segments() == b.wal_segments() && match (a.stats(), b.stats()) {
        (None, None) => true,
        (Some(x), Some(y)) => x.rows == y.rows && x.bytes == y.bytes && x.tombstones == y.tombstones && x.min_key == y.min_key && x.max_key == y.max_key && x.min_commit_ts == y.min_commit_ts && x.max_commit_ts == y.max_commit_ts,
        _ => false,
    }
}
fn wal(s: &[(u64, u64)]) -> VersionEdit { VersionEdit::SetWalSegments { segments: s.iter().map(|(s, f)| WalSegmentRef::new(*s, Ulid::from_parts(7, *f as u128), 0, 3)).collect() } }

fn is_ref(a: &WalSegmentRef, b: (u64, u64)) -> bool { (a.seq() == b.0) & (*a.file_id() == Ulid::from_parts(7, b.1 as u128)) & (a.first_frame() == 0) & (a.last_frame() == 3) }
fn is_floor(a: Option<WalSegmentRef>, b: Option<(u64, u64)>) -> bool { match (a, b) { (Some(a), Some(b)) => is_ref(&a, b), (None, None) => true, _ => false } }
/// What a version must hold.
#[derive(Clone, PartialEq)]
struct Model { tables: Vec<(usize, u64)>, wal: Vec<(u64, u64)>, mark: Option<u64> }
impl Model {
    fn new() -> Self { Model { tables: vec![], wal: vec![], mark: None } }
    fn add(&mut self, l: usize, i: u64) { if !self.tables.contains(&(l, i)) { self.tables.push((l, i)); self.tables.sort(); } }
    /// Edit set `k`: the edits and whether they apply.
    fn edit(&mut self, k: u64) -> Option<Vec<VersionEdit>> {
        match k {
            0 => { self.add(0, 1); Some(vec![VersionEdit::AddSsts { level: 0, entries: vec![entry(1)] }]) }
            1 => { 
                self.add(0, 2);
                // two segments in either order
                let (a, b) = if flip() { (4, 9) } else { (9, 4) };
                let e = wal(&[(a, 1), (b, 2)]);
                self.wal = if a < b { vec![(a, 1), (b, 2)] } else { vec![(b, 2), (a, 1)] };
                Some(vec![VersionEdit::AddSsts { level: 0, entries: vec![entry(2)] }, e])
            }
            2 => { // move table 1 down
                if self.tables.iter().all(|t| t.0 != 0) { return None; }
                self.tables.retain(|t| *t != (0, 1)); self.add(1, 3); self.wal.truncate(1);
                Some(vec![VersionEdit::RemoveSsts { level: 0, sst_ids: vec![SsTableId::new(1)] }, VersionEdit::AddSsts { level: 1, entries: vec![entry(3)] }, wal(&self.wal)])
            }
            _ => { self.wal = vec![]; self.mark = Some(5); Some(vec![wal(&[]), VersionEdit::SetTombstoneWatermark { watermark: 5 }]) }
        }
    }
    fn is(&self, v: &VersionState) -> bool {
        let mut t: Vec<(usize, u64)> = vec![];
        for (l, b) in v.ssts().iter().enumerate() { for e in b {
            let i = e.sst_id().raw();
            assert!(same_entry(e, &entry(i)), "a table's record must be kept");
            t.push((l, i));
        } }
        t.sort();
        let w = v.wal_segments();
        t == self.tables && serde_json::to_value(v).expect("versions serialise")["tombstone_watermark"].as_u64() == self.mark && w.len() == self.wal.len() && w.iter().zip(&self.wal).all(|(a, b)| is_ref(a, *b)) && is_floor(v.cloned_wal_floor(), self.wal.first().copied())
    }
}
/// The published history of a table, oldest first.
type History = Vec<(Timestamp, Model)>;
/// A finished read or publish holds nothing that would keep others waiting.
fn no_leases() { assert!(names().iter().all(|n| !n.contains("/leases/")), "a finished operation must not leave a lease behind"); }
fn verify(m: &Man, t: TableId, h: &History) {
    let s = block_on(m.snapshot_latest(t)).expect("the table must be readable");
    assert!(s.head.last_manifest_txn == h.last().map(|x| x.0), "the head must point at the newest version");
    match (h.last(), &s.latest_version) {
        (None, None) => {}
        (Some((ts, md)), Some(v)) => assert!(v.commit_timestamp() == *ts && md.is(v), "the newest version must be what was published last"),
        _ => panic!("newest version missing or invented"),
    }
    let floor = h.last().and_then(|x| x.1.wal.first().copied());
    assert!(is_floor(s.head.wal_floor.clone(), floor), "the head's log floor");
    assert!(is_floor(block_on(m.wal_floor(t)).expect("floor readable"), floor), "the log floor must be the oldest referenced segment");
    let all = block_on(m.list_versions(t, 0)).expect("versions readable");
    assert!(all.len() == h.len(), "every published version must be listed, and nothing else");
    for (v, (ts, md)) in all.iter().zip(h.iter().rev()) { assert!(v.commit_timestamp() == *ts && md.is(v), "versions must be listed newest first and as published"); }
    if h.len() > 1 {
        let l = block_on(m.list_versions(t, 1)).expect("versions readable");
        assert!(l.len() == 1 && l[0].commit_timestamp() == h.last().unwrap().0, "a limited listing must hold the newest version");
        let (ts, md) = &h[0];
        let o = block_on(m.snapshot_at_version(t, *ts)).expect("old version readable").latest_version.expect("an old version must stay readable");
        assert!(o.commit_timestamp() == *ts && md.is(&o), "an old version must stay as published");
        cover(1);
    }
    let gone = block_on(m.snapshot_at_version(t, Timestamp::new(77))).expect("readable");
    assert!(gone.latest_version.is_none(), "a version that was never published must not exist");
}
fn conflict(e: &ManifestError) -> bool { matches!(e, ManifestError::CasConflict(_) | ManifestError::Backend(fusio_manifest::types::Error::PreconditionFailed)) }
fn publish(m: &Man, t: TableId, h: &mut History) {
    let mut md = h.last().map(|x| x.1.clone()).unwrap_or(Model::new());
    let k = choose(4);
    let (edits, ok) = match md.edit(k) { Some(e) => (e, true), None => (vec![VersionEdit::RemoveSsts { level: 0, sst_ids: vec![SsTableId::new(1)] }], false) };
    // unconditional, conditional on the head, conditional on another head
    let head = h.last().map(|x| x.0);
    let (r, stale) = match choose(3) {
        0 => (block_on(m.apply_version_edits(t, &edits)), false),
        1 => (block_on(m.apply_version_edits_cas(t, head, &edits)), false),
        _ => {
            let other = if head.is_none() || flip() { Some(Timestamp::new(head.map_or(0, |x| x.get()) + 1)) } else if h.len() > 1 { Some(h[h.len() - 2].0) } else { None };
            (block_on(m.apply_version_edits_cas(t, other, &edits)), true)
        }
    };
    if stale { assert!(matches!(&r, Err(ManifestError::CasConflict(_))), "a publish expecting another head must be refused"); cover(2); return; }
    if !ok {
        // removing tables from a level that holds none may be refused, and then changes nothing
        if r.is_err() { cover(3); return; }
    }
    let ts = r.expect("a publish must succeed");
    assert!(head.is_none_or(|x| x < ts), "version timestamps must grow");
    h.push((ts, md));
}
fn setup() -> (Man, TableId) {
    reset();
    let m = open();
    let t = block_on(m.register_table(&FileIdGenerator::new(), &def("t"))).expect("a table can be registered").table_id;
    (m, t)
}
fn ops(n: usize) {
    let (m, t) = setup();
    let mut h: History = vec![];
    verify(&m, t, &h);
    for _ in 0..n { publish(&m, t, &mut h); }
    verify(&m, t, &h);
    let again = open();
    verify(&again, t, &h);
    no_leases();
    assert!(block_on(m.apply_version_edits(t, &[])).is_err(), "an empty publish must be refused");
    verify(&again, t, &h);
    no_leases();
}
/// The machine stops at any step of a publish: afterwards the table is at the version before or the one
/// after, whole, and can be published to again.
fn crash(n: usize, late: bool) {
    let (m, t) = setup();
    let mut h: History = vec![];
    for i in 0..n { let mut md = h.last().map(|x| x.1.clone()).unwrap_or(Model::new()); let e = md.edit(i as u64).expect("applies"); let ts = block_on(m.apply_version_edits(t, &e)).expect("publish"); h.push((ts, md)); }
    let mut md = h.last().map(|x| x.1.clone()).unwrap_or(Model::new());
    let e = md.edit([0, 1, 2][n]).expect("applies");
    arm(true);
    let r = block_on(m.apply_version_edits(t, &e));
    arm(false);
    if r.is_ok() { cover(1); }
    drop(m);
    reboot();
    if late { advance(Duration::from_secs(600)); }
    let m = open();
    if late { block_on(async { VExec.sleep_ms(10_000).await }); }
    let s = block_on(m.snapshot_latest(t)).expect("the table must be readable after a crash");
    let new = match (&s.latest_version, h.last()) {
        (Some(v), Some((ts, _))) => v.commit_timestamp() != *ts,
        (Some(_), None) => true,
        (None, None) => false,
        (None, Some(_)) => panic!("a published version vanished"),
    };
    if let Ok(ts) = &r { assert!(new && s.latest_version.as_ref().unwrap().commit_timestamp() == *ts, "an acknowledged publish must survive"); }
    let pending = md.clone();
    if new { h.push((s.latest_version.as_ref().unwrap().commit_timestamp(), md)); } else { cover(3); }
    verify(&m, t, &h);
    if late {
        // the interrupted publish may still take effect, but only whole and before the next one
        let mut cur = h.last().map(|x| x.1.clone()).unwrap_or(Model::new());
        let ts = block_on(m.apply_version_edits(t, &cur.edit(3).expect("applies"))).expect("the table must accept publishes again");
        let all = block_on(m.list_versions(t, 0)).expect("versions readable");
        if !new && all.len() == h.len() + 2 {
            assert!(r.is_err());
            cur = pending.clone();
            let _ = cur.edit(3);
            h.push((all[1].commit_timestamp(), pending));
            cover(2);
        }
        assert!(h.iter().all(|x| x.0 < ts), "version timestamps must grow");
        h.push((ts, cur));
        verify(&m, t, &h);
    }
}
/// Poll `f` until it is set aside or done.
fn advance_until_pending<F: Future>(f: std::pin::Pin<&mut F>) -> Option<F::Output> {
    let mut cx = Context::from_waker(Waker::noop());
    match f.poll(&mut cx) { Poll::Ready(x) => Some(x), Poll::Pending => None }
}
/// Another process publishes at any point during a publish: every acknowledged publish takes effect,
/// in the order of the version timestamps, and a refused one has no effect.
fn race(cas: bool, rival_cas: bool) {
    let (a, t) = setup();
    let b = open();
    let mut h: History = vec![];
    if flip() { let mut md = Model::new(); let e = md.edit(0).expect("applies"); let ts = block_on(a.apply_version_edits(t, &e)).expect("publish"); h.push((ts, md)); cover(5); }
    let base = h.last().map(|x| x.1.clone()).unwrap_or(Model::new());
    let head = h.last().map(|x| x.0);
    let (mut ma, mut mb) = (base.clone(), base.clone());
    let ea = ma.edit(1).expect("applies");
    let eb = mb.edit(0).expect("applies");
    let eb = if head.is_some() { mb = base.clone(); mb.edit(3).expect("applies") } else { eb };
    preemptible(1);
    let (mut ra, mut rb) = (None, None);
    {
        let fa = async { if cas { a.apply_version_edits_cas(t, head, &ea).await } else { a.apply_version_edits(t, &ea).await } };
        let mut fa = std::pin::pin!(fa);
        if let Some(r) = advance_until_pending(fa.as_mut()) { ra = Some(r); }
        preemptible(0);
        rb = Some(block_on(async { if rival_cas { b.apply_version_edits_cas(t, head, &eb).await } else { b.apply_version_edits(t, &eb).await } }));
        if ra.is_none() { ra = Some(block_on(fa)); cover(6); }
    }
    let (ra, rb) = (ra.unwrap(), rb.unwrap());
    for r in [&ra, &rb] { if let Err(e) = r { assert!(conflict(e), "a lost race must be reported as a conflict"); } }
    assert!(ra.is_ok() || rb.is_ok(), "one of two publishes must succeed");
    match (&ra, &rb) {
        (Ok(x), Err(_)) => { h.push((*x, ma)); cover(1); }
        (Err(_), Ok(x)) => { h.push((*x, mb)); cover(2); }
        (Ok(x), Ok(y)) => {
            assert!(x != y, "two versions must not share a timestamp");
            assert!(!(cas && rival_cas), "of two publishes expecting the same head only one may succeed");
            assert!(!(cas && x > y) && !(rival_cas && y > x), "a publish expecting an older head must be refused");
            let mut both = if x < y { ma.clone() } else { mb.clone() };
            // the later one builds on the earlier one
            if x < y { if head.is_some() { both.wal = vec![]; both.mark = mb.mark; } else { both.add(0, 1); } h.push((*x, ma)); h.push((*y, both)); cover(3); }
            else { both.add(0, 2); both.wal = ma.wal.clone(); h.push((*y, mb)); h.push((*x, both)); cover(4); }
        }
        _ => unreachable!(),
    }
    verify(&a, t, &h);
    verify(&b, t, &h);
    no_leases();
}
/// One disk error at any step of a publish that is reported or overcome; then everything is as acknowledged.
fn fault() {
    let (m, t) = setup();
    let mut h: History = vec![];
    { let mut md = Model::new(); let e = md.edit(0).expect("applies"); let ts = block_on(m.apply_version_edits(t, &e)).expect("publish"); h.push((ts, md)); }
    let mut md = h[0].1.clone();
    let e = md.edit(1).expect("applies");
    faulty(true);
    let r = block_on(m.apply_version_edits(t, &e));
    faulty(false);
    match r { Ok(ts) => { h.push((ts, md)); if faults() > 0 { cover(1); } } Err(_) => { cover(2); } }
    verify(&m, t, &h);
    verify(&open(), t, &h);
}
// ---- catalog ---------------------------------------------------------------------------------------
/// Any variation of a table definition.
fn vary(d: &mut TableDefinition) -> bool {
    let c = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    match choose(9) {
        0 => return false,
        1 => d.schema_fingerprint = "g".to_string(),
        2 => d.primary_key_columns = c(&["id", "v", "w"]),
        3 => d.primary_key_columns = c(&["id"]),
        4 => d.primary_key_columns = c(&["v", "id"]),
        5 => d.schema_version = 1 + 1 + choose(2) as u32,
        6 => d.retention = if d.retention.is_none() { Some(Default::default()) } else { None },
        7 => { let Some(r) = &mut d.retention else { return false }; if flip() { r.max_versions += 1; } else { r.max_ttl = Duration::from_secs(1); } }
        _ => d.schema_version = 0,
    }
    true
}
fn same(a: &TableMeta, b: &TableMeta) -> bool { a == b }
fn catalog() {
    reset();
    let ids = FileIdGenerator::new();
    let m = open();
    let (name, second) = [("t", ""), ("t", "T"), ("t", "tt"), ("tt", "t"), ("t", "t "), ("t", "u")][choose(6) as usize];
    let mut d = def(name);
    d.primary_key_columns.push("v".to_string());
    if second.is_empty() || second == "u" { d.retention = Some(Default::default()); }
    let a = block_on(m.register_table(&ids, &d)).expect("a table can be registered");
    assert!(a.name == d.name && a.schema_fingerprint == d.schema_fingerprint && a.primary_key_columns == d.primary_key_columns && a.schema_version == d.schema_version && a.retention == d.retention, "the catalog must record the definition");
    let mut h: History = vec![];
    if flip() { publish_edit(&m, a.table_id, &mut h, choose(2)); }
    // another table
    let b = if !second.is_empty() { let n = second; let b = block_on(m.register_table(&ids, &def(n))).expect("another table can be registered"); assert!(b.table_id != a.table_id, "tables must not share an identity"); assert!(b.name == n, "name"); cover(1); Some(b) } else { None };
    let m2 = if flip() { open() } else { m.clone() };
    // the same name again
    let mut d2 = d.clone();
    let differs = vary(&mut d2);
    match block_on(m2.register_table(&ids, &d2)) {
        Ok(x) => { assert!(!differs, "a table of another shape must be refused"); assert!(same(&x, &a), "registering again must find the same table"); cover(2); }
        Err(ManifestError::CatalogConflict(_)) => { assert!(differs, "a table of the same shape must be accepted"); cover(3); }
        Err(_) => panic!("a mismatch must be reported as a conflict"),
    }
    // nothing was disturbed
    verify(&m2, a.table_id, &h);
    let s = block_on(m2.snapshot_latest(a.table_id)).expect("readable");
    assert!(same(&s._table_meta, &a) && s.head.table_id == a.table_id && s.head.schema_version == 1, "table metadata must stay as registered");
    if let Some(b) = &b {
        let mut hb: History = vec![];
        verify(&m2, b.table_id, &hb);
        publish_edit(&m2, b.table_id, &mut hb, 0);
        verify(&m2, a.table_id, &h);
        verify(&m2, b.table_id, &hb);
        publish_edit(&m2, a.table_id, &mut h, 3);
        verify(&m2, b.table_id, &hb);
        assert!(same(&block_on(m2.snapshot_latest(b.table_id)).expect("readable")._table_meta, b), "table metadata must stay as registered");
    }
    let other = TableId::from(Ulid::from_parts(3, 3));
    assert!(block_on(m2.snapshot_latest(other)).is_err(), "an unknown table must not be readable");
    assert!(block_on(m2.apply_version_edits(other, &[wal(&[])])).is_err(), "an unknown table must not accept versions");
    let s = block_on(m2.snapshot_latest_with_fallback(a.table_id, &a)).expect("readable");
    assert!(same(&s._table_meta, &a) && s.latest_version.as_ref().map(|v| v.commit_timestamp()) == h.last().map(|x| x.0), "the tolerant read must agree");
    block_on(m2.record_gc_plan(a.table_id, GcPlanState::default())).expect("a deletion plan can be recorded");
    verify(&m2, a.table_id, &h);
    no_leases();
}
fn publish_edit(m: &Man, t: TableId, h: &mut History, k: u64) {
    let mut md = h.last().map(|x| x.1.clone()).unwrap_or(Model::new());
    let e = md.edit(k).expect("applies");
    let ts = block_on(m.apply_version_edits(t, &e)).expect("publish");
    h.push((ts, md));
}
/// The machine stops at any step of a registration: registering again completes it.
fn catalog_crash() {
    reset();
    let ids = FileIdGenerator::new();
    let m = open();
    let first = block_on(m.register_table(&ids, &def("s"))).expect("register");
    arm(true);
    let r = block_on(m.register_table(&ids, &def("t")));
    arm(false);
    if r.is_ok() { cover(1); } else { cover(2); }
    reboot();
    advance(Duration::from_secs(600));
    let m = open();
    block_on(async { VExec.sleep_ms(10_000).await });
    let x = block_on(m.register_table(&ids, &def("t"))).expect("registering again must succeed");
    if let Ok(r) = r { assert!(same(&x, &r), "an acknowledged table must keep its identity"); }
    assert!(x.table_id != first.table_id, "tables must not share an identity");
    assert!(same(&block_on(m.register_table(&ids, &def("t"))).expect("again"), &x), "the identity must be stable");
    assert!(same(&block_on(m.register_table(&ids, &def("s"))).expect("again"), &first), "other tables must keep their identity");
    verify(&m, x.table_id, &vec![]);
    let mut h: History = vec![];
    publish_edit(&m, x.table_id, &mut h, 1);
    verify(&m, x.table_id, &h);
    verify(&m, first.table_id, &vec![]);
}
/// Two processes register the same new table at once: they agree on one identity.
fn catalog_race() {
    reset();
    let (ia, ib) = (FileIdGenerator::new(), FileIdGenerator::new());
    let a = open();
    let b = open();
    preemptible(1);
    let (da, db) = (def("t"), def("t"));
    let fa = a.register_table(&ia, &da);
    let mut fa = std::pin::pin!(fa);
    let mut ra = advance_until_pending(fa.as_mut());
    preemptible(0);
    advance(Duration::from_millis(5));
    let rb = block_on(b.register_table(&ib, &db));
    if ra.is_none() { ra = Some(block_on(fa)); cover(3); }
    let ra = ra.unwrap();
    for r in [&ra, &rb] { if let Err(e) = r { assert!(conflict(e), "a lost race must be reported as a conflict"); } }
    if let (Ok(x), Ok(y)) = (&ra, &rb) { assert!(same(x, y), "two registrations of a table must agree"); cover(1); } else { cover(2); }
    let x = block_on(a.register_table(&ia, &da)).expect("registering again must succeed");
    for r in [ra, rb].into_iter().flatten() { assert!(same(&r, &x), "an acknowledged table must keep its identity"); }
    assert!(same(&block_on(b.register_table(&ib, &db)).expect("again"), &x), "two registrations of a table must agree");
    verify(&b, x.table_id, &vec![]);
    no_leases();
}
/// A long history: every version stays readable, listings of any length are the newest ones.
fn long(n: u64) {
    let (m, t) = setup();
    let mut h: Vec<(Timestamp, u64)> = vec![];
    let jump = [3u64, 9, 10][choose(3) as usize];
    let mut man = m;
    for i in 0..n {
        if i == jump { man = open(); }
        let ts = block_on(man.apply_version_edits(t, &[VersionEdit::AddSsts { level: (i % 3) as u32, entries: vec![SstEntry::new(SsTableId::new(i + 1), None, None, Path::parse("sst/x").expect("path"), None)] }])).expect("publish");
        assert!(h.last().is_none_or(|x| x.0 < ts), "version timestamps must grow");
        h.push((ts, i + 1));
    }
    let count = |v: &VersionState| v.ssts().iter().map(|l| l.len() as u64).sum::<u64>();
    let l = [0usize, 1, 9, 10, 11, n as usize, 100][choose(7) as usize];
    let got = block_on(man.list_versions(t, l)).expect("versions readable");
    let want = if l == 0 { n as usize } else { l.min(n as usize) };
    assert!(got.len() == want, "length of a version listing");
    for (v, (ts, k)) in got.iter().zip(h.iter().rev()) { assert!(v.commit_timestamp() == *ts && count(v) == *k, "versions must be listed newest first and as published"); }
    let i = [0usize, 8, 9, 10, n as usize - 1][choose(5) as usize];
    let o = block_on(man.snapshot_at_version(t, h[i].0)).expect("old version readable").latest_version.expect("an old version must stay readable");
    assert!(o.commit_timestamp() == h[i].0 && count(&o) == h[i].1, "an old version must stay as published");
    for (lvl, b) in o.ssts().iter().enumerate() { for e in b { assert!(e.sst_id().raw() <= h[i].1 && (e.sst_id().raw() - 1) % 3 == lvl as u64, "tables of an old version"); } }
    no_leases();
    cover(1);
}
crate::harness! {
    vh_man_many => long(13);
    vh_man_ops1 => ops(1);
    vh_man_ops2 => ops(2);
    vh_man_long => { let (m, t) = setup(); let mut h: History = vec![]; for k in [0, 1, 2] { publish_edit(&m, t, &mut h, k); } publish(&m, t, &mut h); verify(&open(), t, &h); no_leases(); };
    vh_man_ops3 => ops(3);
    vh_man_ops4 => ops(4);
    vh_man_crash0 => crash(0, false);
    vh_man_crash1 => crash(1, false);
    vh_man_crash2 => crash(2, false);
    vh_man_recover0 => crash(0, true);
    vh_man_recover1 => crash(1, true);
    vh_man_recover2 => crash(2, true);
    vh_man_race => race(false, false);
    vh_man_race_cas => race(true, false);
    vh_man_race_rival => race(false, true);
    vh_man_race_both => race(true, true);
    vh_man_fault => fault();
    vh_cat_ops => catalog();
    vh_cat_crash => catalog_crash();
    vh_cat_race => catalog_race();
}
