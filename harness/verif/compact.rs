//! Version edits, compaction planning, compaction outcomes and what they allow to be deleted.
use std::collections::HashSet;
use fusio::path::Path;
use ulid::Ulid;
use super::prelude::*;
use super::util_data::*;
use crate::{compaction::{executor::CompactionOutcome, orchestrator::*, planner::*}, id::FileId, key::KeyOwned, manifest::{SstEntry, TableId, VersionEdit, VersionState, WalSegmentRef}, ondisk::sstable::{SsTableDescriptor, SsTableId, SsTableStats}};

fn table() -> TableId { TableId::from(Ulid::from_parts(1, 1)) }
fn fid(i: u64) -> FileId { Ulid::from_parts(7, i as u128) }
fn path(i: u64) -> Path { Path::parse(["sst/a", "sst/b", "sst/c", "sst/d", "sst/e", "sst/f", "sst/g", "sst/h", "sst/i", "sst/j"][i as usize]).expect("path") }
fn entry(i: u64, stats: Option<SsTableStats>, wal: Option<Vec<FileId>>) -> SstEntry { SstEntry::new(SsTableId::new(i), stats, wal, path(i), if i % 2 == 1 { Some(Path::parse("sst/del").expect("path")) } else { None }) }
/// Tables of a version as (level, id) bits: `m[level][id]`.
fn layout(v: &VersionState) -> [[u32; 8]; 3] {
    let mut m = [[0u32; 8]; 3];
    for (l, b) in v.ssts().iter().enumerate() { for e in b { m[l][e.sst_id().raw() as usize] += 1; } }
    m
}

// ---- version edits -------------------------------------------------------------------------------
fn edits(n: usize, together: bool) {
    let mut v = VersionState::empty(table());
    let mut m = [[0u32; 8]; 3];
    let mut wal: Vec<u64> = vec![];
    let mut batch = vec![];
    for _ in 0..n {
        match choose(14) {
            k @ 0..=11 => {
                let (add, level, ids) = (k < 6, (k % 6) / 3, (k % 3) + 1); // ids: bit 0 -> table 1, bit 1 -> table 2
                let ids: Vec<u64> = [1u64, 2].into_iter().filter(|i| ids & (1 << (i - 1)) != 0).collect();
                if add {
                    for i in &ids { m[level as usize][*i as usize] = 1; }
                    batch.push(VersionEdit::AddSsts { level: level as u32, entries: ids.iter().map(|i| entry(*i, None, None)).collect() });
                } else {
                    let held: u32 = m[level as usize].iter().sum();
                    for i in &ids { m[level as usize][*i as usize] = 0; }
                    batch.push(VersionEdit::RemoveSsts { level: level as u32, sst_ids: ids.iter().map(|i| SsTableId::new(*i)).collect() });
                    if held == 0 {
                        // nothing there: the edit may be refused, and then must not take effect for the caller
                        if v.clone().apply_edits(&batch).is_err() { cover(4); return; }
                    }
                }
            }
            12 => {
                wal = vec![sym_u64(), sym_u64()];
                batch.push(VersionEdit::SetWalSegments { segments: wal.iter().enumerate().map(|(i, s)| WalSegmentRef::new(*s, fid(i as u64), 0, 0)).collect() });
                cover(1);
            }
            _ => batch.push(VersionEdit::SetTombstoneWatermark { watermark: sym_u64() }),
        }
        if !together { v.apply_edits(&batch).expect("edits apply"); batch.clear(); }
    }
    if together { v.apply_edits(&batch).expect("edits apply"); }
    assert!(layout(&v) == m, "a version must hold exactly the tables its edits added and did not remove");
    let got: Vec<u64> = v.wal_segments().iter().map(|s| s.seq()).collect();
    assert!(got.len() == wal.len(), "WAL references");
    let floor = v.cloned_wal_floor().map(|f| f.seq());
    if wal.is_empty() { assert!(floor.is_none(), "no WAL references, no floor"); cover(2); } else {
        assert!(floor.is_some_and(|f| (f <= wal[0]) & (f <= wal[1]) & ((f == wal[0]) | (f == wal[1]))), "the WAL floor must be the oldest referenced segment");
        assert!(((got[0] == wal[0]) & (got[1] == wal[1])) | ((got[0] == wal[1]) & (got[1] == wal[0])), "every WAL reference must be kept");
        cover(3);
    }
}

// ---- planner -------------------------------------------------------------------------------------
struct F { level: usize, id: u64, min: i64, max: i64, bytes: usize, stats: bool }
/// Limits of a planner run: which are in force (the limits themselves are arbitrary).
#[derive(Clone, Copy, Default)]
struct Lim { bytes: bool, l0b: bool, lb: bool, tb: bool, optional_stats: bool, no_l0: bool }
fn planner(counts: &[usize], lim: Lim, min_level: usize) {
    let optional_stats = lim.optional_stats;
    let mut files = vec![];
    let mut eds = vec![];
    let mut id = 0;
    for (level, n) in counts.iter().enumerate() {
        let mut es = vec![];
        for _ in 0..*n {
            // byte limits are explored on tables with given keys, key overlap on tables with given sizes
            let (min, max, bytes) = if lim.bytes { let k = 10 * (id as i64 ^ 1); (k, k + 5, sym_u32() as usize) } else { (sym_i64(), sym_i64(), 7) };
            assume(min <= max);
            let has = !optional_stats || flip();
            let stats = has.then(|| SsTableStats { rows: 1, bytes, tombstones: 0, min_key: Some(min.into()), max_key: Some(max.into()), min_commit_ts: None, max_commit_ts: None });
            es.push(entry(id, stats, None));
            files.push(F { level, id, min, max, bytes: if has { bytes } else { 0 }, stats: has });
            id += 1;
        }
        eds.push(VersionEdit::AddSsts { level: level as u32, entries: es });
    }
    let mut v = VersionState::empty(table());
    v.apply_edits(&eds).expect("layout");
    let opt = |on: bool| if on { Some(sym_u32() as usize) } else { None };
    let (l0t, l0m, th, mi) = (if lim.no_l0 { 9 } else { sym_u8() as usize }, sym_u8() as usize, sym_u8() as usize, sym_u8() as usize);
    let (l0b, lb, tb) = (opt(lim.l0b), opt(lim.lb), opt(lim.tb));
    let cfg = LeveledPlannerConfig { l0_trigger: l0t, l0_max_inputs: l0m, l0_max_bytes: l0b, level_thresholds: vec![th], level_max_bytes: vec![lb], max_inputs_per_task: mi, max_task_bytes: tb };
    let p = CompactionStrategy::Leveled(cfg).build();
    let bytes = |l: usize| files.iter().filter(|f| f.level == l).map(|f| f.bytes).sum::<usize>();
    let due0 = counts[0] > 0 && (counts[0] >= l0t || l0b.is_some_and(|c| bytes(0) >= c));
    let due1 = counts.len() > 1 && counts[1] > 0 && (counts[1] > th || lb.is_some_and(|c| bytes(1) >= c));
    let task = plan_from_version_with_min_level(&p, &v, min_level);
    let due0 = due0 && min_level == 0;
    let due1 = due1 && min_level <= 1;
    let Some(t) = task else { assert!(!due0 && !due1, "a level over its limit must get a compaction"); cover(1); return };
    assert!(t.source_level >= min_level && t.target_level == t.source_level + 1, "a compaction moves tables one level down");
    assert!(if t.source_level == 0 { due0 } else { t.source_level == 1 && due1 && !due0 }, "only a level over its limit is compacted, upper levels first");
    let mut seen = [0u8; 10];
    let (mut nsrc, mut bsrc) = (0, 0);
    for i in &t.input {
        let f = files.iter().find(|f| f.id == i.sst_id.raw()).expect("input must exist");
        assert!(f.level == i.level && (i.level == t.source_level || i.level == t.target_level), "input must lie in the source or target level");
        seen[f.id as usize] += 1;
        assert!(seen[f.id as usize] == 1, "a table must be compacted once");
        if i.level == t.source_level { nsrc += 1; bsrc += f.bytes; }
    }
    let cap = if t.source_level == 0 { l0m } else { mi };
    assert!(nsrc >= 1 && nsrc <= cap.max(1), "input count limit");
    assert!(nsrc == 1 || tb.is_none_or(|c| bsrc <= c), "input byte limit");
    if let Some((lo, hi)) = &t.key_range {
        let (lo, hi) = (key_owned_i64(lo), key_owned_i64(hi));
        for i in &t.input {
            let f = &files[i.sst_id.raw() as usize];
            assert!(!f.stats | ((lo <= f.min) & (f.max <= hi)), "key range must cover every input");
        }
    }
    let src_known = t.input.iter().all(|i| i.level != t.source_level || files[i.sst_id.raw() as usize].stats);
    if t.source_level >= 1 && src_known {
        for g in files.iter().filter(|g| g.level == t.target_level && g.stats) {
            let mut hit = false;
            let (mut lo, mut hi) = (i64::MAX, i64::MIN);
            for i in t.input.iter().filter(|i| i.level == t.source_level) { let f = &files[i.sst_id.raw() as usize]; lo = lo.min(f.min); hi = hi.max(f.max); }
            hit |= (g.min <= hi) & (g.max >= lo);
            if hit { assert!(seen[g.id as usize] == 1, "overlapping tables of the target level must take part"); cover(2); }
        }
    }
    // inputs resolve to the recorded tables
    let d = resolve_inputs(&v, &t).expect("inputs resolve");
    assert!(d.len() == t.input.len(), "resolved inputs");
    for (x, i) in d.iter().zip(&t.input) { assert!(x.id() == &i.sst_id && x.level() == i.level && x.data_path() == Some(&path(i.sst_id.raw())), "resolved input"); }
    cover(3);
}

// ---- outcome, WAL references and garbage collection ----------------------------------------------
/// `ntab` live tables on two levels, three WAL files; each table references one WAL file, two, or has no record.
fn outcome(ntab: u64, nout: u64) {
    let refs = |c: u64| -> Option<Vec<u64>> { match c { 0 => None, 1 => Some(vec![0]), 2 => Some(vec![1]), 3 => Some(vec![2]), _ => Some(vec![0, 2]) } };
    let (s0, s1, s2) = (sym_u64(), sym_u64(), sym_u64());
    assume((s0 < s1) & (s1 < s2));
    let segs: Vec<WalSegmentRef> = [s0, s1, s2].iter().enumerate().map(|(i, s)| WalSegmentRef::new(*s, fid(i as u64), 0, 0)).collect();
    let mut live = vec![];
    let mut eds = vec![];
    for i in 0..ntab {
        let (level, r) = ((i % 2) as u32, refs(choose(5)));
        eds.push(VersionEdit::AddSsts { level, entries: vec![entry(i, None, r.clone().map(|v| v.into_iter().map(fid).collect()))] });
        live.push((level, i, r));
    }
    let has_wal = choose(2) == 1;
    if has_wal { eds.push(VersionEdit::SetWalSegments { segments: segs.clone() }); }
    let mut v = VersionState::empty(table());
    v.apply_edits(&eds).expect("layout");
    // compact a subset
    let mask = choose(1 << ntab);
    let task = CompactionTask { source_level: 0, target_level: 1, input: live.iter().filter(|t| mask & (1 << t.1) != 0).map(|t| CompactionInput { level: t.0 as usize, sst_id: SsTableId::new(t.1) }).collect(), key_range: None };
    let removed = resolve_inputs(&v, &task).expect("inputs resolve");
    let mut out = vec![];
    let mut newt = vec![];
    let mut top: Option<u64> = None;
    for j in 0..choose(nout + 1) {
        let (id, r, ts) = (ntab + j, refs(choose(5)), sym_u64());
        let stats = SsTableStats { rows: 1, max_commit_ts: Some(crate::mvcc::Timestamp::new(ts)), ..Default::default() };
        out.push(SsTableDescriptor::new(SsTableId::new(id), 1).with_stats(stats).with_wal_ids(r.clone().map(|v| v.into_iter().map(fid).collect())).with_storage_paths(path(id), None));
        newt.push((1u32, id, r));
        top = Some(top.map_or(ts, |t| t.max(ts)));
    }
    let existing = v.wal_segments().to_vec();
    let mut o = CompactionOutcome::from_outputs(out, removed, 1, None).expect("outcome");
    assert!(o.tombstone_watermark == top, "tombstone watermark must be the newest commit merged");
    reconcile_wal_segments(&v, &mut o, &existing, v.cloned_wal_floor());
    let gc = gc_plan_from_outcome(&o).expect("gc plan");
    let mut w = v.clone();
    w.apply_edits(&o.to_version_edits()).expect("edits apply");
    // tables: survivors and outputs, nothing else
    let mut m = [[0u32; 8]; 3];
    for t in &live { if mask & (1 << t.1) == 0 { m[t.0 as usize][t.1 as usize] = 1; } }
    for t in &newt { m[1][t.1 as usize] = 1; }
    assert!(layout(&w) == m, "after a compaction the version must hold the survivors and the outputs, nothing else");
    for b in w.ssts() { for e in b {
        let id = e.sst_id().raw();
        assert!(e.data_path() == &path(id), "a table must keep its file");
        let want = live.iter().chain(&newt).find(|t| t.1 == id).expect("known table").2.clone();
        assert!(e.wal_segments().map(|x| x.to_vec()) == want.map(|x| x.into_iter().map(fid).collect()), "a table must keep its WAL record");
    } }
    // WAL references
    let after: Vec<&WalSegmentRef> = w.wal_segments().iter().collect();
    let keep = live.iter().filter(|t| mask & (1 << t.1) == 0).chain(&newt);
    let mut unknown = false;
    let mut needed = HashSet::new();
    for t in keep { match &t.2 { None => unknown = true, Some(x) => needed.extend(x.iter().copied()) } }
    let gone: Vec<FileId> = gc.as_ref().map(|g| g.obsolete_wal_segments.iter().map(|s| *s.file_id()).collect()).unwrap_or_default();
    for i in 0..3u64 {
        if !has_wal { assert!(after.is_empty() && gone.is_empty(), "no WAL references appear from nowhere"); continue; }
        let kept = after.iter().any(|s| s.file_id() == &fid(i));
        let drop = gone.contains(&fid(i));
        assert!(kept != drop, "a WAL segment is either still referenced or up for deletion");
        if unknown || needed.contains(&i) { assert!(kept, "a WAL segment some table still needs must stay referenced"); cover(1); }
        if drop { cover(2); }
    }
    if let Some(f) = w.cloned_wal_floor() { for s in &after { assert!(f.seq() <= s.seq(), "the WAL floor must not pass a referenced segment"); } }
    // files to delete are exactly the compacted tables
    let dead: Vec<u64> = gc.as_ref().map(|g| g.obsolete_ssts.iter().map(|s| s.id.raw()).collect()).unwrap_or_default();
    for t in &live {
        let n = dead.iter().filter(|d| **d == t.1).count();
        assert!(n == (mask >> t.1 & 1) as usize, "exactly the compacted tables are up for deletion");
    }
    assert!(dead.iter().all(|d| *d < ntab), "an output must not be up for deletion");
    if let Some(g) = &gc { for s in &g.obsolete_ssts { assert!(s.data_path == path(s.id.raw()) && s.delete_path.is_some() == (s.id.raw() % 2 == 1), "deletion must name the table's own files"); cover(3); } }
}

crate::harness! {
    vh_edits2 => edits(2, false);
    vh_edits2t => edits(2, true);
    vh_edits3 => edits(3, false);
    vh_edits3t => edits(3, true);
    vh_plan_l0 => planner(&[3], Lim::default(), 0);
    vh_plan_l0b => planner(&[3], Lim { bytes: true, l0b: true, tb: true, ..Default::default() }, 0);
    vh_plan_l1 => planner(&[1, 2, 1], Lim::default(), choose(3) as usize);
    vh_plan_l1x => planner(&[0, 2, 2], Lim { no_l0: true, ..Default::default() }, 1);
    vh_plan_l1b => planner(&[1, 2, 1], Lim { bytes: true, lb: true, tb: true, ..Default::default() }, choose(3) as usize);
    vh_plan_stats => planner(&[1, 2, 1], Lim { optional_stats: true, ..Default::default() }, 0);
    vh_plan_big => planner(&[2, 3, 2], Lim { l0b: true, lb: true, tb: true, ..Default::default() }, choose(3) as usize);
    vh_outcome2 => outcome(2, 1);
    vh_outcome3 => outcome(3, 1);
    vh_outcome3x => outcome(3, 2);
}
