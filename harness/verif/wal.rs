//! The write-ahead log as a whole: writer task, segments, rotation, recovery, replay, pruning.
use super::{prelude::*, util_env::*};
use std::{sync::Arc, time::Duration};
use fusio::{executor::{Executor, Instant, JoinHandle}, fs::FileSystemTag, path::Path};
use futures::{SinkExt, channel::oneshot};
use crate::{manifest::WalSegmentRef, mvcc::Timestamp, wal::{WalAck, WalCommand, WalConfig, WalResult, WalSnapshot, WalSyncPolicy, frame::{FrameHeader, FRAME_HEADER_SIZE, WalEvent}, manifest_ext, metrics::WalMetrics, replay::Replayer, state::{FsWalStateStore, WalStateHandle}, storage::WalStorage, writer::{WriterHandle, WriterMsg, spawn_writer}}};

pub(crate) fn cfg(sync: WalSyncPolicy, max: usize, state: bool) -> WalConfig {
    WalConfig { dir: Path::parse("vfs/wal").unwrap(), segment_max_bytes: max, flush_interval: Duration::ZERO, sync, queue_size: 8, segment_backend: local_fs(),
        state_store: if state { Some(Arc::new(FsWalStateStore::new(Arc::new(VFs(FileSystemTag::Local))))) } else { None }, ..WalConfig::default() }
}
fn policy(k: u64) -> WalSyncPolicy {
    match k { 0 => WalSyncPolicy::Always, 1 => WalSyncPolicy::IntervalBytes(50), 2 => WalSyncPolicy::IntervalTime(Duration::from_millis(5)), _ => WalSyncPolicy::Disabled }
}
pub(crate) struct W { h: WriterHandle<VExec> }
pub(crate) fn open(c: &WalConfig) -> W {
    let st = WalStorage::new(c.segment_backend.clone(), c.dir.clone());
    W { h: spawn_writer(Arc::new(VExec), st, c.clone(), Arc::new(VExec::rw_lock(WalMetrics::default())), 0, 1) }
}
pub(crate) type Ticket = oneshot::Receiver<WalResult<WalAck>>;
impl W {
    pub(crate) fn send(&self, command: WalCommand) -> Ticket {
        let (ack_tx, rx) = oneshot::channel();
        self.h.queue_depth.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let mut s = self.h.sender.clone();
        let _ = block_on(s.send(WriterMsg::Enqueue { _submission_seq: 0, command, enqueued_at: Instant::now(), ack_tx }));
        rx
    }
    pub(crate) fn append(&self, c: WalCommand) -> Option<WalAck> { wait(self.send(c)) }
    pub(crate) fn rotate(&self) -> bool {
        let (ack_tx, rx) = oneshot::channel();
        let mut s = self.h.sender.clone();
        let _ = block_on(s.send(WriterMsg::Rotate { ack_tx }));
        matches!(block_on(rx), Ok(Ok(())))
    }
    pub(crate) fn snapshot(&self) -> Option<WalSnapshot> {
        let (ack_tx, rx) = oneshot::channel();
        let mut s = self.h.sender.clone();
        let _ = block_on(s.send(WriterMsg::Snapshot { ack_tx }));
        block_on(rx).ok().and_then(|r| r.ok())
    }
    pub(crate) fn close(self) -> bool { let (mut s, _, j) = self.h.into_parts(); s.close_channel(); matches!(block_on(j.join()), Ok(Ok(()))) }
}
pub(crate) fn wait(t: Ticket) -> Option<WalAck> { match block_on(t) { Ok(Ok(a)) => Some(a), _ => None } }
/// A record: its kind, transaction and commit timestamp.
#[derive(Clone, Copy)]
pub(crate) struct Rec { kind: u64, id: u64, ts: u64 }
impl Rec {
    /// Any record; with `state` the commit timestamp is one of two values (it is printed into state.json).
    fn any(kinds: u64, state: bool) -> Rec { Rec { kind: if kinds > 1 { choose(kinds) } else { 0 }, id: sym_u64(), ts: if state { 7 } else { sym_u64() } } }
    fn cmd(&self) -> WalCommand {
        match self.kind {
            0 => WalCommand::TxnCommit { provisional_id: self.id, commit_ts: Timestamp::new(self.ts) },
            1 => WalCommand::TxnAbort { provisional_id: self.id },
            _ => WalCommand::TxnBegin { provisional_id: self.id },
        }
    }
    /// The event is this record.
    fn is(&self, e: &WalEvent) -> bool {
        match e {
            WalEvent::TxnCommit { provisional_id, commit_ts } => self.kind == 0 && all(&[*provisional_id == self.id, commit_ts.get() == self.ts]),
            WalEvent::TxnAbort { provisional_id } => self.kind == 1 && *provisional_id == self.id,
            WalEvent::TxnBegin { provisional_id } => self.kind == 2 && *provisional_id == self.id,
            _ => false,
        }
    }
}
pub(crate) fn replay_from(c: &WalConfig, f: Option<&WalSegmentRef>) -> Vec<WalEvent> {
    match block_on(Replayer::new(c.clone()).scan_with_floor(f)) { Ok(e) => e, Err(e) => panic!("replay fails: {e}") }
}
pub(crate) fn replay(c: &WalConfig) -> Vec<WalEvent> { replay_from(c, None) }
fn expect(ev: &[WalEvent], recs: &[Rec]) {
    assert!(ev.len() == recs.len(), "replay returns another number of records");
    for (e, r) in ev.iter().zip(recs) { assert!(r.is(e), "a replayed record differs from the one written"); }
}
/// (segment, frame sequence) of every frame on disk, in replay order; every byte belongs to a whole frame.
pub(crate) fn frames() -> Vec<(u64, u64)> {
    let mut r = vec![];
    for n in names() {
        let Some(s) = n.strip_prefix("vfs/wal/wal-").and_then(|x| x.strip_suffix(".tonwal")) else { continue };
        let seg: u64 = s.parse().unwrap();
        let d = content(&n).unwrap();
        let mut b = &d[..];
        while !b.is_empty() { let Ok((h, rest)) = FrameHeader::decode_from(b) else { panic!("the log holds bytes that are no frame") }; r.push((seg, h.seq)); b = rest; }
    }
    r
}
fn ascending(f: &[(u64, u64)]) { for p in f.windows(2) { assert!(p[0].1 < p[1].1, "frame sequences do not grow along the log"); } }

/// Records appended one by one or in bursts, with automatic and requested rotation and clean restarts.
fn order(n: usize, kinds: u64, pol: WalSyncPolicy, state: bool) {
    reset();
    with(|v| v.reversed = kinds == 1 && !state); // the disk lists files in no particular order
    let max = [1usize, 60, 1 << 20][choose(3) as usize];
    let c = cfg(pol, max, state);
    let mut w = Some(open(&c));
    let mut recs = vec![];
    let mut open_tickets: Vec<Ticket> = vec![];
    let mut last = 0u64;
    for i in 0..n {
        let r = Rec::any(kinds, state);
        recs.push(r);
        open_tickets.push(w.as_ref().unwrap().send(r.cmd()));
        let act = if i + 1 < n { choose(4) } else { 1 };
        if act == 0 { continue; } // leave it queued: the next one joins the batch
        for t in open_tickets.drain(..) {
            let Some(a) = wait(t) else { panic!("an append fails on a healthy disk") };
            assert!(a.first_seq == a.last_seq && a.first_seq > last, "acknowledged frame sequences do not grow");
            last = a.first_seq;
        }
        if act == 2 { assert!(w.as_ref().unwrap().rotate()); cover(2); }
        if act == 3 { assert!(w.take().unwrap().close()); w = Some(open(&c)); cover(3); }
    }
    let s = w.as_ref().unwrap().snapshot().expect("snapshot");
    let f = frames();
    assert!(f.len() == n);
    ascending(&f);
    assert!(f[n - 1].1 == last);
    // the writer's view of the segments is what the disk holds
    let mut seen = vec![];
    for b in s.iter() {
        let mine: Vec<u64> = f.iter().filter(|x| x.0 == b.seq).map(|x| x.1).collect();
        assert!(mine.first() == Some(&b.first_frame) && mine.last() == Some(&b.last_frame), "reported segment bounds are wrong");
        seen.push(b.seq);
    }
    for x in &f { assert!(seen.contains(&x.0), "a segment holding frames is not reported"); }
    assert!(w.unwrap().close());
    expect(&replay(&c), &recs);
    if f[0].0 != f[n - 1].0 { cover(4); }
    cover(1);
}
/// More records queued at once than the writer takes in one go (64), with one arbitrary record anywhere among them.
fn many(n: usize) {
    reset();
    let max = [1000usize, 1 << 20][choose(2) as usize];
    let mut c = cfg(policy(choose(2)), max, false);
    c.queue_size = 2 * n;
    let w = open(&c);
    let at = [0usize, 63, 64, n - 1][choose(4) as usize];
    let recs: Vec<Rec> = (0..n).map(|i| if i == at { Rec::any(3, false) } else { Rec { kind: i as u64 % 3, id: i as u64, ts: i as u64 } }).collect();
    let ts: Vec<Ticket> = recs.iter().map(|r| w.send(r.cmd())).collect();
    let mut last = 0;
    for t in ts {
        let Some(a) = wait(t) else { panic!("an append fails on a healthy disk") };
        assert!(a.first_seq == a.last_seq && a.first_seq > last, "acknowledged frame sequences do not grow");
        last = a.first_seq;
    }
    assert!(w.close());
    let f = frames();
    ascending(&f);
    expect(&replay(&c), &recs);
    if f[0].0 != f[n - 1].0 { cover(2); } else { cover(1); }
}
/// Synchronous durability: the machine stops anywhere, possibly again during recovery.
fn crash(n: usize, max: usize, state: bool, twice: bool) {
    reset();
    with(|v| v.reversed = max == 1);
    let c = cfg(WalSyncPolicy::Always, max, state);
    let w = open(&c);
    arm(true);
    let mut recs = vec![];
    let mut acked = 0;
    for _ in 0..n {
        let r = Rec::any(1, state);
        recs.push(r);
        if w.append(r.cmd()).is_some() { acked = recs.len(); } else { assert!(dead(), "an append fails on a healthy disk"); break; }
    }
    arm(false);
    drop(w);
    reboot();
    if twice {
        // recovery itself is interrupted
        arm(true);
        let w = open(&c);
        settle();
        if dead() { cover(5); }
        drop(w);
        reboot();
    }
    let ev = replay(&c);
    assert!(ev.len() >= acked, "an acknowledged record is lost");
    assert!(ev.len() <= recs.len());
    expect(&ev, &recs[..ev.len()]);
    let kept = ev.len();
    if kept > acked { cover(2); }
    if acked > 0 && kept < recs.len() { cover(3); }
    // life goes on: recovery keeps what replay showed, new records follow
    let mut all_recs = recs[..kept].to_vec();
    let w = open(&c);
    let r = Rec::any(1, state);
    all_recs.push(r);
    let Some(a) = w.append(r.cmd()) else { panic!("the log is unusable after recovery") };
    assert!(w.close());
    let f = frames();
    ascending(&f);
    assert!(f.len() == kept + 1 && f[kept].1 == a.first_seq);
    expect(&replay(&c), &all_recs);
    cover(1);
}

/// What each sync policy promises, when the machine stops after any of these steps.
fn sync_policy(n: usize, k: u64, max: usize) {
    reset();
    with(|v| v.coarse = n > 4);
    // a record takes 40 bytes
    let threshold = if k == 1 { [40usize, 50, 80][choose(3) as usize] } else { 0 };
    let c = cfg(if k == 1 { WalSyncPolicy::IntervalBytes(threshold) } else { policy(k) }, max, false);
    let w = open(&c);
    let mut recs = vec![];
    let mut now = 0u64; // milliseconds
    let mut acked: Vec<u64> = vec![]; // when each record was acknowledged
    let mut bursts: Vec<Ticket> = vec![];
    for i in 0..n {
        let r = Rec { kind: 0, id: i as u64 + 1, ts: 7 };
        recs.push(r);
        bursts.push(w.send(r.cmd()));
        if i + 1 < n && flip() { continue; }
        for t in bursts.drain(..) { assert!(wait(t).is_some()); acked.push(now); }
        let pause = if k == 2 { [0u64, 3, 6][choose(3) as usize] } else { 6 * choose(2) };
        if pause > 0 { block_on(fusio::executor::Timer::sleep(&VExec, Duration::from_millis(pause))); now += pause; cover(2); }
    }
    let aged = acked.iter().filter(|t| **t + 5 < now).count();
    let closed = flip();
    if closed { assert!(w.close()); } else { drop(w); }
    reboot();
    let ev = replay(&c);
    expect(&ev, &recs[..ev.len()]);
    let lost = recs.len() - ev.len();
    if lost > 0 { cover(3); }
    match k {
        0 => assert!(lost == 0, "an acknowledged record is lost although every append is synced"),
        1 => assert!(lost * 40 < threshold, "more unsynced bytes than the configured threshold"),
        2 => assert!(ev.len() >= aged, "a record older than the sync interval is lost"),
        _ => {}
    }
    if closed { assert!(lost == 0, "a record is lost although the log was shut down cleanly"); cover(4); }
    cover(1);
}
/// A modifying disk operation fails (an append possibly after half of its bytes).
fn fault(n: usize, max: usize) {
    reset();
    let c = cfg(WalSyncPolicy::Always, max, false);
    let w = open(&c);
    faulty(true);
    let mut recs = vec![];
    let mut acked = 0;
    for _ in 0..n {
        let r = Rec::any(1, false);
        recs.push(r);
        if w.append(r.cmd()).is_some() {
            assert!(acked + 1 == recs.len(), "a record is acknowledged after an earlier one failed");
            acked = recs.len();
        }
    }
    faulty(false);
    let clean = w.close();
    assert!(clean == (faults() == 0), "the writer hides a failed write");
    if acked < n { cover(2); }
    if flip() { reboot(); }
    let ev = replay(&c);
    assert!(ev.len() >= acked, "an acknowledged record is lost after a failed write");
    expect(&ev, &recs[..ev.len()]);
    let mut kept = recs[..ev.len()].to_vec();
    let w = open(&c);
    let r = Rec::any(1, false);
    kept.push(r);
    assert!(w.append(r.cmd()).is_some(), "the log is unusable after a failed write");
    assert!(w.close());
    ascending(&frames());
    expect(&replay(&c), &kept);
    cover(1);
}
/// A log of `n` records over symbolic segment boundaries; returns frame numbers with their segment.
fn layout(c: &WalConfig, n: usize) -> (Vec<Rec>, Vec<(u64, u64)>) {
    let w = open(c);
    let mut recs = vec![];
    for i in 0..n {
        let r = Rec::any(1, false);
        recs.push(r);
        assert!(w.append(r.cmd()).is_some());
        if i + 1 < n && flip() { assert!(w.rotate()); }
    }
    let f = frames();
    if flip() { assert!(w.rotate()); } // the active segment may be empty
    assert!(w.close());
    (recs, f)
}
/// Pruning below the floor derived from the live data never loses a live record.
fn prune(n: usize) {
    reset();
    let mut c = cfg(WalSyncPolicy::Always, 1 << 20, false);
    let (recs, f) = layout(&c, n);
    let live = choose(n as u64 + 2); // first frame still needed; 0: nothing known to be in memory
    // the floor the manifest already holds, never above live data (that is how it was chosen)
    let old = if flip() {
        let s = f[choose(n as u64) as usize].0;
        let first = f.iter().find(|x| x.0 == s).unwrap().1;
        let last = f.iter().rev().find(|x| x.0 == s).unwrap().1;
        Some(WalSegmentRef::new(s, crate::wal::wal_segment_file_id(s), first, last))
    } else { None };
    if let Some(o) = &old { assume(live == 0 || o.first_frame() <= live); }
    with(|v| v.reversed = true);
    let lf = if live == 0 { None } else { Some(live) };
    let refs = match block_on(manifest_ext::collect_wal_segment_refs(&c, old.as_ref(), lf)) { Ok(r) => r, Err(e) => panic!("collecting segment references fails: {e}") };
    for p in refs.windows(2) { assert!(p[0].seq() < p[1].seq(), "segment references are not in log order"); }
    for r in &refs {
        let mine: Vec<u64> = f.iter().filter(|x| x.0 == r.seq()).map(|x| x.1).collect();
        assert!(mine.first() == Some(&r.first_frame()) && mine.last() == Some(&r.last_frame()), "segment reference bounds are wrong");
        assert!(*r.file_id() == crate::wal::wal_segment_file_id(r.seq()));
    }
    // every segment with a live frame, and every segment newer than the recorded floor, stays referenced
    for x in &f {
        let need = (live != 0 && x.1 >= live) || old.as_ref().map_or(true, |o| x.0 > o.seq());
        if need { assert!(refs.iter().any(|r| r.seq() == x.0), "a needed segment is not referenced"); }
    }
    let before = names();
    let Some(floor) = refs.first() else { cover(4); return };
    c.prune_dry_run = true;
    let planned = block_on(manifest_ext::prune_wal_segments(&c, floor)).expect("dry run");
    assert!(names() == before, "a dry run removed something");
    c.prune_dry_run = false;
    let removed = block_on(manifest_ext::prune_wal_segments(&c, floor)).expect("prune");
    assert!(planned == removed && before.len() - names().len() == removed, "pruning misreports what it removed");
    if removed > 0 { cover(2); }
    let ev = replay_from(&c, Some(floor));
    // exactly the records from the floor on
    let from = f.iter().position(|x| x.0 == floor.seq()).unwrap();
    expect(&ev, &recs[from..]);
    if live != 0 && live <= n as u64 { assert!(from < live as usize, "a live record was pruned"); cover(3); }
    cover(1);
}
/// Replay above a floor inside a segment.
fn floor(n: usize) {
    reset();
    let c = cfg(WalSyncPolicy::Always, 1 << 20, false);
    let (recs, f) = layout(&c, n);
    let i = choose(n as u64) as usize;
    let s = f[i].0;
    let ff = sym_u64();
    let fl = WalSegmentRef::new(s, crate::wal::wal_segment_file_id(s), ff, ff);
    let ev = replay_from(&c, Some(&fl));
    // every frame of a later segment, and the frames of the floor segment at or above its first frame
    let mut k = 0;
    for (x, r) in f.iter().zip(&recs) {
        if x.0 > s || (x.0 == s && x.1 >= ff) { assert!(k < ev.len() && r.is(&ev[k]), "replay skips a record above the floor"); k += 1; }
    }
    assert!(k == ev.len(), "replay repeats a record below the floor");
    if k < n { cover(2); }
    cover(1);
}
/// Collecting segment references while the writer is in the middle of an append.
fn collect_live(n: usize) {
    reset();
    let c = cfg(WalSyncPolicy::Always, if flip() { 60 } else { 1 << 20 }, false);
    let w = open(&c);
    settle();
    with(|v| v.split = true);
    let mut recs = vec![];
    for _ in 0..n {
        let r = Rec::any(1, false);
        recs.push(r);
        let t = w.send(r.cmd());
        let k = choose(3);
        let a = block_on(async { for _ in 0..k { yield_now().await; } let _ = manifest_ext::collect_wal_segment_refs(&c, None, None).await; t.await });
        assert!(matches!(a, Ok(Ok(_))), "an append fails while segment references are collected");
        if k == 1 { cover(2); }
    }
    with(|v| v.split = false);
    assert!(w.close());
    ascending(&frames());
    expect(&replay(&c), &recs);
    cover(1);
}
/// The retention cap drops the oldest sealed segments, no more than needed, and never the active one.
fn retention(n: usize) {
    reset();
    let mut c = cfg(WalSyncPolicy::Always, 1, false);
    let limit = below(200) as usize;
    c.retention_bytes = Some(limit);
    let w = open(&c);
    let mut recs = vec![];
    for _ in 0..n { let r = Rec::any(1, false); recs.push(r); assert!(w.append(r.cmd()).is_some()); }
    if flip() { assert!(w.close()); let w = open(&c); let r = Rec::any(1, false); recs.push(r); assert!(w.append(r.cmd()).is_some()); assert!(w.close()); cover(3); } else { assert!(w.close()); }
    let f = frames();
    ascending(&f);
    let kept = f.len();
    expect(&replay(&c), &recs[recs.len() - kept..]);
    assert!(kept * 40 <= limit || kept == 0, "more is retained than the cap allows");
    if kept < recs.len() { assert!((kept + 1) * 40 > limit, "retention dropped a segment that fits under the cap"); cover(2); }
    cover(1);
}
/// A damaged byte is never replayed as data, and opening the log does not destroy its remains.
fn corrupt(n: usize) {
    reset();
    let c = cfg(WalSyncPolicy::Always, 1 << 20, false);
    let w = open(&c);
    for i in 0..n as u64 { assert!(w.append(WalCommand::TxnCommit { provisional_id: i + 1, commit_ts: Timestamp::new(1000 + i) }).is_some()); }
    assert!(w.close());
    let name = names()[0].clone();
    let mut d = content(&name).unwrap();
    assert!(d.len() == n * 40);
    // any byte of any frame except the header fields the checksum does not cover (type, sequence, length),
    // or the whole magic, version or checksum field replaced by any other value
    let fr = choose(n as u64) as usize;
    let (at, k) = match choose(4) { 0 => (0, 4), 1 => (4, 2), 2 => (20, 4), _ => { let o = choose(26) as usize; (if o < 6 { o } else { o - 6 + 20 }, 1) } };
    let mut differs = false;
    for b in &mut d[fr * 40 + at..fr * 40 + at + k] { let m = sym_u8(); differs = any(&[differs, m != 0]); *b ^= m; }
    assume(differs);
    put(&name, d.clone());
    assert!(block_on(Replayer::new(c.clone()).scan_with_floor(None)).is_err(), "a damaged frame is replayed");
    let w = open(&c);
    settle();
    assert!(w.append(WalCommand::TxnAbort { provisional_id: 1 }).is_none(), "the writer appends behind a damaged frame");
    assert!(content(&name).unwrap() == d, "opening a damaged log modifies it");
    cover(1);
}
fn load_state(c: &WalConfig) -> crate::wal::state::WalState {
    let Ok(h) = block_on(WalStateHandle::load(c.state_store.clone().unwrap(), &c.dir)) else { panic!("the state file is unreadable") };
    h.state().clone()
}
/// The described segments are exactly those on disk, with their bounds; returns the active one.
fn described(st: &crate::wal::state::WalState) -> u64 {
    let f = frames();
    let mut segs: Vec<u64> = names().iter().filter_map(|n| n.strip_prefix("vfs/wal/wal-").and_then(|x| x.strip_suffix(".tonwal")).map(|x| x.parse().unwrap())).collect();
    let active = segs.pop().unwrap();
    let b = |s: u64| { let m: Vec<u64> = f.iter().filter(|x| x.0 == s).map(|x| x.1).collect(); (s, m.first().copied(), m.last().copied()) };
    assert!(st.sealed_segments.len() == segs.len(), "sealed segments are missing or made up");
    for (x, s) in st.sealed_segments.iter().zip(&segs) { assert!((x.seq, Some(x.first_frame), Some(x.last_frame)) == b(*s), "the bounds of a sealed segment are wrong"); }
    match &st.active_segment { Some(x) => assert!((x.seq, Some(x.first_frame), Some(x.last_frame)) == b(active), "the bounds of the active segment are wrong"), None => assert!(b(active).1.is_none(), "the active segment is not described") }
    active
}
/// The persisted description of the log agrees with the log.
fn state(n: usize, max: usize, crashes: bool) {
    reset();
    let mut c = cfg(WalSyncPolicy::Always, max, true);
    if flip() { c.retention_bytes = Some(100); }
    let mut w = Some(open(&c));
    if crashes { arm(true); }
    let (mut top_ts, mut top_frame) = (0u64, 0u64);
    let (mut tried_ts, mut sent) = (0u64, 0);
    for i in 0..n {
        // commit timestamps may reach the log out of order
        let ts = [3u64, 7, 12, 0][choose(4) as usize]; // 0: an abort
        sent += 1;
        tried_ts = tried_ts.max(ts);
        let Some(a) = w.as_ref().unwrap().append(if ts == 0 { WalCommand::TxnAbort { provisional_id: 1 } } else { WalCommand::TxnCommit { provisional_id: 1, commit_ts: Timestamp::new(ts) } }) else { assert!(crashes); break };
        if 0 < ts && ts < top_ts { cover(2); }
        top_ts = top_ts.max(ts);
        top_frame = a.last_seq;
        if i + 1 < n {
            let act = choose(3);
            if act == 1 && !w.as_ref().unwrap().rotate() { assert!(crashes); break; }
            if act == 2 { if !w.take().unwrap().close() { assert!(crashes); break; } w = Some(open(&c)); }
        }
    }
    if crashes { arm(false); if let Some(w) = w.take() { drop(w); } reboot(); }
    else {
        if flip() { assert!(w.as_ref().unwrap().rotate()); }
        assert!(w.take().unwrap().close());
    }
    if !crashes {
        let st = load_state(&c);
        assert!(st.last_commit_ts == if top_ts > 0 { Some(top_ts) } else { None }, "the recorded commit timestamp is not the highest one");
        assert!(st.last_frame_seq == Some(top_frame), "the recorded frame sequence is not the last one");
        let active = described(&st);
        if active > 0 { assert!(st.last_segment_seq == Some(active - 1), "the last sealed segment is wrong"); cover(3); }
    } else {
        // what a restarted log starts from: never behind anything acknowledged
        if names().iter().any(|n| n.ends_with("state.json")) {
            let st = load_state(&c);
            assert!(st.last_commit_ts.unwrap_or(0) >= top_ts && st.last_commit_ts.unwrap_or(0) <= tried_ts, "the recorded commit timestamp is behind an acknowledged commit");
            assert!(st.last_frame_seq.unwrap_or(0) >= top_frame && st.last_frame_seq.unwrap_or(0) <= sent, "the recorded frame sequence is behind an acknowledged frame");
            cover(3);
        } else { assert!(top_frame == 0, "the state file is missing"); }
        // and after the next clean run it agrees with the disk again, whatever the crash left
        let w = open(&c);
        assert!(w.append(WalCommand::TxnAbort { provisional_id: 2 }).is_some() && w.close());
        described(&load_state(&c));
    }
    cover(1);
}
/// Age-based rotation: a segment holding frames is sealed once it is old enough, whatever else is timed.
fn age(n: usize, pol: WalSyncPolicy) {
    reset();
    let mut c = cfg(pol, if flip() { 60 } else { 1 << 20 }, false);
    c.segment_max_age = Some(Duration::from_millis(20));
    let mut w = Some(open(&c));
    let mut recs = vec![];
    let mut last = 0;
    for i in 0..n {
        let r = Rec::any(1, false);
        recs.push(r);
        let Some(a) = w.as_ref().unwrap().append(r.cmd()) else { panic!("an append fails on a healthy disk") };
        assert!(a.first_seq > last);
        last = a.last_seq;
        match choose(4) {
            0 => {}
            1 => {
                block_on(fusio::executor::Timer::sleep(&VExec, Duration::from_millis(21)));
                settle();
                let s = w.as_ref().unwrap().snapshot().expect("snapshot");
                assert!(s.active_segment.is_none(), "a segment stays active beyond its maximum age");
                assert!(s.sealed_segments.last().map(|b| b.last_frame) == Some(last));
                cover(2);
            }
            2 => block_on(fusio::executor::Timer::sleep(&VExec, Duration::from_millis(7))),
            _ => if i + 1 < n { assert!(w.take().unwrap().close()); w = Some(open(&c)); cover(3); }
        }
    }
    assert!(w.unwrap().close());
    ascending(&frames());
    expect(&replay(&c), &recs);
    cover(1);
}
/// A log of many segments (their numbers have more than one digit), restarted once, listed by the disk in reverse.
fn long(n: usize) -> (WalConfig, Vec<Rec>, Vec<(u64, u64)>) {
    reset();
    with(|v| v.reversed = true);
    let c = cfg(WalSyncPolicy::Always, 1, false);
    let restart = [1usize, 9, 10, 11, n][choose(5) as usize];
    let mut w = open(&c);
    let recs: Vec<Rec> = (0..n).map(|i| if i == 9 { Rec::any(3, false) } else { Rec { kind: i as u64 % 3, id: i as u64, ts: 7 } }).collect();
    let mut last = 0;
    for (i, r) in recs.iter().enumerate() {
        if i == restart { assert!(w.close()); w = open(&c); cover(3); }
        let Some(a) = w.append(r.cmd()) else { panic!("an append fails on a healthy disk") };
        assert!(a.first_seq > last, "acknowledged frame sequences do not grow");
        last = a.first_seq;
    }
    assert!(w.close());
    let f = frames();
    ascending(&f);
    assert!(f.len() == n && f[n - 1].0 >= 10, "the log has many segments");
    expect(&replay(&c), &recs);
    cover(1);
    (c, recs, f)
}
/// Pruning a log of many segments.
fn prune_long(n: usize) {
    let (c, recs, f) = long(n);
    let live = [1u64, 2, 9, 10, 11, 12, n as u64][choose(7) as usize];
    let refs = match block_on(manifest_ext::collect_wal_segment_refs(&c, None, Some(live))) { Ok(r) => r, Err(e) => panic!("collecting segment references fails: {e}") };
    for p in refs.windows(2) { assert!(p[0].seq() < p[1].seq(), "segment references are not in log order"); }
    for x in &f { if x.1 >= live { assert!(refs.iter().any(|r| r.seq() == x.0), "a needed segment is not referenced"); } }
    let at = [0usize, refs.len() / 2, refs.len() - 1][choose(3) as usize];
    let floor = &refs[at];
    let removed = block_on(manifest_ext::prune_wal_segments(&c, floor)).expect("prune");
    let from = f.iter().position(|x| x.0 == floor.seq()).unwrap();
    assert!(removed == from, "pruning misreports what it removed");
    expect(&replay_from(&c, Some(floor)), &recs[from..]);
    expect(&replay(&c), &recs[from..]);
    if removed > 0 { cover(2); }
}
crate::harness! {
    vh_wal_long => { long(13); };
    vh_prune_long => prune_long(13);
    vh_wal_many => many(140);
    vh_wal_state => state(2, 1 << 20, false);
    vh_wal_state_rot => state(3, 60, false);
    vh_wal_state_crash => state(2, 60, true);
    vh_wal_age => age(2, policy(0));
    vh_wal_age_time => age(2, policy(2));
    vh_wal_order => order(3, 1, policy(0), false);
    vh_wal_order_s => order(3, 1, policy(choose(4)), true);
    vh_wal_order_k => order(2, 3, policy(1), false);
    vh_wal_order4 => order(4, 1, policy(0), false);
    vh_wal_crash4 => crash(4, 60, false, false);
    vh_wal_crash_twice3 => crash(3, 60, false, true);
    vh_wal_crash => crash(3, 1 << 20, false, false);
    vh_wal_crash_rot => crash(3, 1, false, false);
    vh_wal_crash_twice => crash(2, 1 << 20, false, true);
    vh_wal_crash_twice_rot => crash(2, 60, false, true);
    vh_wal_crash_state => crash(2, 60, true, false);
    vh_wal_sync_bytes => sync_policy(5, 1, 1 << 20);
    vh_wal_sync_bytes_rot => sync_policy(3, 1, 60);
    vh_wal_sync_time => sync_policy(4, 2, 1 << 20);
    vh_wal_sync_time_rot => sync_policy(3, 2, 60);
    vh_wal_sync_always => sync_policy(3, 0, 60);
    vh_wal_fault => fault(2, 1 << 20);
    vh_wal_fault_rot => fault(2, 1);
    vh_wal_prune => prune(3);
    vh_wal_floor => floor(3);
    vh_wal_collect_live => collect_live(2);
    vh_wal_retention => retention(3);
    vh_wal_corrupt => corrupt(2);
}
