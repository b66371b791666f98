//! Transactions through the public log handle: rows and deletes survive to replay, as one unit.
use crate::verif::{prelude::*, util_data::*, util_env::*};
use super::{*, frame::WalEvent, replay::Replayer, storage::WalStorage, writer::spawn_writer};
use arrow_array::{Int32Array, Int64Array};
use fusio::{executor::Executor, fs::FileSystemTag};

fn cfg(max: usize, q: usize) -> WalConfig {
    WalConfig { dir: Path::parse("vfs/wal").unwrap(), segment_max_bytes: max, flush_interval: Duration::ZERO, sync: WalSyncPolicy::Always, queue_size: q, segment_backend: local_fs(), ..WalConfig::default() }
}
fn open(c: &WalConfig) -> WalHandle<VExec> {
    let st = WalStorage::new(c.segment_backend.clone(), c.dir.clone());
    let m = Arc::new(VExec::rw_lock(WalMetrics::default()));
    let (s, q, j) = spawn_writer(Arc::new(VExec), st, c.clone(), m.clone(), 0, 1).into_parts();
    WalHandle::from_parts(s, q, j, 1, m)
}
#[derive(Clone)]
enum Op { Begin(u64), Rows(u64, Vec<(i64, Option<i32>)>, u64), Dels(u64, Vec<i64>, u64), Commit(u64, u64), Abort(u64) }
fn rows_batch(r: &[(i64, Option<i32>)]) -> RecordBatch {
    let a: ArrayRef = Arc::new(Int64Array::from(r.iter().map(|x| x.0).collect::<Vec<_>>()));
    let b: ArrayRef = Arc::new(Int32Array::from(r.iter().map(|x| x.1).collect::<Vec<_>>()));
    RecordBatch::try_new(schema(), vec![a, b]).unwrap()
}
async fn submit(h: &WalHandle<VExec>, o: &Op) -> WalResult<WalTicket<VExec>> {
    match o {
        Op::Begin(i) => h.txn_begin(*i).await,
        Op::Rows(i, r, t) => h.txn_append(*i, &rows_batch(r), Timestamp::new(*t)).await,
        Op::Dels(i, k, t) => h.txn_append_delete(*i, delete_batch(k.clone(), vec![*t; k.len()])).await,
        Op::Commit(i, t) => h.txn_commit(*i, Timestamp::new(*t)).await,
        Op::Abort(i) => h.txn_abort(*i).await,
    }
}
fn is(o: &Op, e: &WalEvent) -> bool {
    match (o, e) {
        (Op::Begin(i), WalEvent::TxnBegin { provisional_id }) | (Op::Abort(i), WalEvent::TxnAbort { provisional_id }) => i == provisional_id,
        (Op::Commit(i, t), WalEvent::TxnCommit { provisional_id, commit_ts }) => all(&[i == provisional_id, *t == commit_ts.get()]),
        (Op::Rows(i, r, t), WalEvent::DynAppend { provisional_id, payload }) => {
            let b = &payload.batch;
            if b.num_rows() != r.len() { return false; }
            let a = b.column(0).as_any().downcast_ref::<Int64Array>().unwrap();
            let v = b.column(1).as_any().downcast_ref::<Int32Array>().unwrap();
            let mut c = vec![i == provisional_id, payload.commit_ts_hint.map(|x| x.get()) == Some(*t)];
            for (k, x) in r.iter().enumerate() { c.push(a.value(k) == x.0); match x.1 { Some(y) => { c.push(v.is_valid(k)); c.push(v.value(k) == y); } None => c.push(v.is_null(k)) } }
            all(&c)
        }
        (Op::Dels(i, k, t), WalEvent::DynDelete { provisional_id, payload }) => {
            let b = &payload.batch;
            if b.num_rows() != k.len() { return false; }
            let a = b.column(0).as_any().downcast_ref::<Int64Array>().unwrap();
            let mut c = vec![i == provisional_id, payload.commit_ts_hint.map(|x| x.get()) == Some(*t)];
            for (j, x) in k.iter().enumerate() { c.push(a.value(j) == *x); }
            all(&c)
        }
        _ => false,
    }
}
fn any_op(id: u64) -> Op {
    match choose(4) {
        0 => Op::Rows(id, vec![(sym_i64(), if flip() { Some(sym_i32()) } else { None })], sym_u64()),
        1 => Op::Dels(id, vec![sym_i64()], sym_u64()),
        2 => Op::Commit(id, sym_u64()),
        _ => if flip() { Op::Begin(id) } else { Op::Abort(id) },
    }
}
fn events(c: &WalConfig) -> Vec<WalEvent> { match block_on(Replayer::new(c.clone()).scan_with_floor(None)) { Ok(e) => e, Err(e) => panic!("replay fails: {e}") } }
/// Records of any kind through the handle, waiting for each or for all.
fn handle(n: usize, max: usize) {
    reset();
    let c = cfg(max, 4);
    let h = open(&c);
    let wait_each = flip();
    let mut ops = vec![];
    let mut tickets = vec![];
    let (mut last, mut bytes) = (0, 0);
    for _ in 0..n {
        let o = any_op(h.next_provisional_id());
        let Ok(t) = block_on(submit(&h, &o)) else { panic!("the log refuses a record") };
        ops.push(o);
        tickets.push(t);
        if wait_each || ops.len() == n {
            for t in tickets.drain(..) {
                let Ok(a) = block_on(t.durable()) else { panic!("a record is not acknowledged on a healthy disk") };
                assert!(a.first_seq > last && a.last_seq >= a.first_seq);
                last = a.last_seq;
                bytes += a.bytes_flushed;
            }
        }
    }
    // nothing is left in the queue, and the accounting matches the disk
    assert!(h.inner.queue_depth.load(Ordering::SeqCst) == 0, "acknowledged records still count as queued");
    let m = h.metrics();
    assert!(block_on(h.clone().shutdown()).is_ok());
    let disk: usize = names().iter().filter_map(|n| content(n)).map(|c| c.len()).sum();
    assert!(bytes == disk, "acknowledged bytes differ from what was written");
    assert!(block_on(async { fusio::executor::RwLock::read(&*m).await.bytes_written }) as usize == disk);
    let Err(_) = block_on(submit(&h, &ops[0])) else { panic!("a record is accepted after shutdown") };
    let ev = events(&c);
    assert!(ev.len() == n);
    for (o, e) in ops.iter().zip(&ev) { assert!(is(o, e), "a replayed record differs from the one written"); }
    cover(1);
}
/// One transaction (rows, deletes, commit), the machine stops anywhere: an acknowledged commit implies the whole transaction.
fn txn_crash(max: usize, coarse: bool) {
    reset();
    let c = cfg(max, 4);
    let h = open(&c);
    settle();
    with(|v| v.coarse = coarse);
    arm(true);
    let t0 = sym_u64();
    let ops = vec![Op::Rows(1, vec![(sym_i64(), Some(5))], t0), Op::Dels(1, vec![sym_i64()], t0), Op::Commit(1, t0)];
    let mut tickets = vec![];
    for o in &ops { if let Ok(t) = block_on(submit(&h, o)) { tickets.push(t); } }
    let mut acked = 0;
    for t in tickets { if block_on(t.durable()).is_ok() { acked += 1; } }
    arm(false);
    drop(h);
    reboot();
    let ev = events(&c);
    assert!(ev.len() >= acked && ev.len() <= 3, "an acknowledged record is lost");
    for (o, e) in ops.iter().zip(&ev) { assert!(is(o, e), "a replayed record differs from the one written"); }
    if ev.len() == 3 { cover(1); } else { cover(2); }
}
crate::harness! {
    vh_handle_ops => handle(2, 1 << 20);
    vh_handle_ops_rot => handle(2, 1);
    vh_txn_crash => txn_crash(1 << 20, true);
    vh_txn_crash_fine => txn_crash(1 << 20, false);
    vh_txn_crash_rot => txn_crash(1, true);
}
