//! WAL frame codec: every frame written can be read back exactly; nothing else is accepted.
use super::{prelude::*, util_data::*};
use std::sync::Arc;
use arrow_array::{Array, ArrayRef, BinaryArray, Int32Array, Int64Array, RecordBatch, UInt64Array};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use crate::{mvcc::Timestamp, wal::{DynBatchPayload, WalCommand}};
use crate::wal::frame::*;

fn frame_type(k: u64) -> FrameType {
    match k {
        0 => FrameType::TxnBegin,
        1 => FrameType::TxnAppend,
        2 => FrameType::TxnCommit,
        3 => FrameType::TxnAbort,
        4 => FrameType::SealMarker,
        _ => FrameType::TypedAppend,
    }
}
/// encode then decode any frame with payload <= 6 bytes followed by arbitrary trailing bytes.
fn frame_roundtrip() {
    let ty = frame_type(choose(6));
    let n = choose(7) as usize;
    let payload = sym_bytes(n);
    let seq = sym_u64();
    assume(seq != 0);
    let mut bytes = Frame::new(ty, payload.clone()).into_bytes(seq);
    assert!(bytes.len() == FRAME_HEADER_SIZE + n);
    let tail = sym_bytes(2);
    bytes.extend_from_slice(&tail);
    match FrameHeader::decode_from(&bytes[..FRAME_HEADER_SIZE + n]) {
        Ok((h, rest)) => {
            assert!(h.frame_type == ty);
            assert!(h.seq == seq);
            assert!(h.len as usize == n);
            assert!(rest.is_empty());
            cover(1);
        }
        Err(_) => panic!("a frame that was written is rejected"),
    }
    match FrameHeader::decode_from(&bytes) {
        Ok((h, rest)) => { assert!(h.seq == seq); assert!(rest == &tail[..]); cover(2); }
        Err(_) => panic!("a frame followed by more bytes is rejected"),
    }
}

/// Arbitrary bytes are accepted exactly when they start with a well-formed frame.
fn frame_accept(n: usize) {
    let cut = choose((FRAME_HEADER_SIZE + n + 1) as u64) as usize;
    let mut b = sym_bytes(FRAME_HEADER_SIZE + n);
    b.truncate(cut);
    let r = FrameHeader::decode_from(&b);
    if b.len() < FRAME_HEADER_SIZE { assert!(r.is_err(), "a truncated header is accepted"); return; }
    let u = |a: usize, k: usize| { let mut x = 0u64; for i in 0..k { x |= (b[a + i] as u64) << (8 * i); } x };
    let (len, seq) = (u(16, 4), u(8, 8));
    let fields = all(&[u(0, 4) == FRAME_MAGIC as u64, u(4, 2) == FRAME_VERSION as u64, u(6, 2) <= 5, seq != 0, len <= (b.len() - FRAME_HEADER_SIZE) as u64]);
    match r {
        Ok((h, rest)) => {
            assert!(fields, "a malformed header is accepted");
            let l = concrete(len) as usize;
            assert!(u(20, 4) as u32 == crc32c::crc32c(&b[FRAME_HEADER_SIZE..FRAME_HEADER_SIZE + l]), "a wrong checksum is accepted");
            assert!(h.seq == seq && h.len as u64 == len && h.frame_type.as_u16() as u64 == u(6, 2));
            assert!(rest.len() == b.len() - FRAME_HEADER_SIZE - l);
            cover(1);
        }
        Err(_) => {
            if fields {
                let l = concrete(len) as usize;
                assert!(u(20, 4) as u32 != crc32c::crc32c(&b[FRAME_HEADER_SIZE..FRAME_HEADER_SIZE + l]), "a well-formed frame is refused");
                cover(2);
            } else { cover(3); }
        }
    }
}
fn one(c: WalCommand) -> (FrameType, Vec<u8>) {
    let mut f = encode_command(c).expect("a valid record is refused");
    assert!(f.len() == 1);
    let f = f.pop().unwrap();
    (f.frame_type(), f.into_payload())
}
/// Begin, commit and abort records.
fn markers() {
    let (id, ts) = (sym_u64(), sym_u64());
    let k = choose(3);
    let c = match k { 0 => WalCommand::TxnBegin { provisional_id: id }, 1 => WalCommand::TxnCommit { provisional_id: id, commit_ts: Timestamp::new(ts) }, _ => WalCommand::TxnAbort { provisional_id: id } };
    let (t, p) = one(c);
    match decode_frame(t, &p) {
        Ok(WalEvent::TxnBegin { provisional_id }) => assert!(k == 0 && provisional_id == id),
        Ok(WalEvent::TxnCommit { provisional_id, commit_ts }) => assert!(k == 1 && provisional_id == id && commit_ts.get() == ts),
        Ok(WalEvent::TxnAbort { provisional_id }) => assert!(k == 2 && provisional_id == id),
        _ => panic!("a record reads back as another kind"),
    }
    // a payload of another length is refused
    let mut q = p.clone();
    if flip() { q.pop(); } else { q.push(sym_u8()); }
    assert!(decode_frame(t, &q).is_err(), "a record of the wrong length is accepted");
    cover(1);
}
fn rows_schema() -> SchemaRef {
    Arc::new(Schema::new(vec![Field::new("id", DataType::Int64, false), Field::new("v", DataType::Int32, true), Field::new("b", DataType::Binary, true)]))
}
struct Rows { ids: Vec<i64>, vs: Vec<Option<i32>>, bs: Vec<Option<Vec<u8>>> }
fn any_rows(n: usize) -> Rows {
    let mut r = Rows { ids: vec![], vs: vec![], bs: vec![] };
    for _ in 0..n {
        r.ids.push(sym_i64());
        r.vs.push(if flip() { Some(sym_i32()) } else { None });
        r.bs.push(match choose(3) { 0 => None, k => Some(sym_bytes(k as usize - 1)) });
    }
    r
}
fn to_batch(r: &Rows) -> RecordBatch {
    let a: ArrayRef = Arc::new(Int64Array::from(r.ids.clone()));
    let b: ArrayRef = Arc::new(Int32Array::from(r.vs.clone()));
    let c: ArrayRef = Arc::new(BinaryArray::from_iter(r.bs.iter().map(|x| x.as_deref())));
    RecordBatch::try_new(rows_schema(), vec![a, b, c]).unwrap()
}
fn same(b: &RecordBatch, r: &Rows) {
    let n = r.ids.len();
    assert!(b.num_rows() == n && b.num_columns() == 3 && b.schema() == rows_schema(), "rows or columns appear or disappear");
    let a = b.column(0).as_any().downcast_ref::<Int64Array>().unwrap();
    let v = b.column(1).as_any().downcast_ref::<Int32Array>().unwrap();
    let c = b.column(2).as_any().downcast_ref::<BinaryArray>().unwrap();
    for i in 0..n {
        assert!(a.value(i) == r.ids[i], "a key changes");
        match r.vs[i] { Some(x) => assert!(v.is_valid(i) && v.value(i) == x, "a value changes"), None => assert!(v.is_null(i), "a null appears as a value") }
        match &r.bs[i] { Some(x) => assert!(c.is_valid(i) && c.value(i) == &x[..], "a string changes"), None => assert!(c.is_null(i)) }
    }
}
/// Row records; the rows may be a slice of a larger batch.
fn append(n: usize) {
    let (id, ts) = (sym_u64(), sym_u64());
    let k = choose(n as u64 + 1) as usize;
    let skip = if k < n { choose(2) as usize } else { 0 };
    let mut r = any_rows(k + skip);
    let full = to_batch(&r);
    let b = if skip > 0 { cover(3); full.slice(skip, k) } else { full };
    for _ in 0..skip { r.ids.remove(0); r.vs.remove(0); r.bs.remove(0); }
    let col: ArrayRef = Arc::new(UInt64Array::from(vec![ts; k]));
    let (t, p) = one(WalCommand::TxnAppend { provisional_id: id, payload: DynBatchPayload::Row { batch: b, commit_ts_column: col } });
    let Ok(WalEvent::DynAppend { provisional_id, payload }) = decode_frame(t, &p) else { panic!("a row record reads back as another kind") };
    assert!(provisional_id == id);
    same(&payload.batch, &r);
    match payload.commit_ts_hint { Some(h) => assert!(k > 0 && h.get() == ts, "the commit timestamp changes"), None => assert!(k == 0, "the commit timestamp is lost") }
    let c = payload.commit_ts_column.as_any().downcast_ref::<UInt64Array>().unwrap();
    assert!(c.len() == k);
    for i in 0..k { assert!(c.value(i) == ts); }
    if k > 1 { cover(2); }
    cover(1);
}
/// Delete records.
fn deletes(n: usize) {
    let id = sym_u64();
    let k = choose(n as u64 + 1) as usize;
    let keys: Vec<i64> = (0..k).map(|_| sym_i64()).collect();
    let t0 = sym_u64();
    let tss: Vec<u64> = (0..k).map(|i| if i == 0 { t0 } else { sym_u64() }).collect();
    let (t, p) = one(WalCommand::TxnAppend { provisional_id: id, payload: DynBatchPayload::Delete { batch: delete_batch(keys.clone(), tss.clone()) } });
    let uniform = all(&tss.iter().map(|x| *x == t0).collect::<Vec<_>>());
    match decode_frame(t, &p) {
        Ok(WalEvent::DynDelete { provisional_id, payload }) => {
            assert!(uniform, "deletes of several commits pass as one");
            assert!(provisional_id == id && payload.batch.num_rows() == k && payload.batch.schema() == delete_schema());
            let a = payload.batch.column(0).as_any().downcast_ref::<Int64Array>().unwrap();
            for i in 0..k { assert!(a.value(i) == keys[i], "a deleted key changes"); }
            match payload.commit_ts_hint { Some(h) => assert!(k > 0 && h.get() == t0), None => assert!(k == 0) }
            cover(1);
        }
        Ok(_) => panic!("a delete record reads back as another kind"),
        Err(_) => { assert!(!uniform, "a delete record is refused"); cover(2); }
    }
}
/// Row records whose commit timestamps are not one timestamp per row are refused.
fn mixed() {
    let k = 1 + choose(2) as usize;
    let r = any_rows(k);
    let m = choose(4) as usize;
    let tss: Vec<u64> = (0..m).map(|_| sym_u64()).collect();
    let uniform = all(&tss.iter().map(|x| *x == tss[0]).collect::<Vec<_>>());
    let col: ArrayRef = Arc::new(UInt64Array::from(tss));
    let ok = encode_command(WalCommand::TxnAppend { provisional_id: 1, payload: DynBatchPayload::Row { batch: to_batch(&r), commit_ts_column: col } }).is_ok();
    assert!(ok == (m == k && uniform), "a row record with bad commit timestamps is accepted, or a good one refused");
    if ok { cover(1); } else { cover(2); }
}
/// Large records: many rows, payloads beyond 64 KiB, keys and values of many bytes.
fn big() {
    let n = 1100;
    let (id, ts) = (sym_u64(), 9u64);
    let width = [1usize, 300][choose(2) as usize];
    let r = Rows { ids: (0..n).map(|i| i as i64 - 500).collect(), vs: (0..n).map(|i| if i % 7 == 0 { None } else { Some(i as i32) }).collect(), bs: (0..n).map(|i| if i % 5 == 0 { None } else { Some(vec![i as u8; width]) }).collect() };
    let rows = flip();
    let c = if rows { DynBatchPayload::Row { batch: to_batch(&r), commit_ts_column: Arc::new(UInt64Array::from(vec![ts; n])) } } else { DynBatchPayload::Delete { batch: delete_batch(r.ids.clone(), vec![ts; n]) } };
    let mut fs = encode_command(WalCommand::TxnAppend { provisional_id: id, payload: c }).expect("a valid record is refused");
    assert!(fs.len() == 1);
    let f = fs.pop().unwrap();
    let (t, p) = (f.frame_type(), f.into_payload());
    let len = p.len();
    match decode_frame(t, &p) {
        Ok(WalEvent::DynAppend { provisional_id, payload }) if rows => { assert!(provisional_id == id && payload.commit_ts_hint.map(|t| t.get()) == Some(ts)); same(&payload.batch, &r); if len > 1 << 16 { cover(1); } }
        Ok(WalEvent::DynDelete { provisional_id, payload }) if !rows => {
            assert!(provisional_id == id && payload.commit_ts_hint.map(|t| t.get()) == Some(ts) && payload.batch.num_rows() == n);
            let a = payload.batch.column(0).as_any().downcast_ref::<Int64Array>().unwrap();
            for i in 0..n { assert!(a.value(i) == r.ids[i], "a deleted key changes"); }
            cover(2);
        }
        _ => panic!("a large record does not read back"),
    }
}
/// A large frame: header and checksum.
fn big_frame() {
    let n = [255usize, 256, 65_535, 65_536, 70_001][choose(5) as usize];
    let payload: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
    let mut b = Frame::new(FrameType::TxnAppend, payload.clone()).into_bytes(3);
    assert!(b.len() == FRAME_HEADER_SIZE + n);
    let Ok((h, rest)) = FrameHeader::decode_from(&b) else { panic!("a frame that was written is rejected") };
    assert!(h.len as usize == n && h.seq == 3 && rest.is_empty());
    // one damaged byte
    let at = FRAME_HEADER_SIZE + [0usize, n / 2, n - 1][choose(3) as usize];
    b[at] ^= 0x40;
    assert!(FrameHeader::decode_from(&b).is_err(), "a damaged frame is accepted");
    cover(1);
}
crate::harness! {
    vh_cmd_big => big();
    vh_frame_big => big_frame();
    vh_frame_roundtrip => frame_roundtrip();
    vh_frame_accept => frame_accept(3);
    vh_cmd_markers => markers();
    vh_cmd_append => append(2);
    vh_cmd_deletes => deletes(2);
    vh_cmd_mixed => mixed();
}
