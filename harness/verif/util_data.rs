//! Shared table shapes: `id: Int64` key, `v: Int32` value (nullable), delete batches `id, _commit_ts`.
use std::sync::Arc;
use arrow_array::{Array, ArrayRef, Int32Array, Int64Array, RecordBatch, UInt64Array};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use typed_arrow_dyn::{DynCell, DynRowRaw};
use crate::{extractor::{KeyProjection, projection_for_columns, projection_for_field}, inmem::mutable::memtable::DynMem, key::{KeyOwned, KeyRow}, mvcc::{MVCC_COMMIT_COL, Timestamp}};

pub(crate) fn schema() -> SchemaRef {
    Arc::new(Schema::new(vec![Field::new("id", DataType::Int64, false), Field::new("v", DataType::Int32, true)]))
}
pub(crate) fn key_schema() -> SchemaRef { Arc::new(Schema::new(vec![Field::new("id", DataType::Int64, false)])) }
pub(crate) fn delete_schema() -> SchemaRef {
    Arc::new(Schema::new(vec![Field::new("id", DataType::Int64, false), Field::new(MVCC_COMMIT_COL, DataType::UInt64, false)]))
}
pub(crate) fn extractor(s: &SchemaRef) -> Arc<dyn KeyProjection> { projection_for_field(s.clone(), 0).expect("extractor").into() }
pub(crate) fn delete_projection() -> Arc<dyn KeyProjection> { projection_for_columns(key_schema(), vec![0]).expect("delete projection").into() }
pub(crate) fn mem(cap: usize) -> DynMem {
    let s = schema();
    let ex = extractor(&s);
    DynMem::with_capacity(s, ex, delete_projection(), cap)
}
pub(crate) fn batch(s: &SchemaRef, keys: Vec<i64>, vals: Vec<i32>) -> RecordBatch {
    let a: ArrayRef = Arc::new(Int64Array::from(keys));
    let b: ArrayRef = Arc::new(Int32Array::from(vals));
    RecordBatch::try_new(s.clone(), vec![a, b]).expect("batch")
}
pub(crate) fn delete_batch(keys: Vec<i64>, ts: Vec<u64>) -> RecordBatch {
    let a: ArrayRef = Arc::new(Int64Array::from(keys));
    let b: ArrayRef = Arc::new(UInt64Array::from(ts));
    RecordBatch::try_new(delete_schema(), vec![a, b]).expect("delete batch")
}
pub(crate) fn i64_of(c: Option<&Option<DynCell>>) -> i64 { match c { Some(Some(DynCell::I64(x))) => *x, _ => panic!("key cell lost or of another type") } }
pub(crate) fn i32_of(c: Option<&Option<DynCell>>) -> i32 { match c { Some(Some(DynCell::I32(x))) => *x, _ => panic!("value cell lost or of another type") } }
/// The single i64 component of a key.
pub(crate) fn key_i64(k: &KeyRow) -> i64 { key_owned_i64(&k.to_owned()) }
pub(crate) fn key_owned_i64(k: &KeyOwned) -> i64 { assert!(k.len() == 1); i64_of(k.as_row().cells().first()) }
/// (id, v) of a materialised row.
pub(crate) fn row_kv(r: DynRowRaw) -> (i64, i32) {
    let o = r.into_owned().expect("row must be readable");
    (i64_of(o.0.first()), i32_of(o.0.get(1)))
}
pub(crate) fn ts(x: u64) -> Timestamp { Timestamp::new(x) }
