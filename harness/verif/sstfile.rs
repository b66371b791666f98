//! What stored files carry besides their rows: page indexes, key filters, row group sizes, compression;
//! and which files readers accept.
use std::sync::Arc;
use super::{prelude::*, util_data::*, util_env::*};
use arrow_array::{ArrayRef, Int64Array, Int32Array, RecordBatch, StringArray, UInt64Array};
use arrow_schema::{DataType, Field, Schema};
use fusio::path::Path;
use parquet::{basic::Compression, file::{metadata::{ColumnChunkMetaData, FileMetaData, ParquetMetaDataBuilder, RowGroupMetaData}, page_index::{column_index::ColumnIndexMetaData, offset_index::OffsetIndexMetaData}, properties::EnabledStatistics}, schema::types::{ColumnPath, SchemaDescriptor, Type}, standin};
use crate::{extractor::{KeyProjection, projection_for_columns}, inmem::mutable::memtable::DynMem, mvcc::Timestamp, ondisk::sstable::{SsTableBuilder, SsTableCompression, SsTableConfig, SsTableDescriptor, SsTableId, validate_page_indexes}};

/// Flush a table of rows and deletes with the given key columns and look at how its files were written.
fn properties() {
    reset();
    standin::reset();
    let s = Arc::new(Schema::new(vec![Field::new("id", DataType::Int64, false), Field::new("v", DataType::Int32, true), Field::new("name", DataType::Utf8, false)]));
    let (keys, names): (Vec<usize>, Vec<&str>) = match choose(3) { 0 => (vec![0], vec!["id"]), 1 => (vec![2], vec!["name"]), _ => (vec![2, 0], vec!["name", "id"]) };
    let ex: Arc<dyn KeyProjection> = projection_for_columns(s.clone(), keys.clone()).expect("key").into();
    let kf: Vec<Field> = keys.iter().map(|k| s.field(*k).clone()).collect();
    let kf2 = kf.clone();
    let del: Arc<dyn KeyProjection> = projection_for_columns(Arc::new(Schema::new(kf)), (0..keys.len()).collect()).expect("key").into();
    let m = DynMem::with_capacity(s.clone(), ex.clone(), del, 8);
    let b = RecordBatch::try_new(s.clone(), vec![Arc::new(Int64Array::from(vec![sym_i64()])), Arc::new(Int32Array::from(vec![Some(1)])), Arc::new(StringArray::from(vec!["a"]))]).expect("batch");
    m.insert_batch(b, Timestamp::new(3)).expect("insert");
    let deleting = flip();
    if deleting {
        let mut f = kf2.clone();
        f.push(Field::new("_commit_ts", DataType::UInt64, false));
        let mut cols: Vec<ArrayRef> = keys.iter().map(|k| -> ArrayRef { if *k == 0 { Arc::new(Int64Array::from(vec![7])) } else { Arc::new(StringArray::from(vec!["b"])) } }).collect();
        cols.push(Arc::new(UInt64Array::from(vec![4])));
        m.insert_delete_batch(RecordBatch::try_new(Arc::new(Schema::new(f)), cols).expect("deletes")).expect("delete");
    }
    let mut c = SsTableConfig::new(s.clone(), local_fs(), Path::from("sst")).with_key_extractor(ex);
    let rows = sym_u64();
    let given = flip();
    if given { c = c.with_max_row_group_rows(rows as usize); }
    // Zstd unless configured otherwise
    let zstd = match choose(3) { 0 => true, 1 => { c = c.with_compression(SsTableCompression::Zstd); true } _ => { c = c.with_compression(SsTableCompression::None); false } };
    let mut b = SsTableBuilder::new(Arc::new(c), SsTableDescriptor::new(SsTableId::new(1), 0));
    b.add_immutable(&m.seal_now().expect("seal").expect("nonempty")).expect("staged");
    block_on(b.finish(VExec)).expect("flush");
    let ps = standin::PROPS.lock().unwrap().clone();
    assert!(ps.len() == 1 + deleting as usize, "one file of rows, and one of deletes if there are any");
    let want = if given { if rows == 0 { 1 } else { rows as usize } } else { 1024 * 1024 };
    for (i, p) in ps.iter().enumerate() {
        assert!(p.max_row_group_size() == want, "row groups must have the configured size");
        for f in s.fields() {
            let col = ColumnPath::from(f.name().as_str());
            let key = names.contains(&f.name().as_str());
            if i == 1 && !key { continue; }
            assert!(p.statistics_enabled(&col) == EnabledStatistics::Page, "every column must carry page statistics");
            assert!(p.bloom_filter_properties(&col).is_some() == key, "exactly the key columns must carry a filter");
            match p.compression(&col) { Compression::UNCOMPRESSED => assert!(!zstd, "the configured compression must be used"), Compression::ZSTD(_) => assert!(zstd, "the configured compression must be used"), _ => panic!("the configured compression must be used") }
        }
        assert!(!p.offset_index_disabled(), "offset indexes must be written");
    }
    if deleting { cover(3); }
    cover(1);
    if zstd { cover(2); }
}
/// A file of `groups` row groups of `cols` columns whose page indexes are complete, or not.
fn indexes() {
    let groups = choose(3) as usize;
    let cols = 1 + choose(2) as usize;
    let fields = (0..cols).map(|i| Arc::new(Type::primitive_type_builder(["a", "b"][i], parquet::basic::Type::INT64).build().expect("type"))).collect();
    let sd = Arc::new(SchemaDescriptor::new(Arc::new(Type::group_type_builder("schema").with_fields(fields).build().expect("schema"))));
    let file = FileMetaData::new(1, groups as i64, None, None, sd.clone(), None);
    let rgs = (0..groups).map(|_| { let c = (0..cols).map(|i| ColumnChunkMetaData::builder(sd.column(i)).build().expect("chunk")).collect(); RowGroupMetaData::builder(sd.clone()).set_num_rows(1).set_column_metadata(c).build().expect("group") }).collect();
    // each index: absent, or for 0..=2 row groups 0..=2 columns each
    let mut fine = true;
    let shape = |fine: &mut bool| -> Option<Vec<usize>> {
        if flip() { *fine &= groups == 0; return None; }
        let n = choose(3) as usize;
        *fine &= n == groups;
        Some((0..n).map(|i| { let k = if i + 1 == n { choose(3) as usize } else { cols }; *fine &= k == cols; k }).collect())
    };
    let ci = shape(&mut fine);
    let oi = shape(&mut fine);
    let md = ParquetMetaDataBuilder::new(file).set_row_groups(rgs)
        .set_column_index(ci.map(|v| v.into_iter().map(|k| (0..k).map(|_| ColumnIndexMetaData::NONE).collect()).collect()))
        .set_offset_index(oi.map(|v| v.into_iter().map(|k| (0..k).map(|_| OffsetIndexMetaData { page_locations: vec![], unencoded_byte_array_data_bytes: None }).collect()).collect()))
        .build();
    let ok = validate_page_indexes(&Path::from("sst/1"), &md).is_ok();
    assert!(ok == fine, "a file is accepted exactly when its page indexes are complete");
    if ok { cover(1); if groups == 2 { cover(3); } } else { cover(2); }
}
crate::harness! {
    vh_file_props => properties();
    vh_file_indexes => indexes();
}
