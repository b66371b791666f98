//! The parquet crate as the code under check sees it, except that writing and reading whole files go
//! through an abstract encoding: a file holds a magic number and the numbers of the record batches
//! written to it, which are kept aside.  What reaches the file system (when, through which writer, what a
//! failure leaves behind) is as with the real writer, which also buffers until it is closed.
pub use parquet_real::*;

pub mod standin {
    use std::sync::Mutex;
    use arrow_array::RecordBatch;
    use parquet_real::file::properties::WriterProperties;
    /// The properties each file was written with.
    pub static PROPS: Mutex<Vec<WriterProperties>> = Mutex::new(Vec::new());
    static BATCHES: Mutex<Vec<RecordBatch>> = Mutex::new(Vec::new());
    pub const MAGIC: &[u8] = b"PAR1";
    pub fn reset() { BATCHES.lock().unwrap().clear(); PROPS.lock().unwrap().clear(); }
    pub(crate) fn keep(b: &RecordBatch) -> u8 { let mut v = BATCHES.lock().unwrap(); v.push(b.clone()); (v.len() - 1) as u8 }
    /// The batches a complete file holds; `None` if it is not one.
    pub fn decode(bytes: &[u8]) -> Option<Vec<RecordBatch>> {
        let n = bytes.len();
        if n < 8 || &bytes[..4] != MAGIC || &bytes[n - 4..] != MAGIC { return None; }
        let v = BATCHES.lock().unwrap();
        Some(bytes[4..n - 4].iter().map(|i| v[*i as usize].clone()).collect())
    }
}
pub mod arrow {
    pub use parquet_real::arrow::*;
    pub use self::async_writer::AsyncArrowWriter;
    pub mod async_writer {
        pub use parquet_real::arrow::async_writer::*;
        use arrow_array::RecordBatch;
        use arrow_schema::SchemaRef;
        use parquet_real::{errors::ParquetError, file::properties::WriterProperties};
        pub struct AsyncArrowWriter<W> { to: W, schema: SchemaRef, ids: Vec<u8> }
        impl<W: AsyncFileWriter> AsyncArrowWriter<W> {
            pub fn try_new(to: W, schema: SchemaRef, props: Option<WriterProperties>) -> Result<Self, ParquetError> { crate::standin::PROPS.lock().unwrap().push(props.unwrap_or_default()); Ok(Self { to, schema, ids: Vec::new() }) }
            pub async fn write(&mut self, b: &RecordBatch) -> Result<(), ParquetError> {
                // as the real writer: same number of columns of the same types
                let (w, g) = (self.schema.fields(), b.schema());
                let g = g.fields();
                if w.len() != g.len() || w.iter().zip(g.iter()).any(|(x, y)| x.data_type() != y.data_type()) {
                    return Err(ParquetError::ArrowError("Record batch schema does not match writer schema".to_string()));
                }
                if b.num_rows() > 0 { self.ids.push(crate::standin::keep(b)); }
                Ok(())
            }
            pub async fn close(mut self) -> Result<(), ParquetError> {
                let mut out = crate::standin::MAGIC.to_vec();
                out.extend_from_slice(&self.ids);
                out.extend_from_slice(crate::standin::MAGIC);
                self.to.write(bytes::Bytes::from(out)).await?;
                self.to.complete().await
            }
        }
    }
    pub mod async_reader {
        pub use parquet_real::arrow::async_reader::*;
        use std::{collections::VecDeque, marker::PhantomData, pin::Pin, task::{Context, Poll}};
        use arrow_array::RecordBatch;
        use parquet_real::errors::ParquetError;
        /// Yields the given batches (or errors) in order.
        pub struct ParquetRecordBatchStream<T> { left: VecDeque<Result<RecordBatch, ParquetError>>, _t: PhantomData<fn() -> T> }
        impl<T> ParquetRecordBatchStream<T> { pub fn of(left: Vec<Result<RecordBatch, ParquetError>>) -> Self { Self { left: left.into(), _t: PhantomData } } }
        impl<T> futures::Stream for ParquetRecordBatchStream<T> {
            type Item = Result<RecordBatch, ParquetError>;
            fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> { Poll::Ready(self.left.pop_front()) }
        }
    }
}
