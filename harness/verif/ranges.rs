//! Ranged reads of a stored file through the public reader, with gaps on either side of the coalescing distance.
use std::ops::Range;
use fusio::fs::{FileSystemTag, Fs};
use parquet::arrow::async_reader::AsyncFileReader;
use crate::{ondisk::bloom::BatchedAsyncReader, verif::{prelude::*, util_env::*}};

fn far(n: usize) {
    const AT: [u64; 5] = [0, 2, 65536 + 1, 65536 + 2, 65536 + 3];
    reset();
    let len = 65536 + 8;
    let mut data: Vec<u8> = vec![0; len];
    let sym = sym_bytes(12);
    for i in 0..6 { data[i] = sym[i]; data[65536 + i] = sym[6 + i]; }
    put("vfs/f", data.clone());
    let asked: Vec<Range<u64>> = (0..n).map(|_| { let a = AT[choose(5) as usize]; a..a + choose(3) }).collect();
    let got = block_on(async {
        let f = match VFs(FileSystemTag::Local).open(&fusio::path::Path::parse("vfs/f").expect("path")).await { Ok(f) => f, Err(_) => panic!("open") };
        let mut r = match BatchedAsyncReader::new(Box::new(f), len as u64, VExec).await { Ok(r) => r, Err(_) => panic!("reader") };
        assert!(match r.get_byte_ranges(vec![]).await { Ok(b) => b.is_empty(), Err(_) => false }, "nothing asked, nothing returned");
        match r.get_byte_ranges(asked.clone()).await { Ok(b) => b, Err(_) => panic!("ranges of the file are refused") }
    });
    assert!(got.len() == n, "one result for each range");
    for (g, a) in got.iter().zip(&asked) { assert!(g.as_ref() == &data[a.start as usize..a.end as usize], "other bytes than asked for"); }
    if asked[0].start > 10 && asked[n - 1].end < 10 { cover(1); }
    if asked[0] == asked[n - 1] { cover(2); }
}
crate::harness! {
    vh_ranges_far2 => far(2);
}
