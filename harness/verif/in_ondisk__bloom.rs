//! Ranged reads of a stored file, and the filter cache in front of them.
use super::*;
use crate::verif::{prelude::*, util_env::*};
use fusio::{disk::*, fs::{FileSystemTag, Fs}};

/// Every requested range comes back as exactly those bytes of the file, in the order asked for.
fn ranges(n: usize, len: u64) {
    reset();
    let data = sym_bytes(len as usize);
    put("vfs/f", data.clone());
    let asked: Vec<Range<u64>> = (0..n).map(|_| { let a = choose(len); let b = a + choose(len - a + 1); a..b }).collect();
    let got = block_on(async {
        let f = match VFs(FileSystemTag::Local).open(&fusio::path::Path::parse("vfs/f").expect("path")).await { Ok(f) => f, Err(_) => panic!("open") };
        let mut r = match BatchedAsyncReader::new(Box::new(f), len, VExec).await { Ok(r) => r, Err(_) => panic!("reader") };
        r.coalesce_gap_bytes = choose(3);
        let one = match r.get_bytes(asked[0].clone()).await { Ok(b) => b, Err(_) => panic!("a range of the file is refused") };
        assert!(one.as_ref() == &data[asked[0].start as usize..asked[0].end as usize], "other bytes than asked for");
        match r.get_byte_ranges(asked.clone()).await { Ok(b) => b, Err(_) => panic!("ranges of the file are refused") }
    });
    assert!(got.len() == n, "one result for each range");
    for (g, a) in got.iter().zip(&asked) { assert!(g.as_ref() == &data[a.start as usize..a.end as usize], "other bytes than asked for"); }
    if asked[0].start > asked[n - 1].end { cover(1); }
    if asked[0] == asked[n - 1] { cover(2); }
}
/// What the cache returns is the filter last stored under that very key; it never grows beyond its limit and
/// drops the oldest entries first.
fn cached(n: usize) {
    let cap = choose(3) as usize;
    let mut c = BloomFilterCache::new(cap);
    let cap = cap.max(1);
    let key = |i: u64| BloomCacheKey { path: fusio::path::Path::parse(if i & 1 == 0 { "a" } else { "b" }).expect("path"), row_group: (i >> 1 & 1) as usize, column: (i >> 2) as usize };
    let filter = |bit: u64| { let mut b = vec![0x15, 0x40, 0x1c, 0x1c, 0, 0, 0x1c, 0x1c, 0, 0, 0x1c, 0x1c, 0, 0, 0]; b.extend([bit as u8 * 255; 32]); match Sbbf::from_bytes(&b) { Ok(f) => f, Err(_) => panic!("filter") } };
    let mut model: Vec<(u64, u64)> = vec![]; // oldest first
    for _ in 0..n {
        let (k, v) = (choose(5), choose(2));
        c.insert(key(k), filter(v));
        match model.iter_mut().find(|m| m.0 == k) { Some(m) => { m.1 = v; cover(1); } None => { model.push((k, v)); if model.len() > cap { model.remove(0); cover(2); } } }
        assert!(c.entries.len() == model.len() && c.order.len() == model.len(), "the cache holds as many filters as it may");
        for i in 0..5 {
            let got = c.get(&key(i)).map(|f| f.check(&7u64) as u64);
            assert!(got == model.iter().find(|m| m.0 == i).map(|m| m.1), "a filter of another column or file, or an outdated one");
        }
    }
}
crate::harness! {
    vh_ranges2 => ranges(2, 5);
    vh_ranges3 => ranges(3, 3);
    vh_bloom_cache => cached(3);
}
