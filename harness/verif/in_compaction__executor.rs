//! The local executor: limits on its outputs and the identifiers it hands out.
use super::*;
use crate::verif::{prelude::*, util_data::*, util_env::*};

fn executor(next: Arc<AtomicU64>) -> LocalCompactionExecutor {
    LocalCompactionExecutor::with_id_allocator(Arc::new(SsTableConfig::new(schema(), local_fs(), fusio::path::Path::parse("vfs/sst").expect("path"))), next)
}
/// Outputs are capped by what was asked for, otherwise by a size that grows tenfold per level up to the hard limit.
fn caps() {
    let mut e = executor(Arc::new(AtomicU64::new(0)));
    let (r, b) = (sym_u64() as usize, sym_u64() as usize);
    let (rows, bytes) = (flip(), flip());
    if rows { e = e.with_max_output_rows(r); }
    if bytes { e = e.with_max_output_bytes(b); }
    let level = choose(8) as usize;
    let (gr, gb) = e.output_caps_for_level(level);
    assert!(gr == if rows { Some(r.max(1)) } else { None }, "row limit");
    assert!(gb == Some(if bytes { b.max(1) } else { let mut s: usize = 128 << 20; for _ in 0..level { s = (s * 10).min(512 << 20); } s }), "byte limit");
    if bytes & rows { cover(1); }
    if !bytes & (level > 0) { cover(2); }
}
/// Tables get identifiers never handed out before, also by a clone of the executor or the shared counter.
fn ids() {
    let start = sym_u64() >> 1;
    let shared = Arc::new(AtomicU64::new(start));
    let (a, level) = (executor(Arc::clone(&shared)), choose(3) as usize);
    let b = a.clone();
    let mut seen: Vec<u64> = vec![];
    for _ in 0..3 {
        let d = if flip() { a.alloc_descriptor(level) } else { b.alloc_descriptor(level) };
        assert!(d.level() == level, "level of a new table");
        let mut fresh = d.id().raw() >= start;
        for s in &seen { fresh &= d.id().raw() != *s; }
        assert!(fresh, "an identifier is handed out twice");
        seen.push(d.id().raw());
        if flip() { seen.push(shared.fetch_add(1, Ordering::Relaxed)); cover(1); }
    }
}
crate::harness! {
    vh_exec_caps => caps();
    vh_exec_ids => ids();
}
