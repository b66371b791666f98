//! The commit clock under concurrent use.
use super::prelude::*;
use crate::mvcc::{CommitClock, ReadView, Timestamp};

fn some(limit: u64) -> u64 { let v = sym_u64(); assume(v < limit); v }
const FAR: u64 = u64::MAX - 64;
/// Any sequence of three calls: timestamps handed out only ever grow, and an advance is never undone.
fn seq(n: usize) {
    let start = some(FAR);
    let c = CommitClock::new(Timestamp::new(start));
    let mut last: Option<u64> = None;
    let mut floor = start;
    for _ in 0..n {
        match choose(3) {
            0 => {
                let t = c.alloc().get();
                assert!(t >= floor, "a commit timestamp below one already promised");
                if let Some(l) = last { assert!(t > l, "a commit timestamp was handed out twice or out of order"); }
                last = Some(t);
                floor = t + 1;
            }
            1 => {
                let to = some(FAR);
                c.advance_to_at_least(Timestamp::new(to));
                if to > floor { cover(1); floor = to; } else { cover(2); }
            }
            _ => assert!(c.peek().get() == floor, "peek must report the next timestamp to be handed out"),
        }
        assert!(c.peek().get() == floor);
    }
}
#[derive(Clone, Copy)]
enum Op { Alloc, Advance(u64), Peek }
fn any_op() -> Op { match choose(3) { 0 => Op::Alloc, 1 => Op::Advance(some(FAR)), _ => Op::Peek } }
fn run(c: &CommitClock, o: Op) -> u64 {
    match o { Op::Alloc => c.alloc().get(), Op::Advance(t) => { c.advance_to_at_least(Timestamp::new(t)); t } Op::Peek => c.peek().get() }
}
/// One thread performs two calls while another performs one or two anywhere in between.
fn conc(two: bool) {
    let start = some(FAR);
    let c = CommitClock::new(Timestamp::new(start));
    let (a, b, x) = (any_op(), any_op(), any_op());
    let y = if two { Some(any_op()) } else { None };
    let (mut rx, mut ry) = (0, 0);
    let ((ra, rb), inside) = race(|| (run(&c, a), run(&c, b)), || { rx = run(&c, x); if let Some(y) = y { ry = run(&c, y); } });
    if inside { cover(1); } else { cover(2); }
    let mut given = Vec::new();
    let mut top = start;
    let mut all = vec![(a, ra), (b, rb), (x, rx)];
    if let Some(y) = y { all.push((y, ry)); }
    for (o, r) in &all {
        match o { Op::Alloc => { assert!(*r >= start); given.push(*r); top = top.max(*r + 1); } Op::Advance(t) => top = top.max(*t), Op::Peek => assert!(*r >= start) }
    }
    for i in 0..given.len() { for j in i + 1..given.len() { assert!(given[i] != given[j], "two commits were given the same timestamp"); } }
    // within one thread the clock never goes back
    let mono = |p: (Op, u64), q: (Op, u64)| {
        let lo = match p.0 { Op::Alloc => p.1 + 1, _ => p.1 };
        if !matches!(q.0, Op::Advance(_)) { assert!(q.1 >= lo, "the clock went back"); }
    };
    mono((a, ra), (b, rb));
    if let Some(y) = y { mono((x, rx), (y, ry)); }
    let allocs = given.len() as u64;
    let end = c.peek().get();
    assert!(end >= top, "an allocation or an advance was lost");
    let mut hi = start;
    for (o, _) in &all { if let Op::Advance(t) = o { hi = hi.max(*t); } }
    assert!(end <= hi + allocs, "the clock skipped ahead");
}
/// Timestamp arithmetic saturates and a view keeps the timestamp it was pinned at.
fn arith() {
    let (a, d) = (sym_u64(), sym_u64());
    let t = Timestamp::new(a);
    assert!(t.get() == a);
    assert!(u64::from(t) == a);
    assert!(t.next() >= t);
    if a != u64::MAX { assert!(t.next().get() == a + 1); }
    let s = t.saturating_add(d).get();
    assert!(s >= a);
    assert!((s == u64::MAX) | (s.wrapping_sub(a) == d));
    let m = t.saturating_sub(d).get();
    assert!(m <= a);
    assert!((m == 0) | (a.wrapping_sub(m) == d));
    assert!(ReadView::new(t).read_ts() == t);
    cover(1);
}
crate::harness! {
    vh_clock_seq => seq(4);
    vh_clock_race => conc(false);
    vh_clock_race2 => conc(true);
    vh_clock_arith => arith();
}
