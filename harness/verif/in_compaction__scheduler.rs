//! Compaction job queue (private items of the scheduler module).
use std::{cell::RefCell, rc::Rc};
use crate::verif::{prelude::*, util_poll::*};
use super::*;
use crate::{compaction::planner::CompactionInput, ondisk::sstable::SsTableId};

fn task(id: u64, levels: (usize, usize)) -> CompactionTask {
    CompactionTask { source_level: levels.0, target_level: levels.1, input: vec![CompactionInput { level: levels.0, sst_id: SsTableId::new(id) }], key_range: None }
}
/// Work of a job: it finishes after `n` polls.
struct Slow { n: u64, id: u64, done: Rc<RefCell<Vec<u64>>> }
impl Future for Slow {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.n == 0 { let id = self.id; self.done.borrow_mut().push(id); return std::task::Poll::Ready(()); }
        self.n -= 1;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
/// Any sequence of `steps` enqueues, drains and a possible shutdown, for any small capacity and budget.
fn queue(steps: usize) {
    let capacity = choose(4) as usize;
    let budget = choose(4) as usize;
    let (s, mut rx) = CompactionScheduler::new(capacity, budget);
    let (cap, bud) = (capacity.max(1), budget.max(1));
    let mut s = Some(s);
    let spare = s.clone();
    // model: accepted and not yet drained, oldest first
    let mut waiting: Vec<(u64, u64, u64)> = Vec::new();
    let mut next = 1u64;
    let mut leases = Vec::new();
    for _ in 0..steps {
        match choose(3) {
            0 => {
                let Some(s) = s.as_ref() else { continue };
                let (head, ttl) = (sym_u64(), sym_u64());
                let r = run(s.enqueue(task(next, (0, 1)), Some(Timestamp::new(head)), "owner", ttl));
                if waiting.len() < cap {
                    assert!(r.is_ok(), "a job was turned away although the queue had room");
                    waiting.push((next, head, ttl));
                    cover(1);
                } else {
                    assert!(matches!(r, Err(CompactionScheduleError::Full)), "the queue took more than its capacity");
                    cover(2);
                }
                next += 1;
            }
            1 => {
                let sched = spare.as_ref().expect("handle");
                let done = Rc::new(RefCell::new(Vec::new()));
                let seen = RefCell::new(Vec::new());
                let r = run(sched.drain_with_budget(&mut rx, |j| {
                    let id = j.task.input[0].sst_id.raw();
                    seen.borrow_mut().push((id, j.manifest_head.expect("head").get(), j.lease.ttl_ms));
                    assert!(j.lease.owner == "owner");
                    leases.push(j.lease.id);
                    Slow { n: id % 3, id, done: done.clone() }
                }));
                assert!(r.is_ok());
                let want: Vec<_> = waiting.drain(..waiting.len().min(bud)).collect();
                assert!(*seen.borrow() == want, "jobs were lost, repeated, reordered or changed in the queue");
                let mut d = done.borrow().clone();
                d.sort();
                assert!(d == want.iter().map(|w| w.0).collect::<Vec<_>>(), "a drained job was not run to the end");
                if want.len() == bud { cover(3); }
                if want.is_empty() { cover(4); }
            }
            _ => { s = None; }
        }
    }
    let _ = leases;
}
/// A drain closed on the receiving side turns jobs away as closed, not as full.
fn closed() {
    let (s, rx) = CompactionScheduler::new(1 + choose(2) as usize, 1);
    let n = choose(3);
    for i in 0..n { let _ = run(s.enqueue(task(i, (0, 1)), None, "o", 5)); }
    drop(rx);
    assert!(matches!(run(s.enqueue(task(9, (0, 1)), None, "o", 5)), Err(CompactionScheduleError::Closed)));
    cover(1);
}
crate::harness! {
    vh_sched_queue3 => queue(3);
    vh_sched_queue5 => queue(5);
    vh_sched_closed => closed();
}
