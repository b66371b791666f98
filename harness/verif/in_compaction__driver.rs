//! Cascade control of the compaction driver (private items).
use crate::verif::prelude::*;
use super::*;

fn span() -> Duration { let s = below(256); if flip() { Duration::new(s, 0) } else { Duration::new(s, 999_999_999) } }
/// Any sequence of resets and requests at non-decreasing times, any cooldown, any small budget.
fn cascade(steps: usize) {
    let max = choose(3) as usize;
    let cool = span();
    let t0 = Instant::now();
    let mut c = CascadeControl::new(max, cool);
    let mut at = Duration::ZERO;
    let mut left = max;
    let mut last: Option<Duration> = None;
    for _ in 0..steps {
        if flip() { c.reset_budget(); left = max; cover(1); continue; }
        at += span();
        let d = c.try_acquire(t0 + at);
        let resting = match last { Some(l) => at - l < cool, None => false };
        if left == 0 { assert!(matches!(d, CascadeDecision::BudgetExhausted), "more follow-up compactions than the budget allows"); cover(2); }
        else if resting { assert!(matches!(d, CascadeDecision::CooldownActive), "a follow-up compaction inside the cooldown"); cover(3); }
        else { assert!(matches!(d, CascadeDecision::Allowed), "a permitted follow-up compaction was refused"); left -= 1; last = Some(at); cover(4); }
    }
}
crate::harness! {
    vh_cascade3 => cascade(3);
    vh_cascade4 => cascade(4);
    vh_cascade5 => cascade(5);
}
