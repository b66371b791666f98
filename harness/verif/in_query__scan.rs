//! Key bounds, row sets and prefix successors used to plan scans.
use std::cmp::Ordering;
use datafusion_common::ScalarValue;
use super::*;
use crate::verif::{prelude::*, util_data::*};

#[derive(Clone, Copy)]
struct Spec { lo: Option<(i64, bool)>, hi: Option<(i64, bool)>, none: bool }
impl Spec {
    fn has(&self, k: i64) -> bool {
        let mut ok = !self.none;
        if let Some((l, inc)) = self.lo { ok &= (l < k) | (inc & (l == k)); }
        if let Some((h, inc)) = self.hi { ok &= (k < h) | (inc & (h == k)); }
        ok
    }
}
fn bounds() -> (KeyBounds, Spec) {
    match choose(4) {
        0 => { let (k, i) = (sym_i64(), flip()); (KeyBounds::with_lower(k.into(), i), Spec { lo: Some((k, i)), hi: None, none: false }) }
        1 => { let (k, i) = (sym_i64(), flip()); (KeyBounds::with_upper(k.into(), i), Spec { lo: None, hi: Some((k, i)), none: false }) }
        2 => { let (k, i, l, j) = (sym_i64(), flip(), sym_i64(), flip()); (KeyBounds::with_range((k.into(), i), (l.into(), j)), Spec { lo: Some((k, i)), hi: Some((l, j)), none: false }) }
        _ => (KeyBounds::empty(), Spec { lo: None, hi: None, none: true }),
    }
}
/// Bounds must never rule out a range holding a matching key.
fn sound(b: &KeyBounds, member: &dyn Fn(i64) -> bool) {
    let (k, lo, hi) = (sym_i64(), sym_i64(), sym_i64());
    assume((lo <= k) & (k <= hi) & member(k));
    assert!(!b.is_empty(), "bounds claim to be empty although a key satisfies them");
    assert!(b.overlaps(&lo.into(), &hi.into()), "a source holding a matching key would be skipped");
    cover(1);
}
fn bounds_one() {
    let (b, s) = bounds();
    let k = sym_i64();
    if flip() { sound(&b, &|k| s.has(k)) } else {
        assume(!s.has(k));
        assert!(!b.overlaps(&k.into(), &k.into()), "a single key outside the bounds must not count as inside");
        cover(2);
    }
}
fn bounds_two() {
    let ((a, s), (b, t)) = (bounds(), bounds());
    if flip() { let c = a.intersect(&b); sound(&c, &|k| s.has(k) & t.has(k)); cover(3); }
    else { let c = a.union_envelope(&b); sound(&c, &|k| s.has(k) | t.has(k)); cover(4); }
}
/// A point lookup by literal finds exactly the stored key of that value, whatever the widths.
fn literal_point() {
    let (n, lit): (i128, ScalarValue) = if flip() { let v = sym_i64(); (v.into(), ScalarValue::Int64(Some(v))) } else { let v = sym_u64(); (v.into(), ScalarValue::UInt64(Some(v))) };
    let (m, stored): (i128, KeyOwned) = match choose(4) {
        0 => { let v = sym_i32(); (v.into(), v.into()) }
        1 => { let v = sym_i64(); (v.into(), v.into()) }
        2 => { let v = sym_u32(); (v.into(), v.into()) }
        _ => { let v = sym_u64(); (v.into(), v.into()) }
    };
    let k = scalar_to_key(&lit).expect("integer literals are keys");
    let b = KeyBounds::with_range((k.clone(), true), (k, true));
    assert!(b.overlaps(&stored, &stored) == (m == n), "point lookup");
    cover(1);
}
/// Skipping a sealed table is allowed only if nothing in it matters to the snapshot inside the bounds.
fn prune(tables: usize, n: usize) {
    let mut segs = vec![];
    let mut hist: Vec<Vec<(i64, u64)>> = vec![];
    for _ in 0..tables {
        let m = mem(4);
        let mut h = vec![];
        for _ in 0..n {
            let (k, t) = (sym_i64(), sym_u64());
            if flip() { assert!(m.insert_delete_batch(delete_batch(vec![k], vec![t])).expect("delete").is_none()); }
            else { assert!(m.insert_batch(batch(&schema(), vec![k], vec![1]), ts(t)).expect("insert").is_none()); }
            h.push((k, t));
        }
        for i in 0..n { for j in i + 1..n { assume((h[i].0 != h[j].0) | (h[i].1 != h[j].1)); } }
        segs.push(m.seal_now().expect("seal").expect("some"));
        hist.push(h);
    }
    let read = sym_u64();
    let b = if flip() { Some(bounds()) } else { None };
    let refs: Vec<&crate::inmem::immutable::ImmutableSegment> = segs.iter().collect();
    let kept = crate::inmem::immutable::prune_segments(&refs, b.as_ref().map(|x| &x.0), ts(read));
    for w in kept.windows(2) { assert!(w[0] < w[1], "kept tables must stay in order"); }
    for k in &kept { assert!(*k < segs.len()); }
    for (i, h) in hist.iter().enumerate() {
        if kept.contains(&i) { cover(1); continue; }
        cover(2);
        for (k, t) in h {
            let inside = match &b { Some((_, s)) => s.has(*k), None => true };
            assert!(!(inside & (*t <= read)), "a sealed table holding a version visible to the snapshot was skipped");
        }
    }
}
/// The columns a scan reads: everything asked for and everything the predicate names, as the table declares them.
fn columns(asked: usize, named: usize) {
    use arrow_schema::{DataType, Field, Schema};
    const N: [&str; 4] = ["a", "b", "c", "zz"];
    let base: SchemaRef = Arc::new(Schema::new(vec![Field::new("a", DataType::Int64, false), Field::new("b", DataType::Utf8, true), Field::new("c", DataType::UInt32, true)]));
    let mut ask: Vec<usize> = vec![];
    for _ in 0..choose(asked as u64 + 1) { let i = choose(3) as usize; if !ask.contains(&i) { ask.push(i); } }
    let proj: SchemaRef = Arc::new(Schema::new(ask.iter().map(|i| base.field(*i).clone()).collect::<Vec<_>>()));
    let mut need: Vec<usize> = vec![];
    for _ in 0..choose(named as u64 + 1) { let i = choose(4) as usize; if !need.contains(&i) { need.push(i); } }
    let req: BTreeSet<String> = need.iter().map(|i| N[*i].to_string()).collect();
    match extend_projection_schema(&base, &proj, &req) {
        Err(_) => { assert!(need.contains(&3), "a predicate over columns of the table is refused"); cover(1); }
        Ok(got) => {
            assert!(!need.contains(&3), "a predicate over an unknown column is accepted");
            for i in ask.iter().chain(&need) { assert!(got.fields().iter().filter(|f| f.as_ref() == base.field(*i)).count() == 1, "a column that is asked for or filtered on is not read"); }
            for f in got.fields() { assert!(ask.iter().chain(&need).any(|i| base.field(*i) == f.as_ref()), "a column nobody asked for is read"); }
            if need.iter().all(|i| ask.contains(i)) { assert!(got.fields() == proj.fields(), "the projection stays as asked"); cover(2); } else { cover(3); }
        }
    }
}
crate::harness! {
    vh_prune1 => prune(2, 1);
    vh_prune2 => prune(1, 2);
    vh_prune3 => prune(1, 3);
    vh_bounds_one => bounds_one();
    vh_bounds_two => bounds_two();
    vh_literal_point => literal_point();
    vh_columns => columns(2, 2);
}
