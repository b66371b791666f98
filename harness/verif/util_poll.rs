//! Drive a future whose awaits are all immediately ready.
use std::{future::Future, pin::pin, task::{Context, Poll, Waker}};
pub(crate) fn run<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..1000 { if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; } }
    panic!("future makes no progress")
}
#[macro_export]
macro_rules! harness { ($($n:ident => $b:expr);+ $(;)?) => {
    $( #[unsafe(no_mangle)] pub extern "C" fn $n() { $b } )+
    pub(crate) const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),+];
} }
