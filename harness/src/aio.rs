//! Polling futures by hand.
use std::future::Future;
use std::mem::ManuallyDrop;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

/// Awaits a future nothing can keep waiting: one task, no lock held by anybody else.
pub fn run<T>(f: impl Future<Output = T>) -> T {
    let mut f = ManuallyDrop::new(f);
    let p = unsafe { Pin::new_unchecked(&mut *f) };
    match p.poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(v) => v,
        Poll::Pending => panic!("an operation waits although no lock is held and no builder suspends"),
    }
}

/// An object which is never dropped: its drop glue costs the solver more than the operations themselves.
pub struct M<T>(ManuallyDrop<T>);
impl<T> M<T> {
    pub fn new(x: T) -> Self {
        M(ManuallyDrop::new(x))
    }
}
impl<T> std::ops::Deref for M<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> std::ops::DerefMut for M<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}

/// A task: polled when the harness says so, cancelled by dropping its future.
pub struct Task<F: Future>(ManuallyDrop<F>);
impl<F: Future> Task<F> {
    pub fn new(f: F) -> Self {
        Task(ManuallyDrop::new(f))
    }
    pub fn poll(&mut self) -> Option<F::Output> {
        let p = unsafe { Pin::new_unchecked(&mut *self.0) };
        match p.poll(&mut Context::from_waker(Waker::noop())) {
            Poll::Ready(v) => Some(v),
            Poll::Pending => None,
        }
    }
    pub fn cancel(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.0) }
    }
}

static mut GATE: u8 = 0;
/// The `stop(n)` whose number is the gate's does not get past until the gate is opened.
pub fn gate(n: u8) {
    unsafe { GATE = n }
}
pub struct Stop(u8);
pub fn stop(n: u8) -> Stop {
    Stop(n)
}
impl Future for Stop {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if unsafe { GATE } == self.0 { Poll::Pending } else { Poll::Ready(()) }
    }
}

/// The n-th lock acquisition from now on returns Pending once although it could succeed (n = 0: none does).
#[cfg(feature = "model")]
pub fn yield_at(n: u8) {
    static mut LEFT: u8 = 0;
    fn hook() -> bool {
        unsafe {
            if LEFT == 0 {
                return false;
            }
            LEFT -= 1;
            LEFT == 0
        }
    }
    unsafe { LEFT = n }
    tokio::model::set_yield_hook(if n == 0 { None } else { Some(hook) });
}
