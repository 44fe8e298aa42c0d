//! Stand-in for `gloo-timers`: timers that expire when the explorer says so.
//!
//! As the real ones, a timer starts to count when its future is made (not when it is first polled)
//! and is cancelled when the future is dropped.
pub mod fake {
    use std::{
        cell::RefCell,
        rc::{Rc, Weak},
        task::Waker,
    };
    pub(crate) struct Timer {
        pub due: u64,
        pub every: Option<u32>,
        pub fired: u64,
        pub waker: Option<Waker>,
    }
    thread_local! {
        static ALL: RefCell<(u64, Vec<Weak<RefCell<Timer>>>)> = const { RefCell::new((0, vec![])) };
    }
    pub(crate) fn start(ms: u32, repeat: bool) -> Rc<RefCell<Timer>> {
        ALL.with(|a| {
            let mut a = a.borrow_mut();
            let t = Rc::new(RefCell::new(Timer { due: a.0 + ms as u64, every: repeat.then_some(ms), fired: 0, waker: None }));
            a.1.push(Rc::downgrade(&t));
            t
        })
    }
    fn live() -> Vec<Rc<RefCell<Timer>>> {
        ALL.with(|a| {
            let mut a = a.borrow_mut();
            a.1.retain(|t| t.strong_count() > 0);
            a.1.iter().filter_map(|t| t.upgrade()).filter(|t| t.borrow().every.is_some() || t.borrow().fired == 0).collect()
        })
    }
    /// How many timers are counting.
    pub fn counting() -> usize {
        live().len()
    }
    pub fn now() -> u64 {
        ALL.with(|a| a.borrow().0)
    }
    /// Let time pass until the next timer expires, and let that one expire. No timer: nothing happens.
    pub fn expire() -> bool {
        let Some(t) = live().into_iter().min_by_key(|t| t.borrow().due) else { return false };
        let w = {
            let mut t = t.borrow_mut();
            ALL.with(|a| a.borrow_mut().0 = t.due);
            t.fired += 1;
            if let Some(ms) = t.every {
                t.due += ms as u64;
            }
            t.waker.take()
        };
        drop(t);
        if let Some(w) = w {
            w.wake();
        }
        true
    }
    pub fn reset() {
        ALL.with(|a| *a.borrow_mut() = (0, vec![]));
    }
}
pub mod future {
    use super::fake::{start, Timer};
    use std::{
        cell::RefCell,
        future::Future,
        pin::Pin,
        rc::Rc,
        task::{Context, Poll},
    };
    pub struct TimeoutFuture(Rc<RefCell<Timer>>);
    impl TimeoutFuture {
        pub fn new(ms: u32) -> Self {
            TimeoutFuture(start(ms, false))
        }
    }
    impl Future for TimeoutFuture {
        type Output = ();
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            let mut t = self.0.borrow_mut();
            if t.fired > 0 {
                return Poll::Ready(());
            }
            t.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    pub struct IntervalStream(Rc<RefCell<Timer>>);
    impl IntervalStream {
        pub fn new(ms: u32) -> Self {
            IntervalStream(start(ms, true))
        }
    }
    impl futures_core::Stream for IntervalStream {
        type Item = ();
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<()>> {
            let mut t = self.0.borrow_mut();
            if t.fired > 0 {
                t.fired -= 1;
                return Poll::Ready(Some(()));
            }
            t.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
