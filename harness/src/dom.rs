//! Helpers to run library futures on the in-memory DOM.
use std::{
    cell::Cell,
    future::{poll_fn, Future},
    pin::{pin, Pin},
    sync::{
        atomic::{AtomicU32, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

use async_ui_web_core::ContainerNodeFuture;

/// A root waker that counts wakes.
pub struct CountWaker(pub AtomicU32);
impl Wake for CountWaker {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}
impl CountWaker {
    pub fn new() -> (Arc<CountWaker>, Waker) {
        let a = Arc::new(CountWaker(AtomicU32::new(0)));
        (a.clone(), a.into())
    }
    pub fn take(&self) -> u32 {
        self.0.swap(0, Ordering::Relaxed)
    }
    pub fn woken(&self) -> bool {
        self.0.load(Ordering::Relaxed) > 0
    }
}

pub fn document() -> web_sys::Document {
    web_sys::window().unwrap().document().unwrap()
}
pub fn div() -> web_sys::Node {
    document().create_element("div").unwrap().into()
}

/// An element of this thread, for executions in which nothing is rendered.
pub fn idle() -> web_sys::Node {
    thread_local! { static N: web_sys::Node = div(); }
    N.with(|n| n.clone())
}

/// Run `f` where library futures may be polled and dropped: inside a root container on `node`.
pub fn within<R>(node: &web_sys::Node, waker: &Waker, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    let mut f = Some(f);
    let mut out = None;
    {
        let mut fut = pin!(ContainerNodeFuture::new_root(
            poll_fn(|cx| {
                out = Some((f.take().expect("polled once"))(cx));
                Poll::<()>::Pending
            }),
            node.clone()
        ));
        let _ = fut.as_mut().poll(&mut Context::from_waker(waker));
    }
    out.expect("the container polls its child")
}

/// A future that does nothing but can be told apart.
pub struct Never;
impl Future for Never {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        Poll::Pending
    }
}

/// Poll budget shared by harness components: a component that is polled forever is a livelock.
pub struct Budget(pub Cell<u32>);
