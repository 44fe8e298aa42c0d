//! What the `select!` programs of C25 are made of, and their exploration: every program is run
//! with every schedule (when, if ever, each branch becomes ready).
use crate::dom;
use std::{
    cell::RefCell,
    future::Future,
    pin::Pin,
    task::{Context, Poll, Waker},
};

#[derive(Default)]
struct Env {
    sched: Vec<usize>,
    round: usize,
    log: Vec<String>,
    wakers: Vec<Option<Waker>>,
}
thread_local! {
    static ENV: RefCell<Env> = RefCell::default();
}
pub fn log(s: impl Into<String>) {
    ENV.with(|e| e.borrow_mut().log.push(s.into()))
}
/// A handler ran: note it and go on with its value.
pub fn hv(name: &str, v: i64) -> i64 {
    log(name);
    v
}
#[macro_export]
macro_rules! hvm {
    ($n:expr, $v:expr) => {
        $crate::sel::hv($n, $v)
    };
}
#[macro_export]
macro_rules! brm {
    ($n:expr, $v:expr) => {
        $crate::sel::br($n, $v)
    };
}
#[derive(Debug)]
pub struct S {
    pub x: i64,
    pub y: u8,
}
#[derive(Debug)]
pub struct W<T>(pub T);

/// The future of a branch.
pub struct Br<T> {
    i: usize,
    v: Option<T>,
}
pub fn br<T>(i: usize, v: T) -> Br<T> {
    Br { i, v: Some(v) }
}
pub fn ready<T>(v: T) -> std::future::Ready<T> {
    std::future::ready(v)
}
pub fn wrap<T>(v: T) -> (T,) {
    (v,)
}
/// Something to put after an operator.
pub struct Nothing;
impl<T> std::ops::Add<Nothing> for Br<T> {
    type Output = Br<T>;
    fn add(self, _: Nothing) -> Br<T> {
        self
    }
}
impl<T> Unpin for Br<T> {}
impl<T> Future for Br<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let i = self.i;
        let ready = ENV.with(|e| {
            let mut e = e.borrow_mut();
            e.log.push(format!("p{i}"));
            e.wakers[i] = Some(cx.waker().clone());
            e.round >= e.sched[i]
        });
        if ready {
            log(format!("r{i}"));
            Poll::Ready(self.v.take().expect("a branch is run after it completed"))
        } else {
            Poll::Pending
        }
    }
}
impl<T> Drop for Br<T> {
    fn drop(&mut self) {
        log(format!("d{}", self.i))
    }
}
/// Gives way once.
pub struct Yield(pub bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

pub fn schedules(n: usize, rounds: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|s| (0..=rounds).map(move |r| { let mut s = s.clone(); s.push(r); s })).collect();
    }
    v
}
/// The schedules of a program with many branches: one (or two) of them become ready.
pub fn few_schedules(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![2; n], vec![0; n]];
    for i in 0..n {
        for r in 0..2 {
            let mut s = vec![2; n];
            s[i] = r;
            v.push(s.clone());
            let j = (i + 1) % n;
            s[j] = r;
            v.push(s);
        }
    }
    v
}

/// A program to explore.
pub type Prog = Pin<Box<dyn Future<Output = Result<i64, i64>>>>;

/// Branch i becomes ready in round `sched[i]`; nothing happens after the last round.
pub fn explore(scheds: Vec<Vec<usize>>, rounds: usize, out: &mut dyn FnMut(String), f: fn() -> Prog) {
    for sched in scheds {
        let host = dom::div();
        ENV.with(|e| *e.borrow_mut() = Env { wakers: vec![None; sched.len()], sched: sched.clone(), ..Default::default() });
        let (wk, waker) = dom::CountWaker::new();
        let mut fut = Some(f());
        let mut value = "pending".to_string();
        'run: for round in 0..rounds {
            ENV.with(|e| e.borrow_mut().round = round);
            log(format!("round{round}"));
            let wake: Vec<Waker> = ENV.with(|e| {
                let mut e = e.borrow_mut();
                let ready: Vec<usize> = (0..sched.len()).filter(|i| round > 0 && sched[*i] == round).collect();
                ready.into_iter().filter_map(|i| e.wakers[i].take()).collect()
            });
            wake.into_iter().for_each(|w| w.wake());
            let mut polls = 0;
            while round == 0 && polls == 0 || wk.take() > 0 {
                polls += 1;
                if polls > 20 {
                    value = "endless".into();
                    break 'run;
                }
                let mut r = None;
                dom::within(&host, &waker, |cx| {
                    if let Poll::Ready(v) = fut.as_mut().unwrap().as_mut().poll(cx) {
                        r = Some(format!("{v:?}"));
                        log("value");
                        fut = None;
                    }
                });
                if let Some(v) = r {
                    value = v;
                    break 'run;
                }
            }
        }
        log("end");
        dom::within(&host, &waker, |_| fut = None);
        let log = ENV.with(|e| std::mem::take(&mut *e.borrow_mut())).log;
        let s: Vec<String> = sched.iter().map(|r| r.to_string()).collect();
        out(format!("{};{value};{}", s.join(","), log.join(" ")));
    }
}
