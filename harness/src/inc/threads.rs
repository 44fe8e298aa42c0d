// Parts woken by other threads (wakers are Send and Sync): every schedule of the threads with at
// most so many preemptions, where threads can be switched at every operation on a lock or an atomic
// of the library and between the operations of the threads themselves.
use core_sched::{combinators as sc, ContainerNodeFuture};
use harness::fib;
use std::cell::Cell;

type LF = Pin<Box<dyn Future<Output = Result<u32, u32>>>>;

#[derive(Default)]
struct Part {
    /// the waker of its latest run
    slot: RefCell<Option<Waker>>,
    ready: Cell<bool>,
    done: Cell<bool>,
    polls: Cell<u32>,
    /// wake-ups begun
    started: Cell<u32>,
    /// wake-ups begun when it was last run
    seen: Cell<u32>,
}
struct TW {
    parts: Vec<Part>,
    ok: bool,
    comb_gone: Cell<bool>,
    polling: Cell<bool>,
    threads_left: Cell<usize>,
    woken: [Arc<Flag>; 2],
}
struct Flag(std::sync::atomic::AtomicBool);
impl std::task::Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        fib::point();
        self.0.store(true, std::sync::atomic::Ordering::SeqCst);
    }
}
struct TLeaf(usize, Rc<TW>);
impl Future for TLeaf {
    type Output = Result<u32, u32>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let w = self.1.clone();
        let p = &w.parts[self.0];
        let i = self.0;
        ck!(!p.done.get(), "part {i} was run again after it had completed");
        ck!(w.polling.get() && !w.comb_gone.get(), "part {i} was run outside of a run of its combinator");
        ck!(p.polls.get() <= p.started.get(), "part {i} was run {} times although it was woken only {} times", p.polls.get() + 1, p.started.get());
        p.polls.set(p.polls.get() + 1);
        p.seen.set(p.started.get());
        let ready = p.ready.get();
        let old = p.slot.replace(Some(cx.waker().clone()));
        fib::point();
        drop(old);
        if ready {
            p.done.set(true);
            Poll::Ready(if w.ok { Ok(i as u32) } else { Err(i as u32) })
        } else {
            Poll::Pending
        }
    }
}
fn t_comb(k: Kind, s: Shape, l: Vec<LF>) -> LF {
    fn all(v: Vec<Result<u32, u32>>) -> Result<u32, u32> {
        v[0]
    }
    macro_rules! fixed {
        ($n:literal, $($v:ident)+) => {{
            let mut it = l.into_iter();
            $( let $v = it.next().unwrap(); )+
            match (k, s) {
                (Kind::Join, Shape::Array) => { let c = sc::join([$($v),+]); Box::pin(async move { all(c.await.to_vec()) }) }
                (Kind::Race, Shape::Array) => Box::pin(sc::race([$($v),+])),
                (Kind::Try, Shape::Array) => { let c = sc::try_join([$($v),+]); Box::pin(async move { c.await.map(|v| v[0]) }) }
                (Kind::ROk, Shape::Array) => { let c = sc::race_ok([$($v),+]); Box::pin(async move { c.await.map_err(|v| v[0]) }) }
                (Kind::Join, _) => { let c = sc::join(($($v),+)); Box::pin(async move { c.await.0 }) }
                (Kind::Race, _) => Box::pin(sc::race(($($v),+))),
                (Kind::Try, _) => { let c = sc::try_join(($($v),+)); Box::pin(async move { c.await.map(|v| v.0) }) }
                (Kind::ROk, _) => { let c = sc::race_ok(($($v),+)); Box::pin(async move { c.await.map_err(|v| v.0) }) }
            }
        }};
    }
    match (s, l.len()) {
        (Shape::Vec, _) => match k {
            Kind::Join => { let c = sc::join(l); Box::pin(async move { all(c.await) }) }
            Kind::Race => Box::pin(sc::race(l)),
            Kind::Try => { let c = sc::try_join(l); Box::pin(async move { c.await.map(|v| v[0]) }) }
            Kind::ROk => { let c = sc::race_ok(l); Box::pin(async move { c.await.map_err(|v| v[0]) }) }
        },
        (_, 2) => fixed!(2, a b),
        (_, 3) => fixed!(3, a b c),
        _ => unreachable!(),
    }
}

/// `n` parts; with `nested`, the last one is a combinator of the same form itself, of two parts.
fn threads(k: Kind, s: Shape, n: usize, nested: bool, nthreads: usize, nops: usize, drops: bool) {
    let parts = if nested { n + 1 } else { n };
    let w = Rc::new(TW {
        parts: (0..parts).map(|_| Part::default()).collect(),
        // the parts do not end a try_join or race_ok early: what is looked at is how they are woken
        ok: k != Kind::ROk,
        comb_gone: Cell::new(false),
        polling: Cell::new(false),
        threads_left: Cell::new(nthreads),
        woken: std::array::from_fn(|_| Arc::new(Flag(Default::default()))),
    });
    let mut l: Vec<LF> = (0..n).map(|i| Box::pin(TLeaf(i, w.clone())) as LF).collect();
    if nested {
        let a = l.pop().unwrap();
        let inner = t_comb(k, s, vec![a, Box::pin(TLeaf(n, w.clone()))]);
        l.push(inner);
    }
    let comb = t_comb(k, s, l);
    let node: web_sys::Node = dom::idle();
    let mut fut = Box::pin(ContainerNodeFuture::new_root(comb, node));
    let ended = Rc::new(Cell::new(0u32));
    let main = {
        let w = w.clone();
        let ended = ended.clone();
        move || {
            let mut runs = 0;
            let mut task = 0usize;
            loop {
                for f in &w.woken {
                    f.0.store(false, std::sync::atomic::Ordering::SeqCst);
                }
                if runs > 0 {
                    task = (task + deviate(2)) % 2;
                }
                let waker = Waker::from(w.woken[task].clone());
                w.polling.set(true);
                let r = fut.as_mut().poll(&mut Context::from_waker(&waker));
                w.polling.set(false);
                runs += 1;
                step(&(runs, task, r.is_ready(), w.parts.iter().map(|p| (p.polls.get(), p.started.get(), p.done.get())).collect::<Vec<_>>()));
                note(|| format!("run {runs} as task {task}: {}", if r.is_ready() { "ready" } else { "pending" }));
                if r.is_ready() {
                    ended.set(1);
                    break;
                }
                if drops && deviate(2) == 1 {
                    note(|| "the combinator is dropped".into());
                    ended.set(2);
                    break;
                }
                let flag = w.woken[task].clone();
                let woken = || flag.0.load(std::sync::atomic::Ordering::SeqCst);
                fib::wait(|| woken() || w.threads_left.get() == 0);
                if !woken() {
                    break;
                }
            }
            if ended.get() != 0 {
                w.comb_gone.set(true);
            } else {
                // nothing more will happen: everything must have been attended to
                for (i, p) in w.parts.iter().enumerate() {
                    ck!(p.seen.get() == p.started.get() || p.done.get(), "part {i} was woken but is not run: the wake-up was lost");
                }
                w.comb_gone.set(true);
            }
            drop(fut);
        }
    };
    let mut ts: Vec<Box<dyn FnOnce()>> = vec![Box::new(main)];
    let kinds = if drops { 4 } else { 2 };
    let mut least = 0; // the threads are alike: only plans in ascending order
    for t in 0..nthreads {
        let all = (parts * kinds).pow(nops as u32);
        least += choose(all - least);
        let mut code = least;
        let plan: Vec<(usize, usize)> = (0..nops)
            .map(|_| {
                let c = code % (parts * kinds);
                code /= parts * kinds;
                (c / kinds, c % kinds)
            })
            .collect();
        note(|| format!("thread {t}: {}", plan.iter().map(|(i, o)| format!("{} part {i}", ["wakes", "makes ready and wakes", "makes ready and wakes (by value)", "clones and drops the waker of"][*o])).collect::<Vec<_>>().join(", ")));
        let w = w.clone();
        ts.push(Box::new(move || {
            let mut kept = vec![];
            for (i, o) in plan {
                let p = &w.parts[i];
                fib::wait(|| p.slot.borrow().is_some() || w.comb_gone.get());
                let Some(wk) = p.slot.borrow().clone() else { continue };
                fib::point();
                match o {
                    3 => {
                        let c = wk.clone();
                        fib::point();
                        drop(wk);
                        fib::point();
                        kept.push(c);
                        continue;
                    }
                    0 => {}
                    _ => p.ready.set(true),
                }
                p.started.set(p.started.get() + 1);
                if o == 2 {
                    wk.wake();
                } else {
                    wk.wake_by_ref();
                    kept.push(wk);
                }
                fib::point();
            }
            w.threads_left.set(w.threads_left.get() - 1);
            if drops {
                fib::point();
            }
            drop(kept);
        }));
    }
    match fib::run(ts) {
        Ok(steps) => outcome(&(ended.get(), steps, w.parts.iter().map(|p| (p.polls.get(), p.done.get())).collect::<Vec<_>>())),
        Err(stuck) => fail(format!("threads {stuck:?} wait for one another forever (0 runs the combinator)")),
    }
    let all_done = w.parts.iter().all(|p| p.done.get());
    if k != Kind::Race {
        ck!(ended.get() != 1 || all_done, "the combinator ended before all of its parts had");
        ck!(ended.get() != 0 || !all_done, "all parts have ended and the combinator is still pending");
    } else {
        let any = w.parts.iter().any(|p| p.done.get());
        ck!(ended.get() != 1 || any, "the combinator ended before any of its parts had");
        ck!(ended.get() != 0 || !any, "a part has ended and the combinator is still pending");
    }
    for p in &w.parts {
        p.slot.borrow_mut().take();
    }
    for f in &w.woken {
        ck!(Arc::strong_count(f) == 1, "the combinator and all wakers of its parts are gone, but the waker of its task is still kept");
    }
}
fn threads_cfgs(p: &str, th: bool, cfgs: &mut Vec<Cfg>) {
    let drops = p == "C08";
    if p != "C06" && !drops {
        return;
    }
    for k in [Kind::Join, Kind::Race, Kind::Try, Kind::ROk] {
        for s in [Shape::Tuple, Shape::Array, Shape::Vec] {
            for (n, nested, nt, ops, quick, thorough) in [(2, false, 1, 2, 4, 6), (2, false, 2, 1, 3, 4), (2, true, 2, 1, 2, 3), (2, false, 2, 2, 1, 2), (3, false, 3, 1, 1, 2)] {
                if nt == 3 && !th && matches!(k, Kind::Try | Kind::ROk) {
                    continue;
                }
                let b = if th { thorough } else { quick };
                cfgs.push(Cfg::new(format!("{k:?}/{s:?}/n={n}{}/{nt} threads of {ops} operations, every schedule with at most {b} preemptions", if nested { " with another in it" } else { "" }), move || threads(k, s, n, nested, nt, ops, drops)).budget(b));
            }
        }
    }
}
