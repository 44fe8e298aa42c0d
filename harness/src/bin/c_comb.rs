//! C03 join, C04 race, C05 try_join / race_ok, C06 wake precision, C07 ownership of outputs,
//! C08 wakers that outlive their combinator.
//!
//! The real combinators run over leaf futures whose every decision is explored: when each leaf
//! becomes ready, with what result, which wakers are used when (including clones, stale ones,
//! wakes while polling), with which task the combinator is polled, and when it is dropped.
use harness::{
    ck, choose, deviate, dom, fail, flip, note, outcome, run, step,
    tok::{self, Tok},
    Cfg, Check,
};
use std::{
    cell::RefCell,
    future::Future,
    pin::Pin,
    rc::Rc,
    sync::{atomic::AtomicU32, Arc},
    task::{Context, Poll, Waker},
};

#[global_allocator]
static A: tok::Poison = tok::Poison;

use async_ui_web::{join, race, race_ok, try_join};

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Kind {
    Join,
    Race,
    Try,
    ROk,
}
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Shape {
    Tuple,
    Array,
    Vec,
}
type R = Result<Tok, Tok>;

/// What a combinator produced, in a common form.
enum Out {
    One(R),
    All(Vec<R>),
}

/// Which oracles are armed.
#[derive(Clone, Copy)]
struct Arm {
    res: bool,
    wake: bool,
    own: bool,
    stale: bool,
}
impl Arm {
    fn of(p: &str) -> Arm {
        let mut a = Arm { res: false, wake: false, own: false, stale: false };
        match p {
            "C03" | "C04" | "C05" => a.res = true,
            "C06" => a.wake = true,
            "C07" => a.own = true,
            "C08" => a.stale = true,
            _ => {
                eprintln!("unknown property {p}");
                std::process::exit(2)
            }
        }
        a
    }
}

#[derive(Default)]
struct Kid {
    ready: Option<bool>, // Some(ok)
    /// panics when it is next polled
    boom: bool,
    done: bool,
    polls: u32,
    /// woken since its last poll began
    woken: bool,
    /// woken since the combinator's last poll began
    carry: bool,
    allow: bool,
    wakers: Vec<Waker>,
    dropped: bool,
}
struct World {
    arm: Arm,
    kids: Vec<Kid>,
    polled_now: Vec<usize>,
    finished_now: Vec<(usize, bool)>,
    comb_done: bool,
    in_poll: bool,
    mid: bool, // explore wakes issued while polling
}
type W = Rc<RefCell<World>>;

/// What a part that panics panics with.
struct Boom;

struct Leaf {
    i: usize,
    w: W,
    #[allow(dead_code)]
    tok: Tok,
}
impl Future for Leaf {
    type Output = R;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R> {
        let i = self.i;
        let mut w = self.w.borrow_mut();
        let arm = w.arm;
        if arm.wake {
            ck!(!w.kids[i].done, "child {i} was polled again after it had completed");
            ck!(!w.comb_done, "child {i} was polled after the combinator had completed");
            ck!(w.kids[i].polls == 0 || w.kids[i].woken || w.kids[i].allow, "child {i} was polled although it had not been woken since its last poll");
        }
        if w.kids[i].done {
            return Poll::Pending;
        }
        w.polled_now.push(i);
        let k = &mut w.kids[i];
        k.woken = false;
        k.allow = false;
        k.polls += 1;
        // A retained waker of this child is kept for later stale use (first and latest).
        if k.wakers.len() < 2 {
            k.wakers.push(cx.waker().clone());
        } else {
            k.wakers[1] = cx.waker().clone();
        }
        let ready = k.ready;
        let boom = std::mem::take(&mut k.boom);
        let mid = w.mid;
        let n = w.kids.len();
        drop(w);
        if boom {
            // (without going through the panic hook: any other panic is reported by it)
            std::panic::resume_unwind(Box::new(Boom));
        }
        if mid {
            // a wake during the poll: of itself, or of any other already polled child
            let c = deviate(1 + n);
            if c > 0 {
                let j = c - 1;
                let wk = self.w.borrow().kids[j].wakers.last().cloned();
                if let Some(wk) = wk {
                    note(|| format!("while child {i} is polled, child {j} is woken"));
                    {
                        let mut w = self.w.borrow_mut();
                        w.kids[j].woken = true;
                        w.kids[j].carry = true;
                    }
                    wk.wake();
                }
            }
        }
        match ready {
            Some(ok) => {
                let mut w = self.w.borrow_mut();
                w.kids[i].done = true;
                w.finished_now.push((i, ok));
                let t = Tok::new(i as u32);
                Poll::Ready(if ok { Ok(t) } else { Err(t) })
            }
            None => Poll::Pending,
        }
    }
}
impl Drop for Leaf {
    fn drop(&mut self) {
        let mut w = self.w.borrow_mut();
        let i = self.i;
        if w.arm.own {
            ck!(!w.kids[i].dropped, "child future {i} was dropped twice");
        }
        w.kids[i].dropped = true;
    }
}

struct Map<F: Future>(Pin<Box<F>>, fn(F::Output) -> Out);
impl<F: Future> Future for Map<F> {
    type Output = Out;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Out> {
        let f = self.1;
        self.0.as_mut().poll(cx).map(f)
    }
}
type Comb = Pin<Box<dyn Future<Output = Out>>>;
fn map<F: Future + 'static>(f: F, m: fn(F::Output) -> Out) -> Comb
where
    F::Output: 'static,
{
    Box::pin(Map(Box::pin(f), m))
}

fn try_out<C: IntoIterator<Item = Tok>>(r: Result<C, Tok>) -> Out {
    match r {
        Ok(v) => Out::All(v.into_iter().map(Ok).collect()),
        Err(e) => Out::One(Err(e)),
    }
}
fn rok_out<C: IntoIterator<Item = Tok>>(r: Result<Tok, C>) -> Out {
    match r {
        Ok(v) => Out::One(Ok(v)),
        Err(e) => Out::All(e.into_iter().map(Err).collect()),
    }
}

fn mk_vec(k: Kind, l: Vec<Leaf>) -> Comb {
    match k {
        Kind::Join => map(join(l), Out::All),
        Kind::Race => map(race(l), Out::One),
        Kind::Try => map(try_join(l), try_out),
        Kind::ROk => map(race_ok(l), rok_out),
    }
}
fn mk_array<const N: usize>(k: Kind, l: Vec<Leaf>) -> Comb {
    let l: [Leaf; N] = match l.try_into() {
        Ok(l) => l,
        Err(_) => harness::harness_bug("array size"),
    };
    match k {
        Kind::Join => map(join(l), |v| Out::All(v.into_iter().collect())),
        Kind::Race => map(race(l), Out::One),
        Kind::Try => map(try_join(l), try_out),
        Kind::ROk => map(race_ok(l), rok_out),
    }
}
macro_rules! tuples {
    ($k:expr, $l:expr, $( $n:literal : $($v:ident)+ ; )*) => {{
        let mut it = $l.into_iter();
        let n = it.len();
        match n {
            $( $n => {
                $( let $v = it.next().unwrap(); )+
                let t = ($($v,)+);
                match $k {
                    Kind::Join => map(join(t), |($($v,)+)| Out::All(vec![$($v),+])),
                    Kind::Race => map(race(t), Out::One),
                    Kind::Try => map(try_join(t), |r| try_out(r.map(|($($v,)+)| vec![$($v),+]))),
                    Kind::ROk => map(race_ok(t), |r| rok_out(r.map_err(|($($v,)+)| vec![$($v),+]))),
                }
            } )*
            _ => unreachable!(),
        }
    }};
}
fn mk_tuple(k: Kind, l: Vec<Leaf>) -> Comb {
    if l.len() == 12 {
        let mut it = l.into_iter();
        let mut n = || it.next().unwrap();
        let t = (n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n());
        return match k {
            Kind::Join => map(join(t), |(a, b, c, d, e, f, g, h, i, j, k, l)| Out::All(vec![a, b, c, d, e, f, g, h, i, j, k, l])),
            Kind::Race => map(race(t), Out::One),
            _ => unreachable!(),
        };
    }
    if l.is_empty() {
        return map(join(()), |()| Out::All(vec![]));
    }
    tuples!(k, l,
        1: a;
        2: a b;
        3: a b c;
        4: a b c d;
        5: a b c d e;
        6: a b c d e f;
        7: a b c d e f g;
        8: a b c d e f g h;
        9: a b c d e f g h i;
        10: a b c d e f g h i j;
        11: a b c d e f g h i j m;
    )
}
fn mk(k: Kind, s: Shape, l: Vec<Leaf>) -> Comb {
    macro_rules! arr { ($($n:literal)*) => { match l.len() { $($n => mk_array::<$n>(k, l),)* n => harness::harness_bug(format!("no array size {n}")) } } }
    match s {
        Shape::Vec => mk_vec(k, l),
        Shape::Tuple => mk_tuple(k, l),
        Shape::Array => arr!(0 1 2 3 4 5 8 9 16 17 63 64 65 96 127 128 129 192 193 200),
    }
}
/// Does this combinator exist?
fn exists(k: Kind, s: Shape, n: usize) -> bool {
    match s {
        Shape::Tuple => match k {
            Kind::Join => n <= 12,
            Kind::Race => (1..=12).contains(&n),
            _ => (1..=11).contains(&n),
        },
        _ => true,
    }
}

struct Drv {
    k: Kind,
    n: usize,
    w: W,
    comb: Option<Comb>,
    node: web_sys::Node,
    roots: [(Arc<dom::CountWaker>, Waker); 2],
    /// which root waker the last poll used
    last: Option<usize>,
    result: Option<Out>,
    arm: Arm,
    first_done: Vec<(usize, bool)>,
    /// the child woken last
    woke: usize,
}

impl Drv {
    fn new(arm: Arm, k: Kind, s: Shape, n: usize, mid: bool) -> Drv {
        tok::reset(arm.own);
        let w: W = Rc::new(RefCell::new(World {
            arm,
            kids: (0..n).map(|_| Kid::default()).collect(),
            polled_now: vec![],
            finished_now: vec![],
            comb_done: false,
            in_poll: false,
            mid,
        }));
        let leaves = (0..n).map(|i| Leaf { i, w: w.clone(), tok: Tok::new(1000 + i as u32) }).collect();
        Drv { k, n, w, comb: Some(mk(k, s, leaves)), node: dom::idle(), roots: [dom::CountWaker::new(), dom::CountWaker::new()], last: None, result: None, arm, first_done: vec![], woke: 0 }
    }

    /// What the property says the combinator must have returned by now, given the children that
    /// have finished, in the order in which they did.
    fn expect(&self) -> Option<Result<(usize, bool), ()>> {
        // Some(Ok(one)) | Some(Err(())) = all
        let stop = |ok: bool| match self.k {
            Kind::Join => false,
            Kind::Race => true,
            Kind::Try => !ok,
            Kind::ROk => ok,
        };
        if let Some(f) = self.first_done.iter().find(|f| stop(f.1)) {
            return Some(Ok(*f));
        }
        if self.first_done.len() == self.n && !(self.n == 0 && self.k == Kind::Race) {
            return Some(Err(()));
        }
        None
    }

    fn poll(&mut self, root: usize) {
        note(|| format!("poll with task {root}"));
        {
            let mut w = self.w.borrow_mut();
            w.polled_now.clear();
            w.finished_now.clear();
            w.in_poll = true;
            for k in w.kids.iter_mut() {
                k.allow = std::mem::take(&mut k.carry);
            }
        }
        let due: Vec<usize> = {
            let w = self.w.borrow();
            (0..self.n).filter(|&i| !w.kids[i].done && (w.kids[i].polls == 0 || w.kids[i].woken)).collect()
        };
        self.last = Some(root);
        self.roots[root].0.take();
        let waker = self.roots[root].1.clone();
        let r = if self.w.borrow().kids.iter().any(|k| k.boom) {
            // dropped while unwinding, or left in place
            let gone = flip();
            let mut comb = self.comb.take();
            let node = self.node.clone();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                dom::within(&node, &waker, |cx| {
                    if gone {
                        let mut c = comb.take().unwrap();
                        let r = c.as_mut().poll(cx);
                        comb = Some(c);
                        r
                    } else {
                        comb.as_mut().unwrap().as_mut().poll(cx)
                    }
                })
            }));
            self.comb = comb;
            match r {
                Ok(r) => r,
                Err(_) => {
                    note(|| format!("a child panicked; the combinator is dropped {}", if gone { "by that" } else { "later" }));
                    let mut w = self.w.borrow_mut();
                    w.in_poll = false;
                    if self.comb.is_none() {
                        for (i, k) in w.kids.iter().enumerate() {
                            ck!(k.dropped, "child future {i} was not dropped with the combinator");
                        }
                        let t = tok::live();
                        ck!(t == 0, "{t} outputs or futures were not dropped when the combinator was, because a child panicked");
                    }
                    return;
                }
            }
        } else {
            let comb = self.comb.as_mut().unwrap();
            dom::within(&self.node, &waker, |cx| comb.as_mut().poll(cx))
        };
        drop(waker);
        let fin = {
            let mut w = self.w.borrow_mut();
            w.in_poll = false;
            std::mem::take(&mut w.finished_now)
        };
        self.first_done.extend(fin);
        let exp = self.expect();
        if self.arm.res {
            match (&r, &exp) {
                (Poll::Pending, None) => {}
                (Poll::Pending, Some(_)) => fail(format!("{:?} of {} children stayed pending although the children that have finished decide it: {:?}", self.k, self.n, self.first_done)),
                (Poll::Ready(_), None) => fail(format!("{:?} of {} children completed although only {:?} have finished", self.k, self.n, self.first_done)),
                (Poll::Ready(Out::One(v)), Some(Ok((i, ok)))) => {
                    let t = match v {
                        Ok(t) | Err(t) => t,
                    };
                    ck!(t.tag == *i as u32 && v.is_ok() == *ok, "{:?}: the output came from child {} ({}), but child {i} finished first", self.k, t.tag, v.is_ok());
                }
                (Poll::Ready(Out::All(v)), Some(Err(()))) => {
                    ck!(v.len() == self.n, "{} outputs for {} children", v.len(), self.n);
                    let mut oks = vec![false; self.n];
                    self.first_done.iter().for_each(|f| oks[f.0] = f.1);
                    for (i, v) in v.iter().enumerate() {
                        let ok = oks[i];
                        let t = match v {
                            Ok(t) | Err(t) => t,
                        };
                        ck!(t.tag == i as u32 && v.is_ok() == ok, "output {i} is child {}'s", t.tag);
                    }
                }
                (Poll::Ready(_), Some(_)) => fail("the combinator returned the other kind of result"),
            }
        }
        if self.arm.own {
            if let Poll::Ready(o) = &r {
                let all: Vec<&R> = match o {
                    Out::One(r) => vec![r],
                    Out::All(v) => v.iter().collect(),
                };
                for r in all {
                    let t = match r {
                        Ok(t) | Err(t) => t,
                    };
                    ck!(t.valid(), "the combinator returned something that is not a live output of a child");
                }
            }
        }
        if self.arm.wake {
            let w = self.w.borrow();
            if r.is_pending() {
                let mut run = vec![false; self.n];
                w.polled_now.iter().for_each(|i| run[*i] = true);
                for i in &due {
                    ck!(run[*i], "child {i} was woken but the combinator's next poll did not poll it");
                }
            }
        }
        if let Poll::Ready(o) = r {
            self.result = Some(o);
            self.w.borrow_mut().comb_done = true;
        }
    }

    /// No lost wakeups: a woken unfinished child means the task that polled last is notified.
    fn check_notified(&self) {
        if !self.arm.wake || self.result.is_some() || self.comb.is_none() {
            return;
        }
        let w = self.w.borrow();
        if let Some(l) = self.last {
            // (of very many, the one woken last is enough: the others have been looked at)
            let from = if self.n < 1000 { 0 } else { self.woke };
            if let Some(i) = (from..self.n).find(|&i| !w.kids[i].done && w.kids[i].woken) {
                ck!(self.roots[l].0.woken(), "child {i} has been woken but the task that polled the combinator last has not");
            }
        }
    }

    fn wake(&mut self, i: usize, which: usize, by_value: bool) {
        self.woke = i;
        let wk = {
            let mut w = self.w.borrow_mut();
            w.kids[i].woken = true;
            let k = &w.kids[i];
            k.wakers[which.min(k.wakers.len() - 1)].clone()
        };
        if by_value {
            wk.wake();
        } else {
            wk.wake_by_ref();
            let c2 = wk.clone();
            drop(wk);
            drop(c2);
        }
    }

    fn drop_comb(&mut self) {
        note(|| "drop the combinator".into());
        let c = self.comb.take();
        let (_a, wk) = dom::CountWaker::new();
        dom::within(&self.node, &wk, |_| drop(c));
        if self.arm.own {
            let w = self.w.borrow();
            for (i, k) in w.kids.iter().enumerate() {
                ck!(k.dropped, "child future {i} was not dropped with the combinator");
            }
        }
    }

    fn state(&self) -> u64 {
        let w = self.w.borrow();
        let v: Vec<_> = w.kids.iter().map(|k| (k.ready, k.done, k.woken, k.polls.min(3), k.dropped)).collect();
        harness::fx(&(v, w.polled_now.clone(), self.last, self.result.is_some(), self.comb.is_some(), self.roots[0].0.woken(), self.roots[1].0.woken()))
    }

    fn finish(mut self) {
        // Liveness: everything becomes ready, the task polls only when notified.
        if self.comb.is_some() && self.result.is_none() && (self.arm.res || self.arm.wake) {
            self.w.borrow_mut().mid = false;
            if self.last.is_none() {
                self.poll(0);
            }
            for i in 0..self.n {
                let polled = {
                    let mut w = self.w.borrow_mut();
                    if w.kids[i].ready.is_none() {
                        w.kids[i].ready = Some(self.k != Kind::ROk);
                    }
                    w.kids[i].polls > 0
                };
                if polled && self.result.is_none() {
                    self.wake(i, 1, true);
                    self.check_notified();
                }
            }
            let mut guard = 0;
            while self.result.is_none() {
                let l = self.last.unwrap();
                if !self.roots[l].0.woken() {
                    break;
                }
                self.poll(l);
                guard += 1;
                if guard > 4 * self.n + 8 {
                    fail("the combinator keeps notifying its task without completing");
                }
            }
            if self.arm.res && !(self.n == 0 && self.k == Kind::Race) {
                ck!(self.result.is_some(), "every child is ready and was woken, but the combinator never completes when polled whenever its task is notified");
            }
        }
        let order: Vec<_> = self.first_done.clone();
        // the order in which result, combinator, and retained wakers go away is explored
        let early = flip();
        if early && self.comb.is_some() {
            self.drop_comb();
        }
        if self.arm.stale {
            // use every retained waker after the combinator completed and/or was dropped
            for i in 0..self.n {
                if !self.w.borrow().kids[i].wakers.is_empty() {
                    note(|| format!("retained waker of child {i} is used"));
                    self.wake(i, 0, false);
                    self.wake(i, 1, true);
                }
            }
        }
        let res = self.result.take();
        if let Some(o) = res {
            match o {
                Out::One(_) | Out::All(_) => drop(o),
            }
        }
        if !early && self.comb.is_some() {
            self.drop_comb();
        }
        if self.arm.stale {
            for i in 0..self.n {
                if !self.w.borrow().kids[i].wakers.is_empty() {
                    self.wake(i, 1, false);
                    self.wake(i, 0, true);
                }
            }
        }
        for k in self.w.borrow_mut().kids.iter_mut() {
            k.wakers.clear();
        }
        if self.arm.own {
            ck!(tok::live() == 0, "{} outputs or futures were never dropped", tok::live());
        }
        if self.arm.stale {
            for (i, (a, wk)) in self.roots.iter().enumerate() {
                let _ = wk;
                let c = Arc::strong_count(a);
                ck!(c == 2, "{} clones of task {i}'s waker are still held after the combinator and all its wakers are gone", c as i64 - 2);
            }
        }
        outcome(&order);
    }
}

/// The full driver: every sequence of `depth` actions. `booms`: how many parts may panic.
fn deep(arm: Arm, k: Kind, s: Shape, n: usize, depth: usize, mid: bool, mut booms: usize) {
    let mut d = Drv::new(arm, k, s, n, mid);
    for _ in 0..depth {
        if d.comb.is_none() || d.result.is_some() {
            break;
        }
        enum Act {
            Poll(usize),
            Ready(usize, bool, bool),
            Wake(usize, usize),
            Boom(usize),
            Drop,
        }
        let mut menu = vec![];
        let notified = d.last.map(|l| d.roots[l].0.woken()).unwrap_or(true);
        {
            let w = d.w.borrow();
            if notified {
                menu.push(Act::Poll(d.last.unwrap_or(0)));
            }
            for i in 0..n {
                let kd = &w.kids[i];
                if kd.ready.is_none() {
                    menu.push(Act::Ready(i, true, true));
                    menu.push(Act::Ready(i, false, true));
                }
            }
            for i in 0..n {
                if w.kids[i].polls > 0 {
                    menu.push(Act::Wake(i, 1));
                    if w.kids[i].wakers.len() > 1 {
                        menu.push(Act::Wake(i, 0));
                    }
                }
            }
            if booms > 0 {
                menu.extend((0..n).filter(|i| !w.kids[*i].done).map(Act::Boom));
            }
            // another task takes over, or a poll nobody asked for
            menu.push(Act::Poll(1 - d.last.unwrap_or(0)));
            if !notified {
                menu.push(Act::Poll(d.last.unwrap_or(0)));
            }
            menu.push(Act::Drop);
        }
        match menu[choose(menu.len())] {
            Act::Poll(r) => d.poll(r),
            Act::Ready(i, ok, _) => {
                note(|| format!("child {i} becomes ready ({}) and is woken", if ok { "Ok" } else { "Err" }));
                let polled = {
                    let mut w = d.w.borrow_mut();
                    w.kids[i].ready = Some(ok);
                    w.kids[i].polls > 0
                };
                if polled {
                    d.wake(i, 1, true);
                }
            }
            Act::Wake(i, which) => {
                note(|| format!("child {i} is woken (waker {which})"));
                d.wake(i, which, false);
            }
            Act::Boom(i) => {
                note(|| format!("child {i} will panic and is woken"));
                booms -= 1;
                let polled = {
                    let mut w = d.w.borrow_mut();
                    w.kids[i].boom = true;
                    w.kids[i].polls > 0
                };
                if polled {
                    d.wake(i, 1, true);
                }
            }
            Act::Drop => d.drop_comb(),
        }
        d.check_notified();
        step(&d.state());
    }
    d.finish();
}

/// Wide combinators: poll, wake a pair of children (all pairs), poll, wake another, poll,
/// complete in two orders.
fn wide(arm: Arm, k: Kind, s: Shape, n: usize, rounds: usize) {
    let mut d = Drv::new(arm, k, s, n, false);
    d.poll(0);
    step(&d.state());
    let mut last = usize::MAX;
    for r in 0..rounds {
        // 1, 2 or many children are woken between two polls
        let i = choose(n);
        let j = if r == 0 { choose(n) } else { (i + choose(3)) % n };
        let ready = flip();
        note(|| format!("children {i} and {j} are woken, ready={ready}"));
        for c in [i, j] {
            if ready {
                d.w.borrow_mut().kids[c].ready = Some(matches!(k, Kind::Join | Kind::Try));
            }
            if d.result.is_none() {
                d.wake(c, 1, true);
                d.check_notified();
            }
        }
        if d.result.is_none() {
            d.poll(0);
        }
        step(&d.state());
        if d.result.is_some() {
            break;
        }
        last = i;
    }
    let _ = last;
    if d.result.is_none() {
        // wake almost everybody, then everybody completes in finish()
        let skip = n / 2;
        for c in (0..n).rev() {
            if c != skip {
                d.wake(c, 0, false);
                d.check_notified();
            }
        }
        d.poll(1);
        step(&d.state());
    }
    d.finish();
}

/// Children with numbers about the ends, the middle and the bounds of one and two bytes.
fn edges(n: usize) -> Vec<usize> {
    (0..n).filter(|i| *i < 2 || i + 2 >= n || *i == n / 2 || (254..258).contains(i) || (65534..65538).contains(i)).collect()
}

/// Very many children, of which one, then another, is woken.
fn vast(arm: Arm, k: Kind, s: Shape, n: usize) {
    let mut d = Drv::new(arm, k, s, n, false);
    d.poll(0);
    step(&d.state());
    let all = edges(n);
    let i = choose(all.len());
    let j = if n < 1000 { choose(all.len()) } else { (i + choose(2)) % all.len() };
    let ready = flip();
    note(|| format!("children {} and {} are woken, ready={ready}", all[i], all[j]));
    for c in [all[i], all[j]] {
        if ready && d.result.is_none() {
            d.w.borrow_mut().kids[c].ready = Some(matches!(k, Kind::Join | Kind::Try));
        }
        if d.result.is_none() {
            d.wake(c, 1, true);
            d.check_notified();
            d.poll(0);
        }
        step(&d.state());
    }
    d.finish();
}

/// All completion orders of `n` children, one poll after each completion or only after groups.
fn orders(arm: Arm, k: Kind, s: Shape, n: usize, budget_orders: bool) {
    let mut d = Drv::new(arm, k, s, n, false);
    // some children are ready from the start
    let initial = deviate(n + 1);
    if initial > 0 {
        let ok = flip();
        d.w.borrow_mut().kids[initial - 1].ready = Some(ok);
    }
    d.poll(0);
    let mut left: Vec<usize> = (0..n).filter(|&i| !d.w.borrow().kids[i].done).collect();
    let fav = match k {
        Kind::ROk => false,
        _ => true,
    };
    while d.result.is_none() && !left.is_empty() {
        let p = if budget_orders { deviate(left.len()) } else { choose(left.len()) };
        let i = left.remove(p);
        let ok = if deviate(2) == 1 { !fav } else { fav };
        note(|| format!("child {i} completes, ok={ok}"));
        d.w.borrow_mut().kids[i].ready = Some(ok);
        d.wake(i, 1, true);
        d.check_notified();
        let batch = deviate(2) == 1;
        if !batch || left.is_empty() {
            d.poll(0);
        }
        step(&d.state());
        if deviate(2) == 1 {
            break;
        }
    }
    d.finish();
}

/// Every history of the wakers the parts were given: cloned, compared, used by value or by
/// reference and dropped, before and after the combinator ends or is dropped.
fn retained(arm: Arm, k: Kind, s: Shape, n: usize, depth: usize, pool_max: usize) {
    let mut d = Drv::new(arm, k, s, n, false);
    d.poll(0);
    let mut pool: Vec<(usize, Waker)> = vec![];
    {
        let mut w = d.w.borrow_mut();
        for (i, kd) in w.kids.iter_mut().enumerate() {
            for wk in kd.wakers.drain(..) {
                pool.push((i, wk));
            }
        }
    }
    let freed = |d: &Drv, pool: &[(usize, Waker)]| {
        if d.comb.is_none() && pool.is_empty() && d.w.borrow().kids.iter().all(|k| k.wakers.is_empty()) {
            for (i, (a, _)) in d.roots.iter().enumerate() {
                let c = Arc::strong_count(a);
                ck!(c == 2, "{} clones of task {i}'s waker are still held after the combinator and all its wakers are gone", c as i64 - 2);
            }
        }
    };
    for _ in 0..depth {
        enum Act {
            Clone(usize),
            Wake(usize),
            Ref(usize),
            Same(usize, usize),
            Drop(usize),
            Poll,
            Finish(usize),
            DropComb,
        }
        let mut menu = vec![];
        for i in 0..pool.len() {
            menu.push(Act::Wake(i));
            menu.push(Act::Drop(i));
            menu.push(Act::Ref(i));
            if pool.len() < pool_max {
                menu.push(Act::Clone(i));
            }
            if i + 1 < pool.len() {
                menu.push(Act::Same(i, i + 1));
            }
        }
        if d.comb.is_some() {
            menu.push(Act::DropComb);
            if d.result.is_none() {
                menu.push(Act::Poll);
                for i in 0..n {
                    if !d.w.borrow().kids[i].done {
                        menu.push(Act::Finish(i));
                    }
                }
            }
        }
        if menu.is_empty() {
            break;
        }
        let mut woken = None;
        match menu.swap_remove(choose(menu.len())) {
            Act::Clone(i) => {
                note(|| format!("waker {i} is cloned"));
                let c = (pool[i].0, pool[i].1.clone());
                ck!(c.1.will_wake(&pool[i].1), "the clone of a waker is not equal to it");
                pool.push(c);
            }
            Act::Wake(i) => {
                note(|| format!("waker {i} is used by value"));
                let (c, wk) = pool.remove(i);
                woken = Some(c);
                wk.wake();
            }
            Act::Ref(i) => {
                note(|| format!("waker {i} is used by reference"));
                woken = Some(pool[i].0);
                pool[i].1.wake_by_ref();
            }
            Act::Same(i, j) => {
                note(|| format!("wakers {i} and {j} are compared"));
                if pool[i].0 != pool[j].0 {
                    ck!(!pool[i].1.will_wake(&pool[j].1), "the wakers of different parts are said to be the same");
                }
            }
            Act::Drop(i) => {
                note(|| format!("waker {i} is dropped"));
                drop(pool.remove(i));
            }
            Act::Poll => {
                note(|| "poll".into());
                d.poll(0);
            }
            Act::Finish(i) => {
                note(|| format!("child {i} becomes ready and the combinator is polled"));
                d.w.borrow_mut().kids[i].ready = Some(k != Kind::ROk);
                let wk = pool.iter().find(|p| p.0 == i).map(|p| p.1.clone());
                if let Some(wk) = wk {
                    wk.wake();
                    d.poll(0);
                }
            }
            Act::DropComb => d.drop_comb(),
        }
        for kd in d.w.borrow_mut().kids.iter_mut() {
            kd.wakers.clear();
        }
        if let (Some(c), Some(l)) = (woken, d.last) {
            let done = d.w.borrow().kids[c].done;
            if d.comb.is_some() && d.result.is_none() && !done {
                ck!(d.roots[l].0.woken(), "child {c} has been woken but the task that polled the combinator last has not");
            }
        }
        freed(&d, &pool);
        step(&(d.state(), pool.iter().map(|p| p.0).collect::<Vec<_>>()));
    }
    if d.comb.is_some() && flip() {
        d.drop_comb();
    }
    while !pool.is_empty() {
        let i = pool.len() - 1;
        let (_, wk) = pool.remove(i);
        if flip() {
            wk.wake();
        } else {
            drop(wk);
        }
        freed(&d, &pool);
    }
    if d.comb.is_some() {
        d.drop_comb();
    }
    freed(&d, &pool);
    outcome(&d.first_done);
}

#[cfg(feature = "sched")]
mod by_threads {
    use super::*;
    include!("../inc/threads.rs");
    pub fn add(p: &str, th: bool, cfgs: &mut Vec<Cfg>) {
        threads_cfgs(p, th, cfgs)
    }
}

fn kinds(p: &str) -> Vec<Kind> {
    match p {
        "C03" => vec![Kind::Join],
        "C04" => vec![Kind::Race],
        "C05" => vec![Kind::Try, Kind::ROk],
        _ => vec![Kind::Join, Kind::Race, Kind::Try, Kind::ROk],
    }
}

fn t_extra(th: bool, quick: usize, thorough: usize) -> usize {
    if th {
        thorough
    } else {
        quick
    }
}

fn main() {
    let _ = AtomicU32::new(0);
    let p = harness::property();
    let th = harness::thorough();
    let arm = Arm::of(&p);
    let mut cfgs = vec![];
    let shapes = [Shape::Tuple, Shape::Array, Shape::Vec];
    let extra = if matches!(p.as_str(), "C03" | "C04" | "C05" | "C07") { t_extra(th, 2, 3) } else { t_extra(th, 0, 1) };
    for k in kinds(&p) {
        for s in shapes {
            for (n, depth) in [(0, 3), (1, 6 + extra), (2, 5 + extra), (3, 4 + extra)] {
                if exists(k, s, n) {
                    cfgs.push(Cfg::new(format!("{k:?}/{s:?}/n={n}/every {depth} actions"), move || deep(arm, k, s, n, depth, false, 0)));
                }
            }
            for (n, depth, b) in [(2, 4 + extra, 2), (3, 3 + extra, 2)] {
                if exists(k, s, n) {
                    cfgs.push(Cfg::new(format!("{k:?}/{s:?}/n={n}/every {depth} actions, at most {b} wakes while polling"), move || deep(arm, k, s, n, depth, true, 0)).budget(b));
                }
            }
            if arm.own {
                for (n, depth, booms) in [(1, 6, 2), (2, 6, 2), (3, 5, 1), (4, 4 + th as usize, 1)] {
                    if exists(k, s, n) {
                        cfgs.push(Cfg::new(format!("{k:?}/{s:?}/n={n}/every {depth} actions, up to {booms} parts panic"), move || deep(arm, k, s, n, depth, false, booms)));
                    }
                }
            }
            for n in [3, 4] {
                if exists(k, s, n) {
                    let b = 3;
                    cfgs.push(Cfg::new(format!("{k:?}/{s:?}/n={n}/all completion orders, at most {b} deviations"), move || orders(arm, k, s, n, false)).budget(b));
                }
            }
            if arm.stale {
                for (n, depth, pool) in [(1, 5 + extra, 3), (2, 4 + extra, 3), (3, 3 + extra, 4)] {
                    if exists(k, s, n) {
                        cfgs.push(Cfg::new(format!("{k:?}/{s:?}/n={n}/every history of {depth} operations on the parts' wakers"), move || retained(arm, k, s, n, depth, pool)));
                    }
                }
            }
            let many: &[usize] = if s == Shape::Tuple { &[5, 6, 7, 8, 9, 10, 11, 12] } else { &[5, 8, 9, 17] };
            for &n in many {
                if exists(k, s, n) {
                    let b = if th { 3 } else { 2 };
                    cfgs.push(Cfg::new(format!("{k:?}/{s:?}/n={n}/completion orders, at most {b} deviations"), move || orders(arm, k, s, n, true)).budget(b));
                }
            }
        }
        for (s, ns) in [(Shape::Array, [64usize, 65, 128, 129, 193]), (Shape::Vec, [64, 65, 128, 129, 193])] {
            for n in ns {
                if !th && n > 130 {
                    continue;
                }
                let rounds = if th && n <= 65 { 2 } else { 1 };
                cfgs.push(Cfg::new(format!("{k:?}/{s:?}/n={n}/all pairs woken together, {rounds} rounds"), move || wide(arm, k, s, n, rounds)));
            }
        }
    }
    for k in kinds(&p) {
        for n in [300usize, 66000] {
            cfgs.push(Cfg::new(format!("{k:?}/Vec/n={n}/any at the edges, one after another"), move || vast(arm, k, Shape::Vec, n)));
        }
    }
    #[cfg(feature = "sched")]
    by_threads::add(&p, th, &mut cfgs);
    run(Check {
        property: p,
        tier: if th { "thorough".into() } else { "quick".into() },
        cfgs,
        rule: "one execution = one sequence of driver choices run against the real combinators; every sequence within the bounds named in the configuration is run".into(),
        assumptions: vec![
            "wakers may be used by other threads (sequentially consistent, schedules with bounded preemptions); everything else happens on one thread, as on wasm32".into(),
            "the in-memory DOM under /verif/fakes stands in for the browser; leaves render nothing in this check".into(),
        ],
    })
}
