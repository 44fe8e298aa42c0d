//! Small component programs: the inputs of the DOM checks.  A program is a tree of the building
//! blocks a user has (elements, combinators, sequencing, conditionally rendered parts); it is
//! built twice, as real library futures and as a model that says what must be in the DOM.
use crate::{choose, harness_bug};
use std::{
    cell::RefCell,
    future::Future,
    pin::Pin,
    rc::Rc,
    task::{Context, Poll, Waker},
};

use async_ui_web::{
    components::DynamicSlot,
    join,
    lists::{DiffedList, DynamicList},
    race, race_ok, try_join,
};
use async_ui_web_core::ContainerNodeFuture;

pub type R = Result<(), ()>;
pub type Fut = Pin<Box<dyn Future<Output = R>>>;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum K {
    Join,
    Race,
    Try,
    ROk,
}
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Shape {
    Tuple,
    Array,
    Vec,
    /// a join made of a `DynamicList`, a `DiffedList` or `DynamicSlot`s (any other combinator: `Vec`)
    List,
    Diffed,
    Slots,
    /// each of these, depending on where in the program
    Mix,
}

#[derive(Clone, PartialEq, Debug)]
pub enum P {
    /// An element that exists until its gate opens; `late`: a first gate decides when it appears.
    Leaf { late: bool },
    /// Renders nothing, finishes when its gate opens.
    Wait,
    /// Finishes at once, renders nothing.
    Now,
    /// An element around a program.
    El(Box<P>),
    Comb(K, Shape, Vec<P>),
    /// One after the other, as consecutive `.await`s.
    Seq(Vec<P>),
    /// Builds the program's future but drops it unpolled when its gate opens, then waits for its
    /// second gate. With `true`, it shows an element at the same position all the while.
    Unpolled(Box<P>, bool),
}

pub fn leaf() -> P {
    P::Leaf { late: false }
}
pub fn late() -> P {
    P::Leaf { late: true }
}
pub fn el(p: P) -> P {
    P::El(Box::new(p))
}
pub fn comb(k: K, s: Shape, v: Vec<P>) -> P {
    P::Comb(k, s, v)
}
pub fn unpolled(p: P) -> P {
    P::Unpolled(Box::new(p), false)
}

/// As `unpolled`, while an element is shown at the same position.
pub fn unpolled_beside(p: P) -> P {
    P::Unpolled(Box::new(p), true)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Unstarted,
    Active,
    Done(bool),
}

/// The model of one running program.
pub struct M {
    pub id: usize,
    kind: Mk,
    st: St,
    gates: u8,
    kids: Vec<M>,
}
#[derive(Clone, Copy, PartialEq)]
enum Mk {
    Leaf(bool),
    Wait,
    Now,
    El,
    Comb(K),
    Seq,
    Unpolled(bool),
}

#[derive(Clone, PartialEq, Debug, Hash)]
pub struct Exp {
    pub id: usize,
    pub kids: Vec<Exp>,
}

impl M {
    pub fn active(&self) -> bool {
        self.st == St::Active
    }
    pub fn result(&self) -> Option<bool> {
        match self.st {
            St::Done(b) => Some(b),
            _ => None,
        }
    }
    pub fn start(&mut self) {
        self.st = St::Active;
        match self.kind {
            Mk::Now => self.st = St::Done(true),
            Mk::El | Mk::Comb(_) => self.kids.iter_mut().for_each(|k| k.start()),
            Mk::Seq => self.kids[0].start(),
            _ => {}
        }
    }
    /// Let finished parts finish what they are part of.
    pub fn settle(&mut self) {
        if self.st != St::Active {
            return;
        }
        loop {
            for k in self.kids.iter_mut() {
                k.settle();
            }
            match self.kind {
                Mk::El => {
                    if let St::Done(r) = self.kids[0].st {
                        self.st = St::Done(r);
                    }
                }
                Mk::Seq => {
                    let i = self.kids.iter().position(|k| !matches!(k.st, St::Done(_)));
                    match i {
                        Some(i) => {
                            if self.kids[i].st == St::Unstarted {
                                self.kids[i].start();
                                continue;
                            }
                        }
                        None => self.st = self.kids.last().unwrap().st,
                    }
                }
                Mk::Comb(k) => {
                    let done: Vec<bool> = self.kids.iter().filter_map(|k| k.result()).collect();
                    let all = done.len() == self.kids.len();
                    let d = match k {
                        K::Join => all.then_some(true),
                        K::Race => (!done.is_empty()).then(|| done[0]),
                        K::Try => {
                            if done.contains(&false) {
                                Some(false)
                            } else {
                                all.then_some(true)
                            }
                        }
                        K::ROk => {
                            if done.contains(&true) {
                                Some(true)
                            } else {
                                all.then_some(false)
                            }
                        }
                    };
                    if let Some(d) = d {
                        self.st = St::Done(d);
                    }
                }
                _ => {}
            }
            return;
        }
    }
    /// What must be in the DOM.
    pub fn expect(&self, out: &mut Vec<Exp>) {
        if self.st != St::Active {
            return;
        }
        match self.kind {
            Mk::Leaf(late) => {
                if !late || self.gates > 0 {
                    out.push(Exp { id: self.id, kids: vec![] })
                }
            }
            Mk::El => {
                let mut kids = vec![];
                self.kids[0].expect(&mut kids);
                out.push(Exp { id: self.id, kids })
            }
            Mk::Unpolled(true) => out.push(Exp { id: self.id, kids: vec![] }),
            Mk::Comb(_) | Mk::Seq => self.kids.iter().for_each(|k| k.expect(out)),
            _ => {}
        }
    }
    /// Gates that can open now: (id, the next opening finishes that part).
    pub fn gates(&self, out: &mut Vec<(usize, bool)>) {
        if self.st != St::Active {
            return;
        }
        match self.kind {
            Mk::Leaf(late) => out.push((self.id, self.gates == late as u8)),
            Mk::Wait => out.push((self.id, true)),
            Mk::Unpolled(_) => out.push((self.id, self.gates == 1)),
            Mk::Now => {}
            _ => self.kids.iter().for_each(|k| k.gates(out)),
        }
    }
    pub fn open(&mut self, id: usize, ok: bool) {
        if self.id == id {
            self.gates += 1;
            let last = match self.kind {
                Mk::Leaf(late) => 1 + late as u8,
                Mk::Wait => 1,
                Mk::Unpolled(_) => 2,
                _ => harness_bug("no such gate"),
            };
            if self.gates == last {
                self.st = St::Done(ok);
            }
            return;
        }
        for k in self.kids.iter_mut() {
            k.open(id, ok);
        }
    }
}

/// Model of `p`; ids are given in preorder from `next`.
pub fn model(p: &P, next: &mut usize) -> M {
    let id = *next;
    *next += 1;
    let (kind, kids): (Mk, Vec<M>) = match p {
        P::Leaf { late } => (Mk::Leaf(*late), vec![]),
        P::Wait => (Mk::Wait, vec![]),
        P::Now => (Mk::Now, vec![]),
        P::El(c) => (Mk::El, vec![model(c, next)]),
        P::Comb(k, _, v) => (Mk::Comb(*k), v.iter().map(|c| model(c, next)).collect()),
        P::Seq(v) => (Mk::Seq, v.iter().map(|c| model(c, next)).collect()),
        P::Unpolled(c, beside) => {
            model(c, next);
            (Mk::Unpolled(*beside), vec![])
        }
    };
    M { id, kind, st: St::Unstarted, gates: 0, kids }
}

#[derive(Default)]
struct Gate {
    opened: u8,
    ok: bool,
    waker: Option<Waker>,
}
/// The real side's shared state.
#[derive(Default)]
pub struct Rt {
    gates: Vec<Gate>,
    /// the element rendered by part `id`, once created
    pub nodes: Vec<Option<web_sys::Node>>,
}
pub type S = Rc<RefCell<Rt>>;

impl Rt {
    fn reserve(&mut self, id: usize) {
        while self.gates.len() <= id {
            self.gates.push(Gate::default());
            self.nodes.push(None);
        }
    }
}
pub fn open(s: &S, id: usize, ok: bool) {
    let w = {
        let mut s = s.borrow_mut();
        let g = &mut s.gates[id];
        g.opened += 1;
        g.ok = ok;
        g.waker.take()
    };
    if let Some(w) = w {
        w.wake()
    }
}
struct WaitGate(S, usize, u8);
impl Future for WaitGate {
    type Output = R;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R> {
        let mut s = self.0.borrow_mut();
        let g = &mut s.gates[self.1];
        if g.opened >= self.2 {
            Poll::Ready(if g.ok { Ok(()) } else { Err(()) })
        } else {
            g.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

fn element(s: &S, id: usize) -> web_sys::Node {
    let n: web_sys::Node = crate::dom::document().create_element(&format!("x{id}")).unwrap().into();
    s.borrow_mut().nodes[id] = Some(n.clone());
    n
}

/// All the parts in a list or in slots, until all have finished.
fn listed(s: Shape, v: Vec<Fut>) -> Fut {
    let n = v.len();
    let done = Rc::new(std::cell::Cell::new(0));
    let v: Vec<Fut> = v
        .into_iter()
        .map(|f| {
            let done = done.clone();
            Box::pin(async move {
                let r = f.await;
                done.set(done.get() + 1);
                r
            }) as Fut
        })
        .collect();
    async fn until<T>(f: impl Future<Output = T>, done: Rc<std::cell::Cell<usize>>, n: usize) -> R {
        let mut f = std::pin::pin!(f);
        std::future::poll_fn(|cx| {
            let _ = f.as_mut().poll(cx);
            if done.get() == n {
                Poll::Ready(Ok(()))
            } else {
                Poll::Pending
            }
        })
        .await
    }
    match s {
        Shape::List => Box::pin(async move {
            let l: DynamicList<u32, Fut> = DynamicList::new();
            // in the reverse order, each before the one inserted last
            for (i, f) in v.into_iter().enumerate().rev() {
                l.insert(i as u32, f, Some(&(i as u32 + 1)));
            }
            let r = until(l.render(), done, n).await;
            r
        }),
        Shape::Diffed => Box::pin(async move {
            let v = RefCell::new(v.into_iter().map(Some).collect::<Vec<_>>());
            let l = DiffedList::new(|k: &u32| v.borrow_mut()[*k as usize].take().unwrap_or_else(|| harness_bug("an item is made again")));
            l.update((0..n as u32).rev().collect());
            l.update((0..n as u32).collect());
            let r = until(l.render(), done, n).await;
            r
        }),
        _ => Box::pin(async move {
            let slots: Vec<DynamicSlot<Fut>> = v.iter().map(|_| DynamicSlot::new()).collect();
            for (s, f) in slots.iter().zip(v) {
                s.set_future(f);
            }
            let r = until(join(slots.iter().map(|s| s.render()).collect::<Vec<_>>()), done, n).await;
            r
        }),
    }
}

fn combine(id: usize, k: K, s: Shape, mut v: Vec<Fut>) -> Fut {
    let s = match (s, k) {
        (Shape::Mix, K::Join) => [Shape::List, Shape::Slots, Shape::Diffed, Shape::Array][id % 4],
        (Shape::Mix | Shape::List | Shape::Diffed | Shape::Slots, k) if k != K::Join => Shape::Vec,
        (s, _) => s,
    };
    if matches!(s, Shape::List | Shape::Diffed | Shape::Slots) {
        return listed(s, v);
    }
    macro_rules! run {
        ($e:expr) => {{
            let e = $e;
            match k {
                K::Join => Box::pin(async move {
                    let _ = join(e).await;
                    Ok(())
                }) as Fut,
                K::Race => Box::pin(async move { race(e).await }) as Fut,
                K::Try => Box::pin(async move { try_join(e).await.map(|_| ()) }) as Fut,
                K::ROk => Box::pin(async move { race_ok(e).await.map_err(|_| ()) }) as Fut,
            }
        }};
    }
    let n = v.len();
    let mut nx = || v.remove(0);
    match (s, n) {
        (Shape::Vec, _) => run!(v),
        (Shape::Array, 1) => run!([nx()]),
        (Shape::Array, 2) => run!([nx(), nx()]),
        (Shape::Array, 3) => run!([nx(), nx(), nx()]),
        (Shape::Array, 4) => run!([nx(), nx(), nx(), nx()]),
        (Shape::Tuple, 1) => run!((nx(),)),
        (Shape::Tuple, 2) => run!((nx(), nx())),
        (Shape::Tuple, 3) => run!((nx(), nx(), nx())),
        (Shape::Tuple, 4) => run!((nx(), nx(), nx(), nx())),
        (Shape::Tuple, 11) => run!((nx(), nx(), nx(), nx(), nx(), nx(), nx(), nx(), nx(), nx(), nx())),
        _ => harness_bug("arity"),
    }
}

/// The real future of `p`.
pub fn build(p: &P, s: &S, next: &mut usize) -> Fut {
    let id = *next;
    *next += 1;
    s.borrow_mut().reserve(id);
    let s2 = s.clone();
    match p {
        P::Leaf { late } => {
            let late = *late;
            Box::pin(async move {
                if late {
                    let _ = WaitGate(s2.clone(), id, 1).await;
                }
                let n = element(&s2, id);
                ContainerNodeFuture::new(WaitGate(s2, id, 1 + late as u8), n).await
            })
        }
        P::Wait => Box::pin(WaitGate(s2, id, 1)),
        P::Now => Box::pin(async { Ok(()) }),
        P::El(c) => {
            let c = build(c, s, next);
            Box::pin(async move {
                let n = element(&s2, id);
                ContainerNodeFuture::new(c, n).await
            })
        }
        P::Comb(k, sh, v) => {
            let v = v.iter().map(|c| build(c, s, next)).collect();
            combine(id, *k, *sh, v)
        }
        P::Seq(v) => {
            let v: Vec<Fut> = v.iter().map(|c| build(c, s, next)).collect();
            Box::pin(async move {
                let mut r = Ok(());
                for f in v {
                    r = f.await;
                }
                r
            })
        }
        P::Unpolled(c, beside) => {
            let beside = *beside;
            // the unpolled thing is the library's own future, not a wrapper around it
            let f = raw(c, s, next);
            Box::pin(async move {
                if beside {
                    let n = element(&s2, id);
                    let mut shown = Box::pin(ContainerNodeFuture::new(WaitGate(s2.clone(), id, 2), n));
                    let mut f = Some(f);
                    return std::future::poll_fn(|cx| {
                        let r = shown.as_mut().poll(cx);
                        if s2.borrow().gates[id].opened > 0 {
                            f = None;
                        }
                        r
                    })
                    .await;
                }
                let _ = WaitGate(s2.clone(), id, 1).await;
                drop(f);
                WaitGate(s2, id, 2).await
            })
        }
    }
}
/// As `build`, but a combinator or element is not wrapped in an async block.
pub fn raw(p: &P, s: &S, next: &mut usize) -> Pin<Box<dyn std::any::Any>> {
    let id = *next;
    s.borrow_mut().reserve(id);
    match p {
        P::El(c) => {
            *next += 1;
            let c = build(c, s, next);
            let n = element(s, id);
            Box::pin(ContainerNodeFuture::new(c, n))
        }
        P::Comb(k, sh, v) => {
            *next += 1;
            let mut v: Vec<Fut> = v.iter().map(|c| build(c, s, next)).collect();
            macro_rules! of {
                ($e:expr) => {
                    match k {
                        K::Join => Box::pin(join($e)) as Pin<Box<dyn std::any::Any>>,
                        K::Race => Box::pin(race($e)),
                        K::Try => Box::pin(try_join($e)),
                        K::ROk => Box::pin(race_ok($e)),
                    }
                };
            }
            match sh {
                Shape::List | Shape::Diffed | Shape::Slots | Shape::Mix => Box::pin(combine(id, *k, *sh, v)),
                Shape::Vec => of!(v),
                Shape::Array => of!([v.remove(0), v.remove(0)]),
                Shape::Tuple => of!((v.remove(0), v.remove(0))),
            }
        }
        _ => Box::pin(build(p, s, next)),
    }
}

/// Read the children of `host` as the ids of the parts that rendered them; nodes that are not a
/// part's current element come out as `usize::MAX`; comments are invisible and left out.
pub fn read(host: &web_sys::Node, s: &S) -> Vec<Exp> {
    let rt = s.borrow();
    fn go(n: &web_sys::Node, rt: &Rt) -> Vec<Exp> {
        web_sys::fake::children(n)
            .iter()
            .filter(|c| c.node_type() != 8)
            .map(|c| {
                let i = web_sys::fake::id(c);
                let id = rt.nodes.iter().position(|x| x.as_ref().is_some_and(|x| web_sys::fake::id(x) == i)).unwrap_or(usize::MAX);
                Exp { id, kids: go(c, rt) }
            })
            .collect()
    }
    go(host, &rt)
}

/// Every program with at most `leaves` leaves and `depth` levels of nesting.
pub fn any(leaves: &mut usize, depth: usize, shape: Shape, errs: bool) -> P {
    let max = *leaves;
    let n = if depth == 0 || max == 0 { 3 } else { 6 + 2 * errs as usize };
    let take = |leaves: &mut usize| *leaves = leaves.saturating_sub(1);
    match choose(n) {
        0 => {
            take(leaves);
            leaf()
        }
        1 => {
            take(leaves);
            late()
        }
        2 => {
            take(leaves);
            P::Wait
        }
        3 => el(any(leaves, depth - 1, shape, errs)),
        i => {
            let a = any(leaves, depth - 1, shape, errs);
            let b = any(leaves, depth - 1, shape, errs);
            match i {
                4 => comb(K::Join, shape, vec![a, b]),
                5 => match choose(2) {
                    0 => comb(K::Race, shape, vec![a, b]),
                    _ => P::Seq(vec![a, b]),
                },
                6 => comb(K::Try, shape, vec![a, b]),
                _ => comb(K::ROk, shape, vec![a, b]),
            }
        }
    }
}
