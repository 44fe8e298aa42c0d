//! C01 document order, C02 exact removal, C12 the dynamic slot, C18 mounting and unmounting,
//! C26 `pend_after` / `meanwhile` / class helpers.
//!
//! Component programs (see `prog`) are enumerated, run as real library futures on the in-memory
//! DOM under every sequence of gate openings, and compared with their model after every step.
use harness::{
    choose, ck, deviate, dom, fail, flip,
    host::{done, order, show, sorted, Arm, Host},
    note, of, outcome,
    prog::{self, build, comb, el, late, leaf, model, unpolled, unpolled_beside, Exp, Fut, Shape, K, M, P, R, S},
    run, step, tok, Cfg, Check,
};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeSet,
    future::{pending, poll_fn, Future},
    pin::Pin,
    rc::Rc,
    task::{Context, Poll, Waker},
};
use web_sys::Node;

use async_ui_web::{components::DynamicSlot, executor::get_executor, html::Div, join, mount, mount_at, prelude_traits::*, race};
use async_ui_web_core::ContainerNodeFuture;

/// Run one program under every sequence of gate openings (up to `steps`).
fn drive_program(arm: Arm, p: &P, steps: usize, errs: bool) {
    note(|| format!("program {p:?}"));
    let mut h = Host::new(arm);
    let mut m = model(p, &mut 0);
    let f = build(p, &h.s, &mut 0);
    h.start(async move {
        let _ = f.await;
    });
    m.start();
    m.settle();
    let exp = |m: &M| {
        let mut e = vec![];
        m.expect(&mut e);
        e
    };
    h.check(&exp(&m), "after the first poll");
    for _ in 0..steps {
        let mut g = vec![];
        m.gates(&mut g);
        if g.is_empty() {
            break;
        }
        let c = choose(g.len() + 1);
        if c == 0 {
            break;
        }
        let (id, last) = g[c - 1];
        let err = errs && last && flip();
        note(|| format!("open gate {id} {}", if err { "(Err)" } else { "" }));
        m.open(id, !err);
        prog::open(&h.s, id, !err);
        if !err {
            // a second gate before the components get to run
            let c2 = deviate(g.len() + 1);
            if c2 > 0 && c2 != c {
                let id = g[c2 - 1].0;
                note(|| format!("and gate {id}"));
                m.open(id, true);
                prog::open(&h.s, id, true);
            }
        }
        m.settle();
        h.drive();
        h.check(&exp(&m), "after running");
    }
    h.unmount();
    outcome(&h.before.len());
    done();
}

fn trees(arm: Arm, shape: Shape, wrapped: bool, leaves: usize, depth: usize, errs: bool, steps: usize) {
    let x = prog::any(&mut leaves.clone(), depth, shape, errs);
    let p = if wrapped { comb(K::Join, Shape::Tuple, vec![leaf(), x, leaf()]) } else { x };
    drive_program(arm, &p, steps, errs);
}

fn chain(el_at: usize, depth: usize) -> P {
    if depth == 0 {
        return late();
    }
    let inner = chain(el_at, depth - 1);
    let inner = if depth == el_at { el(inner) } else { inner };
    comb(K::Join, Shape::Tuple, vec![late(), inner, late()])
}
/// Deep nesting: every order in which `k` of the late parts may appear, then one goes away.
fn deep(arm: Arm, el_at: usize, depth: usize, k: usize) {
    let p = chain(el_at, depth);
    let mut h = Host::new(arm);
    let mut m = model(&p, &mut 0);
    let f = build(&p, &h.s, &mut 0);
    h.start(async move {
        let _ = f.await;
    });
    m.start();
    let mut open = vec![];
    for _ in 0..k {
        let mut g = vec![];
        m.gates(&mut g);
        let g: Vec<_> = g.into_iter().filter(|g| !g.1).collect();
        let id = of(&g).0;
        open.push(id);
        m.open(id, true);
        prog::open(&h.s, id, true);
        h.drive();
        let mut e = vec![];
        m.expect(&mut e);
        h.check(&e, "after a late part appeared");
    }
    let id = *of(&open);
    m.open(id, true);
    prog::open(&h.s, id, true);
    m.settle();
    h.drive();
    let mut e = vec![];
    m.expect(&mut e);
    h.check(&e, "after a part finished");
    h.unmount();
    outcome(&open);
    done();
}

/// Wide combinators: positions at and around powers of two.
fn wide(arm: Arm, n: usize, shape: Shape, nested: bool, k: usize) {
    let kid = || if nested { comb(K::Join, Shape::Vec, vec![late(), late()]) } else { late() };
    let p = comb(K::Join, shape, (0..n).map(|_| kid()).collect());
    let mut h = Host::new(arm);
    let mut m = model(&p, &mut 0);
    let f = build(&p, &h.s, &mut 0);
    h.start(async move {
        let _ = f.await;
    });
    m.start();
    let at: Vec<usize> = [0, 1, 2, 9, 10, 127, 128, 255, 256, 257, 65535, 65536, n - 2, n - 1].into_iter().filter(|i| *i < n).collect::<BTreeSet<_>>().into_iter().collect();
    let gid = |i: usize| if nested { 1 + 3 * i + 1 } else { 1 + i };
    let mut open = vec![];
    for _ in 0..k {
        let c: Vec<usize> = at.iter().copied().filter(|i| !open.contains(i)).collect();
        let i = *of(&c);
        open.push(i);
        for j in 0..(1 + nested as usize) {
            m.open(gid(i) + j, true);
            prog::open(&h.s, gid(i) + j, true);
        }
        h.drive();
        let mut e = vec![];
        m.expect(&mut e);
        h.check(&e, "after a late part appeared");
    }
    let i = *of(&open);
    m.open(gid(i), true);
    prog::open(&h.s, gid(i), true);
    m.settle();
    h.drive();
    let mut e = vec![];
    m.expect(&mut e);
    h.check(&e, "after a part finished");
    h.unmount();
    outcome(&open);
    done();
}

/// Things built but never rendered are dropped here and there.
fn unrendered(arm: Arm, shape: Shape, steps: usize) {
    let kinds = [K::Join, K::Race, K::Try, K::ROk];
    let inner = match choose(6) {
        0 => el(leaf()),
        1 => leaf(),
        i => comb(kinds[i - 2], shape, vec![leaf(), leaf()]),
    };
    // dropped where nothing is being rendered
    drop(prog::raw(&inner, &S::default(), &mut 0));
    let u = if flip() { unpolled_beside(inner) } else { unpolled(inner) };
    let p = match choose(5) {
        0 => u,
        1 => comb(K::Join, Shape::Tuple, vec![leaf(), u, leaf()]),
        2 => el(comb(K::Join, Shape::Array, vec![u, late()])),
        3 => comb(K::Race, Shape::Vec, vec![P::Now, u]),
        _ => P::Seq(vec![leaf(), u, leaf()]),
    };
    drive_program(arm, &p, steps, false);
}

// ---------------------------------------------------------------------------------------- C12

type Content = Pin<Box<dyn Future<Output = Vec<R>>>>;
type Cmds = Rc<RefCell<(Vec<Box<dyn FnOnce()>>, Option<Waker>)>>;

struct Cur {
    m: Option<M>,
}
/// A future that forgets which of its parts woke it, as `futures`' own combinators do.
struct Either2(Fut, Fut);
impl Future for Either2 {
    type Output = R;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R> {
        let a = self.0.as_mut().poll(cx);
        let b = self.1.as_mut().poll(cx);
        if a.is_ready() {
            a
        } else {
            b
        }
    }
}

fn slot_check(arm: Arm, contents: &[usize], place: usize, ops: usize) {
    let mut h = Host::new(arm);
    let s = h.s.clone();
    let slot: Rc<DynamicSlot<Content>> = Rc::new(DynamicSlot::new());
    let cmds: Cmds = Default::default();
    // neighbours 0 and 1
    let mut next = 0;
    let mut ma = model(&leaf(), &mut next.clone());
    let fa = build(&leaf(), &s, &mut next);
    let mut mb = model(&leaf(), &mut next.clone());
    let fb = build(&leaf(), &s, &mut next);
    let around = model(&el(P::Wait), &mut next.clone()).id;
    let inner_node = {
        let _ = build(&el(P::Wait), &s, &mut next);
        dom::div()
    };
    s.borrow_mut().nodes[around] = Some(inner_node.clone());
    let sl = slot.clone();
    let cm = cmds.clone();
    let logic = poll_fn(move |cx| {
        cm.borrow_mut().1 = Some(cx.waker().clone());
        loop {
            let c = {
                let mut c = cm.borrow_mut();
                if c.0.is_empty() {
                    break;
                }
                c.0.remove(0)
            };
            c();
        }
        Poll::<()>::Pending
    });
    h.start(async move {
        match place {
            0 => {
                let _ = join((fa, sl.render(), fb, logic)).await;
            }
            1 => {
                let _ = join((fa, ContainerNodeFuture::new(async move { join((sl.render(), logic)).await }, inner_node), fb)).await;
            }
            // the slot is the whole application
            _ => sl.render().await,
        }
    });
    ma.start();
    mb.start();
    let mut cur = Cur { m: None };
    let mut next_is_set = false;
    let mut started = true;
    let expect = |cur: &Cur| {
        let mut inner = vec![];
        if let Some(m) = &cur.m {
            m.expect(&mut inner)
        }
        let mut e = vec![];
        match place {
            0 => {
                ma.expect(&mut e);
                e.extend(inner);
                mb.expect(&mut e);
            }
            1 => {
                ma.expect(&mut e);
                e.push(Exp { id: around, kids: inner });
                mb.expect(&mut e);
            }
            _ => e.extend(inner),
        }
        e
    };
    h.check(&expect(&cur), "after the first poll");
    // set: what the slot will show next; applied to the model when the slot runs
    let mut pend: Option<Option<M>> = None;
    for _ in 0..ops {
        // what can be done: set each content, clear, gates of the shown content, run
        let mut g = vec![];
        if pend.is_none() {
            if let Some(m) = &cur.m {
                m.gates(&mut g);
            }
        }
        let c = choose(contents.len() + 1 + g.len());
        let outside = place == 2 || !flip();
        let act: Box<dyn FnOnce()> = if c < contents.len() {
            let kind = contents[c];
            let mut p = vec![
                leaf(),
                comb(K::Join, Shape::Vec, vec![leaf(), late()]),
                late(),
                el(late()),
                comb(K::Race, Shape::Vec, vec![leaf(), leaf()]),
                P::Wait,
                leaf(),
                comb(K::Join, Shape::List, vec![leaf(), late()]),
                comb(K::Join, Shape::Slots, vec![late(), leaf()]),
            ]
            .remove(kind);
            if kind == 6 {
                p = leaf();
            }
            let base = next;
            let m = model(&p, &mut next);
            let mut b = base;
            let s3 = s.clone();
            let content: Content = match (&p, kind) {
                // the library's own combinators, not wrapped
                (P::Comb(K::Join, Shape::Vec, v), _) => {
                    b += 1;
                    let v: Vec<Fut> = v.iter().map(|c| build(c, &s3, &mut b)).collect();
                    // reserve the combinator's own id
                    Box::pin(join(v))
                }
                (P::Comb(K::Race, _, _), _) => {
                    let f = build(&p, &s3, &mut b);
                    let g = build(&P::Wait, &s3, &mut next);
                    // finishes with the first; the waker of the second stays behind
                    let f = Either2(f, g);
                    Box::pin(async move { vec![f.await] })
                }
                (_, 6) => {
                    // shows an element; when its gate opens it puts a new content into the slot
                    let f = build(&p, &s3, &mut b);
                    let slot = slot.clone();
                    Box::pin(async move {
                        let r = f.await;
                        slot.clear_future();
                        vec![r]
                    })
                }
                _ => {
                    let f = build(&p, &s3, &mut b);
                    Box::pin(async move { vec![f.await] })
                }
            };
            note(|| format!("set_future({p:?}) as parts {base}.. {}", if outside { "" } else { "from a component" }));
            pend = Some(Some(m));
            let slot = slot.clone();
            Box::new(move || slot.set_future(content))
        } else if c == contents.len() {
            note(|| format!("clear_future {}", if outside { "" } else { "from a component" }));
            pend = Some(None);
            let slot = slot.clone();
            Box::new(move || slot.clear_future())
        } else {
            let id = g[c - contents.len() - 1].0;
            note(|| format!("open gate {id}"));
            cur.m.as_mut().unwrap().open(id, true);
            let s3 = s.clone();
            Box::new(move || prog::open(&s3, id, true))
        };
        if outside {
            act();
        } else {
            let mut c = cmds.borrow_mut();
            c.0.push(act);
            let w = c.1.clone();
            drop(c);
            w.unwrap().wake();
        }
        let _ = (&mut next_is_set, &mut started);
        // maybe more requests before the slot gets to run
        if outside && flip() {
            note(|| "(not run yet)".into());
            continue;
        }
        if deviate(2) == 1 {
            // the application is from now on run by another task
            note(|| "(another task takes over)".into());
            let (wk, waker) = dom::CountWaker::new();
            if h.wk.take() > 0 {
                wk.0.store(1, std::sync::atomic::Ordering::Relaxed);
            }
            h.wk = wk;
            h.waker = waker;
            h.waker.wake_by_ref();
        }
        if let Some(p) = pend.take() {
            cur.m = p;
            if let Some(m) = &mut cur.m {
                m.start();
            }
        }
        if let Some(m) = &mut cur.m {
            m.settle();
        }
        h.drive();
        h.check(&expect(&cur), "after running");
    }
    h.root = None;
    let kids = web_sys::fake::children(&h.node);
    ck!(kids.len() == 1, "after unmounting, {} of the component's nodes are still in the document", kids.len() - 1);
    outcome(&kids.len());
    drop(slot);
    cmds.borrow_mut().0.clear();
    done();
}

/// A finished content must not be run again, however often the slot is woken.
/// One content after another, more of them than a counter of few bits can count, run or not.
fn slot_many(arm: Arm, ns: &[usize]) {
    let mut h = Host::new(arm);
    let s = h.s.clone();
    let slot: Rc<DynamicSlot<Fut>> = Rc::new(DynamicSlot::new());
    let mut next = 0;
    let mut mk = |p: &P| {
        let m = model(p, &mut next.clone());
        (m, build(p, &s, &mut next))
    };
    let ((mut ma, fa), (mut mb, fb)) = (mk(&leaf()), mk(&leaf()));
    let sl = slot.clone();
    h.start(async move {
        let _ = join((fa, sl.render(), fb)).await;
    });
    ma.start();
    mb.start();
    let mut last: Option<M> = None;
    let expect = |last: &Option<M>| {
        let mut e = vec![];
        ma.expect(&mut e);
        if let Some(m) = last {
            m.expect(&mut e)
        }
        mb.expect(&mut e);
        e
    };
    for _ in 0..2 {
        let n = *of(ns);
        let (each, clear) = (flip(), flip());
        note(|| format!("{n} contents, run after each: {each}, cleared in between: {clear}"));
        for i in 0..n {
            if clear {
                slot.clear_future();
            }
            let (m, f) = mk(&if i % 3 == 1 { late() } else { comb(K::Join, Shape::Tuple, vec![leaf(), leaf()]) });
            slot.set_future(f);
            last = Some(m);
            if each {
                last.as_mut().unwrap().start();
                h.drive();
                h.check(&expect(&last), "after the content was replaced");
            }
        }
        if !each {
            last.as_mut().unwrap().start();
            h.drive();
        }
        h.check(&expect(&last), "after many contents");
        let mut g = vec![];
        last.as_ref().unwrap().gates(&mut g);
        let id = of(&g).0;
        prog::open(&h.s, id, true);
        last.as_mut().unwrap().open(id, true);
        last.as_mut().unwrap().settle();
        h.drive();
        h.check(&expect(&last), "after a gate opened");
        if flip() {
            slot.clear_future();
            last = None;
            h.drive();
            h.check(&expect(&last), "after the slot was cleared");
        }
    }
    h.unmount();
    outcome(&0);
    done();
}

fn slot_finished(arm: Arm) {
    let mut h = Host::new(arm);
    let slot: Rc<DynamicSlot<Content>> = Rc::new(DynamicSlot::new());
    let sl = slot.clone();
    h.start(async move { sl.render().await });
    let s = h.s.clone();
    let mut next = 0;
    let two = flip();
    let f = build(&leaf(), &s, &mut next);
    let g = build(&P::Wait, &s, &mut next);
    let e = Either2(f, g);
    slot.set_future(Box::pin(async move { vec![e.await] }));
    h.drive();
    h.check(&[Exp { id: 0, kids: vec![] }], "after the content was set");
    let order = if flip() { [0, 1] } else { [1, 0] };
    for (i, id) in order.into_iter().enumerate() {
        prog::open(&s, id, true);
        note(|| format!("open gate {id}"));
        if i == 0 && two {
            continue;
        }
        h.drive();
        h.check(&[], "after the content finished");
    }
    if flip() {
        let f = build(&leaf(), &s, &mut next);
        slot.set_future(Box::pin(async move { vec![f.await] }));
        h.drive();
        h.check(&[Exp { id: 2, kids: vec![] }], "after a new content was set");
    }
    h.unmount();
    outcome(&two);
    drop(slot);
    done();
}

/// Content that asks its slot for something when it is dropped.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Hook {
    Nothing,
    Clear,
    Set,
}
struct OnDrop<F: FnMut()>(F);
impl<F: FnMut()> Drop for OnDrop<F> {
    fn drop(&mut self) {
        (self.0)()
    }
}
fn slot_reentrant(ops: usize) {
    struct Env {
        slot: DynamicSlot<Content>,
        // what the slot may show once it has run: the number of a content, or nothing
        allowed: RefCell<Vec<Option<usize>>>,
        nodes: RefCell<Vec<web_sys::Node>>,
        within: std::cell::Cell<bool>,
        closed: std::cell::Cell<bool>,
    }
    fn content(e: &Rc<Env>, hook: Hook) -> (usize, Content) {
        let n = e.nodes.borrow().len();
        let node = dom::div();
        e.nodes.borrow_mut().push(node.clone());
        let env = e.clone();
        let guard = OnDrop(move || {
            if env.closed.get() {
                return;
            }
            let (want, act): (_, Box<dyn FnOnce()>) = match hook {
                Hook::Nothing => return,
                Hook::Clear => {
                    let env = env.clone();
                    (None, Box::new(move || env.slot.clear_future()))
                }
                Hook::Set => {
                    let (n, c) = content(&env, Hook::Nothing);
                    let env = env.clone();
                    (Some(n), Box::new(move || env.slot.set_future(c)))
                }
            };
            note(|| format!("  content {n} is dropped and asks for {want:?}"));
            {
                let mut a = env.allowed.borrow_mut();
                if !env.within.get() {
                    a.clear();
                }
                a.push(want);
            }
            act();
        });
        let f = ContainerNodeFuture::new(
            async move {
                let _g = guard;
                std::future::pending::<()>().await
            },
            node,
        );
        (
            n,
            Box::pin(async move {
                f.await;
                vec![]
            }),
        )
    }
    let e = Rc::new(Env {
        slot: DynamicSlot::new(),
        allowed: RefCell::new(vec![None]),
        nodes: RefCell::default(),
        within: false.into(),
        closed: false.into(),
    });
    let mut h = Host::new(Arm { order: false, exact: false, slot: true });
    let env = e.clone();
    h.start(async move { env.slot.render().await });
    for _ in 0..ops {
        let hook = [None, Some(Hook::Nothing), Some(Hook::Clear), Some(Hook::Set)][choose(4)];
        // what is asked for while the request is made may count before it or after it
        e.within.set(true);
        match hook {
            Some(hook) => {
                let (n, c) = content(&e, hook);
                note(|| format!("set_future({n}, {hook:?} when dropped)"));
                *e.allowed.borrow_mut() = vec![Some(n)];
                e.slot.set_future(c);
            }
            None => {
                note(|| "clear_future".into());
                *e.allowed.borrow_mut() = vec![None];
                e.slot.clear_future();
            }
        }
        e.within.set(false);
        if flip() {
            note(|| "(not run yet)".into());
            continue;
        }
        note(|| "run".into());
        h.drive();
        let kids: Vec<_> = web_sys::fake::children(&h.node).into_iter().filter(|n| n.node_type() == 1).collect();
        let shown: Vec<Option<usize>> = kids.iter().map(|k| e.nodes.borrow().iter().position(|n| n == k)).collect();
        let shown: Vec<usize> = shown.into_iter().flatten().collect();
        let ok = shown.len() <= 1 && e.allowed.borrow().contains(&shown.first().copied());
        ck!(ok, "the slot shows {:?}, and was asked for {:?}", shown, e.allowed.borrow());
        *e.allowed.borrow_mut() = vec![shown.first().copied()];
    }
    outcome(&e.allowed.borrow().first().copied().flatten());
    e.closed.set(true);
    h.root = None;
    e.slot.clear_future();
    done();
}

// ---------------------------------------------------------------------------------------- C18

struct App {
    host: usize,
    task: Option<async_executor::Task<()>>,
    m: M,
    alive: bool,
}
fn timers() {
    let mut n = 0;
    while web_sys::fake::timers() > 0 {
        n += 1;
        ck!(n < 200, "the executor keeps scheduling itself without end");
        web_sys::fake::fire_timer(0);
    }
}
/// `pre` applications are mounted first.
fn mounts(ops: usize, max_apps: usize, same_host: bool, spawn: bool, pre: usize) {
    let s: S = Default::default();
    let hosts: Vec<Node> = (0..2).map(|_| dom::div()).collect();
    let foreign: Vec<Node> = hosts
        .iter()
        .map(|h| {
            let f = dom::div();
            h.append_child(&f).unwrap();
            f
        })
        .collect();
    let mut next = 0;
    let mut apps: Vec<App> = vec![];
    let finished = Rc::new(Cell::new(0));
    let progs = [
        comb(K::Join, Shape::Tuple, vec![leaf(), late()]),
        el(comb(K::Race, Shape::Array, vec![leaf(), el(leaf())])),
        P::Seq(vec![leaf(), leaf()]),
    ];
    let mut spawned = 0;
    let lazy = pre > 0 && flip();
    for step_no in 0..ops + pre {
        let mut acts: Vec<(u8, usize)> = vec![(9, 0)];
        if step_no < pre {
            acts = vec![(0, step_no % 3)];
        } else if apps.len() < max_apps {
            acts.extend([(0, 0), (0, 1), (0, 2)]);
        }
        if spawn && spawned < 1 && !apps.is_empty() {
            acts.push((4, 0));
        }
        for (i, a) in apps.iter().enumerate().filter(|_| step_no >= pre) {
            if a.task.is_some() {
                acts.push((1, i));
                if same_host {
                    acts.push((2, i));
                }
            }
            if a.alive {
                let mut g = vec![];
                a.m.gates(&mut g);
                acts.extend(g.iter().map(|g| (3, g.0 * 1000 + i)));
            }
        }
        let (kind, arg) = *of(&acts);
        match kind {
            0 => {
                let host = if same_host { 0 } else { apps.len() % 2 };
                let p = &progs[arg];
                let mut m = model(p, &mut next.clone());
                let f = build(p, &s, &mut next);
                note(|| format!("mount app {} = {p:?} on host {host}", apps.len()));
                let fin = finished.clone();
                let t = mount_at(
                    async move {
                        let _ = f.await;
                        fin.set(fin.get() + 1);
                    },
                    hosts[host].clone(),
                );
                m.start();
                m.settle();
                apps.push(App { host, task: Some(t), m, alive: true });
            }
            1 => {
                note(|| format!("unmount app {arg}"));
                apps[arg].task = None;
                apps[arg].alive = false;
            }
            2 => {
                note(|| format!("detach app {arg}"));
                apps[arg].task.take().unwrap().detach();
            }
            3 => {
                let (id, i) = (arg / 1000, arg % 1000);
                note(|| format!("open gate {id} of app {i}"));
                // a gate of a component that has not run yet opens for it when it runs
                apps[i].m.open(id, true);
                apps[i].m.settle();
                prog::open(&s, id, true);
            }
            4 => {
                spawned += 1;
                let fin = finished.clone();
                note(|| "spawn a task".into());
                get_executor()
                    .spawn(async move {
                        fin.set(fin.get() + 100);
                    })
                    .detach();
            }
            _ => {
                note(|| "run".into());
            }
        }
        if step_no < pre && lazy {
            continue;
        }
        // Run to quiescence, or (one deviation) leave it for later.
        if step_no >= pre && kind != 9 && deviate(2) == 1 {
            note(|| "(not run yet)".into());
            continue;
        }
        timers();
        for (h, host) in hosts.iter().enumerate() {
            let act = prog::read(host, &s);
            let kids = web_sys::fake::children(host);
            ck!(kids.first().map(|k| web_sys::fake::id(k)) == Some(web_sys::fake::id(&foreign[h])), "a node that was in the host before mounting was moved or removed");
            let mut exp = vec![];
            for a in apps.iter().filter(|a| a.host == h && a.alive) {
                a.m.expect(&mut exp);
            }
            let act = &act[1..];
            ck!(sorted(act) == sorted(&exp), "host {h} has [{}] but its mounted applications render [{}]", show(act), show(&exp));
            for a in apps.iter().filter(|a| a.host == h && a.alive) {
                let mut e = vec![];
                a.m.expect(&mut e);
                ck!(order(act, &e), "host {h} has [{}], out of order with [{}]", show(act), show(&e));
            }
            step(&(h, act));
        }
        let want = apps.iter().filter(|a| a.alive && a.m.result().is_some()).count();
        ck!(finished.get() % 100 >= want && finished.get() / 100 == spawned, "an application or task did not run to its end");
    }
    for a in &mut apps {
        if let Some(t) = a.task.take() {
            drop(t);
            a.alive = false;
        }
    }
    timers();
    for (h, host) in hosts.iter().enumerate() {
        let exp: usize = apps
            .iter()
            .filter(|a| a.alive && a.host == h)
            .map(|a| {
                let mut e = vec![];
                a.m.expect(&mut e);
                e.len()
            })
            .sum();
        let n = web_sys::fake::children(host).len();
        ck!(n > 0, "unmounting removed a node of host {h} that is not an application's");
        let n = n - 1;
        ck!(n == exp, "after unmounting, host {h} has {n} nodes of applications, expected {exp}");
    }
    outcome(&finished.get());
    done();
}
// Applications that mount and unmount applications.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cmd {
    /// Mount an application on the host (the last: this application's own element), and keep its
    /// handle here (or with the page).
    Mount(usize, bool),
    /// Drop the handles kept here.
    Close,
    /// Drop the page's handle of an application (it may be this one).
    Kill(usize),
    /// From now on: when this application goes, drop the page's handle of that one.
    Bond(usize),
    Finish,
}
struct Page {
    hosts: Vec<Node>,
    /// the page's handles
    tasks: RefCell<Vec<Option<async_executor::Task<usize>>>>,
    cmds: RefCell<Vec<(Vec<Cmd>, Option<Waker>)>>,
    els: RefCell<Vec<Option<Node>>>,
    live: RefCell<Vec<bool>>,
    /// what has to happen to each application by the end of the run
    model: RefCell<Vec<InnerM>>,
}
#[derive(Clone, Debug)]
struct InnerM {
    alive: bool,
    host: Result<usize, usize>,
    /// who keeps the handle: the page, or an application
    owner: Option<usize>,
    bond: Option<usize>,
    finished: bool,
}
impl Page {
    fn mount(self: &Rc<Self>, host: Result<usize, usize>, owner: Option<usize>) -> async_executor::Task<usize> {
        let n = self.model.borrow().len();
        self.model.borrow_mut().push(InnerM { alive: true, host, owner, bond: None, finished: false });
        self.tasks.borrow_mut().push(None);
        self.cmds.borrow_mut().push((vec![], None));
        self.els.borrow_mut().push(None);
        self.live.borrow_mut().push(false);
        let at = match host {
            Ok(h) => self.hosts[h].clone(),
            Err(o) => self.els.borrow()[o].clone().expect("the element of an application that runs"),
        };
        mount_at(app(self.clone(), n), at)
    }
    /// The application `n` goes, and with it what it keeps and what it is bound to.
    fn gone(&self, n: usize) {
        let mut todo = vec![n];
        while let Some(n) = todo.pop() {
            let mut m = self.model.borrow_mut();
            if !std::mem::replace(&mut m[n].alive, false) {
                continue;
            }
            todo.extend((0..m.len()).filter(|i| m[*i].owner == Some(n)));
            if let Some(b) = m[n].bond {
                if m[b].owner.is_none() {
                    todo.push(b);
                }
            }
        }
    }
}
async fn app(page: Rc<Page>, n: usize) -> usize {
    struct Bond(Rc<Page>, usize, Cell<Option<usize>>);
    impl Drop for Bond {
        fn drop(&mut self) {
            self.0.live.borrow_mut()[self.1] = false;
            if let Some(b) = self.2.get() {
                let t = self.0.tasks.borrow_mut()[b].take();
                drop(t);
            }
        }
    }
    let el = Div::new();
    el.set_id(&format!("a{n}"));
    page.els.borrow_mut()[n] = Some((**el).clone().into());
    page.live.borrow_mut()[n] = true;
    let bond = Bond(page.clone(), n, Cell::new(None));
    let mut kept: Vec<async_executor::Task<usize>> = vec![];
    race((
        async {
            el.render(pending::<()>()).await;
            unreachable!()
        },
        poll_fn(|cx| {
            loop {
                let cmd = {
                    let mut c = page.cmds.borrow_mut();
                    if c[n].0.is_empty() {
                        c[n].1 = Some(cx.waker().clone());
                        return Poll::Pending;
                    }
                    c[n].0.remove(0)
                };
                match cmd {
                    Cmd::Mount(h, keep) => {
                        let h = if h < page.hosts.len() { Ok(h) } else { Err(n) };
                        let t = page.mount(h, keep.then_some(n));
                        if keep {
                            kept.push(t);
                        } else {
                            *page.tasks.borrow_mut().last_mut().unwrap() = Some(t);
                        }
                    }
                    Cmd::Close => {
                        kept.clear();
                        let m = page.model.borrow().clone();
                        (0..m.len()).filter(|i| m[*i].owner == Some(n)).for_each(|i| page.gone(i));
                    }
                    Cmd::Kill(o) => {
                        let t = page.tasks.borrow_mut()[o].take();
                        drop(t);
                    }
                    Cmd::Bond(o) => bond.2.set(Some(o)),
                    Cmd::Finish => return Poll::Ready(n),
                }
            }
        }),
    ))
    .await
}
fn inner_apps(ops: usize, max: usize) {
    let page = Rc::new(Page {
        hosts: (0..2).map(|_| dom::div()).collect(),
        tasks: Default::default(),
        cmds: Default::default(),
        els: Default::default(),
        live: Default::default(),
        model: Default::default(),
    });
    let t = page.mount(Ok(0), None);
    page.tasks.borrow_mut()[0] = Some(t);
    timers();
    for _ in 0..ops {
        // one application gets one or two commands at once
        let alive: Vec<usize> = (0..page.model.borrow().len()).filter(|i| page.model.borrow()[*i].alive).collect();
        if alive.is_empty() {
            break;
        }
        let who = *of(&alive);
        let mut batch = vec![];
        let mut room = max - page.model.borrow().len();
        for i in 0..2 {
            if i == 1 && deviate(2) == 0 {
                break;
            }
            let mut can = vec![Cmd::Close, Cmd::Finish];
            can.extend(alive.iter().flat_map(|o| [Cmd::Kill(*o), Cmd::Bond(*o)]).filter(|c| *c != Cmd::Bond(who)));
            if room > 0 {
                for h in 0..3 {
                    can.extend([Cmd::Mount(h, true), Cmd::Mount(h, false)]);
                }
            }
            let c = *of(&can);
            room -= matches!(c, Cmd::Mount(..)) as usize;
            batch.push(c);
        }
        note(|| format!("application {who} is told to {batch:?}"));
        // what must come of it; `who` itself goes when it has done what it was told
        let mut doomed = false;
        for c in batch.iter().take_while(|c| **c != Cmd::Finish) {
            if let Cmd::Bond(o) = *c {
                page.model.borrow_mut()[who].bond = Some(o);
            }
        }
        for c in &batch {
            let m = page.model.borrow().clone();
            match *c {
                Cmd::Mount(..) | Cmd::Bond(_) => {}
                Cmd::Close => (0..m.len()).filter(|i| m[*i].owner == Some(who)).for_each(|i| page.gone(i)),
                Cmd::Kill(o) if m[o].owner.is_none() => {
                    if o == who {
                        doomed = true;
                    } else {
                        page.gone(o);
                    }
                }
                Cmd::Kill(_) => {}
                Cmd::Finish => {
                    doomed = true;
                    page.model.borrow_mut()[who].finished = true;
                    break;
                }
            }
        }
        {
            let mut c = page.cmds.borrow_mut();
            c[who].0 = batch;
            let w = c[who].1.take();
            drop(c);
            match w {
                Some(w) => w.wake(),
                None => fail(format!("application {who} has not run")),
            }
        }
        timers();
        if doomed {
            page.gone(who);
        }
        // what was mounted or bound by one that was about to go
        for _ in 0..max {
            let m = page.model.borrow().clone();
            for d in m.iter().enumerate().filter(|(_, a)| !a.alive) {
                (0..m.len()).filter(|i| m[*i].owner == Some(d.0) || d.1.bond == Some(*i) && m[*i].owner.is_none()).for_each(|i| page.gone(i));
            }
        }
        let m = page.model.borrow().clone();
        for (i, a) in m.iter().enumerate() {
            ck!(page.live.borrow()[i] == a.alive, "application {i} should {}run", if a.alive { "" } else { "not " });
        }
        let ids = |n: &Node| {
            let mut v: Vec<String> = web_sys::fake::children(n).iter().map(|c| web_sys::fake::attr(c, "id").unwrap_or_default()).collect();
            v.sort();
            v
        };
        for h in (0..2).map(Ok).chain((0..m.len()).map(Err)) {
            let node = match h {
                Ok(h) => page.hosts[h].clone(),
                Err(i) => match page.els.borrow()[i].clone() {
                    Some(n) => n,
                    None => continue,
                },
            };
            let exp: Vec<String> = m.iter().enumerate().filter(|(_, a)| a.alive && a.host == h).map(|(i, _)| format!("a{i}")).collect();
            let act = ids(&node);
            ck!(act == exp, "host {h:?} has {act:?} but its applications are {exp:?}");
            step(&(format!("{h:?}"), act));
        }
    }
    // the results of applications that finished are to be had from their handles
    let m = page.model.borrow().clone();
    let mut w = Context::from_waker(Waker::noop());
    for (i, a) in m.iter().enumerate() {
        let t = page.tasks.borrow_mut()[i].take();
        if let Some(mut t) = t {
            match Pin::new(&mut t).poll(&mut w) {
                Poll::Ready(r) => ck!(a.finished && r == i, "application {i} (finished: {}) has the result {r}", a.finished),
                Poll::Pending => ck!(!a.finished, "application {i} has finished but has no result"),
            }
        }
    }
    timers();
    outcome(&m.iter().map(|a| a.alive).collect::<Vec<_>>());
    page.els.borrow_mut().clear();
    done();
}
/// `mount` renders into the body and is never unmounted.
fn mount_body() {
    let s: S = Default::default();
    let p = of(&[comb(K::Join, Shape::Tuple, vec![leaf(), late()]), el(leaf()), P::Seq(vec![leaf(), leaf()])]).clone();
    let mut m = model(&p, &mut 0);
    let f = build(&p, &s, &mut 0);
    let body: Node = dom::document().body().unwrap().into();
    mount(async move {
        let _ = f.await;
    });
    timers();
    m.start();
    m.settle();
    loop {
        let act = prog::read(&body, &s);
        let mut e = vec![];
        m.expect(&mut e);
        ck!(act == e, "the body has [{}] but the application is [{}]", show(&act), show(&e));
        step(&act);
        let mut g = vec![];
        m.gates(&mut g);
        let c = choose(g.len() + 1);
        if c == 0 {
            break;
        }
        m.open(g[c - 1].0, true);
        m.settle();
        prog::open(&s, g[c - 1].0, true);
        timers();
    }
    outcome(&0);
    done();
}

// ---------------------------------------------------------------------------------------- C26

/// f.meanwhile(g): f's result; g shown only while f runs; g's end changes nothing.
fn meanwhile(steps: usize) {
    let arm = Arm { order: true, exact: true, slot: false };
    let mut h = Host::new(arm);
    let progs = [leaf(), late(), P::Wait, P::Now, el(late()), comb(K::Race, Shape::Tuple, vec![leaf(), leaf()]), P::Seq(vec![leaf(), leaf()])];
    let (p, q) = (of(&progs).clone(), of(&progs).clone());
    note(|| format!("{p:?} meanwhile {q:?}"));
    let mut next = 0;
    let mut mf = model(&p, &mut next.clone());
    let ff = build(&p, &h.s, &mut next);
    let mut mg = model(&q, &mut next.clone());
    let fg = build(&q, &h.s, &mut next);
    let out = Rc::new(Cell::new(None));
    let o = out.clone();
    h.start(async move {
        let r = ff.meanwhile(fg).await;
        o.set(Some(r.is_ok()));
        pending::<()>().await
    });
    mf.start();
    mg.start();
    for i in 0..=steps {
        mf.settle();
        mg.settle();
        let mut e = vec![];
        if mf.active() {
            mf.expect(&mut e);
            mg.expect(&mut e);
        }
        ck!(out.get() == mf.result(), "the output of `meanwhile` is {:?} but the main future's is {:?}", out.get(), mf.result());
        h.check(&e, "after running");
        if i == steps || !mf.active() {
            break;
        }
        let mut g = vec![];
        mf.gates(&mut g);
        let nf = g.len();
        mg.gates(&mut g);
        let c = choose(g.len() + 1);
        if c == 0 {
            break;
        }
        let ok = !flip();
        let id = g[c - 1].0;
        if c <= nf {
            mf.open(id, ok);
        } else {
            mg.open(id, ok);
        }
        prog::open(&h.s, id, ok);
        h.drive();
    }
    h.unmount();
    outcome(&out.get());
    done();
}
/// f.pend_after(): runs f, drops it when it finishes, never finishes, never runs f again.
fn pend_after(steps: usize) {
    let arm = Arm { order: true, exact: true, slot: false };
    let mut h = Host::new(arm);
    let mut next = 0;
    let p = of(&[leaf(), late(), P::Now, el(leaf()), P::Seq(vec![leaf(), leaf()])]).clone();
    let mut m = model(&p, &mut next.clone());
    let f = build(&p, &h.s, &mut next);
    let polls_after = Rc::new(Cell::new(0));
    struct Probe(Fut, bool, Rc<Cell<i32>>, #[allow(dead_code)] tok::Tok);
    impl Future for Probe {
        type Output = R;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R> {
            if self.1 {
                fail("a future inside `pend_after` was run again after it finished");
            }
            let r = self.0.as_mut().poll(cx);
            self.1 = r.is_ready();
            self.2.set(self.2.get() + 1);
            r
        }
    }
    let probe = Probe(f, false, polls_after.clone(), tok::Tok::new(1));
    let finished = Rc::new(Cell::new(false));
    let fi = finished.clone();
    // every poll of the root polls the wrapper: wakes are not precise here
    let mut w = Box::pin(async move {
        probe.pend_after::<()>().await;
        fi.set(true);
    });
    h.start(poll_fn(move |cx| w.as_mut().poll(cx)));
    m.start();
    for i in 0..=steps {
        m.settle();
        let mut e = vec![];
        m.expect(&mut e);
        ck!(!finished.get(), "`pend_after` finished");
        h.check(&e, "after running");
        ck!((tok::live() == 1) == m.active(), "the wrapped future is {} although it has {}finished", if tok::live() == 1 { "kept" } else { "dropped" }, if m.active() { "not " } else { "" });
        if i == steps {
            break;
        }
        let mut g = vec![];
        m.gates(&mut g);
        let c = choose(g.len() + 2);
        if c == 0 {
            break;
        }
        if c == 1 {
            h.waker.wake_by_ref();
        } else {
            let id = g[c - 2].0;
            m.open(id, true);
            prog::open(&h.s, id, true);
        }
        h.drive();
    }
    h.unmount();
    outcome(&polls_after.get());
    done();
}
fn classes(ops: usize) {
    let e = dom::document().create_element("div").unwrap();
    let names = ["a", "b", "c"];
    let mut model: Vec<&str> = vec![];
    let add = |m: &mut Vec<&'static str>, c: &'static str| {
        if !m.contains(&c) {
            m.push(c)
        }
    };
    for _ in 0..ops {
        let op = choose(8);
        let c = *of(&names);
        let (mut list, mut d) = (vec![], c);
        if [4, 5, 7].contains(&op) {
            d = *of(&names);
            list = match if ops > 3 { 0 } else { choose(4) } {
                0 => vec![c, d],
                1 => vec![],
                2 => vec![d],
                _ => vec![c, d, "a"],
            };
        }
        let _ = d;
        match op {
            0 => {
                e.add_class(c);
                add(&mut model, c);
            }
            1 => {
                e.del_class(c);
                model.retain(|x| *x != c);
            }
            2 => {
                e.set_class(c, true);
                add(&mut model, c);
            }
            3 => {
                e.set_class(c, false);
                model.retain(|x| *x != c);
            }
            4 => {
                e.add_classes(list.iter().copied());
                list.iter().for_each(|c| add(&mut model, c));
            }
            5 => {
                e.del_classes(list.iter().copied());
                model.retain(|x| !list.contains(x));
            }
            6 => {
                let r = e.with_class(c);
                ck!(web_sys::fake::id(r) == web_sys::fake::id(&e), "with_class returned another element");
                add(&mut model, c);
            }
            _ => {
                let r = e.with_classes(list.iter().copied());
                ck!(web_sys::fake::id(r) == web_sys::fake::id(&e), "with_classes returned another element");
                list.iter().for_each(|c| add(&mut model, c));
            }
        }
        let mut got: Vec<String> = e.get_attribute("class").unwrap_or_default().split_whitespace().map(String::from).collect();
        let mut want: Vec<String> = model.iter().map(|s| s.to_string()).collect();
        got.sort();
        want.sort();
        ck!(got == want, "the element has classes {got:?}, expected {want:?}");
        step(&got);
    }
    outcome(&model.len());
    drop(e);
    web_sys::fake::reset();
}
fn strings() {
    // a rendered string is a text node with that content
    let t = *of(&["", "x", "a <b> & \"c\"", "\u{e9}\n"]);
    let host = dom::div();
    let (_, w) = dom::CountWaker::new();
    let mut r = Box::pin(ContainerNodeFuture::new_root(t.render(), host.clone()));
    ck!(r.as_mut().poll(&mut Context::from_waker(&w)).is_pending(), "a rendered string finished");
    let k = web_sys::fake::children(&host);
    ck!(k.len() == 1 && k[0].node_type() == 3 && k[0].text_content().as_deref() == Some(t), "a rendered string is not one text node with its content");
    drop(r);
    ck!(web_sys::fake::children(&host).is_empty(), "a dropped string is still in the document");
    step(t);
    outcome(t);
    done();
}

fn main() {
    let p = harness::property();
    let th = harness::thorough();
    let mut cfgs: Vec<Cfg> = vec![];
    let t = |a: usize, b: usize| if th { b } else { a };
    let mut assumptions = vec![
        "single-threaded use, as on wasm32".to_string(),
        "the in-memory DOM under /verif/fakes stands in for the browser".to_string(),
        "components are written as async blocks or functions, so a finished part is dropped when it finishes".to_string(),
    ];
    match p.as_str() {
        "C01" | "C02" => {
            let arm = Arm { order: p == "C01", exact: p == "C02", slot: false };
            for shape in [Shape::Tuple, Shape::Array, Shape::Vec] {
                for (wrapped, leaves, depth, errs, steps) in [(false, 3, 2, true, t(4, 6)), (true, 2, 2, true, t(4, 5)), (false, 3, t(2, 3), false, t(4, 4))] {
                    if shape != Shape::Tuple && depth == 3 {
                        continue;
                    }
                    let name = format!("{shape:?}: every program of {leaves} parts and {depth} levels{}{}, {steps} gate openings", if errs { " with all combinators" } else { "" }, if wrapped { " between neighbours" } else { "" });
                    cfgs.push(Cfg::new(name, move || trees(arm, shape, wrapped, leaves, depth, errs, steps)).budget(if th { 1 } else { 0 }));
                }
                cfgs.push(Cfg::new(format!("{shape:?}: parts that are built and never rendered"), move || unrendered(arm, shape, 4)));
            }
            for shape in [Shape::List, Shape::Diffed, Shape::Slots, Shape::Mix] {
                for (wrapped, leaves, depth, errs, steps) in [(false, 3, 2, false, t(4, 6)), (true, 2, 2, shape == Shape::Mix || th, t(4, 5)), (false, 3, 3, false, t(3, 4))] {
                    if depth == 3 && shape != Shape::Mix && !th {
                        continue;
                    }
                    let name = format!("joins as {shape:?}: every program of {leaves} parts and {depth} levels{}, {steps} gate openings", if wrapped { " between neighbours" } else { "" });
                    cfgs.push(Cfg::new(name, move || trees(arm, shape, wrapped, leaves, depth, errs, steps)).budget(if th { 1 } else { 0 }));
                }
            }
            cfgs.push(Cfg::new("two gates at once", move || trees(arm, Shape::Vec, false, 3, 2, false, 3)).budget(1));
            for el_at in [0, 2, 4] {
                let k = t(2, 3);
                let d = 6;
                cfgs.push(Cfg::new(format!("{d} levels of nesting, element at level {el_at}, every order of {k} late parts"), move || deep(arm, el_at, d, k)));
            }
            for d in [12, 20, 40] {
                for el_at in [0, d / 2, d - 1] {
                    cfgs.push(Cfg::new(format!("{d} levels of nesting, element at level {el_at}, every order of 2 late parts"), move || deep(arm, el_at, d, 2)));
                }
            }
            for (n, shape, nested) in [(11, Shape::Tuple, false), (4, Shape::Array, true), (300, Shape::Vec, false), (260, Shape::Vec, true), (66000, Shape::Vec, false)] {
                let k = t(2, 3);
                if n > 100 && th {
                    cfgs.push(Cfg::new(format!("{n} children ({shape:?}, nested {nested}), 2 late parts"), move || wide(arm, n, shape, nested, 2)));
                }
                cfgs.push(Cfg::new(format!("{n} children ({shape:?}, nested {nested}), every order of {k} late parts"), move || wide(arm, n, shape, nested, k)));
            }
        }
        "C12" => {
            let arm = Arm { order: false, exact: false, slot: true };
            for place in [0, 1, 2] {
                let ops = t(4, 5);
                cfgs.push(Cfg::new(format!("slot at place {place}: {ops} requests over 5 contents"), move || slot_check(arm, &[0, 1, 2, 3, 6], place, ops)).budget(1));
                let ops = t(5, 6);
                cfgs.push(Cfg::new(format!("slot at place {place}: {ops} requests over 3 contents"), move || slot_check(arm, &[1, 4, 5], place, ops)).budget(1));
                let ops = t(4, 5);
                cfgs.push(Cfg::new(format!("slot at place {place}: {ops} requests over 3 contents, a list and slots among them"), move || slot_check(arm, &[0, 7, 8], place, ops)).budget(1));
            }
            cfgs.push(Cfg::new("up to 512 contents one after another, twice", move || slot_many(arm, &[1, 2, 3, 8, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 512])));
            cfgs.push(Cfg::new("content that has finished is woken again", move || slot_finished(arm)));
            let ops = t(4, 6);
            cfgs.push(Cfg::new(format!("contents that use the slot when they are dropped, {ops} requests"), move || slot_reentrant(ops)).budget(1));
            assumptions.push("each slot is rendered once, as documented".into());
        }
        "C18" => {
            for same in [false, true] {
                let ops = t(5, 6);
                cfgs.push(Cfg::new(format!("2 applications, {ops} actions, one host: {same}"), move || mounts(ops, 2, same, false, 0)).fresh().budget(2));
            }
            let ops = t(5, 6);
            cfgs.push(Cfg::new(format!("3 applications, {ops} actions, spawned task"), move || mounts(ops, 3, false, true, 0)).fresh().budget(1));
            for (n, ops) in [(9, 3), (40, t(1, 2)), (70, 1)] {
                for same in [false, true] {
                    cfgs.push(Cfg::new(format!("{n} applications, {ops} actions, one host: {same}"), move || mounts(ops, n + 1, same, false, n)).fresh().budget(1));
                }
            }
            let ops = t(3, 4);
            cfgs.push(Cfg::new(format!("applications that mount and unmount applications, {ops} times"), move || inner_apps(ops, 4)).fresh().budget(1));
            cfgs.push(Cfg::new("mount into the body", mount_body).fresh());
        }
        "C26" => {
            let steps = t(8, 10);
            cfgs.push(Cfg::new("meanwhile", move || meanwhile(steps)).fresh());
            cfgs.push(Cfg::new("pend_after", move || pend_after(steps)).fresh());
            let ops = t(4, 5);
            cfgs.push(Cfg::new(format!("class helpers, {ops} operations"), move || classes(ops)));
            cfgs.push(Cfg::new("rendered strings", strings).fresh());
        }
        _ => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    run(Check {
        property: p,
        tier: if th { "thorough".into() } else { "quick".into() },
        cfgs,
        rule: "one execution = one component program and one sequence of events, run by the real library on the in-memory DOM; every program and sequence within the bounds named in the configuration is run".into(),
        assumptions,
    })
}
