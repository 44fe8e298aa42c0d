//! C09 event streams, C10 the executor, C27 the component / event / input tables.
use harness::{
    choose, ck, deviate, flip,
    dom::{self, CountWaker},
    fail,
    host::done,
    note, of, outcome, run, step, Cfg, Check,
};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    future::{poll_fn, Future},
    pin::Pin,
    rc::Rc,
    task::{Context, Poll, Waker},
};
use web_sys::{fake, Event, EventTarget, Node};

use async_executor::Task;
use async_ui_web::{event_handling::EventFutureStream, executor::get_executor, mount_at, prelude_traits::*, race};
use async_ui_web_core::executor::{run_now, schedule, set_executor_future};
use futures_core::Stream;

const TY: [&str; 2] = ["click", "keyup"];

/// outer > inner, both in the document.
fn targets() -> Vec<EventTarget> {
    let outer = dom::div();
    let inner = dom::div();
    outer.append_child(&inner).unwrap();
    let body: Node = dom::document().body().unwrap().into();
    body.append_child(&outer).unwrap();
    vec![outer.into(), inner.into()]
}

/// What a listener asks for: 0 nothing, 1 capture, 2 passive, 3 both, 4 capture(false), 5 passive(false).
fn set_opts(s: &mut EventFutureStream<Event>, o: usize) {
    match o {
        1 => s.set_capture(true),
        2 => s.set_passive(true),
        3 => {
            s.set_passive(true);
            s.set_capture(true);
        }
        4 => s.set_capture(false),
        5 => s.set_passive(false),
        _ => {}
    }
}
fn captures(o: usize) -> bool {
    o == 1 || o == 3
}
fn passive(o: usize) -> bool {
    o == 2 || o == 3
}

// ---------------------------------------------------------------- C09, streams polled by hand

struct Slot {
    s: Option<EventFutureStream<Event>>,
    target: usize,
    ty: usize,
    opts: usize,
    registered: bool,
    last: Option<u64>,
    waker: usize,
}

/// Every sequence of option settings before and after the first run; the listener is as asked for
/// when the waiting started, and goes away with the stream.
fn options(before: usize, after: usize) {
    let ts = targets();
    let (_c, wk) = CountWaker::new();
    let mut s = Some(ts[1].until_event::<Event>(TY[0].into()));
    let (mut cap, mut pas) = (false, false);
    for round in 0..2 {
        for _ in 0..if round == 0 { before } else { after } {
            let k = choose(5);
            if k == 0 {
                break;
            }
            let st = s.as_mut().unwrap();
            let v = k % 2 == 1;
            note(|| format!("{}({v})", if k < 3 { "set_capture" } else { "set_passive" }));
            if k < 3 {
                st.set_capture(v);
            } else {
                st.set_passive(v);
            }
            if round == 0 {
                *(if k < 3 { &mut cap } else { &mut pas }) = v;
            }
        }
        note(|| "run".into());
        let r = Stream::poll_next(Pin::new(s.as_mut().unwrap()), &mut Context::from_waker(&wk));
        ck!(r.is_pending(), "a stream yields an event that was never dispatched");
        let act = fake::listeners(&ts[1]);
        ck!(act == vec![(TY[0].to_string(), cap, pas)], "the listeners are {act:?}, asked for: capture {cap}, passive {pas}");
        step(&(round, cap, pas));
    }
    note(|| "drop".into());
    s = None;
    ck!(fake::live_listeners() == 0, "the stream is gone but its listener is not");
    let _ = s;
    outcome(&(cap, pas));
}

fn streams(slots: usize, targets_n: usize, types: usize, opts: &'static [usize], ops: usize) {
    let ts = targets();
    let wk: Vec<_> = (0..2).map(|_| CountWaker::new()).collect();
    let mut sl: Vec<Slot> = (0..slots)
        .map(|_| Slot { s: None, target: 0, ty: 0, opts: 0, registered: false, last: None, waker: 0 })
        .collect();
    for _ in 0..ops {
        // (kind, slot, a, b)
        let mut acts: Vec<(u8, usize, usize, usize)> = vec![];
        let mut seen_empty = false;
        for (i, s) in sl.iter().enumerate() {
            if s.s.is_none() {
                if !seen_empty {
                    seen_empty = true;
                    for t in 0..targets_n {
                        for y in 0..types {
                            acts.extend(opts.iter().map(|o| (0, i, t * 2 + y, *o)));
                        }
                    }
                }
            } else {
                acts.extend((0..2).flat_map(|w| [(1, i, w, 0), (1, i, w, 1)]));
                acts.push((2, i, 0, 0));
            }
        }
        if sl.iter().any(|s| s.registered) {
            for t in 0..targets_n {
                for y in 0..types {
                    acts.push((3, 0, t * 2 + y, 1));
                    if targets_n > 1 && t == 1 {
                        acts.push((3, 0, t * 2 + y, 0));
                    }
                }
            }
        }
        let (kind, i, a, b) = *of(&acts);
        match kind {
            0 => {
                let (t, y) = (a / 2, a % 2);
                note(|| format!("stream {i} for {} on target {t} with options {b}", TY[y]));
                let mut s = ts[t].until_event::<Event>(TY[y].into());
                set_opts(&mut s, b);
                sl[i] = Slot { s: Some(s), target: t, ty: y, opts: b, registered: false, last: None, waker: 0 };
            }
            1 => {
                let s = &mut sl[i];
                let st = s.s.as_mut().unwrap();
                let mut cx = Context::from_waker(&wk[a].1);
                let r = if b == 0 {
                    Future::poll(Pin::new(st), &mut cx)
                } else {
                    match Stream::poll_next(Pin::new(st), &mut cx) {
                        Poll::Ready(Some(e)) => Poll::Ready(e),
                        Poll::Ready(None) => fail("an event stream ended"),
                        Poll::Pending => Poll::Pending,
                    }
                };
                let got = match &r {
                    Poll::Ready(e) => Some(fake::event_seq(e)),
                    Poll::Pending => None,
                };
                note(|| format!("run stream {i} with waker {a}: event {got:?}"));
                ck!(got == s.last, "stream {i} yielded event {got:?}; the latest event since it last yielded is {:?}", s.last);
                s.last = None;
                s.registered = true;
                s.waker = a;
            }
            2 => {
                note(|| format!("drop stream {i}"));
                sl[i].s = None;
                sl[i].registered = false;
                sl[i].last = None;
            }
            _ => {
                let (t, y) = (a / 2, a % 2);
                let ev = fake::event("Event", TY[y], b == 1, true);
                let q = fake::event_seq(&ev);
                note(|| format!("dispatch event {q}, {} at target {t}, bubbling {b}", TY[y]));
                fake::dispatch(&ts[t], &ev);
                let mut want = [false, false];
                for s in sl.iter_mut() {
                    let reaches = s.target == t || (s.target == 0 && t == 1 && (captures(s.opts) || b == 1));
                    if s.registered && s.ty == y && reaches {
                        s.last = Some(q);
                        want[s.waker] = true;
                    }
                }
                for w in 0..2 {
                    let woken = wk[w].0.take() > 0;
                    ck!(woken == want[w], "waker {w} woken: {woken}, but the streams last run with it received an event: {}", want[w]);
                }
            }
        }
        for (t, target) in ts.iter().enumerate() {
            let mut act: Vec<_> = fake::listeners(target);
            let mut exp: Vec<_> = sl
                .iter()
                .filter(|s| s.registered && s.target == t)
                .map(|s| (TY[s.ty].to_string(), captures(s.opts), passive(s.opts)))
                .collect();
            act.sort();
            exp.sort();
            ck!(act == exp, "target {t} has the listeners {act:?} but the live streams asked for {exp:?}");
            step(&(t, act, sl.iter().map(|s| s.last.is_some()).collect::<Vec<_>>()));
        }
        for w in &wk {
            if kind != 3 {
                ck!(w.0.take() == 0, "a stream woke its task although no event was dispatched");
            }
        }
    }
    sl.clear();
    ck!(fake::live_listeners() == 0, "all streams are gone but {} listeners are left", fake::live_listeners());
    for w in &wk {
        ck!(std::sync::Arc::strong_count(&w.0) == 2, "all streams are gone but a waker is still kept");
    }
    outcome(&0);
    done();
}

/// Numbers of repetitions around which a counter of few bits would wrap.
const FAR: &[usize] = &[1, 2, 3, 8, 16, 32, 64, 127, 128, 255, 256, 257, 512, 1024];

/// `n` streams are run on one target and its parent; any two are dropped, one comes; then one or
/// many events are dispatched, and everyone is run: once, with the last event.
fn stream_crowd(n: usize) {
    let ts = targets();
    let wk: Vec<_> = (0..n).map(|_| CountWaker::new()).collect();
    let mk = |i: usize| {
        let mut s = ts[i % 2].until_event::<Event>(TY[0].into());
        set_opts(&mut s, i % 3);
        s
    };
    // (stream, waker)
    let mut sl: Vec<Option<(EventFutureStream<Event>, usize)>> = vec![];
    let run = |s: &mut Option<(EventFutureStream<Event>, usize)>, w: usize, want: Option<u64>, i: usize| {
        let Some((st, wk0)) = s else { return };
        let r = Stream::poll_next(Pin::new(st), &mut Context::from_waker(&wk[w].1));
        *wk0 = w;
        let got = match &r {
            Poll::Ready(Some(e)) => Some(fake::event_seq(e)),
            Poll::Ready(None) => fail("an event stream ended"),
            Poll::Pending => None,
        };
        ck!(got == want, "stream {i} yielded event {got:?}; the latest event since it last yielded is {want:?}");
    };
    for i in 0..n {
        sl.push(Some((mk(i), 0)));
        run(&mut sl[i], i, None, i);
    }
    let mut at: Vec<usize> = vec![0, 1, n / 2, n - 2, n - 1];
    at.sort();
    at.dedup();
    let (a, b) = (*of(&at), *of(&at));
    note(|| format!("drop streams {a} and {b}"));
    sl[a] = None;
    sl[b] = None;
    if flip() {
        note(|| "a new one".into());
        sl[a] = Some((mk(a), 0));
        run(&mut sl[a], a, None, a);
    }
    for _ in 0..2 {
        let m = *of(FAR);
        note(|| format!("{m} events"));
        let mut q = 0;
        for k in 0..m {
            let ev = fake::event("Event", TY[0], true, true);
            q = fake::event_seq(&ev);
            fake::dispatch(&ts[1], &ev);
            let mut last = vec![false; n];
            sl.iter().flatten().for_each(|s| last[s.1] = true);
            for (w, want) in last.into_iter().enumerate() {
                ck!((wk[w].0.take() > 0) == want, "event {k}: waker {w}, with which a stream was run: {want}, is woken: {}", !want);
            }
        }
        if choose(2) == 0 {
            for (i, s) in sl.iter_mut().enumerate() {
                run(s, (i + 1) % n, Some(q), i);
                run(s, (i + 1) % n, None, i);
            }
            step(&(m, a, b));
        }
        ck!(fake::live_listeners() as usize == sl.iter().flatten().count(), "{} streams are running, there are {} listeners", sl.iter().flatten().count(), fake::live_listeners());
    }
    sl.clear();
    ck!(fake::live_listeners() == 0, "all streams are gone but {} listeners are left", fake::live_listeners());
    for w in &wk {
        ck!(std::sync::Arc::strong_count(&w.0) == 2, "all streams are gone but a waker is still kept");
    }
    outcome(&(a, b));
    done();
}

// ---------------------------------------------------------------- C09, components

/// One wait: an event on a target.
#[derive(Clone, Copy, Debug)]
struct W {
    t: usize,
    y: usize,
    o: usize,
}
/// What the component does when it got the event.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Nothing,
    Prevent,
    /// dispatch a (non-bubbling or bubbling) second event while handling the first one
    Nested(usize, usize),
    /// stop the event at this target
    Stop,
    /// unmount component i
    Kill(usize),
}
/// A component: runs its waits in a cycle; each entry is one wait or a race of two.
#[derive(Clone, Debug)]
struct C {
    waits: Vec<(W, Option<W>)>,
    act: Do,
    /// use one stream for every round (only for a single wait)
    reuse: bool,
}

#[derive(Default)]
struct World {
    ts: Vec<EventTarget>,
    tasks: RefCell<Vec<Option<Task<()>>>>,
    log: RefCell<Vec<(usize, u64, bool)>>,
    primary: Cell<u64>,
}

async fn component(i: usize, c: C, w: Rc<World>) {
    let mk = |x: W| {
        let mut s = w.ts[x.t].until_event::<Event>(TY[x.y].into());
        set_opts(&mut s, x.o);
        s
    };
    let mut kept = c.reuse.then(|| mk(c.waits[0].0));
    for n in 0.. {
        let (a, b) = c.waits[n % c.waits.len()];
        let ev = if let Some(s) = &mut kept {
            poll_fn(|cx| Pin::new(&mut *s).poll_next(cx)).await.unwrap_or_else(|| fail("an event stream ended"))
        } else {
            match b {
                None => mk(a).await,
                Some(b) => race((mk(a), mk(b))).await,
            }
        };
        // handled while the event is being dispatched?
        let during = ev.current_target().is_some();
        let q = fake::event_seq(&ev);
        w.log.borrow_mut().push((i, q, during));
        match c.act {
            Do::Nothing => {}
            Do::Prevent => ev.prevent_default(),
            Do::Stop => ev.stop_propagation(),
            Do::Nested(t, y) => {
                if q == w.primary.get() {
                    let e2 = fake::event("Event", TY[y], true, true);
                    fake::dispatch(&w.ts[t], &e2);
                }
            }
            Do::Kill(j) => {
                let t = w.tasks.borrow_mut()[j].take();
                drop(t);
            }
        }
    }
}

/// The model: which component handles which event, from the DOM's dispatch rules.
struct Model {
    cs: Vec<MC>,
    next_listener: u64,
    log: Vec<(usize, u64)>,
    running: bool,
    primary: u64,
    next_seq: u64,
    prevented: Vec<u64>,
    stopped: Vec<u64>,
}
struct MC {
    c: C,
    alive: bool,
    n: usize,
    /// listeners that are registered now: (order, wait)
    ls: Vec<(u64, W)>,
    /// latest event: (sequence number, passive listener)
    last: Option<(u64, bool)>,
}
impl Model {
    fn register(&mut self, i: usize) {
        let c = &mut self.cs[i];
        if c.c.reuse && !c.ls.is_empty() {
            return;
        }
        c.ls.clear();
        let (a, b) = c.c.waits[c.n % c.c.waits.len()];
        for w in std::iter::once(a).chain(b) {
            c.ls.push((self.next_listener, w));
            self.next_listener += 1;
        }
    }
    fn quiesce(&mut self) {
        if std::mem::replace(&mut self.running, true) {
            return;
        }
        while let Some(i) = self.cs.iter().position(|c| c.alive && c.last.is_some()) {
            let (q, pass) = self.cs[i].last.take().unwrap();
            self.log.push((i, q));
            let c = &mut self.cs[i];
            c.n += 1;
            if !c.c.reuse {
                c.ls.clear();
            }
            match c.c.act {
                Do::Nothing => {}
                Do::Prevent => {
                    if !pass {
                        self.prevented.push(q)
                    }
                }
                Do::Stop => self.stopped.push(q),
                Do::Nested(t, y) => {
                    if q == self.primary {
                        let q2 = self.next_seq;
                        self.next_seq += 1;
                        self.dispatch(t, y, q2, true);
                    }
                }
                Do::Kill(j) => {
                    self.cs[j].alive = false;
                    self.cs[j].ls.clear();
                    self.cs[j].last = None;
                }
            }
            if self.cs[i].alive {
                self.register(i);
            }
        }
        self.running = false;
    }
    fn dispatch(&mut self, t: usize, y: usize, q: u64, bubbles: bool) {
        // outer = 0, inner = 1
        let mut phases = vec![];
        if t == 1 {
            phases.push((0, true));
        }
        phases.push((t, true));
        phases.push((t, false));
        if t == 1 && bubbles {
            phases.push((0, false));
        }
        for (at, cap) in phases {
            if self.stopped.contains(&q) {
                break;
            }
            let mut ls: Vec<(u64, usize, W)> = vec![];
            for (i, c) in self.cs.iter().enumerate() {
                ls.extend(c.ls.iter().filter(|(_, w)| w.t == at && captures(w.o) == cap && w.y == y).map(|(o, w)| (*o, i, *w)));
            }
            ls.sort_by_key(|l| l.0);
            for (o, i, w) in ls {
                if self.cs[i].ls.iter().any(|l| l.0 == o) {
                    self.cs[i].last = Some((q, passive(w.o)));
                    self.quiesce();
                }
            }
        }
    }
}

fn pump() {
    let mut n = 0;
    while fake::timers() > 0 {
        n += 1;
        ck!(n < 500, "the executor keeps scheduling itself without end");
        fake::fire_timer(0);
    }
}

fn components(cs: Vec<C>, ops: usize, types: usize) {
    for (i, c) in cs.iter().enumerate() {
        note(|| format!("component {i}: {c:?}"));
    }
    let w = Rc::new(World { ts: targets(), ..Default::default() });
    let mut m = Model {
        cs: vec![],
        next_listener: 0,
        log: vec![],
        running: false,
        primary: 0,
        next_seq: 0,
        prevented: vec![],
        stopped: vec![],
    };
    for (i, c) in cs.iter().enumerate() {
        let host = dom::div();
        let t = mount_at(component(i, c.clone(), w.clone()), host);
        w.tasks.borrow_mut().push(Some(t));
        m.cs.push(MC { c: c.clone(), alive: true, n: 0, ls: vec![], last: None });
    }
    pump();
    for i in 0..cs.len() {
        m.register(i);
    }
    for _ in 0..ops {
        let mut acts: Vec<(usize, usize, usize)> = vec![];
        for t in 0..2 {
            for y in 0..types {
                acts.push((t, y, 1));
            }
        }
        acts.push((1, 0, 0));
        for i in 0..cs.len() {
            if m.cs[i].alive {
                acts.push((2, i, 0));
            }
        }
        let (t, y, b) = *of(&acts);
        if t == 2 {
            note(|| format!("unmount component {y}"));
            let task = w.tasks.borrow_mut()[y].take();
            drop(task);
            // the library removes it no later than the next turn
            pump();
            m.cs[y].alive = false;
            m.cs[y].ls.clear();
        } else {
            let ev = fake::event("Event", TY[y], b == 1, true);
            let q = fake::event_seq(&ev);
            note(|| format!("dispatch event {q}, {} at target {t}, bubbling {b}", TY[y]));
            w.primary.set(q);
            m.primary = q;
            m.next_seq = q + 1;
            let from = w.log.borrow().len();
            m.log.clear();
            let unprevented = fake::dispatch(&w.ts[t], &ev);
            m.dispatch(t, y, q, b == 1);
            let log = w.log.borrow()[from..].to_vec();
            for i in 0..cs.len() {
                let act: Vec<u64> = log.iter().filter(|l| l.0 == i).map(|l| l.1).collect();
                let exp: Vec<u64> = m.log.iter().filter(|l| l.0 == i).map(|l| l.1).collect();
                ck!(act == exp, "component {i} handled the events {act:?} before the dispatch returned; dispatched to it: {exp:?}");
            }
            // an event that a component dispatches while it runs is handled right after that run
            ck!(log.iter().all(|l| l.2 || l.1 != q), "an event was handled after its dispatch");
            let exp = m.prevented.contains(&q);
            ck!(unprevented != exp, "default action of event {q} prevented: {}, but a component cancelled it: {exp}", !unprevented);
        }
        for t in 0..2 {
            let mut act: Vec<_> = fake::listeners(&w.ts[t]);
            let mut exp: Vec<_> = m
                .cs
                .iter()
                .flat_map(|c| c.ls.iter().filter(|l| l.1.t == t).map(|l| (TY[l.1.y].to_string(), captures(l.1.o), passive(l.1.o))))
                .collect();
            act.sort();
            exp.sort();
            ck!(act == exp, "target {t} has the listeners {act:?}, the components wait with {exp:?}");
            step(&(t, act, w.log.borrow().len()));
        }
        let n = w.log.borrow().len();
        pump();
        ck!(w.log.borrow().len() == n, "a component handled an event in a later turn");
    }
    w.tasks.borrow_mut().clear();
    pump();
    ck!(fake::live_listeners() == 0, "all components are unmounted but {} listeners are left", fake::live_listeners());
    outcome(&w.log.borrow().len());
    done();
}

fn component_set(family: usize, ops: usize) {
    let w = |t, y, o| W { t, y, o };
    let any = |os: &'static [usize]| W { t: choose(2), y: 0, o: *of(os) };
    match family {
        // one component, every wait
        0 => {
            let c = C { waits: vec![(any(&[0, 1, 2, 3, 4, 5]), None)], act: *of(&[Do::Nothing, Do::Prevent]), reuse: choose(2) == 1 };
            components(vec![c], ops, 2)
        }
        // one component with two waits in turn, or a race of two
        1 => {
            let (a, mut b) = (any(&[0, 1]), any(&[0, 1]));
            b.y = choose(2);
            let waits = if choose(2) == 1 { vec![(a, Some(b))] } else { vec![(a, None), (b, None)] };
            components(vec![C { waits, act: Do::Prevent, reuse: false }], ops, 2)
        }
        // two components on any targets; the first cancels, stops or unmounts
        2 => {
            let act = *of(&[Do::Prevent, Do::Stop, Do::Kill(1), Do::Kill(0)]);
            let a = C { waits: vec![(any(&[0, 1, 2]), None)], act, reuse: choose(2) == 1 };
            let b = C { waits: vec![(any(&[0, 1]), None)], act: Do::Nothing, reuse: choose(2) == 1 };
            components(vec![a, b], ops, 1)
        }
        // nested dispatch
        _ => {
            let nest = Do::Nested(choose(2), choose(2));
            let a = C { waits: vec![(any(&[0, 1]), None)], act: nest, reuse: choose(2) == 1 };
            let mut wb = any(&[0, 1]);
            wb.y = choose(2);
            let b = C { waits: vec![(wb, None)], act: *of(&[Do::Nothing, Do::Prevent]), reuse: choose(2) == 1 };
            let c = C { waits: vec![(w(0, 1, 0), None)], act: Do::Nothing, reuse: false };
            components(vec![a, b, c], ops, 1)
        }
    }
}

// ---------------------------------------------------------------- C10

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}
struct Running;
fn enter() -> Running {
    DEPTH.with(|d| {
        ck!(d.get() == 0, "a task is run from inside the run of another one");
        d.set(1);
    });
    Running
}
impl Drop for Running {
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(0));
    }
}

/// The page's root executor with a root future of ours.
fn root_executor(ops: usize) {
    let polls = Rc::new(Cell::new(0u32));
    let woken = Rc::new(Cell::new(false));
    let wk: Rc<RefCell<Option<Waker>>> = Default::default();
    let (p2, w2, k2) = (polls.clone(), woken.clone(), wk.clone());
    set_executor_future(Box::new(poll_fn(move |cx: &mut Context<'_>| {
        let _r = enter();
        p2.set(p2.get() + 1);
        ck!(p2.get() < 100, "the root future is run again and again");
        ck!(w2.replace(false), "the root future is run although nothing was woken");
        *k2.borrow_mut() = Some(cx.waker().clone());
        match deviate(5) {
            0 => {}
            1 => {
                note(|| "  while running: wake".into());
                w2.set(true);
                cx.waker().wake_by_ref();
            }
            2 => {
                note(|| "  while running: wake, by value, then run_now".into());
                w2.set(true);
                cx.waker().clone().wake();
                run_now();
            }
            3 => {
                note(|| "  while running: run_now".into());
                run_now();
            }
            _ => {
                note(|| "  while running: schedule twice".into());
                w2.set(true);
                schedule();
                schedule();
            }
        }
        Poll::<()>::Pending
    })));
    let before = fake::timers();
    run_now();
    ck!(polls.get() == 0 && fake::timers() == before, "something runs although nothing was woken");
    for _ in 0..ops {
        let mut acts = vec![0, 3];
        if wk.borrow().is_some() {
            acts.extend([1, 2]);
        }
        if fake::timers() > 0 {
            acts.push(4);
        }
        let a = *of(&acts);
        match a {
            0 => {
                note(|| "schedule".into());
                woken.set(true);
                schedule();
            }
            1 => {
                note(|| "wake".into());
                woken.set(true);
                let w = wk.borrow();
                w.as_ref().unwrap().wake_by_ref();
            }
            2 => {
                note(|| "wake by value".into());
                woken.set(true);
                let w = wk.borrow().as_ref().unwrap().clone();
                w.wake();
            }
            3 => {
                note(|| "run_now".into());
                run_now();
                ck!(!woken.get(), "run_now returned but the woken root future was not run");
            }
            _ => {
                note(|| "the next turn of the event loop".into());
                fake::fire_timer(0);
                ck!(!woken.get(), "a turn of the event loop passed but the woken root future was not run");
            }
        }
        if woken.get() {
            ck!(fake::timers() > 0, "the root future is woken but no turn was requested");
        } else {
            let n = fake::timers();
            let p = polls.get();
            ck!(a != 3 || p == polls.get(), "run without a wake");
            step(&(n, p));
        }
    }
    pump();
    ck!(!woken.get(), "all turns passed but the woken root future was not run");
    let p = polls.get();
    run_now();
    ck!(polls.get() == p && fake::timers() == 0, "something runs although nothing was woken");
    outcome(&p);
    done();
}

#[derive(Default)]
struct Tasks {
    wakers: RefCell<BTreeMap<usize, Waker>>,
    /// woken, not run since; true = woken while a run was going on
    woken: RefCell<BTreeMap<usize, bool>>,
    finished: RefCell<Vec<usize>>,
    polls: Cell<u32>,
    /// every poll of task 0 wakes itself until this many polls happened
    spin: Cell<u32>,
    /// more polls than there can be
    limit: Cell<u32>,
    target: RefCell<Option<EventTarget>>,
    in_run: Cell<bool>,
    handles: RefCell<Vec<Option<Task<()>>>>,
}
impl Tasks {
    fn running(&self) -> bool {
        DEPTH.with(|d| d.get() > 0)
    }
    fn wake(&self, i: usize) {
        let w = self.wakers.borrow().get(&i).cloned();
        if let Some(w) = w {
            if !self.finished.borrow().contains(&i) {
                let r = self.running();
                let mut m = self.woken.borrow_mut();
                let e = m.entry(i).or_insert(r);
                *e |= r;
            }
            w.wake();
        }
    }
    fn finish(&self, i: usize) {
        self.finished.borrow_mut().push(i);
        self.woken.borrow_mut().remove(&i);
    }
}

fn task_body(i: usize, n: usize, s: Rc<Tasks>, events: bool) -> impl Future<Output = ()> {
    poll_fn(move |cx: &mut Context<'_>| {
        let _r = enter();
        s.polls.set(s.polls.get() + 1);
        ck!(s.polls.get() < s.limit.get(), "tasks are run again and again");
        let was = s.woken.borrow_mut().remove(&i);
        ck!(was.is_some(), "task {i} is run although it was not woken");
        ck!(!s.finished.borrow().contains(&i), "task {i} is run although it has finished or was dropped");
        s.wakers.borrow_mut().insert(i, cx.waker().clone());
        if i == 0 && s.spin.get() > 0 {
            s.spin.set(s.spin.get() - 1);
            s.wake(0);
            return Poll::Pending;
        }
        let k = deviate(n + 4 + events as usize);
        if k == 0 {
        } else if k <= n {
            note(|| format!("  task {i} wakes task {}", k - 1));
            s.wake(k - 1);
        } else if k == n + 1 {
            note(|| format!("  task {i} finishes"));
            s.finish(i);
            return Poll::Ready(());
        } else if k == n + 2 {
            let j = (i + 1) % n;
            note(|| format!("  task {i} cancels task {j}"));
            let h = s.handles.borrow_mut()[j].take();
            if h.is_some() {
                s.finish(j);
            }
            drop(h);
        } else if k == n + 3 {
            note(|| format!("  task {i} wakes every task twice"));
            for j in 0..2 * n {
                s.wake(j % n);
            }
        } else {
            note(|| format!("  task {i} dispatches an event"));
            let t = s.target.borrow().clone().unwrap();
            fake::dispatch(&t, &fake::event("Event", "click", true, true));
        }
        Poll::Pending
    })
}

fn executor(n: usize, ops: usize, events: bool, spin: u32) {
    let s = Rc::new(Tasks::default());
    s.spin.set(spin);
    s.limit.set(3000 + spin);
    let ts = targets();
    *s.target.borrow_mut() = Some(ts[1].clone());
    // the first application keeps the executor going; with `events`, it listens and wakes task 0
    let host = dom::div();
    let (s2, t2) = (s.clone(), ts[0].clone());
    let app = mount_at(
        async move {
            loop {
                let e = t2.until_event::<Event>("click".into()).await;
                drop(e);
                // not through enter(): it is the library's own wait
                DEPTH.with(|d| d.set(d.get() + 1));
                s2.wake(0);
                DEPTH.with(|d| d.set(d.get() - 1));
            }
        },
        host,
    );
    pump();
    for i in 0..n {
        s.woken.borrow_mut().insert(i, false);
        // odd ones are mounted, even ones are spawned
        let t = if i % 2 == 1 { mount_at(task_body(i, n, s.clone(), events), dom::div()) } else { get_executor().spawn(task_body(i, n, s.clone(), events)) };
        s.handles.borrow_mut().push(Some(t));
    }
    let check = |what: &str, all: bool| {
        let w = s.woken.borrow();
        for (i, in_run) in w.iter() {
            ck!(!all, "{what} but task {i}, which was woken, was not run");
            ck!(!in_run, "task {i} was woken during a run, and the run ended without running it");
        }
        ck!(w.is_empty() || fake::timers() > 0, "tasks {:?} are woken but no turn of the event loop was requested", w.keys().collect::<Vec<_>>());
        step(&(w.clone(), fake::timers(), s.polls.get()));
    };
    check("spawned", false);
    for _ in 0..ops {
        let mut acts: Vec<(u8, usize)> = vec![];
        for i in 0..n {
            acts.push((0, i));
            if s.handles.borrow()[i].is_some() && !s.finished.borrow().contains(&i) {
                acts.push((1, i));
            }
        }
        if fake::timers() > 0 {
            acts.push((2, 0));
        }
        if events {
            acts.push((3, 0));
        }
        let (k, i) = *of(&acts);
        match k {
            0 => {
                note(|| format!("wake task {i}"));
                s.wake(i);
                check("woken", false);
            }
            1 => {
                note(|| format!("cancel task {i}"));
                let h = s.handles.borrow_mut()[i].take();
                s.finish(i);
                drop(h);
                check("cancelled", false);
            }
            2 => {
                note(|| "the next turn of the event loop".into());
                fake::fire_timer(0);
                check("a turn of the event loop passed", true);
            }
            _ => {
                note(|| "an event is dispatched".into());
                fake::dispatch(&ts[1], &fake::event("Event", "click", true, true));
                ck!(!s.woken.borrow().contains_key(&0) || s.finished.borrow().contains(&0), "an event woke a component's task, which was not run within the dispatch");
                check("dispatched", false);
            }
        }
    }
    pump();
    check("all turns passed", true);
    let p = s.polls.get();
    run_now();
    ck!(s.polls.get() == p && fake::timers() == 0, "something runs although nothing is woken");
    outcome(&p);
    let hs = std::mem::take(&mut *s.handles.borrow_mut());
    for i in 0..n {
        if !s.finished.borrow().contains(&i) {
            s.finish(i);
        }
    }
    drop(hs);
    drop(app);
    pump();
    let _ = s.in_run.get();
    ck!(std::rc::Rc::strong_count(&s) == 1, "cancelled tasks are still kept");
    s.wakers.borrow_mut().clear();
    done();
}

include!("../inc/tables.rs");

fn main() {
    let mut a = std::env::args().skip(1);
    let p = a.next().expect("property");
    let th = a.next().as_deref() == Some("thorough");
    let t = |q: usize, d: usize| if th { d } else { q };
    let mut cfgs = vec![];
    let mut rule = "one execution = one program of components and one sequence of operations, run by the real library on the in-memory DOM and event loop; every program and sequence within the bounds named in the configuration is run";
    match p.as_str() {
        "C09" => {
            let ops = t(5, 6);
            cfgs.push(Cfg::new("every sequence of 4 option settings before the first run, 2 after", || options(4, 2)));
            cfgs.push(Cfg::new(format!("one stream, {} operations, all options", ops + 1), move || streams(1, 2, 1, &[0, 1, 2, 3, 4, 5], ops + 1)));
            cfgs.push(Cfg::new(format!("two streams, {ops} operations, capture and not"), move || streams(2, 2, 1, &[0, 1], ops)));
            cfgs.push(Cfg::new(format!("two streams, {ops} operations, two types"), move || streams(2, 1, 2, &[0], ops)));
            let ops = t(4, 5);
            cfgs.push(Cfg::new(format!("three streams, {} operations", ops + 2), move || streams(3, 1, 1, &[0], ops + 2)));
            for n in [2, 5, 17, 40] {
                cfgs.push(Cfg::new(format!("{n} streams, any two are dropped, up to 1024 events, twice"), move || stream_crowd(n)));
            }
            for f in 0..4 {
                let ops = match f {
                    0 => t(3, 5),
                    1 => t(3, 5),
                    _ => t(3, 4),
                };
                let name = ["one component, any wait", "one component, two waits or a race of two", "two components, one cancels, stops or unmounts", "events dispatched while another is handled"][f];
                cfgs.push(Cfg::new(format!("{name}: {ops} events"), move || component_set(f, ops)).fresh());
            }
        }
        "C10" => {
            let ops = t(7, 8);
            cfgs.push(Cfg::new(format!("root executor, {ops} actions"), move || root_executor(ops)).fresh().budget(2));
            let ops = t(5, 6);
            cfgs.push(Cfg::new(format!("2 tasks, {ops} actions"), move || executor(2, ops, false, 0)).fresh().budget(2));
            cfgs.push(Cfg::new(format!("2 tasks and events, {ops} actions"), move || executor(2, ops, true, 0)).fresh().budget(if th { 2 } else { 1 }));
            let ops = t(4, 5);
            cfgs.push(Cfg::new(format!("3 tasks, {ops} actions"), move || executor(3, ops, false, 0)).fresh().budget(2));
            for (n, ops) in [(12, 2), (70, t(1, 2)), (300, 1)] {
                cfgs.push(Cfg::new(format!("{n} tasks, {ops} actions"), move || executor(n, ops, false, 0)).fresh().budget(if n < 50 { 1 } else { 0 }));
            }
            for spin in [150, 450, 1000] {
                cfgs.push(Cfg::new(format!("2 tasks, one yields {spin} times, 3 actions"), move || executor(2, 3, true, spin)).fresh().budget(1));
            }
            for spin in [10_000, 70_000] {
                cfgs.push(Cfg::new(format!("2 tasks, one yields {spin} times, 2 actions"), move || executor(2, 2, true, spin)).fresh().budget(1));
            }
        }
        "C27" => {
            table_cfgs(&mut cfgs);
            rule = "one execution = one component, event method or input type, exercised on the in-memory DOM; every exported one is covered";
        }
        _ => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    run(Check { property: p, tier: if th { "thorough".into() } else { "quick".into() }, cfgs, rule: rule.into(), assumptions: vec![] })
}
