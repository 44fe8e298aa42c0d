//! C11: histories of waits on a reactive cell.
use harness::{choose, ck, dom::CountWaker, fail, flip, note, of, outcome, run, step, Cfg, Check};
use std::{
    cell::RefCell,
    future::Future,
    pin::Pin,
    rc::Rc,
    sync::Arc,
    task::{Context, Poll, Waker},
};

use async_ui_web::ReactiveCell;
use futures_core::Stream;

trait Wait: Future<Output = ()> + Stream<Item = ()> {}
impl<T: Future<Output = ()> + Stream<Item = ()>> Wait for T {}

struct Slot<'a> {
    cell: usize,
    w: Option<Pin<Box<dyn Wait + 'a>>>,
    each: Option<(Pin<Box<dyn Future<Output = ()> + 'a>>, Rc<RefCell<Vec<u32>>>)>,
    polled: bool,
    changed: bool,
    waker: usize,
}
impl Slot<'_> {
    fn live(&self) -> bool {
        self.w.is_some() || self.each.is_some()
    }
}

struct World<'a> {
    cells: &'a [ReactiveCell<u32>],
    values: Vec<u32>,
    slots: Vec<Slot<'a>>,
    wk: &'a [(Arc<CountWaker>, Waker)],
    next: u32,
}
impl<'a> World<'a> {
    fn create(&mut self, i: usize, cell: usize, each: bool) {
        note(|| format!("{} {i} on cell {cell}", if each { "for_each" } else { "wait" }));
        let c = &self.cells[cell];
        let mut s = Slot { cell, w: None, each: None, polled: false, changed: false, waker: 0 };
        if each {
            let log: Rc<RefCell<Vec<u32>>> = Default::default();
            let l2 = log.clone();
            s.each = Some((Box::pin(c.for_each(move |v| l2.borrow_mut().push(*v))), log));
        } else {
            s.w = Some(Box::pin(c.until_change()));
        }
        self.slots[i] = s;
    }
    fn poll(&mut self, i: usize, w: usize, stream: bool) {
        let s = &mut self.slots[i];
        let mut cx = Context::from_waker(&self.wk[w].1);
        if let Some((f, log)) = &mut s.each {
            log.borrow_mut().clear();
            ck!(f.as_mut().poll(&mut cx).is_pending(), "for_each {i} ended");
            note(|| format!("run for_each {i} with waker {w}: called with {:?}", log.borrow()));
            let want: Vec<u32> = if !s.polled || s.changed { vec![self.values[s.cell]] } else { vec![] };
            ck!(*log.borrow() == want, "for_each {i} called its function with {:?}, expected {want:?}", log.borrow());
        } else {
            let f = s.w.as_mut().unwrap();
            let r = if stream {
                match f.as_mut().poll_next(&mut cx) {
                    Poll::Ready(None) => fail("a stream of changes ended"),
                    Poll::Ready(Some(())) => true,
                    Poll::Pending => false,
                }
            } else {
                Future::poll(f.as_mut(), &mut cx).is_ready()
            };
            note(|| format!("run wait {i} with waker {w}: {r}"));
            let want = s.polled && s.changed;
            ck!(r == want, "wait {i} fired: {r}; its cell was changed since it was last run: {want}");
        }
        s.polled = true;
        s.changed = false;
        s.waker = w;
    }
    fn drop(&mut self, i: usize) {
        note(|| format!("drop wait {i}"));
        self.slots[i].w = None;
        self.slots[i].each = None;
        self.slots[i].polled = false;
        self.slots[i].changed = false;
    }
    fn change(&mut self, c: usize, how: usize) {
        note(|| format!("change cell {c} ({})", ["borrow_mut", "try_borrow_mut", "borrow_mut without writing"][how]));
        let cell = &self.cells[c];
        self.next += 1;
        match how {
            0 => *cell.borrow_mut() = self.next,
            1 => *cell.try_borrow_mut().unwrap_or_else(|_| fail("the cell is not borrowed but try_borrow_mut fails")) = self.next,
            _ => drop(cell.borrow_mut()),
        }
        if how < 2 {
            self.values[c] = self.next;
        }
        let mut want = vec![false; self.wk.len()];
        for s in self.slots.iter_mut().filter(|s| s.live() && s.cell == c) {
            s.changed = true;
            if s.polled {
                want[s.waker] = true;
            }
        }
        for w in 0..want.len() {
            let got = self.wk[w].0.take() > 0;
            ck!(got || !want[w], "cell {c} was changed but the task of a wait on it (waker {w}) is not woken");
            ck!(want[w] || !got, "cell {c} was changed and waker {w} is woken, with which no live wait on it was last run");
        }
    }
    fn quiet(&mut self, c: usize, how: usize) {
        let cell = &self.cells[c];
        match how {
            0 => {
                note(|| format!("read cell {c}"));
                let b = cell.borrow();
                ck!(*b == self.values[c], "cell {c} holds {}, last written {}", *b, self.values[c]);
                ck!(cell.try_borrow_mut().is_err(), "try_borrow_mut succeeded while the cell is borrowed");
                ck!(*cell.try_borrow().unwrap_or_else(|_| fail("try_borrow failed")) == self.values[c], "the cell's value changed");
            }
            _ => {
                note(|| format!("clone cell {c} and change the clone"));
                let k = cell.clone();
                ck!(*k.borrow() == self.values[c], "the clone's value differs");
                *k.borrow_mut() += 1;
            }
        }
    }
    fn verify(&mut self) {
        for w in self.wk {
            ck!(w.0.take() == 0, "a waker is woken although nothing was changed");
        }
        for (c, v) in self.cells.iter().zip(&self.values) {
            ck!(*c.borrow() == *v, "the cell's value is not the one last written");
        }
        step(&self.slots.iter().map(|s| (s.live(), s.polled, s.changed, s.waker)).collect::<Vec<_>>());
    }
    fn end(&mut self) {
        // everyone is still notified of one last change
        for c in 0..self.cells.len() {
            self.change(c, 0);
        }
        for i in 0..self.slots.len() {
            if self.slots[i].live() {
                self.poll(i, i, false);
                self.poll(i, self.wk.len() - 1, true);
            }
        }
        self.slots.clear();
        for w in self.wk {
            w.0.take();
            ck!(Arc::strong_count(&w.0) == 2, "all waits are gone but a waker is still kept");
        }
    }
}

/// `pre` waits are created (and run) first, each with a waker of its own (one more is shared); then `ops` operations of any kind.
fn histories(cells: usize, slots: usize, pre: usize, ops: usize, each: bool, light: bool) {
    let cs: Vec<ReactiveCell<u32>> = (0..cells).map(|_| ReactiveCell::new(0)).collect();
    let wk: Vec<_> = (0..slots + 1).map(|_| CountWaker::new()).collect();
    let mut w = World {
        cells: &cs,
        values: vec![0; cells],
        slots: (0..slots).map(|_| Slot { cell: 0, w: None, each: None, polled: false, changed: false, waker: 0 }).collect(),
        wk: &wk,
        next: 0,
    };
    let pre_polled = pre > 0 && flip();
    for i in 0..pre {
        w.create(i, i % cells, false);
        if pre_polled {
            w.poll(i, i, false);
        }
    }
    for _ in 0..ops {
        let mut acts: Vec<(u8, usize, usize)> = vec![];
        let mut empty = false;
        for (i, s) in w.slots.iter().enumerate() {
            if s.live() {
                acts.push((1, i, 0));
                if !light {
                    acts.push((1, i, 1));
                    if s.each.is_none() {
                        acts.push((1, i, 2));
                    }
                }
                acts.push((2, i, 0));
            } else if !empty {
                empty = true;
                for c in 0..cells {
                    acts.push((0, i, c));
                    if each {
                        acts.push((0, i, c + cells));
                    }
                }
            }
        }
        for c in 0..cells {
            acts.extend((0..if light { 1 } else { 3 }).map(|h| (3, c, h)));
            if !light {
                acts.extend([(4, c, 0), (4, c, 1)]);
            }
        }
        let (k, a, b) = *of(&acts);
        match k {
            0 => w.create(a, b % cells, b >= cells),
            1 => w.poll(a, if b == 1 { slots } else { a }, b == 2),
            2 => w.drop(a),
            3 => w.change(a, b),
            _ => w.quiet(a, b),
        }
        w.verify();
    }
    w.end();
    outcome(&w.next);
}

/// Numbers of repetitions around which a counter of few bits would wrap.
const FAR: &[usize] = &[1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1024];

/// Two waits and a `for_each`; any of `FAR` changes, or waits that come and go, between two runs.
fn far(rounds: usize, ns: &[usize]) {
    let cs = vec![ReactiveCell::new(0u32)];
    let wk: Vec<_> = (0..5).map(|_| CountWaker::new()).collect();
    let mut w = World {
        cells: &cs,
        values: vec![0],
        slots: (0..4).map(|_| Slot { cell: 0, w: None, each: None, polled: false, changed: false, waker: 0 }).collect(),
        wk: &wk,
        next: 0,
    };
    for i in 0..3 {
        w.create(i, 0, i == 2);
        w.poll(i, i, false);
    }
    for _ in 0..rounds {
        let n = *of(ns);
        let what = choose(3);
        note(|| format!("{n} times: {}", ["change", "a wait that is run and dropped", "a wait that is run, fired and dropped"][what]));
        for _ in 0..n {
            if what > 0 {
                w.create(3, 0, false);
                w.poll(3, 3, false);
            }
            if what != 1 {
                w.change(0, 0);
            }
            if what == 2 {
                w.poll(3, 4, true);
            }
            if what > 0 {
                w.drop(3);
            }
        }
        w.verify();
        let who = choose(4);
        for i in 0..3 {
            if who >> i & 1 == 1 || who == 3 {
                w.poll(i, i, i == 1);
            }
        }
        w.verify();
    }
    w.end();
    outcome(&w.values);
}

/// `n` waits have been run; any two of them go, one comes, and the cell is changed.
fn crowd(n: usize) {
    let cs = vec![ReactiveCell::new(0u32)];
    let wk: Vec<_> = (0..n + 1).map(|_| CountWaker::new()).collect();
    let mut w = World {
        cells: &cs,
        values: vec![0],
        slots: (0..n + 1).map(|_| Slot { cell: 0, w: None, each: None, polled: false, changed: false, waker: 0 }).collect(),
        wk: &wk,
        next: 0,
    };
    for i in 0..n {
        w.create(i, 0, i % 7 == 3);
        w.poll(i, i, false);
    }
    let mut at: Vec<usize> = vec![0, 1, n / 2, n - 2, n - 1, 31, 32, 63, 64, 127, 128, 255, 256, 65535, 65536];
    if n > 60000 {
        at.drain(1..11);
    }
    at.retain(|a| *a < n);
    at.sort();
    at.dedup();
    let (a, b) = (*of(&at), *of(&at));
    w.drop(a);
    w.verify();
    if b != a {
        w.drop(b);
        w.verify();
    }
    for _ in 0..choose(3) {
        if let Some(i) = w.slots.iter().position(|s| !s.live()) {
            w.create(i, 0, false);
            w.poll(i, i, false);
            w.verify();
        }
    }
    for _ in 0..2 {
        w.change(0, 0);
        for i in 0..w.slots.len() {
            if w.slots[i].live() {
                w.poll(i, n - i, false);
            }
        }
        w.verify();
    }
    w.end();
    outcome(&w.values);
}

fn main() {
    let mut a = std::env::args().skip(1);
    let p = a.next().expect("property");
    let th = a.next().as_deref() == Some("thorough");
    let t = |q: usize, d: usize| if th { d } else { q };
    let mut cfgs = vec![];
    let ops = t(7, 8);
    cfgs.push(Cfg::new(format!("2 waits on a cell, every operation, {ops} operations"), move || histories(1, 2, 0, ops, false, false)));
    let ops = t(9, 11);
    cfgs.push(Cfg::new(format!("3 waits on a cell, {ops} operations"), move || histories(1, 3, 0, ops, false, true)));
    let ops = t(6, 7);
    cfgs.push(Cfg::new(format!("waits and for_each on a cell, {ops} operations"), move || histories(1, 2, 0, ops, true, false)));
    let ops = t(7, 9);
    cfgs.push(Cfg::new(format!("waits and for_each on two cells, {ops} operations"), move || histories(2, 3, 0, ops, true, true)));
    for pre in [1, 2, 3, 4, 5, 6, 7, 8, 14, 15] {
        let ops = t(if pre > 8 { 3 } else { 5 }, if pre > 8 { 4 } else { 6 });
        cfgs.push(Cfg::new(format!("{pre} waits to start with, {ops} operations"), move || histories(1, pre + 1, pre, ops, false, true)));
    }
    let rounds = t(2, 3);
    cfgs.push(Cfg::new(format!("up to 1024 changes, or waits that come and go, between two runs, {rounds} times"), move || far(rounds, if rounds == 2 { FAR } else { &FAR[10..] })));
    cfgs.push(Cfg::new("65536 changes between two runs", || far(1, &[65535, 65536])));
    for n in [33, 65, 130, 300, t(520, 1100), 66000] {
        cfgs.push(Cfg::new(format!("{n} waits: any two go, up to two come"), move || crowd(n)));
    }
    run(Check {
        property: p,
        tier: if th { "thorough".into() } else { "quick".into() },
        cfgs,
        rule: "one execution = one history of creating, running and dropping waits and of changing the cell, on the real ReactiveCell; every history within the bounds named in the configuration is run".into(),
        assumptions: vec!["a wait is not run, created or dropped while the cell is borrowed (it would panic, as a RefCell does)".into()],
    })
}
