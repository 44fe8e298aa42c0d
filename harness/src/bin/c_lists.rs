//! C13 `DynamicList`, C14 `DiffedList`, C15 `ModeledList`, C16 `Dropdown`, C17 `VirtualizedList`.
//!
//! Every sequence of list operations up to a bound is run on the real list, rendered between
//! neighbours on the in-memory DOM, and compared with an ordinary `Vec` of items.
use harness::{
    choose, ck, deviate, dom, flip,
    host::{done, show, Arm, Host},
    note, of, outcome,
    prog::{self, build, comb, late, leaf, model, Exp, Fut, Shape, K, M, P, R, S},
    run, step,
    tok::{self, Tok},
    Cfg, Check,
};
use std::{
    cell::RefCell,
    collections::BTreeSet,
    future::{poll_fn, Future},
    pin::Pin,
    rc::{Rc, Weak},
    task::{Poll, Waker},
};
use web_sys::{HtmlElement, Node};

use async_ui_web::shortcut_traits::ShortcutRenderStr;
use async_ui_web::{
    components::Dropdown,
    html::Div,
    join,
    lists::{DiffedList, Direction, DynamicList, ListModel, ModeledList, VirtualizedList},
};

const EXACT: Arm = Arm { order: false, exact: false, slot: true };

/// The programs items render.
fn content(kind: usize) -> P {
    match kind {
        0 => leaf(),
        1 => comb(K::Join, Shape::Tuple, vec![leaf(), late()]),
        2 => late(),
        3 => P::Wait,
        4 => P::Seq(vec![leaf(), leaf()]),
        5 => comb(K::Race, Shape::Vec, vec![leaf(), leaf()]),
        6 => comb(K::Join, Shape::List, vec![leaf(), late()]),
        7 => comb(K::Join, Shape::Slots, vec![late(), leaf()]),
        _ => comb(K::Join, Shape::Diffed, vec![leaf(), comb(K::Join, Shape::List, vec![late(), leaf()])]),
    }
}

struct Item {
    key: u32,
    m: M,
}
/// Makes item futures and their models.
struct Factory {
    s: S,
    next: usize,
    made: Vec<(u32, M)>,
    /// program for each key
    kinds: fn(u32) -> usize,
}
type F = Rc<RefCell<Factory>>;
struct Owned(Fut, #[allow(dead_code)] Tok);
impl Future for Owned {
    type Output = R;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<R> {
        self.0.as_mut().poll(cx)
    }
}
impl Factory {
    fn make(f: &F, key: u32) -> Fut {
        let kind = (f.borrow().kinds)(key);
        Factory::make_kind(f, key, kind)
    }
    fn make_kind(f: &F, key: u32, kind: usize) -> Fut {
        let mut f = f.borrow_mut();
        let p = content(kind);
        let mut a = f.next;
        let m = model(&p, &mut a);
        let mut b = f.next;
        let fut = build(&p, &f.s, &mut b);
        f.next = b;
        f.made.push((key, m));
        Box::pin(Owned(fut, Tok::new(key)))
    }
    fn take(f: &F) -> Vec<(u32, M)> {
        std::mem::take(&mut f.borrow_mut().made)
    }
}

/// A place where something can be rendered and taken away again.
#[derive(Clone, Default)]
struct Place(Rc<RefCell<(Option<Fut>, bool, Option<Waker>)>>);
impl Place {
    fn set(&self, f: Option<Fut>) {
        let w = {
            let mut p = self.0.borrow_mut();
            p.0 = f;
            p.1 = true;
            p.2.clone()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    fn fut(self) -> impl Future<Output = R> {
        let mut cur: Option<Fut> = None;
        poll_fn(move |cx| {
            let msg = {
                let mut p = self.0.borrow_mut();
                p.2 = Some(cx.waker().clone());
                std::mem::take(&mut p.1).then(|| p.0.take())
            };
            if let Some(f) = msg {
                cur = f;
            }
            if let Some(f) = &mut cur {
                let _ = f.as_mut().poll(cx);
            }
            Poll::<R>::Pending
        })
    }
}

/// The frame lists are rendered in: late neighbour, place 0, neighbour, place 1, late neighbour.
struct Frame {
    h: Host,
    n: [M; 3],
    places: [Place; 2],
    /// where the list is rendered
    at: Option<usize>,
    f: F,
}
impl Frame {
    fn new(kinds: fn(u32) -> usize) -> Frame {
        tok::reset(true);
        let mut h = Host::new(EXACT);
        let mut next = 0;
        let mut mk = |p: P| {
            let m = model(&p, &mut next.clone());
            (m, build(&p, &h.s, &mut next))
        };
        let (m0, f0) = mk(late());
        let (m1, f1) = mk(leaf());
        let (m2, f2) = mk(late());
        let places: [Place; 2] = Default::default();
        let (a, b) = (places[0].clone(), places[1].clone());
        h.start(async move {
            let _ = join((f0, a.fut(), f1, b.fut(), f2)).await;
        });
        let mut n = [m0, m1, m2];
        n.iter_mut().for_each(|m| m.start());
        let f = Rc::new(RefCell::new(Factory { s: h.s.clone(), next, made: vec![], kinds }));
        Frame { h, n, places, at: None, f }
    }
    fn expect(&self, items: &[Item]) -> Vec<Exp> {
        let mut inner = vec![];
        for i in items {
            i.m.expect(&mut inner);
        }
        let mut e = vec![];
        self.n[0].expect(&mut e);
        if self.at == Some(0) {
            e.append(&mut inner);
        }
        self.n[1].expect(&mut e);
        if self.at == Some(1) {
            e.append(&mut inner);
        }
        self.n[2].expect(&mut e);
        e
    }
    /// Run, then compare.
    fn settle(&mut self, items: &mut [Item], when: &str) {
        if self.at.is_some() {
            for i in items.iter_mut() {
                if !i.m.active() && i.m.result().is_none() {
                    i.m.start();
                }
                i.m.settle();
            }
        }
        self.h.drive();
        let e = self.expect(items);
        self.h.check(&e, when);
    }
    fn neighbour(&mut self, i: usize) {
        let mut g = vec![];
        self.n[i].gates(&mut g);
        let id = g[0].0;
        self.n[i].open(id, true);
        prog::open(&self.h.s, id, true);
    }
    /// Futures of items must be owned exactly as long as the item is in the list and unfinished.
    fn owned(&self, items: &[Item]) {
        if self.at.is_some() {
            let want = items.iter().filter(|i| i.m.result().is_none()).count();
            ck!(tok::live() == want, "{} item futures are alive, but {want} items are in the list and unfinished", tok::live());
        }
    }
}

// ---------------------------------------------------------------------------------------- C13

type DL = DynamicList<'static, u32, Fut>;

fn dyn_list(init: usize, start_rendered: bool, kinds: fn(u32) -> usize, ops: usize, nkeys: u32, full: bool) {
    let mut fr = Frame::new(kinds);
    let list: Rc<DL> = Rc::new(DynamicList::new());
    let mut items: Vec<Item> = vec![];
    let insert = |items: &mut Vec<Item>, fr: &Frame, list: &DL, key: u32, selfrm: Option<Weak<DL>>, before: Option<u32>| {
        let mut fut = Factory::make(&fr.f, key);
        if let Some(w) = selfrm {
            let inner = fut;
            fut = Box::pin(async move {
                let r = inner.await;
                if let Some(l) = w.upgrade() {
                    l.remove(&key);
                }
                r
            });
        }
        let (_, m) = Factory::take(&fr.f).pop().unwrap();
        let was = list.insert(key, fut, before.as_ref());
        let had = items.iter().position(|i| i.key == key);
        ck!(was == had.is_some(), "insert({key}) returned {was}");
        let at = match before.and_then(|b| items.iter().position(|i| i.key == b)) {
            Some(p) => p,
            None => items.len(),
        };
        items.insert(at, Item { key, m });
        if let Some(h) = had {
            items.remove(if h >= at { h + 1 } else { h });
        }
    };
    for k in 0..init as u32 {
        insert(&mut items, &fr, &list, k, None, None);
    }
    let mount = |fr: &mut Frame, list: &Rc<DL>, to: Option<usize>| {
        if let Some(at) = fr.at {
            fr.places[at].set(None);
            if to.is_some() {
                // it has to be gone before it can be rendered elsewhere
                fr.h.drive();
            }
        }
        fr.at = to;
        if let Some(to) = to {
            let l = list.clone();
            fr.places[to].set(Some(Box::pin(async move {
                l.render().await;
                Ok(())
            })));
        }
    };
    if start_rendered {
        mount(&mut fr, &list, Some(0));
    }
    fr.settle(&mut items, "at the start");
    let mut selfrm: BTreeSet<u32> = BTreeSet::new();
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Insert(u32, Option<u32>, bool),
        Remove(u32),
        Move(u32, Option<u32>),
        Swap(u32, u32),
        Retain(u32),
        Mount(Option<usize>),
        Gate(usize),
        Neighbour(usize),
    }
    let mut quiet = true;
    for _ in 0..ops {
        let mut acts = vec![];
        let present: Vec<u32> = items.iter().map(|i| i.key).collect();
        let missing = 99;
        for k in 0..nkeys {
            let mut befores = vec![None, Some(missing)];
            befores.extend(present.iter().map(|k| Some(*k)));
            if !full {
                befores.remove(1);
            }
            if !present.contains(&k) || full {
                for b in befores {
                    acts.push(Op::Insert(k, b, false));
                }
                if full {
                    acts.push(Op::Insert(k, None, true));
                }
            }
            if present.contains(&k) {
                acts.push(Op::Remove(k));
                acts.push(Op::Move(k, None));
                if full {
                    acts.push(Op::Move(k, Some(missing)));
                }
                for b in &present {
                    acts.push(Op::Move(k, Some(*b)));
                    if *b != k || full {
                        acts.push(Op::Swap(k, *b));
                    }
                }
            } else if full {
                acts.push(Op::Remove(k));
            }
        }
        if full {
            for mask in 0..(1 << present.len()) - 1 {
                acts.push(Op::Retain(mask));
            }
            acts.push(Op::Mount(if fr.at.is_some() { None } else { Some(0) }));
            acts.push(Op::Mount(Some(if fr.at == Some(1) { 0 } else { 1 })));
        }
        if fr.at.is_some() {
            for i in &items {
                let mut g = vec![];
                i.m.gates(&mut g);
                acts.extend(g.iter().map(|g| Op::Gate(g.0)));
            }
        }
        for n in [0, 2] {
            let mut e = vec![];
            fr.n[n].expect(&mut e);
            if e.is_empty() {
                acts.push(Op::Neighbour(n));
            }
        }
        let op = *of(&acts);
        note(|| format!("{op:?}"));
        match op {
            Op::Insert(k, b, rm) => {
                if rm {
                    selfrm.insert(k);
                } else {
                    selfrm.remove(&k);
                }
                insert(&mut items, &fr, &list, k, rm.then(|| Rc::downgrade(&list)), b);
            }
            Op::Remove(k) => {
                let had = items.iter().position(|i| i.key == k);
                let r = list.remove(&k);
                ck!(r == had.is_some(), "remove({k}) returned {r}");
                if let Some(h) = had {
                    items.remove(h);
                }
            }
            Op::Move(k, b) => {
                list.move_before(&k, b.as_ref());
                if b != Some(k) {
                    let i = items.iter().position(|i| i.key == k).unwrap();
                    let it = items.remove(i);
                    let at = b.and_then(|b| items.iter().position(|i| i.key == b)).unwrap_or(items.len());
                    items.insert(at, it);
                }
            }
            Op::Swap(a, b) => {
                list.swap(&a, &b);
                let i = items.iter().position(|i| i.key == a).unwrap();
                let j = items.iter().position(|i| i.key == b).unwrap();
                items.swap(i, j);
            }
            Op::Retain(mask) => {
                let keep: Vec<u32> = present.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, k)| *k).collect();
                let seen = RefCell::new(vec![]);
                list.retain(|k| {
                    seen.borrow_mut().push(*k);
                    keep.contains(k)
                });
                let mut seen = seen.into_inner();
                seen.sort();
                let mut want = present.clone();
                want.sort();
                ck!(seen == want, "retain asked about {seen:?}, the list has {want:?}");
                items.retain(|i| keep.contains(&i.key));
            }
            Op::Mount(to) => mount(&mut fr, &list, to),
            Op::Gate(id) => {
                prog::open(&fr.h.s, id, true);
                for i in items.iter_mut() {
                    i.m.open(id, true);
                    i.m.settle();
                }
                items.retain(|i| !(i.m.result().is_some() && selfrm.contains(&i.key)));
            }
            Op::Neighbour(n) => fr.neighbour(n),
        }
        for k in 0..nkeys {
            ck!(list.contains_key(&k) == items.iter().any(|i| i.key == k) || matches!(op, Op::Gate(_)), "contains_key({k}) is wrong");
        }
        // inserting and removing leaves the other items alone
        quiet &= matches!(op, Op::Insert(..) | Op::Remove(_) | Op::Retain(_) | Op::Gate(_) | Op::Neighbour(_));
        if deviate(2) == 1 {
            note(|| "(not run yet)".into());
            continue;
        }
        fr.h.arm.exact = quiet;
        quiet = true;
        fr.settle(&mut items, "after running");
        fr.h.arm.exact = false;
        fr.owned(&items);
    }
    if fr.at.is_some() && flip() {
        mount(&mut fr, &list, None);
        fr.settle(&mut items, "after the list was taken away");
    }
    fr.h.unmount();
    drop(fr.places);
    ck!(Rc::strong_count(&list) == 1, "the list is still rendered");
    drop(list);
    ck!(tok::live() == 0, "{} item futures were never dropped", tok::live());
    outcome(&items.iter().map(|i| i.key).collect::<Vec<_>>());
    done();
}

/// Places in a list of `n` where something may be different.
fn spots(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1)];
    v.extend([15, 16, 31, 32, 63, 64, 127, 128, 255, 256].iter().filter(|x| (n > 40 || **x < 20) && n < 80 || **x > 200));
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    v
}

/// A list of `n` items; `ops` operations at any of a few places.
fn dyn_long(n: usize, ops: usize, kinds: fn(u32) -> usize) {
    let mut fr = Frame::new(kinds);
    let list: Rc<DL> = Rc::new(DynamicList::new());
    let mut items: Vec<Item> = vec![];
    let put = |items: &mut Vec<Item>, fr: &Frame, key: u32, at: usize| {
        let fut = Factory::make(&fr.f, key);
        let (_, m) = Factory::take(&fr.f).pop().unwrap();
        let before = items.get(at).map(|i| i.key);
        let was = list.insert(key, fut, before.as_ref());
        let had = items.iter().position(|i| i.key == key);
        ck!(was == had.is_some(), "insert({key}) returned {was}");
        items.insert(at, Item { key, m });
        if let Some(h) = had {
            items.remove(if h >= at { h + 1 } else { h });
        }
    };
    let l = list.clone();
    let show = |fr: &mut Frame| {
        fr.at = Some(0);
        fr.places[0].set(Some(Box::pin(async move {
            l.render().await;
            Ok(())
        })));
    };
    // filled from the end, or after it is rendered
    match choose(2) {
        0 => {
            for k in 0..n as u32 {
                let at = items.len();
                put(&mut items, &fr, k, at);
            }
            show(&mut fr);
        }
        _ => {
            show(&mut fr);
            fr.settle(&mut items, "at the start");
            for k in (0..n as u32).rev() {
                put(&mut items, &fr, k, 0);
            }
        }
    }
    fr.settle(&mut items, "after the list was filled");
    for r in 0..ops {
        let sp = spots(items.len());
        let len = items.len();
        let op = choose(7);
        let a = *of(&sp);
        let ka = items[a].key;
        match op {
            0 => {
                note(|| format!("insert a new item at {a}"));
                put(&mut items, &fr, 1000 + r as u32, a);
            }
            1 => {
                note(|| format!("insert the key at {a} again at the end"));
                put(&mut items, &fr, ka, len);
            }
            2 => {
                note(|| format!("remove at {a}"));
                ck!(list.remove(&ka), "remove({ka}) returned false");
                items.remove(a);
            }
            3 | 4 => {
                let b = *of(&sp);
                let kb = items[b].key;
                if op == 3 {
                    note(|| format!("move {a} before {b}"));
                    list.move_before(&ka, Some(&kb));
                    if a != b {
                        let i = items.remove(a);
                        items.insert(if b > a { b - 1 } else { b }, i);
                    }
                } else {
                    note(|| format!("swap {a} and {b}"));
                    list.swap(&ka, &kb);
                    items.swap(a, b);
                }
            }
            5 => {
                let m = *of(&[16, 64, 256, 257]);
                let run = n < 40 && m == 16 && flip();
                note(|| format!("{m} times insert a new item at {a} and remove it, run in between: {run}"));
                for k in 0..m {
                    put(&mut items, &fr, 2000 + k, a);
                    if run {
                        fr.settle(&mut items, "after an item was inserted");
                    }
                    ck!(list.remove(&(2000 + k)), "remove returned false");
                    items.remove(a);
                }
            }
            _ => {
                note(|| format!("retain all but every {}th", a + 2));
                let m = a as u32 + 2;
                list.retain(|k| k % m != 1);
                items.retain(|i| i.key % m != 1);
                if items.is_empty() {
                    break;
                }
            }
        }
        ck!(list.contains_key(&ka) == items.iter().any(|i| i.key == ka), "contains_key({ka}) is wrong");
        fr.settle(&mut items, "after the operation");
        fr.owned(&items);
        let mut g = vec![];
        items.iter().for_each(|i| i.m.gates(&mut g));
        if !g.is_empty() {
            let c = choose(3);
            if c > 0 {
                let id = g[if c == 1 { 0 } else { g.len() - 1 }].0;
                note(|| format!("gate {id}"));
                prog::open(&fr.h.s, id, true);
                items.iter_mut().for_each(|i| i.m.open(id, true));
                fr.settle(&mut items, "after a gate opened");
            }
        }
    }
    fr.h.unmount();
    drop(fr.places);
    drop(list);
    ck!(tok::live() == 0, "{} item futures were never dropped", tok::live());
    outcome(&items.iter().map(|i| i.key).collect::<Vec<_>>());
    done();
}

// ---------------------------------------------------------------------------------------- C14

/// Sequences of the keys `0..n` and a few more that differ from the whole in one regular way.
fn long_seqs(n: u32) -> Vec<Vec<u32>> {
    let all: Vec<u32> = (0..n).collect();
    let sp: Vec<u32> = spots(n as usize).into_iter().map(|x| x as u32).collect();
    let mut out = vec![all.clone(), vec![], all.iter().rev().copied().collect(), (n..2 * n).collect()];
    for m in [2, 3] {
        out.push(all.iter().copied().filter(|k| k % m == 0).collect());
        out.push(all.iter().copied().filter(|k| k % m != 0).collect());
    }
    out.push(all.iter().flat_map(|k| [*k, n + k]).collect());
    let h = n as usize / 2;
    out.push(all[h..].iter().chain(&all[..h]).copied().collect());
    for a in &sp {
        let a = *a as usize;
        let mut v = all.clone();
        v.remove(a);
        out.push(v);
        let mut v = all.clone();
        v.insert(a, 2 * n);
        out.push(v);
        for b in &sp {
            let b = *b as usize;
            let mut v = all.clone();
            v.swap(a, b);
            out.push(v);
            let mut v = all.clone();
            let x = v.remove(a);
            v.insert(b, x);
            out.push(v);
        }
    }
    out.sort();
    out.dedup();
    out
}

/// Every sequence of distinct keys from `0..n`, by number.
fn perms(n: u32) -> Vec<Vec<u32>> {
    fn go(cur: &mut Vec<u32>, n: u32, out: &mut Vec<Vec<u32>>) {
        out.push(cur.clone());
        for k in 0..n {
            if !cur.contains(&k) {
                cur.push(k);
                go(cur, n, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], n, &mut out);
    out
}

fn reconcile(items: &mut Vec<Item>, keys: &[u32], made: Vec<(u32, M)>) {
    let mut new: Vec<u32> = made.iter().map(|m| m.0).collect();
    new.sort();
    let mut want: Vec<u32> = keys.iter().copied().filter(|k| !items.iter().any(|i| i.key == *k)).collect();
    want.sort();
    ck!(new == want, "items were created for keys {new:?}, but the new keys are {want:?}");
    let mut made = made;
    let mut old = std::mem::take(items);
    for k in keys {
        if let Some(i) = old.iter().position(|i| i.key == *k) {
            items.push(old.remove(i));
        } else {
            let i = made.iter().position(|m| m.0 == *k).unwrap();
            let (key, m) = made.remove(i);
            items.push(Item { key, m });
        }
    }
}

fn diffed(all: &[Vec<u32>], rounds: usize, kinds: fn(u32) -> usize, first: Option<Vec<u32>>, mountings: bool) {
    let mut fr = Frame::new(kinds);
    let f = fr.f.clone();
    let list = Rc::new(DiffedList::new(move |k: &u32| Factory::make(&f, *k)));
    let mut items = vec![];
    let render = |fr: &mut Frame| {
        let l = list.clone();
        fr.at = Some(0);
        fr.places[0].set(Some(Box::pin(async move {
            l.render().await;
            Ok(())
        })));
    };
    let late_mount = mountings && flip();
    if !late_mount {
        render(&mut fr);
    }
    fr.settle(&mut items, "at the start");
    for r in 0..rounds {
        let keys = match &first {
            Some(k) if r == 0 => k.clone(),
            _ => of(all).clone(),
        };
        note(|| format!("update({keys:?})"));
        list.update(keys.clone());
        reconcile(&mut items, &keys, Factory::take(&fr.f));
        if late_mount && r == 0 {
            render(&mut fr);
        }
        if deviate(2) == 1 {
            continue;
        }
        fr.settle(&mut items, "after the update");
        fr.owned(&items);
        for k in 0..6 {
            ck!(list.contains_key(&k) == keys.contains(&k), "contains_key({k}) is wrong after update({keys:?})");
        }
        let mut g = vec![];
        items.iter().for_each(|i| i.m.gates(&mut g));
        if mountings && !g.is_empty() {
            let c = choose(g.len().min(3) + 1);
            if c > 0 {
                let id = g[c - 1].0;
                prog::open(&fr.h.s, id, true);
                items.iter_mut().for_each(|i| i.m.open(id, true));
                fr.settle(&mut items, "after a gate opened");
            }
        }
    }
    fr.settle(&mut items, "at the end");
    fr.h.unmount();
    drop(fr.places);
    drop(list);
    ck!(tok::live() == 0, "{} item futures were never dropped", tok::live());
    outcome(&items.iter().map(|i| i.key).collect::<Vec<_>>());
    done();
}

// ---------------------------------------------------------------------------------------- C15

/// With `few`, the model changes in three ways only, so that longer histories of changes, updates and
/// switches to another model can be explored.
fn modeled(init: usize, ops: usize, spare: u32, two: bool, few: bool, kinds: fn(u32) -> usize) {
    let mut fr = Frame::new(kinds);
    let f = fr.f.clone();
    let list = Rc::new(ModeledList::new(move |k: &u32| Factory::make(&f, *k)));
    let l = list.clone();
    fr.at = Some(0);
    fr.places[0].set(Some(Box::pin(async move {
        l.render().await;
        Ok(())
    })));
    let mut items: Vec<Item> = vec![];
    let v0: Vec<u32> = (0..init as u32).collect();
    let mut models: Vec<(ListModel<u32>, Vec<u32>)> = vec![(ListModel::from(v0.clone()), v0)];
    let mut cur = 0;
    // keys the list renders now: what an update creates and drops is compared with this
    fr.settle(&mut items, "at the start");
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Insert(usize),
        Remove(usize),
        Push,
        Pop,
        Swap(usize, usize),
        Move(usize, usize),
        Reverse,
        Dup,
        Other,
        Update,
    }
    let do_update = |fr: &mut Frame, items: &mut Vec<Item>, m: &(ListModel<u32>, Vec<u32>), again: bool| {
        list.update(&m.0);
        let made = Factory::take(&fr.f);
        // a key may have been created, dropped and created again by replaying the log: the items
        // that stay are those whose key stayed and for which nothing was created
        let mut old = std::mem::take(items);
        let mut made: Vec<(u32, M)> = made;
        ck!(!again || made.is_empty(), "an update without changes created items");
        for k in &m.1 {
            if let Some(i) = made.iter().rposition(|x| x.0 == *k) {
                let (key, m) = made.remove(i);
                items.push(Item { key, m });
            } else if let Some(i) = old.iter().position(|i| i.key == *k) {
                items.push(old.remove(i));
            } else {
                harness::fail(format!("after the update no item was created for key {k}"));
            }
        }
        fr.settle(items, "after the update");
        fr.owned(items);
    };
    do_update(&mut fr, &mut items, &models[0], false);
    let kept: BTreeSet<u32> = models[0].1.iter().copied().collect();
    let mut touched: BTreeSet<u32> = BTreeSet::new();
    let _ = kept;
    let mut dirty = false;
    for i in 0..=ops {
        let n = models[cur].1.len();
        let mut acts = vec![Op::Update];
        if i < ops {
            let free = (0..init as u32 + spare).any(|k| !models[cur].1.contains(&k));
            if few {
                acts.push(if free { Op::Push } else { Op::Remove(0) });
                if n > 1 {
                    acts.push(Op::Move(n - 1, 0));
                    acts.push(Op::Remove(n / 2));
                }
            } else {
            if free {
                acts.push(Op::Push);
                acts.extend((0..n).map(Op::Insert));
            }
            acts.extend((0..n).map(Op::Remove));
            acts.push(Op::Pop);
            for a in 0..n {
                for b in 0..n {
                    acts.push(Op::Swap(a, b));
                    acts.push(Op::Move(a, b));
                }
            }
            acts.push(Op::Reverse);
            }
            if two {
                acts.push(Op::Dup);
                if models.len() > 1 {
                    acts.push(Op::Other);
                }
            }
            if !dirty {
                acts.remove(0);
            }
        }
        let op = *of(&acts);
        note(|| format!("{op:?} on {:?}", models[cur].1));
        let last_upd = i == ops;
        let fresh_key = {
            let v = &models[cur].1;
            (0..).find(|k| !v.contains(k)).unwrap()
        };
        let (m, v) = &mut models[cur];
        match op {
            Op::Insert(i) => {
                m.insert(i, fresh_key);
                v.insert(i, fresh_key);
                touched.insert(fresh_key);
            }
            Op::Remove(i) => {
                let a = m.remove(i);
                let b = v.remove(i);
                ck!(a == b, "remove({i}) returned {a}, not {b}");
            }
            Op::Push => {
                m.push(fresh_key);
                v.push(fresh_key);
                touched.insert(fresh_key);
            }
            Op::Pop => {
                let a = m.pop();
                let b = v.pop();
                ck!(a == b, "pop returned {a:?}, not {b:?}");
            }
            Op::Swap(a, b) => {
                m.swap(a, b);
                v.swap(a, b);
            }
            Op::Move(a, b) => {
                m.move_item(a, b);
                let x = v.remove(a);
                v.insert(b, x);
            }
            Op::Reverse => {
                // everything changes behind the model's back
                let x = m.modify_vec();
                x.reverse();
                v.reverse();
                if let (Some(p), true) = (x.pop(), v.len() > 2) {
                    v.pop();
                    let _ = p;
                    let k = fresh_key;
                    x.insert(0, k);
                    v.insert(0, k);
                } else {
                    *x = v.clone();
                }
            }
            Op::Dup => {
                let c = (m.clone(), v.clone());
                models.truncate(1);
                cur = 0;
                models.push(c);
                cur = if cur == 0 { 1 } else { 0 };
            }
            Op::Other => cur = 1 - cur,
            Op::Update => {}
        }
        let (m, v) = &models[cur];
        ck!(m[..] == v[..], "the model has {:?}, a Vec would have {v:?}", &m[..]);
        dirty = true;
        if matches!(op, Op::Update) || last_upd {
            do_update(&mut fr, &mut items, &models[cur], false);
            dirty = false;
            if last_upd {
                // again, without changes
                do_update(&mut fr, &mut items, &models[cur], true);
            }
        }
    }
    fr.h.unmount();
    drop(fr.places);
    drop(list);
    ck!(tok::live() == 0, "{} item futures were never dropped", tok::live());
    outcome(&models[cur].1);
    done();
}

/// A list of `n` items; bursts of changes of one kind, shorter and longer than the log of the model.
fn modeled_long(n: usize, rounds: usize) {
    let mut fr = Frame::new(|_| 0);
    let f = fr.f.clone();
    let list = Rc::new(ModeledList::new(move |k: &u32| Factory::make(&f, *k)));
    let l = list.clone();
    fr.at = Some(0);
    fr.places[0].set(Some(Box::pin(async move {
        l.render().await;
        Ok(())
    })));
    let mut items: Vec<Item> = vec![];
    let mut v: Vec<u32> = (0..n as u32).collect();
    let mut m = ListModel::from(v.clone());
    let mut fresh = 10_000;
    let mut update = |fr: &mut Frame, items: &mut Vec<Item>, m: &ListModel<u32>, v: &[u32]| {
        list.update(m);
        let mut made = Factory::take(&fr.f);
        let mut old = std::mem::take(items);
        for k in v {
            if let Some(i) = made.iter().rposition(|x| x.0 == *k) {
                let (key, m) = made.remove(i);
                items.push(Item { key, m });
            } else if let Some(i) = old.iter().position(|i| i.key == *k) {
                items.push(old.remove(i));
            } else {
                harness::fail(format!("after the update no item was created for key {k}"));
            }
        }
        fr.settle(items, "after the update");
        fr.owned(items);
    };
    update(&mut fr, &mut items, &m, &v);
    for _ in 0..rounds {
        let log = v.len() / 2;
        let count = *of(&[1, 2, log.saturating_sub(1).max(1), log.max(1), log + 1, log * 2 + 1]);
        let kind = choose(6);
        note(|| format!("{count} times: {}", ["push", "remove in the middle", "move the last to the front", "swap the ends", "insert in the middle", "remove the first, push"][kind]));
        for _ in 0..count {
            let len = v.len();
            fresh += 1;
            match kind {
                0 => {
                    m.push(fresh);
                    v.push(fresh);
                }
                1 if len > 0 => {
                    let a = m.remove(len / 2);
                    ck!(a == v.remove(len / 2), "remove returned {a}");
                }
                2 if len > 1 => {
                    m.move_item(len - 1, 0);
                    let x = v.pop().unwrap();
                    v.insert(0, x);
                }
                3 if len > 1 => {
                    m.swap(0, len - 1);
                    v.swap(0, len - 1);
                }
                4 => {
                    m.insert(len / 2, fresh);
                    v.insert(len / 2, fresh);
                }
                5 => {
                    if len > 0 {
                        m.remove(0);
                        v.remove(0);
                    }
                    m.push(fresh);
                    v.push(fresh);
                }
                _ => {}
            }
        }
        ck!(m[..] == v[..], "the model has {:?}, a Vec would have {v:?}", &m[..]);
        match choose(3) {
            0 => update(&mut fr, &mut items, &m, &v),
            1 => {
                note(|| "a clone goes on, the original is shown".into());
                let other = m.clone();
                update(&mut fr, &mut items, &m, &v);
                m = other;
            }
            _ => note(|| "(no update)".into()),
        }
    }
    update(&mut fr, &mut items, &m, &v);
    fr.h.unmount();
    drop(fr.places);
    drop(list);
    ck!(tok::live() == 0, "{} item futures were never dropped", tok::live());
    outcome(&v);
    done();
}

// ---------------------------------------------------------------------------------------- C16

/// Every index, or, of many, those about the ends, the middle and the bounds of a byte.
fn ends(n: usize) -> Vec<usize> {
    (0..n).filter(|i| n <= 64 || *i < 2 || i + 2 >= n || *i == n / 2 || (254..258).contains(i)).collect()
}

fn dropdown(all: &[Vec<u32>], ops: usize, nkeys: u32) {
    let h = Host::new(EXACT);
    let dd: Rc<Dropdown<u32>> = Rc::new(Dropdown::new());
    let mut h = h;
    let d2 = dd.clone();
    if flip() {
        h.start(async move { d2.render().await });
    } else {
        drop(d2);
    }
    // what is listed, and what is selected; `Err(k)`: the selected option `k` was removed since
    // (what `value` says then is not specified beyond being that option or nothing)
    let mut opts: Vec<u32> = vec![];
    let mut sel: Result<Option<u32>, u32> = Ok(None);
    let mut texts = vec![0u32; nkeys as usize];
    let mut nodes: Vec<(u32, u64)> = vec![];
    // the last option has no text
    let text = move |k: u32, v: u32| if k == nkeys - 1 { String::new() } else { format!("t{k}.{v}") };
    let sel_el: web_sys::HtmlSelectElement = (***dd).clone();
    for r in 0..ops {
        let pick = ends(opts.len());
        let c = choose(3 + pick.len());
        match c {
            0 => {
                let keys = of(all).clone();
                let v = deviate(3) as u32;
                // the options are worked out with the help of the dropdown itself
                let asks = v == 2;
                let v = v & 1;
                note(|| format!("update_options({keys:?}{})", if asks { ", worked out while looking at the dropdown" } else { "" }));
                let t: Vec<(u32, String)> = keys.iter().map(|k| (*k, text(*k, r as u32 * v))).collect();
                for k in &keys {
                    texts[*k as usize] = r as u32 * v;
                }
                dd.update_options(t.iter().map(|(k, t)| {
                    if asks {
                        let _ = (dd.value(), dd.contains_key(k));
                    }
                    (*k, t.as_str())
                }));
                sel = match sel {
                    Ok(Some(k)) if !keys.contains(&k) => Err(k),
                    Err(k) if keys.contains(&k) => {
                        // it is back: it may be selected again
                        match dd.value() {
                            None => Ok(None),
                            Some(v) => {
                                ck!(v == k, "after update_options({keys:?}) option {v} is selected; it was {k} that had been");
                                Ok(Some(k))
                            }
                        }
                    }
                    s => s,
                };
                opts = keys;
            }
            1 => {
                note(|| "set_value(None)".into());
                dd.set_value(None);
                sel = Ok(None);
            }
            2 => {
                let k = *of(&ends(nkeys as usize)) as u32;
                note(|| format!("set_value({k})"));
                dd.set_value(Some(k));
                sel = Ok(opts.contains(&k).then_some(k));
            }
            i => {
                let i = pick[i - 3];
                note(|| format!("the user picks option {i}"));
                sel_el.set_selected_index(i as i32);
                sel = Ok(Some(opts[i]));
            }
        }
        // the options shown
        let kids: Vec<Node> = web_sys::fake::children(&sel_el);
        let shown: Vec<String> = kids.iter().map(|n| n.text_content().unwrap_or_default()).collect();
        let want: Vec<String> = opts.iter().map(|k| text(*k, texts[*k as usize])).collect();
        ck!(shown == want, "the dropdown shows {shown:?}, expected {want:?}");
        // options that stay keep their element
        let now: Vec<(u32, u64)> = opts.iter().zip(&kids).map(|(k, n)| (*k, web_sys::fake::id(n))).collect();
        for (k, id) in &now {
            if let Some((_, old)) = nodes.iter().find(|n| n.0 == *k) {
                ck!(old == id, "option {k} stayed but its element was replaced");
            }
        }
        nodes = now;
        for k in 0..nkeys {
            ck!(dd.contains_key(&k) == opts.contains(&k), "contains_key({k}) is wrong");
        }
        let v = dd.value();
        let si = sel_el.selected_index();
        let shown_sel = (si >= 0).then(|| opts[si as usize]);
        match sel {
            Ok(s) => {
                ck!(v == s, "value() is {v:?}, but {s:?} is selected");
                ck!(shown_sel == s, "the dropdown shows {shown_sel:?} as selected, but {s:?} is");
            }
            Err(k) => {
                ck!(v.is_none() || v == Some(k), "value() is {v:?} after the selected option {k} was removed");
                ck!(shown_sel.is_none(), "the dropdown shows {shown_sel:?} as selected after the selected option {k} was removed");
            }
        }
        step(&(shown, v));
    }
    h.unmount();
    outcome(&opts);
    drop(dd);
    done();
}

// ---------------------------------------------------------------------------------------- C17

/// A viewport of `view` units onto items of `size` units: a layout engine for the list.
struct Geo {
    size: f64,
    view: f64,
    scroll: f64,
}
fn virt(ops: usize, counts: &'static [usize], jumps: &'static [f64], origin: f64, size: f64, across: bool, views: &'static [f64]) {
    tok::reset(true);
    let geo = Rc::new(RefCell::new(Geo { size, view: 40.0, scroll: 0.0 }));
    let root: &'static HtmlElement = Box::leak(Box::new(Div::new().element.clone().into()));
    let spf: HtmlElement = Div::new().element.clone().into();
    let spb: HtmlElement = Div::new().element.clone().into();
    let (f2, b2) = (spf.clone(), spb.clone());
    let g2 = geo.clone();
    let r2: Node = root.clone().into();
    web_sys::fake::set_layout(Some(Rc::new(move |e: &web_sys::Element| {
        let mut g = g2.borrow_mut();
        if r2.parent_node().is_none() {
            // not rendered yet: nothing has a size
            return (0.0, 0.0, 0.0, 0.0);
        }
        // with horizontal text, as by default, the block axis is the vertical one
        let props = if across { ["inline-size", "width"] } else { ["block-size", "height"] };
        let px = |n: &Node| props.iter().find_map(|p| web_sys::fake::style(n, p)).and_then(|s| s.trim_end_matches("px").parse::<f64>().ok()).unwrap_or(0.0);
        // (top, bottom, left, right)
        let rect = |a: f64, b: f64| if across { (7.0, 107.0, origin + a, origin + b) } else { (origin + a, origin + b, 7.0, 107.0) };
        let id = web_sys::fake::id(e);
        if id == web_sys::fake::id(&r2) {
            return rect(0.0, g.view);
        }
        // stack the root's children
        let mut y = 0.0;
        let mut found = None;
        for k in web_sys::fake::children(&r2) {
            if k.node_type() == 8 {
                continue;
            }
            let kid = web_sys::fake::id(&k);
            let h = if kid == web_sys::fake::id(&f2) || kid == web_sys::fake::id(&b2) { px(&k) } else { g.size };
            if kid == id {
                found = Some((y, y + h));
            }
            y += h;
        }
        // a browser never leaves the scroll position beyond the end of the content
        g.scroll = g.scroll.min(y - g.view).max(0.0);
        if let Some((a, b)) = found {
            return rect(a - g.scroll, b - g.scroll);
        }
        (0.0, 0.0, 0.0, 0.0)
    })));
    let made: Rc<RefCell<Vec<(usize, Node)>>> = Default::default();
    let mm = made.clone();
    let mut list = VirtualizedList::new(root, spf.clone(), spb.clone(), move |i: usize| {
        let n: Node = dom::document().create_element(&format!("i{i}")).unwrap().into();
        mm.borrow_mut().push((i, n.clone()));
        let t = Tok::new(i as u32);
        async move {
            let _t = t;
            async_ui_web_core::ContainerNodeFuture::new(std::future::pending::<()>(), n).await
        }
    });
    if across {
        list.set_direction(Direction::Horizontal);
    } else if origin > 100.0 {
        list.set_direction(Direction::Vertical);
    }
    let list = Rc::new(list);
    let mut h = Host::new(EXACT);
    let mut total = *of(counts);
    let before = flip();
    if before {
        list.set_num_items(total);
    }
    let l = list.clone();
    let rn: Node = root.clone().into();
    h.start(async move { async_ui_web_core::ContainerNodeFuture::new(l_render(l), rn).await });
    if !before {
        list.set_num_items(total);
    }
    let change = |total: &mut usize| {
        if views.len() > 0 && flip() {
            let v = *of(views);
            note(|| format!("the viewport becomes {v} large"));
            geo.borrow_mut().view = v;
        } else if flip() {
            *total = *of(counts);
            note(|| format!("set_num_items({total})"));
            list.set_num_items(*total);
        } else {
            let j = *of(jumps);
            let mut g = geo.borrow_mut();
            g.scroll = (g.scroll + j).max(0.0);
            note(|| format!("scroll to {}", g.scroll));
        }
    };
    let mut stale = false;
    let mut reported = 0.0;
    for step_no in 0..=ops {
        // (with items much smaller than the list assumes, an outdated layout misleads it further: left out)
        if step_no > 0 && size >= 10.0 && deviate(2) == 1 {
            note(|| "(the browser has not laid out the page yet)".into());
            stale = true;
            change(&mut total);
            continue;
        }
        // the browser lays out the page and reports what changed, until nothing changes any more
        let mut rounds = 0;
        loop {
            h.drive();
            let _ = spb.get_bounding_client_rect(); // (this may move the scroll position)
            let at = geo.borrow().scroll;
            let scrolled = at != reported;
            reported = at;
            if scrolled {
                let ev = web_sys::fake::event("Event", "scroll", false, false);
                web_sys::fake::dispatch(root, &ev);
                h.drive();
            }
            if web_sys::fake::frame() == 0 && !scrolled {
                break;
            }
            rounds += 1;
            ck!(rounds < 40, "the list goes on changing although nobody scrolls");
        }
        let kids = web_sys::fake::children(root);
        let kids: Vec<&Node> = kids.iter().filter(|k| k.node_type() != 8).collect();
        ck!(kids.len() >= 2 && web_sys::fake::id(kids[0]) == web_sys::fake::id(&spf) && web_sys::fake::id(kids[kids.len() - 1]) == web_sys::fake::id(&spb), "the spacers are not at the ends of the list");
        let made = made.borrow();
        let idx: Vec<usize> = kids[1..kids.len() - 1]
            .iter()
            .map(|k| {
                let id = web_sys::fake::id(k);
                made.iter().find(|m| web_sys::fake::id(&m.1) == id).map(|m| m.0).unwrap_or(usize::MAX)
            })
            .collect();
        note(|| format!("{total} items, scrolled to {}: shown {idx:?}", geo.borrow().scroll));
        ck!(idx.windows(2).all(|w| w[1] == w[0] + 1), "the items shown are {idx:?}: not consecutive");
        ck!(idx.iter().all(|i| *i < total), "the items shown are {idx:?}, but the list has {total} items");
        // Right after a change that was not laid out the list estimates the size of an item from an
        // outdated layout and may render more than it needs to, but not in proportion to its length.
        let most = views.iter().copied().fold(40.0, f64::max);
        ck!(idx.len() <= if stale { (10.0 * most) as usize } else { (12.0 * most / size).max(40.0) as usize }, "{} of {total} items are rendered; about {} are visible", idx.len(), geo.borrow().view / size);
        ck!(total == 0 || !idx.is_empty(), "no item is shown, but the list has {total} items");
        // items that must be visible: those inside the viewport, as the list itself lays them out
        let (rf, rb) = (spf.get_bounding_client_rect(), spb.get_bounding_client_rect());
        let view = geo.borrow().view;
        let (top, bottom) = if across { (rf.right() - origin, rb.left() - origin) } else { (rf.bottom() - origin, rb.top() - origin) };
        ck!(top <= 0.0 || idx.first().map_or(true, |i| *i == 0), "the viewport shows the space in front of item {} instead of the items there", idx[0]);
        ck!(bottom >= view || idx.last().map_or(true, |i| *i == total - 1), "the viewport shows the space after item {} instead of the items there", idx[idx.len() - 1]);
        // the spacers stand for what is left out, so that one can scroll to it
        let extent = |r: &web_sys::DomRect| if across { r.right() - r.left() } else { r.bottom() - r.top() };
        let (ef, eb) = (extent(&rf), extent(&rb));
        ck!(idx.first().map_or(true, |i| *i == 0) || ef > 0.0, "the items before item {} take no space: one cannot scroll to them", idx[0]);
        ck!(idx.last().map_or(true, |i| *i == total - 1) || eb > 0.0, "the items after item {} take no space: one cannot scroll to them", idx[idx.len() - 1]);
        if total > 0 && !stale && size == 10.0 {
            let all = ef + idx.len() as f64 * size + eb;
            ck!((all - total as f64 * size).abs() < 1.0, "{total} items of size {size} take {all} in all");
        }
        // With items of the size the list assumes at first, the position of an item is known; with
        // others, the space in front of the rendered items is an estimate.
        if total > 0 && !stale && size == 10.0 {
            let g = geo.borrow();
            let lo = ((g.scroll / size).floor() as usize).min(total - 1);
            let hi = (((g.scroll + g.view) / size).ceil() as usize).min(total);
            for i in lo..hi {
                ck!(idx.contains(&i), "item {i} is inside the viewport ({}..{} of {total}) but only {idx:?} are shown", lo, hi);
            }
        }
        ck!(tok::live() == idx.len(), "{} item futures are alive, {} items are shown", tok::live(), idx.len());
        step(&(idx, total));
        drop(made);
        if flip() {
            break;
        }
        change(&mut total);
    }
    h.unmount();
    ck!(web_sys::fake::live_observers() == 0, "an observer is still connected after unmounting");
    let _ = change;
    drop(list);
    ck!(tok::live() == 0, "{} item futures were never dropped", tok::live());
    outcome(&total);
    done();
}
async fn l_render<F: Future + 'static, U: FnMut(usize) -> F + 'static>(l: Rc<VirtualizedList<'static, F, U>>) {
    l.render().await
}

/// What an item does to the list it is in when it is dropped.
#[derive(Clone, Copy, Debug)]
enum Word {
    Nothing,
    Look,
    Remove(u32),
    Add(u32),
    Move(u32, u32),
}
type Wordy = DynamicList<'static, u32, Pin<Box<dyn Future<Output = ()>>>>;
struct LastWord(u32, Word, Weak<Wordy>, Rc<RefCell<Vec<(u32, bool)>>>);
impl Drop for LastWord {
    fn drop(&mut self) {
        let Some(l) = self.2.upgrade() else { return };
        let r = match self.1 {
            Word::Nothing => false,
            Word::Look => l.contains_key(&self.0),
            Word::Remove(k) => l.remove(&k),
            Word::Add(k) => l.insert(k, worded(k, Word::Nothing, &l, &self.3), Some(&0)),
            Word::Move(a, b) => {
                let both = l.contains_key(&a) && l.contains_key(&b);
                if both {
                    l.move_before(&a, Some(&b));
                }
                both
            }
        };
        self.3.borrow_mut().push((self.0, r));
    }
}
fn worded(k: u32, w: Word, l: &Rc<Wordy>, log: &Rc<RefCell<Vec<(u32, bool)>>>) -> Pin<Box<dyn Future<Output = ()>>> {
    let last = LastWord(k, w, Rc::downgrade(l), log.clone());
    Box::pin(async move {
        let _last = last;
        Div::new().render(k.to_string().render()).await;
    })
}
fn worded_list(ops: usize) {
    let host = dom::div();
    let (_, wk) = dom::CountWaker::new();
    let log: Rc<RefCell<Vec<(u32, bool)>>> = Default::default();
    let list: Rc<Wordy> = Rc::new(DynamicList::new());
    let word = || *of(&[Word::Look, Word::Remove(0), Word::Remove(2), Word::Add(7), Word::Move(0, 2), Word::Nothing]);
    let (mut order, mut words) = (vec![], std::collections::HashMap::new());
    for k in 0..3 {
        let w = if k == 0 { Word::Nothing } else { word() };
        note(|| format!("item {k}: when dropped, {w:?}"));
        list.insert(k, worded(k, w, &list, &log), None);
        order.push(k);
        words.insert(k, w);
    }
    let l2 = list.clone();
    let mut shown2: Option<Pin<Box<dyn Future<Output = ()>>>> = Some(Box::pin(async move { l2.render().await }));
    let poll = |f: &mut Option<Pin<Box<dyn Future<Output = ()>>>>| {
        dom::within(&host, &wk, |cx| {
            if let Some(f) = f {
                ck!(f.as_mut().poll(cx).is_pending(), "the list ended");
            }
        })
    };
    poll(&mut shown2);
    for _ in 0..ops {
        // the keys that are dropped, in the order in which they were taken out
        let mut out: Vec<(u32, Word)> = vec![];
        let k = choose(3) as u32;
        match choose(3) {
            0 => {
                note(|| format!("remove {k}"));
                let had = order.contains(&k);
                ck!(list.remove(&k) == had, "remove({k}) returned {}", !had);
                if had {
                    order.retain(|x| *x != k);
                    out.push((k, words[&k]));
                }
            }
            1 => {
                note(|| format!("insert {k} before 2"));
                let had = order.contains(&k);
                let at = order.iter().position(|x| *x == 2 );
                ck!(list.insert(k, worded(k, Word::Nothing, &list, &log), Some(&2)) == had, "insert({k}) returned {}", !had);
                let at = at.unwrap_or(order.len());
                order.insert(at, k);
                let old = order.iter().enumerate().position(|(i, x)| *x == k && i != at);
                if let Some(i) = old {
                    order.remove(i);
                    out.push((k, words[&k]));
                }
                words.insert(k, Word::Nothing);
            }
            _ => {
                note(|| format!("retain all but {k}"));
                list.retain(|x| *x != k);
                if order.contains(&k) {
                    order.retain(|x| *x != k);
                    out.push((k, words[&k]));
                }
            }
        }
        // the last words may be said at once or when the list runs next
        poll(&mut shown2);
        while let Some((k, w)) = out.pop() {
            match w {
                Word::Remove(j) if order.contains(&j) => {
                    order.retain(|x| *x != j);
                    out.push((j, words[&j]));
                }
                Word::Add(j) => {
                    order.retain(|x| *x != j);
                    let at = order.iter().position(|x| *x == 0).unwrap_or(order.len());
                    order.insert(at, j);
                    words.insert(j, Word::Nothing);
                }
                Word::Move(a, b) if order.contains(&a) && order.contains(&b) => {
                    order.retain(|x| *x != a);
                    let at = order.iter().position(|x| *x == b).unwrap();
                    order.insert(at, a);
                }
                _ => {}
            }
            note(|| format!("item {k} is dropped"));
        }
        poll(&mut shown2);
        let got: Vec<String> = web_sys::fake::children(&host).iter().filter(|n| n.node_type() == 1).map(|n| n.text_content().unwrap_or_default()).collect();
        let want: Vec<String> = order.iter().map(|k: &u32| k.to_string()).collect();
        ck!(got == want, "the list shows {got:?}, but must show {want:?} (what dropped items did: {:?})", log.borrow());
        step(&want);
    }
    dom::within(&host, &wk, |_| shown2 = None);
    ck!(Rc::strong_count(&list) == 1, "the list is still rendered");
    drop(list);
    done();
}

fn main() {
    let p = harness::property();
    let th = harness::thorough();
    let t = move |a: usize, b: usize| if th { b } else { a };
    let mut cfgs: Vec<Cfg> = vec![];
    let _ = show;
    let mut assumptions = vec!["single-threaded use, as on wasm32".to_string(), "the in-memory DOM under /verif/fakes stands in for the browser".to_string()];
    const KINDS: [(&str, fn(u32) -> usize); 4] = [("one element each", |_| 0), ("two elements, one of them late", |_| 1), ("a mixture", |k| (k as usize * 2 + 1) % 6), ("lists and slots in each", |k| 6 + k as usize % 3)];
    match p.as_str() {
        "C13" => {
            for (name, kinds) in KINDS {
                for rendered in [true, false] {
                    for init in [0, 3] {
                        let ops = 3;
                        cfgs.push(Cfg::new(format!("all operations, {name}, {init} items at first, rendered at first: {rendered}, {ops} operations"), move || dyn_list(init, rendered, kinds, ops, 3, true)).budget(t(0, 1) as u32));
                    }
                }
                let ops = t(3, 4);
                cfgs.push(Cfg::new(format!("insert, remove, move, swap, {name}, 3 items at first, {ops} operations"), move || dyn_list(3, true, kinds, ops, 4, false)).budget(t(1, 0) as u32));
            }
            for n in [9, 20, 40, 70, 130, 300] {
                let ops = if n > 50 { 1 } else { t(1, 2) };
                let ops = if n < 10 { t(2, 3) } else if n < 25 { 2 } else { ops };
                for (name, kinds) in [KINDS[0], KINDS[2]] {
                    cfgs.push(Cfg::new(format!("{n} items, {name}, {ops} operations at a few places"), move || dyn_long(n, ops, kinds)));
                }
            }
            let ops = t(2, 3);
            cfgs.push(Cfg::new(format!("items that use the list when they are dropped, {ops} operations"), move || worded_list(ops)));
            assumptions.push("documented panics (moving or swapping a key that is not there) are not provoked".into());
        }
        "C14" => {
            let p3 = perms(3);
            let p4 = perms(4);
            let a = p4.clone();
            for (name, kinds) in KINDS {
                let a = a.clone();
                cfgs.push(Cfg::new(format!("two updates over 4 keys, {name}, gates and late rendering"), move || diffed(&a, 2, kinds, None, true)).budget(1));
            }
            let r = t(3, 4);
            let p3b = p3.clone();
            cfgs.push(Cfg::new(format!("{r} updates over 3 keys"), move || diffed(&p3b, r, |_| 0, None, false)).budget(1));
            let a = p4.clone();
            cfgs.push(Cfg::new("three updates over 4 keys", move || diffed(&a, 3, |_| 0, None, false)));
            let n = t(5, 6) as u32;
            let pn = perms(n);
            cfgs.push(Cfg::new(format!("from 0..{n} to every sequence over {n} keys and {} more", 1), move || diffed(&pn, 2, |_| 0, Some((0..n).collect()), false)));
            if th {
                let p5 = perms(5);
                cfgs.push(Cfg::new("two updates over 5 keys", move || diffed(&p5, 2, |_| 0, None, false)));
            }
            for n in [9, 16, 33, 70, 140, 300] {
                let all = long_seqs(n);
                let rounds = if n < 40 || th && n < 80 { 3 } else { 2 };
                cfgs.push(Cfg::new(format!("from 0..{n}, {} updates to any of {} sequences", rounds - 1, all.len()), move || diffed(&all, rounds, |k| k as usize % 2, Some((0..n).collect()), false)));
            }
            assumptions.push("keys in one update are distinct, as a keyed list requires".into());
        }
        "C15" => {
            for (name, kinds) in [KINDS[0], KINDS[2], KINDS[3]] {
                let ops = t(3, 4);
                cfgs.push(Cfg::new(format!("3 items at first, {ops} operations, {name}"), move || modeled(3, ops, 2, true, false, kinds)));
                cfgs.push(Cfg::new(format!("0 items at first, {ops} operations, {name}"), move || modeled(0, ops + 1, 3, true, false, kinds)));
            }
            cfgs.push(Cfg::new("8 items at first (the log holds 4 changes), 2 operations", move || modeled(8, t(2, 3), 2, false, false, |_| 0)));
            cfgs.push(Cfg::new("5 items at first (the log holds 2 changes), 3 operations", move || modeled(5, 3, 2, false, false, |_| 0)));
            let ops = t(6, 8);
            cfgs.push(Cfg::new(format!("4 items at first, {ops} operations of a few kinds, switching between models"), move || modeled(4, ops, 2, true, true, |_| 0)));
            for n in [9, 20, 40, 130, 300] {
                let rounds = if n < 10 { t(3, 4) } else if n < 100 { t(2, 3) } else { 2 };
                cfgs.push(Cfg::new(format!("{n} items, {rounds} bursts of up to {} changes", n + 1), move || modeled_long(n, rounds)));
            }
            assumptions.push("keys are distinct, as documented".into());
        }
        "C16" => {
            let p3 = perms(3);
            let r = t(4, 5);
            cfgs.push(Cfg::new(format!("{r} actions over 3 options"), move || dropdown(&p3, r, 3)).budget(1));
            let p2 = perms(2);
            cfgs.push(Cfg::new(format!("{} actions over 2 options", r + 2), move || dropdown(&p2, r + 2, 2)).budget(1));
            let p4 = perms(4);
            cfgs.push(Cfg::new("3 actions over 4 options".to_string(), move || dropdown(&p4, 3, 4)).budget(1));
            let n: u32 = 12;
            let long: Vec<Vec<u32>> = vec![(0..n).collect(), (0..n).rev().collect(), (0..n).filter(|i| i % 2 == 1).collect(), (5..n).chain(0..5).collect(), (0..n).map(|i| i * 5 % n).collect()];
            cfgs.push(Cfg::new(format!("{r} actions over {n} options"), move || dropdown(&long, r, n)).budget(0));
            for n in [40u32, 300] {
                let r = t(3, 4);
                let long: Vec<Vec<u32>> = vec![(0..n).collect(), (0..n).rev().collect(), (0..n).filter(|i| i % 2 == 1).collect(), (5..n).chain(0..5).collect()];
                cfgs.push(Cfg::new(format!("{r} actions over {n} options"), move || dropdown(&long, r, n)).budget(0));
            }
        }
        "C17" => {
            let ops = t(3, 5);
            for (k, (name, origin, size)) in [
                ("at the top of the page", 0.0, 10.0),
                ("further down the page", 130.0, 10.0),
                ("above the window, larger items", -20.0, 16.0),
                ("items larger than the viewport", 3.0, 90.0),
                ("small items", 5.0, 4.0),
                ("tiny items", 0.0, 1.0),
            ].into_iter().enumerate() {
                let ops = if k == 1 || k == 2 || k == 3 { t(2, 5) } else { ops };
                cfgs.push(Cfg::new(format!("{name}, {ops} scrolls and resizes"), move || virt(ops, &[0, 1, 3, 30, 2000], &[15.0, -15.0, 200.0, 3000.0, -3000.0], origin, size, false, &[])).budget(1));
            }
            let ops = t(2, 4);
            for (name, origin, size) in [("at the left of the page", 0.0, 10.0), ("further to the right, larger items", 130.0, 16.0), ("small items", -20.0, 4.0)] {
                cfgs.push(Cfg::new(format!("horizontal, {name}, {ops} scrolls and resizes"), move || virt(ops, &[0, 1, 3, 30, 2000], &[15.0, -15.0, 200.0, 3000.0, -3000.0], origin, size, true, &[])).budget(1));
            }
            for (name, size) in [("", 10.0), ("larger items, ", 25.0), ("small items, ", 3.0)] {
                let ops = if size > 20.0 { t(2, 5) } else { t(3, 5) };
                cfgs.push(Cfg::new(format!("a viewport that is resized, {name}{ops} scrolls and resizes"), move || virt(ops, &[3, 30, 2000], &[15.0, 200.0, -3000.0], 0.0, size, false, &[10.0, 50.0, 120.0])).budget(1));
            }
            assumptions.push("items of one fixed size stacked one after another, as the list documents; horizontal text".into());
        }
        _ => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    run(Check {
        property: p,
        tier: if th { "thorough".into() } else { "quick".into() },
        cfgs,
        rule: "one execution = one sequence of operations and events run on the real list; every sequence within the bounds named in the configuration is run".into(),
        assumptions,
    })
}
