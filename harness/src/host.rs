//! A root component on a host element, compared with what its model says is in the document.
use crate::{
    ck, dom, note,
    prog::{self, Exp, S},
    step, tok,
};
use std::{
    collections::BTreeSet,
    future::{pending, Future},
    pin::Pin,
    sync::Arc,
    task::{Context, Waker},
};
use web_sys::Node;

use async_ui_web_core::ContainerNodeFuture;

#[derive(Clone, Copy, PartialEq)]
pub struct Arm {
    pub order: bool,
    pub exact: bool,
    pub slot: bool,
}

pub fn show(e: &[Exp]) -> String {
    e.iter()
        .map(|e| {
            let id = if e.id == usize::MAX { "?".to_string() } else { e.id.to_string() };
            if e.kids.is_empty() {
                id
            } else {
                format!("{id}({})", show(&e.kids))
            }
        })
        .collect::<Vec<_>>()
        .join(" ")
}
pub fn ids(e: &[Exp], out: &mut BTreeSet<usize>) {
    for e in e {
        out.insert(e.id);
        ids(&e.kids, out);
    }
}
/// Order: every expected node is there, under the right parent, in the right relative order.
pub fn order(act: &[Exp], exp: &[Exp]) -> bool {
    let want: Vec<usize> = exp.iter().map(|e| e.id).collect();
    let got: Vec<&Exp> = act.iter().filter(|a| want.contains(&a.id)).collect();
    got.len() == want.len() && got.iter().zip(exp).all(|(a, e)| a.id == e.id && order(&a.kids, &e.kids))
}
pub fn sorted(e: &[Exp]) -> Vec<Exp> {
    let mut v: Vec<Exp> = e.iter().map(|e| Exp { id: e.id, kids: sorted(&e.kids) }).collect();
    v.sort_by_key(|e| e.id);
    v
}

/// A root component on a host element that already has a child of somebody else's.
pub struct Host {
    pub arm: Arm,
    pub node: Node,
    pub foreign: Node,
    pub s: S,
    pub wk: Arc<dom::CountWaker>,
    pub waker: Waker,
    pub root: Option<Pin<Box<dyn Future<Output = ()>>>>,
    pub before: BTreeSet<usize>,
}
impl Host {
    pub fn new(arm: Arm) -> Host {
        let node = dom::div();
        let foreign = dom::div();
        node.append_child(&foreign).unwrap();
        web_sys::fake::record(true);
        let (wk, waker) = dom::CountWaker::new();
        wk.take();
        Host { arm, node, foreign, s: Default::default(), wk, waker, root: None, before: BTreeSet::new() }
    }
    pub fn start(&mut self, f: impl Future<Output = ()> + 'static) {
        self.root = Some(Box::pin(ContainerNodeFuture::new_root(f, self.node.clone())));
        self.wk.0.store(1, std::sync::atomic::Ordering::Relaxed);
        self.drive();
    }
    pub fn drive(&mut self) {
        let mut n = 0;
        while self.wk.take() > 0 {
            n += 1;
            ck!(n < 64, "the components keep waking themselves without end");
            if let Some(r) = &mut self.root {
                if r.as_mut().poll(&mut Context::from_waker(&self.waker)).is_ready() {
                    self.root = None;
                }
            }
        }
    }
    pub fn check(&mut self, exp: &[Exp], when: &str) {
        let mut act = prog::read(&self.node, &self.s);
        ck!(!act.is_empty() && web_sys::fake::id(&self.node.first_child().unwrap()) == web_sys::fake::id(&self.foreign), "{when}: a node that is not the component's was moved or removed");
        act.remove(0);
        note(|| format!("{when}: expected [{}], in the document [{}]", show(exp), show(&act)));
        let mut now = BTreeSet::new();
        ids(exp, &mut now);
        if self.arm.order {
            ck!(order(&act, exp), "{when}: the document has [{}] but the component tree is [{}]", show(&act), show(exp));
        }
        if self.arm.exact {
            ck!(sorted(&act) == sorted(exp), "{when}: the document has [{}] but what is rendered is [{}]", show(&act), show(exp));
        }
        let log = web_sys::fake::take_log();
        if self.arm.exact {
            let s = self.s.borrow();
            for m in log {
                let i = web_sys::fake::id(&m.node);
                let id = s.nodes.iter().position(|x| x.as_ref().is_some_and(|x| web_sys::fake::id(x) == i));
                if let Some(id) = id {
                    ck!(!(now.contains(&id) && self.before.contains(&id)), "{when}: node {id}, which stays rendered, was taken out of the document or re-inserted");
                }
            }
        }
        if self.arm.slot {
            ck!(act == exp, "{when}: the document has [{}] but must have [{}]", show(&act), show(exp));
        }
        self.before = now;
        step(&act);
    }
    pub fn unmount(&mut self) {
        self.root = None;
        let kids = web_sys::fake::children(&self.node);
        if self.arm.exact || self.arm.slot {
            ck!(kids.len() == 1, "after unmounting, {} of the component's nodes are still in the document", kids.len() - 1);
        }
    }
}
pub fn done() {
    canary();
    web_sys::fake::reset();
    tok::flush();
}

/// Whatever happened before, a small component can still be shown and removed (the library keeps
/// state outside of the components while dropping them; it must not stay behind).
fn canary() {
    let host = dom::div();
    let (_, w) = dom::CountWaker::new();
    let mut part = Some(Box::pin(ContainerNodeFuture::new(pending::<()>(), dom::div())));
    dom::within(&host, &w, |cx| {
        ck!(part.as_mut().unwrap().as_mut().poll(cx).is_pending(), "an element finished by itself");
        ck!(web_sys::fake::children(&host).len() == 1, "after this history, an element that is rendered does not appear");
        part = None;
        ck!(web_sys::fake::children(&host).is_empty(), "after this history, an element that is dropped stays in the document");
    });
}

