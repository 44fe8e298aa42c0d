//! Threads under the control of the explorer: coroutines that are switched only at the scheduling
//! points of `vstd`. Which one goes on is a choice; taking a thread off that could go on is a
//! deviation, of which an execution has a bounded number (a preemption bound).
use crate::{choose, deviate};
use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};

type Blocked = Option<*const dyn Fn() -> bool>;
thread_local! {
    static CUR: Cell<*const Yielder<(), Blocked>> = const { Cell::new(std::ptr::null()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}
fn hook(until: Option<&dyn Fn() -> bool>) {
    let y = CUR.with(|c| c.get());
    if y.is_null() {
        return;
    }
    let b = until.map(|u| {
        let p: *const (dyn Fn() -> bool + '_) = u;
        // the closure lives on the stack of the coroutine, which does not go on until it holds
        unsafe { std::mem::transmute::<*const (dyn Fn() -> bool + '_), *const (dyn Fn() -> bool + 'static)>(p) }
    });
    unsafe { (*y).suspend(b) };
    CUR.with(|c| c.set(y));
}
pub fn point() {
    hook(None)
}
pub fn wait(until: impl Fn() -> bool) {
    if !until() {
        hook(Some(&until))
    }
}

/// Run threads to their ends; `Err` names those that are stuck.
pub fn run(threads: Vec<Box<dyn FnOnce()>>) -> Result<usize, Vec<usize>> {
    vstd::sched::set_hook(Some(hook));
    let mut fibs: Vec<(Option<Coroutine<(), Blocked, (), DefaultStack>>, Blocked)> = threads
        .into_iter()
        .map(|t| {
            let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(128 * 1024).unwrap());
            let co = Coroutine::with_stack(stack, move |y: &Yielder<(), Blocked>, ()| {
                CUR.with(|c| c.set(y));
                t();
            });
            (Some(co), None)
        })
        .collect();
    let mut cur = usize::MAX;
    let mut steps = 0;
    let r = loop {
        let mut en: Vec<usize> = (0..fibs.len()).filter(|&i| fibs[i].0.is_some() && fibs[i].1.is_none_or(|b| unsafe { (*b)() })).collect();
        if en.is_empty() {
            let stuck: Vec<usize> = (0..fibs.len()).filter(|&i| fibs[i].0.is_some()).collect();
            break if stuck.is_empty() { Ok(steps) } else { Err(stuck) };
        }
        let next = if let Some(p) = en.iter().position(|&i| i == cur) {
            en[..=p].rotate_right(1);
            en[deviate(en.len())]
        } else {
            en[choose(en.len())]
        };
        steps += 1;
        cur = next;
        fibs[next].1 = None;
        let co = fibs[next].0.as_mut().unwrap();
        match co.resume(()) {
            CoroutineResult::Yield(b) => fibs[next].1 = b,
            CoroutineResult::Return(()) => {
                let co = fibs[next].0.take().unwrap();
                STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
            }
        }
        CUR.with(|c| c.set(std::ptr::null()));
    };
    vstd::sched::set_hook(None);
    if r.is_err() {
        std::mem::forget(fibs); // a violation is about to be reported; nothing may unwind
    }
    r
}
