//! C19 paths, C20 subscriptions, C21 bubbling subscriptions, C22 derived streams and bindings,
//! C23 independence of subscriptions: histories on a store whose data has every trackable shape.
use harness::{choose, ck, dom::CountWaker, fail, note, of, outcome, run, step, Cfg, Check};
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashMap, VecDeque},
    fmt::Debug,
    future::{poll_fn, Future},
    pin::Pin,
    rc::Rc,
    sync::Arc,
    task::{Context, Poll, Waker},
};

use futures_core::Stream;
use x_bow::{IntoPath, Path, PathExt, PathExtGuaranteed, Store, Trackable};

macro_rules! sized_set {
    () => {
        fn set<P: Path<Out = Self> + ?Sized>(p: &P, kind: usize, n: u32) -> bool {
            let Some(mut v) = p.get_opt() else {
                // nothing there: a write must fail and give the value back
                return false;
            };
            v.mutate(kind, n);
            let keep = v.show();
            match p.set_opt(v) {
                Ok(()) => true,
                Err(v) => {
                    ck!(v.show() == keep, "set_opt failed and returned a value other than the one given");
                    false
                }
            }
        }
    };
}
// ---------------------------------------------------------------- the data

#[derive(Trackable, Clone, PartialEq)]
#[track(deep)]
struct App {
    title: String,
    count: u32,
    pos: (u8, Inner, u8),
    list: Vec<Item>,
    map: HashMap<u32, Item>,
    names: HashMap<String, Vec<u8>>,
    opt: Option<Inner>,
    boxed: Box<Inner>,
    shared: Rc<Inner>,
    kind: Kind,
    #[allow(dead_code)]
    #[track(skip)]
    skipped: u32,
    #[track(shallow)]
    shallow: Inner,
    gen: Gen<Inner>,
    unit: Newtype,
    odd: Odd,
    wide: Wide,
}
type Wide = (u8, u8, Vec<u8>, u8, u8, u8, u8, u8, u8, u8, Inner, u8);
/// Some fields are tracked and others are not.
#[derive(Trackable, Clone, Debug, PartialEq)]
struct Odd(#[track(skip)] u8, u8, #[track(skip)] u8, #[track(deep)] OddKind);
#[derive(Trackable, Clone, Debug, PartialEq)]
#[track(deep)]
enum OddKind {
    P(#[track(skip)] u8, u8, #[track(skip)] u8, Inner),
    #[allow(dead_code)]
    N,
    Q { #[track(skip)] s: u8, t: u8, #[track(shallow)] u: Inner },
    R(u8),
}
impl OddKind {
    fn p(&mut self) -> Option<(&mut u8, &mut Inner)> {
        match self {
            OddKind::P(_, a, _, b) => Some((a, b)),
            _ => None,
        }
    }
    fn q(&mut self) -> Option<(&mut u8, &mut Inner)> {
        match self {
            OddKind::Q { s: _, t, u } => Some((t, u)),
            _ => None,
        }
    }
    fn r(&mut self) -> Option<&mut u8> {
        match self {
            OddKind::R(a) => Some(a),
            _ => None,
        }
    }
}
impl Val for Odd {
    fn kinds() -> usize {
        3
    }
    fn mutate(&mut self, kind: usize, n: u32) {
        self.1 = n as u8;
        self.3.mutate(kind, n);
    }
    sized_set!();
}
impl Val for OddKind {
    fn kinds() -> usize {
        3
    }
    fn mutate(&mut self, kind: usize, n: u32) {
        let n = n as u8;
        *self = match kind {
            0 => OddKind::Q { s: n, t: n + 1, u: inner(n + 2) },
            1 => OddKind::R(n),
            _ => OddKind::P(n, n + 1, n + 2, inner(n + 3)),
        }
    }
    sized_set!();
}
impl Val for Wide {
    fn mutate(&mut self, _: usize, n: u32) {
        let n = n as u8;
        *self = (n, n + 1, vec![n + 2], n + 3, n + 4, n + 5, n + 6, n + 7, n + 8, n + 9, inner(n + 10), n + 11)
    }
    sized_set!();
}
#[derive(Trackable, Clone, Debug, PartialEq)]
#[track(deep)]
struct Inner {
    a: u8,
    b: Vec<u8>,
    c: u8,
}
#[derive(Trackable, Clone, Debug, PartialEq)]
struct Item {
    name: String,
    #[track(deep)]
    child: Option<Box<Item>>,
}
#[derive(Trackable, Clone, Debug, PartialEq)]
#[track(deep)]
enum Kind {
    Empty,
    One(Inner),
    Two { left: u8, right: Option<Inner> },
    Three(u8, Inner, u8),
}
#[derive(Trackable, Clone, Debug, PartialEq)]
#[track(deep)]
struct Gen<T> {
    value: T,
    more: (Vec<T>,),
}
#[derive(Trackable, Clone, Debug, PartialEq)]
struct Newtype(u8, u8);

fn inner(n: u8) -> Inner {
    Inner { a: n, b: vec![n.wrapping_add(1), n.wrapping_add(2)], c: n.wrapping_add(3) }
}
fn item(n: u32, deep: bool) -> Item {
    Item { name: format!("item{n}"), child: deep.then(|| Box::new(item(n + 100, false))) }
}
fn initial() -> App {
    App {
        title: "title".into(),
        count: 1,
        pos: (2, inner(10), 3),
        list: vec![item(1, true), item(2, false)],
        map: [(1, item(3, true)), (2, item(4, false))].into_iter().collect(),
        names: [("x".to_string(), vec![5u8, 6]), ("xy".to_string(), vec![7])].into_iter().collect(),
        opt: Some(inner(20)),
        boxed: Box::new(inner(30)),
        shared: Rc::new(inner(40)),
        kind: Kind::One(inner(50)),
        skipped: 9,
        shallow: inner(60),
        gen: Gen { value: inner(70), more: (vec![inner(80)],) },
        unit: Newtype(90, 91),
        odd: Odd(101, 102, 103, OddKind::P(104, 105, 106, inner(107))),
        wide: (110, 111, vec![112, 113], 114, 115, 116, 117, 118, 119, 120, inner(121), 125),
    }
}

/// Maps in the order of their keys: their own order differs from run to run.
fn sorted<K: Ord, V>(m: &HashMap<K, V>) -> BTreeMap<&K, &V> {
    m.iter().collect()
}
impl Debug for App {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let App { title, count, pos, list, map, names, opt, boxed, shared, kind, skipped, shallow, gen, unit, odd, wide } = self;
        f.debug_list()
            .entry(title)
            .entry(count)
            .entry(pos)
            .entry(list)
            .entry(&sorted(map))
            .entry(&sorted(names))
            .entry(opt)
            .entry(boxed)
            .entry(shared)
            .entry(kind)
            .entry(skipped)
            .entry(shallow)
            .entry(gen)
            .entry(unit)
            .entry(odd)
            .entry(wide)
            .finish()
    }
}

/// How values of a type are changed in place (`kinds` different ways).
trait Val: PartialEq + Debug {
    fn kinds() -> usize {
        1
    }
    fn mutate(&mut self, kind: usize, n: u32);
    fn show(&self) -> String {
        format!("{self:?}")
    }
    /// assign through the path as a whole (where the type has a size)
    fn set<P: Path<Out = Self> + ?Sized>(p: &P, kind: usize, n: u32) -> bool {
        match p.borrow_opt_mut() {
            Some(mut g) => {
                g.mutate(kind, n);
                true
            }
            None => false,
        }
    }
}
impl Val for u8 {
    fn mutate(&mut self, _: usize, n: u32) {
        *self = (n as u8).wrapping_add(100)
    }
    sized_set!();
}
impl Val for u32 {
    fn mutate(&mut self, _: usize, n: u32) {
        *self = 1000 + n
    }
    sized_set!();
}
impl Val for String {
    fn mutate(&mut self, _: usize, n: u32) {
        *self = format!("s{n}")
    }
    sized_set!();
}
impl Val for str {
    fn mutate(&mut self, _: usize, n: u32) {
        if n % 2 == 0 {
            self.make_ascii_uppercase()
        } else {
            self.make_ascii_lowercase()
        }
    }
}
trait Fresh {
    fn fresh(n: u32) -> Self;
}
impl Fresh for u8 {
    fn fresh(n: u32) -> u8 {
        n as u8
    }
}
impl Fresh for Inner {
    fn fresh(n: u32) -> Inner {
        inner((n as u8).wrapping_add(150))
    }
}
impl Fresh for Item {
    fn fresh(n: u32) -> Item {
        item(1000 + n, n % 2 == 0)
    }
}
impl<T: Fresh> Fresh for Box<T> {
    fn fresh(n: u32) -> Self {
        Box::new(T::fresh(n))
    }
}
impl<T: Fresh + PartialEq + Debug + Clone> Val for Vec<T> {
    fn kinds() -> usize {
        3
    }
    fn mutate(&mut self, kind: usize, n: u32) {
        match kind {
            0 => self.push(T::fresh(n)),
            1 => {
                self.pop();
            }
            _ => self.insert(0, T::fresh(n)),
        }
    }
    sized_set!();
}
impl Val for HashMap<u32, Item> {
    fn show(&self) -> String {
        format!("{:?}", sorted(self))
    }
    fn kinds() -> usize {
        3
    }
    fn mutate(&mut self, kind: usize, n: u32) {
        match kind {
            0 => {
                self.remove(&1);
            }
            k => {
                self.insert(k as u32, Item::fresh(n));
            }
        }
    }
    sized_set!();
}
impl Val for HashMap<String, Vec<u8>> {
    fn show(&self) -> String {
        format!("{:?}", sorted(self))
    }
    fn kinds() -> usize {
        2
    }
    fn mutate(&mut self, kind: usize, n: u32) {
        match kind {
            0 => {
                self.remove("x");
            }
            _ => {
                self.insert("x".into(), vec![n as u8]);
            }
        }
    }
    sized_set!();
}
impl<T: Fresh + PartialEq + Debug + Clone> Val for Option<T> {
    fn kinds() -> usize {
        2
    }
    fn mutate(&mut self, kind: usize, n: u32) {
        *self = if kind == 0 { None } else { Some(T::fresh(n)) }
    }
    sized_set!();
}
impl<T: Fresh + PartialEq + Debug + Clone> Val for Box<T> {
    fn mutate(&mut self, _: usize, n: u32) {
        *self = Box::new(T::fresh(n))
    }
    sized_set!();
}
impl<T: Fresh + PartialEq + Debug + Clone> Val for Rc<T> {
    fn mutate(&mut self, _: usize, n: u32) {
        *self = Rc::new(T::fresh(n))
    }
    fn set<P: Path<Out = Self> + ?Sized>(p: &P, _: usize, n: u32) -> bool {
        p.set_opt(Rc::new(T::fresh(n))).is_ok()
    }
}
impl Val for (u8, Inner, u8) {
    fn mutate(&mut self, _: usize, n: u32) {
        *self = (n as u8, inner((n as u8).wrapping_add(200)), n as u8)
    }
    sized_set!();
}
impl Val for (Vec<Inner>,) {
    fn mutate(&mut self, _: usize, n: u32) {
        self.0 = vec![inner(n as u8), inner(n as u8 + 1)]
    }
    sized_set!();
}
impl Val for Inner {
    fn mutate(&mut self, _: usize, n: u32) {
        *self = Inner::fresh(n)
    }
    sized_set!();
}
impl Val for Item {
    fn mutate(&mut self, _: usize, n: u32) {
        *self = Item::fresh(n)
    }
    sized_set!();
}
impl Val for Kind {
    fn kinds() -> usize {
        4
    }
    fn mutate(&mut self, kind: usize, n: u32) {
        let b = n as u8;
        *self = match kind {
            0 => Kind::Two { left: b, right: Some(inner(b)) },
            1 => Kind::Three(b, inner(b), b + 1),
            2 => Kind::Empty,
            _ => Kind::One(inner(b)),
        }
    }
    sized_set!();
}
impl Val for Gen<Inner> {
    fn mutate(&mut self, _: usize, n: u32) {
        self.value = inner(n as u8);
        self.more.0.clear();
    }
    sized_set!();
}
impl Val for Newtype {
    fn mutate(&mut self, _: usize, n: u32) {
        *self = Newtype(n as u8, n as u8)
    }
    sized_set!();
}
impl Val for App {
    fn kinds() -> usize {
        2
    }
    fn mutate(&mut self, kind: usize, n: u32) {
        *self = initial();
        self.count = n;
        if kind == 1 {
            self.list.clear();
            self.map.clear();
            self.names.clear();
            self.opt = None;
            self.kind = Kind::Three(1, inner(1), 2);
            self.odd.3 = OddKind::Q { s: 1, t: 2, u: inner(3) };
        }
    }
    fn set<P: Path<Out = Self> + ?Sized>(p: &P, kind: usize, n: u32) -> bool {
        let mut v = initial();
        v.mutate(kind, n);
        p.set_opt(v).is_ok()
    }
}

// ---------------------------------------------------------------- paths

/// The ways to write through a path.
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    BorrowMut,
    Set,
    /// mutate without notifying, then notify_changed
    Manual,
    /// `PathExtGuaranteed::borrow_mut` / `set` (where the path is guaranteed; else like BorrowMut)
    Guaranteed,
    GuaranteedSet,
    /// mutate without notifying: nobody is told
    Silent,
}

type Sub<'a> = Pin<Box<dyn Stream<Item = ()> + 'a>>;
type Log = Rc<RefCell<Vec<String>>>;

trait Node {
    fn segs(&self) -> &[String];
    fn kinds(&self) -> usize;
    fn guaranteed(&self) -> bool;
    fn read(&self) -> Option<String>;
    fn read_guaranteed(&self) -> String;
    fn write(&self, how: How, kind: usize, n: u32) -> bool;
    /// Hold a mutable borrow: `during(0)` runs before the data is changed, `during(1)` after.
    fn hold(&self, kind: usize, n: u32, during: &mut dyn FnMut(u8)) -> bool;
    fn model_read(&self, m: &mut App) -> Option<String>;
    fn model_write(&self, m: &mut App, kind: usize, n: u32) -> bool;
    fn subscribe(&self, bubbling: bool) -> Sub<'_>;
    fn for_each(&self, log: Log) -> Pin<Box<dyn Future<Output = ()> + '_>>;
    fn for_each_async(&self, jobs: Rc<Jobs>) -> Pin<Box<dyn Future<Output = ()> + '_>>;
    fn signal(&self, now: bool) -> Pin<Box<dyn Stream<Item = String> + '_>>;
    fn name(&self) -> String {
        if self.segs().is_empty() {
            "root".into()
        } else {
            self.segs().join(".")
        }
    }
}
type Proj<T> = Box<dyn for<'a> Fn(&'a mut App) -> Option<&'a mut T>>;
struct N<P: Path> {
    p: P,
    segs: Vec<String>,
    proj: Proj<P::Out>,
    #[allow(clippy::type_complexity)]
    g: Option<(fn(&P) -> String, fn(&P, bool, usize, u32))>,
}
impl<P: Path> Node for N<P>
where
    P::Out: Val,
{
    fn segs(&self) -> &[String] {
        &self.segs
    }
    fn kinds(&self) -> usize {
        P::Out::kinds()
    }
    fn guaranteed(&self) -> bool {
        self.g.is_some()
    }
    fn read(&self) -> Option<String> {
        self.p.borrow_opt().map(|r| r.show())
    }
    fn read_guaranteed(&self) -> String {
        (self.g.unwrap().0)(&self.p)
    }
    fn write(&self, how: How, kind: usize, n: u32) -> bool {
        match how {
            How::Set => P::Out::set(&self.p, kind, n),
            How::Silent | How::Manual => {
                let ok = match self.p.borrow_opt_mut_without_notifying() {
                    Some(mut g) => {
                        g.mutate(kind, n);
                        true
                    }
                    None => false,
                };
                if ok && how == How::Manual {
                    self.p.notify_changed();
                }
                ok
            }
            How::Guaranteed | How::GuaranteedSet if self.g.is_some() => {
                (self.g.unwrap().1)(&self.p, how == How::GuaranteedSet, kind, n);
                true
            }
            _ => match self.p.borrow_opt_mut() {
                Some(mut g) => {
                    g.mutate(kind, n);
                    true
                }
                None => false,
            },
        }
    }
    fn hold(&self, kind: usize, n: u32, during: &mut dyn FnMut(u8)) -> bool {
        match self.p.borrow_opt_mut() {
            Some(mut g) => {
                during(0);
                g.mutate(kind, n);
                during(1);
                true
            }
            None => false,
        }
    }
    fn model_read(&self, m: &mut App) -> Option<String> {
        (self.proj)(m).map(|r| r.show())
    }
    fn model_write(&self, m: &mut App, kind: usize, n: u32) -> bool {
        match (self.proj)(m) {
            Some(t) => {
                t.mutate(kind, n);
                true
            }
            None => false,
        }
    }
    fn subscribe(&self, bubbling: bool) -> Sub<'_> {
        if bubbling {
            Box::pin(self.p.until_bubbling_change())
        } else {
            Box::pin(self.p.until_change())
        }
    }
    fn for_each(&self, log: Log) -> Pin<Box<dyn Future<Output = ()> + '_>> {
        Box::pin(self.p.for_each(move |d| log.borrow_mut().push(d.show())))
    }
    fn for_each_async(&self, jobs: Rc<Jobs>) -> Pin<Box<dyn Future<Output = ()> + '_>> {
        Box::pin(self.p.for_each_async(move |d| jobs.start(d.show())))
    }
    fn signal(&self, now: bool) -> Pin<Box<dyn Stream<Item = String> + '_>> {
        struct Map<S>(S);
        impl<'a, S: Stream<Item = std::cell::Ref<'a, T>> + Unpin, T: Val + ?Sized + 'a> Stream for Map<S> {
            type Item = String;
            fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<String>> {
                Pin::new(&mut self.0).poll_next(cx).map(|o| o.map(|r| r.show()))
            }
        }
        Box::pin(Map(self.p.signal_stream(now)))
    }
}

fn mk<'s, P: Path + 's>(segs: &str, p: P, proj: impl for<'a> Fn(&'a mut App) -> Option<&'a mut P::Out> + 'static) -> Box<dyn Node + 's>
where
    P::Out: Val,
{
    Box::new(N { p, segs: segs.split('.').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(), proj: Box::new(proj), g: None })
}
fn mkg<'s, P: Path + PathExtGuaranteed + 's>(segs: &str, p: P, proj: impl for<'a> Fn(&'a mut App) -> Option<&'a mut P::Out> + 'static) -> Box<dyn Node + 's>
where
    P::Out: Val + Clone,
{
    Box::new(N {
        p,
        segs: segs.split('.').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        proj: Box::new(proj),
        g: Some((
            |p| {
                let s = p.borrow().show();
                ck!(p.get().show() == s, "get differs from borrow");
                s
            },
            |p, set, kind, n| {
                if set {
                    let mut v = p.get();
                    v.mutate(kind, n);
                    p.set(v)
                } else {
                    p.borrow_mut().mutate(kind, n)
                }
            },
        )),
    })
}

/// Whether a path can be borrowed without a check (whether its type promises so).
struct Probe<'p, P>(&'p P);
impl<P: PathExtGuaranteed> Probe<'_, P> {
    fn always(&self) -> bool {
        true
    }
}
trait NotAlways {
    fn always(&self) -> bool {
        false
    }
}
impl<P> NotAlways for Probe<'_, P> {}

/// Every path of the catalogue. The last argument is the plain Rust access the path stands for.
macro_rules! catalogue {
    ($($g:ident $segs:literal $($m:ident $args:tt).* ; $proj:expr;)*) => {
        const SEGS: &[&str] = &[$($segs),*];
        fn node<'s>(store: &'s Store<App>, i: usize) -> Box<dyn Node + 's> {
            let r = store.build_path();
            let mut _k = 0;
            $(
                if _k == i {
                    return $g($segs, r $(.$m $args)*.into_path(), $proj);
                }
                _k += 1;
            )*
            unreachable!()
        }
        fn always(store: &Store<App>, i: usize) -> bool {
            let r = store.build_path();
            let mut _k = 0;
            $(
                if _k == i {
                    return Probe(&r $(.$m $args)*.into_path()).always();
                }
                _k += 1;
            )*
            unreachable!()
        }
        /// the same path, made by way of references to its prefixes / type-erased
        fn routed<R>(store: &Store<App>, i: usize, f: &mut dyn FnMut(&dyn Node) -> R) -> R {
            let r0 = store.build_path();
            let mut _k = 0;
            $(
                if _k == i {
                    let r1 = r0.as_ref_path();
                    let r = r1 $(.$m $args)*;
                    let n = mk($segs, r.into_path(), $proj);
                    return f(&*n);
                }
                _k += 1;
            )*
            unreachable!()
        }
    };
}
fn kind_one(k: &mut Kind) -> Option<&mut Inner> {
    match k {
        Kind::One(i) => Some(i),
        _ => None,
    }
}
fn kind_two(k: &mut Kind) -> Option<(&mut u8, &mut Option<Inner>)> {
    match k {
        Kind::Two { left, right } => Some((left, right)),
        _ => None,
    }
}
fn kind_three(k: &mut Kind) -> Option<(&mut u8, &mut Inner, &mut u8)> {
    match k {
        Kind::Three(a, b, c) => Some((a, b, c)),
        _ => None,
    }
}
catalogue! {
    mkg "" build_path(); |s| Some(s);
    mkg "title" title(); |s| Some(&mut s.title);
    mk "title.content" title().content(); |s| Some(s.title.as_mut_str());
    mkg "count" count(); |s| Some(&mut s.count);
    mkg "pos" pos(); |s| Some(&mut s.pos);
    mkg "pos.0" pos().t0(); |s| Some(&mut s.pos.0);
    mkg "pos.1" pos().t1(); |s| Some(&mut s.pos.1);
    mkg "pos.1.a" pos().t1().a(); |s| Some(&mut s.pos.1.a);
    mkg "pos.2" pos().t2(); |s| Some(&mut s.pos.2);
    mkg "list" list(); |s| Some(&mut s.list);
    mk "list.0" list().index(0); |s| s.list.get_mut(0);
    mk "list.0.name" list().index(0).name(); |s| s.list.get_mut(0).map(|i| &mut i.name);
    mk "list.0.child" list().index(0).child(); |s| s.list.get_mut(0).map(|i| &mut i.child);
    mk "list.0.child.some" list().index(0).child().Some_0(); |s| s.list.get_mut(0).and_then(|i| i.child.as_mut());
    mk "list.0.child.some.box" list().index(0).child().Some_0().content(); |s| s.list.get_mut(0).and_then(|i| i.child.as_deref_mut());
    mk "list.0.child.some.box.name" list().index(0).child().Some_0().content().name(); |s| s.list.get_mut(0).and_then(|i| i.child.as_deref_mut()).map(|i| &mut i.name);
    mk "list.1" list().index_shallow(1); |s| s.list.get_mut(1);
    mk "list.1.name" list().index(1).name(); |s| s.list.get_mut(1).map(|i| &mut i.name);
    mk "list.2" list().index(2); |s| s.list.get_mut(2);
    mkg "map" map(); |s| Some(&mut s.map);
    mk "map.1" map().key(1); |s| s.map.get_mut(&1);
    mk "map.1.name" map().key(1).name(); |s| s.map.get_mut(&1).map(|i| &mut i.name);
    mk "map.1.child.some.box" map().key(1).child().Some_0().content(); |s| s.map.get_mut(&1).and_then(|i| i.child.as_deref_mut());
    mk "map.2" map().key_shallow(2); |s| s.map.get_mut(&2);
    mk "map.2.name" map().key(2).name(); |s| s.map.get_mut(&2).map(|i| &mut i.name);
    mk "map.7" map().key(7); |s| s.map.get_mut(&7);
    mkg "names" names(); |s| Some(&mut s.names);
    mk "names.x" names().key("x".into()); |s| s.names.get_mut("x");
    mk "names.x.0" names().key("x".into()).index(0); |s| s.names.get_mut("x").and_then(|v| v.get_mut(0));
    mk "names.xy" names().key("xy".into()); |s| s.names.get_mut("xy");
    mk "names.xy.0" names().key("xy".into()).index(0); |s| s.names.get_mut("xy").and_then(|v| v.get_mut(0));
    mkg "opt" opt(); |s| Some(&mut s.opt);
    mk "opt.some" opt().Some_0(); |s| s.opt.as_mut();
    mk "opt.some.a" opt().Some_0().a(); |s| s.opt.as_mut().map(|i| &mut i.a);
    mk "opt.some.b" opt().Some_0().b(); |s| s.opt.as_mut().map(|i| &mut i.b);
    mk "opt.some.b.1" opt().Some_0().b().index(1); |s| s.opt.as_mut().and_then(|i| i.b.get_mut(1));
    mkg "boxed" boxed(); |s| Some(&mut s.boxed);
    mkg "boxed.content" boxed().content(); |s| Some(&mut *s.boxed);
    mkg "boxed.content" boxed().content_shallow(); |s| Some(&mut *s.boxed);
    mkg "boxed.content.a" boxed().content().a(); |s| Some(&mut s.boxed.a);
    mkg "boxed.content.b" boxed().content().b(); |s| Some(&mut s.boxed.b);
    mkg "shared" shared(); |s| Some(&mut s.shared);
    mk "shared.content" shared().content(); |s| Rc::get_mut(&mut s.shared);
    mk "shared.content.a" shared().content().a(); |s| Rc::get_mut(&mut s.shared).map(|i| &mut i.a);
    mk "shared.content.b.0" shared().content().b().index(0); |s| Rc::get_mut(&mut s.shared).and_then(|i| i.b.get_mut(0));
    mkg "kind" kind(); |s| Some(&mut s.kind);
    mk "kind.One_0" kind().One_0(); |s| kind_one(&mut s.kind);
    mk "kind.One_0.a" kind().One_0().a(); |s| kind_one(&mut s.kind).map(|i| &mut i.a);
    mk "kind.One_0.c" kind().One_0().c(); |s| kind_one(&mut s.kind).map(|i| &mut i.c);
    mk "kind.Two_left" kind().Two_left(); |s| kind_two(&mut s.kind).map(|t| t.0);
    mk "kind.Two_right" kind().Two_right(); |s| kind_two(&mut s.kind).map(|t| t.1);
    mk "kind.Two_right.some" kind().Two_right().Some_0(); |s| kind_two(&mut s.kind).and_then(|t| t.1.as_mut());
    mk "kind.Three_0" kind().Three_0(); |s| kind_three(&mut s.kind).map(|t| t.0);
    mk "kind.Three_1" kind().Three_1(); |s| kind_three(&mut s.kind).map(|t| t.1);
    mk "kind.Three_1.c" kind().Three_1().c(); |s| kind_three(&mut s.kind).map(|t| &mut t.1.c);
    mk "kind.Three_2" kind().Three_2(); |s| kind_three(&mut s.kind).map(|t| t.2);
    mkg "shallow" shallow(); |s| Some(&mut s.shallow);
    mkg "gen" gen(); |s| Some(&mut s.gen);
    mkg "gen.value" gen().value(); |s| Some(&mut s.gen.value);
    mkg "gen.value.b" gen().value().b(); |s| Some(&mut s.gen.value.b);
    mkg "gen.more" gen().more(); |s| Some(&mut s.gen.more);
    mkg "gen.more.0" gen().more().t0(); |s| Some(&mut s.gen.more.0);
    mk "gen.more.0.0" gen().more().t0().index(0); |s| s.gen.more.0.get_mut(0);
    mk "gen.more.0.0.a" gen().more().t0().index(0).a(); |s| s.gen.more.0.get_mut(0).map(|i| &mut i.a);
    mkg "unit" unit(); |s| Some(&mut s.unit);
    mkg "unit.0" unit().t0(); |s| Some(&mut s.unit.0);
    mkg "odd" odd(); |s| Some(&mut s.odd);
    mkg "odd.1" odd().t1(); |s| Some(&mut s.odd.1);
    mkg "odd.3" odd().t3(); |s| Some(&mut s.odd.3);
    mk "odd.3.P_1" odd().t3().P_1(); |s| s.odd.3.p().map(|x| x.0);
    mk "odd.3.P_3" odd().t3().P_3(); |s| s.odd.3.p().map(|x| x.1);
    mk "odd.3.P_3.c" odd().t3().P_3().c(); |s| s.odd.3.p().map(|x| &mut x.1.c);
    mk "odd.3.Q_t" odd().t3().Q_t(); |s| s.odd.3.q().map(|x| x.0);
    mk "odd.3.Q_u" odd().t3().Q_u(); |s| s.odd.3.q().map(|x| x.1);
    mk "odd.3.R_0" odd().t3().R_0(); |s| s.odd.3.r();
    mkg "wide" wide(); |s| Some(&mut s.wide);
    mkg "wide.1" wide().t1(); |s| Some(&mut s.wide.1);
    mkg "wide.2" wide().t2(); |s| Some(&mut s.wide.2);
    mk "wide.2.1" wide().t2().index(1); |s| s.wide.2.get_mut(1);
    mkg "wide.9" wide().t9(); |s| Some(&mut s.wide.9);
    mkg "wide.10" wide().t10(); |s| Some(&mut s.wide.10);
    mkg "wide.10.a" wide().t10().a(); |s| Some(&mut s.wide.10.a);
    mkg "wide.11" wide().t11(); |s| Some(&mut s.wide.11);
    mkg "unit.1" unit().t1(); |s| Some(&mut s.unit.1);
}
fn idx(seg: &str) -> usize {
    SEGS.iter().position(|s| *s == seg).expect("path in the catalogue")
}
fn below(sub: &[String], of: &[String]) -> bool {
    sub.len() >= of.len() && sub[..of.len()] == *of
}

fn same(store: &Store<App>, model: &mut App, when: &str) {
    // by the root path
    let got = store.build_path().borrow_opt().map(|r| r.clone());
    match got {
        None => fail("the root of the store cannot be borrowed"),
        Some(g) => {
            ck!(g == *model, "{when}: the store holds {g:?}, expected {model:?}")
        }
    }
}

// ---------------------------------------------------------------- C19

fn paths(writes: usize, share: bool, kinds_all: bool) {
    let store = Store::new(initial());
    let mut m = initial();
    let mut held: Option<(Rc<Inner>, Rc<Inner>)> = None;
    for step_no in 0..writes {
        let n = step_no as u32 + 1;
        let i = choose(SEGS.len());
        let nd = node(&store, i);
        let kind = if nd.kinds() > 1 && (kinds_all || step_no == 0) { choose(nd.kinds()) } else { 0 };
        let mut hows = vec![How::BorrowMut, How::Set, How::Manual];
        if nd.guaranteed() {
            hows.extend([How::Guaranteed, How::GuaranteedSet]);
        }
        let how = if step_no == 0 || kinds_all { *of(&hows) } else { How::BorrowMut };
        if share && step_no == 1 && choose(2) == 1 {
            note(|| "another owner of the shared piece appears".into());
            held = Some((store.build_path().shared().borrow().clone(), m.shared.clone()));
        }
        // a shared value that has another owner cannot be borrowed mutably through the pointer
        let exp = nd.model_write(&mut m, kind, n);
        let got = if how == How::BorrowMut && choose(2) == 1 {
            routed(&store, i, &mut |nd| nd.write(how, kind, n))
        } else {
            nd.write(how, kind, n)
        };
        note(|| format!("write {n} through {} ({how:?}, kind {kind}): {got}", nd.name()));
        ck!(got || !always(&store, i), "{} promises to be there always, and cannot be borrowed", nd.name());
        ck!(got == exp, "writing through {}: {got}, but the piece of data is there: {exp}", nd.name());
        same(&store, &mut m, &format!("after writing through {}", nd.name()));
        if let Some((a, b)) = &held {
            ck!(a == b, "the value of another owner of a shared piece was changed");
        }
        // (shorter histories have their own executions)
        if writes == 3 && step_no < 2 {
            continue;
        }
        for k in 0..SEGS.len() {
            let q = node(&store, k);
            let r = q.read();
            // read through a shared pointer is always possible
            let e = if SEGS[k].starts_with("shared.") {
                let s = &m.shared;
                Some(match SEGS[k] {
                    "shared.content" => format!("{:?}", **s),
                    "shared.content.a" => format!("{:?}", s.a),
                    _ => format!("{:?}", s.b[0]),
                })
            } else {
                q.model_read(&mut m)
            };
            ck!(r == e, "reading {} gives {r:?}, the data is {e:?}", q.name());
            ck!(r.is_some() || !always(&store, k), "{} promises to be there always, and is not", q.name());
            if let Some(e) = e {
                if q.guaranteed() {
                    ck!(q.read_guaranteed() == e, "borrow of {} differs from borrow_opt", q.name());
                }
            }
            if step_no + 1 == writes {
                ck!(routed(&store, k, &mut |q| q.read()) == r, "the path to {} reads differently when it is made from a reference", q.name());
            }
        }
        step(&m.show());
    }
    outcome(&m.show());
}
/// Type-erased paths and continuing them.
fn erased() {
    let store = Store::new(initial());
    let which = choose(2);
    let list: Rc<dyn Path<Out = Vec<Item>> + '_> = Rc::new(store.build_path().list().into_path());
    let boxed: Box<dyn Path<Out = Vec<Item>> + '_> = Box::new(store.build_path().list().into_path());
    let i = choose(3);
    let (wk, w) = CountWaker::new();
    let mut cx = Context::from_waker(&w);
    let direct = store.build_path().list().index(i).name();
    let mut sub = Box::pin(direct.until_change());
    let mut bub = Box::pin(PathExt::until_bubbling_change(&list));
    ck!(sub.as_mut().poll_next(&mut cx).is_pending() && bub.as_mut().poll_next(&mut cx).is_pending(), "a subscription fired without a change");
    let exists = i < 2;
    let ok = if which == 0 {
        list.clone().build_path().index(i).name().set_opt("new".into()).is_ok()
    } else {
        boxed.build_path().index(i).name().set_opt("new".into()).is_ok()
    };
    ck!(ok == exists, "writing through a type-erased path: {ok}, the data exists: {exists}");
    let exp = exists.then(|| "new".to_string());
    ck!(direct.get_opt() == exp, "a write through a type-erased path is not seen through the plain one");
    ck!(list.borrow_opt().map(|v| v.len()) == Some(2), "reading through a type-erased path");
    ck!(wk.woken() == exists, "a write through a type-erased path: task woken {}", wk.woken());
    ck!(sub.as_mut().poll_next(&mut cx).is_ready() == exists, "a write through a type-erased path did not reach the subscription of the plain one");
    ck!(bub.as_mut().poll_next(&mut cx).is_ready() == exists, "a write below a type-erased path did not reach its bubbling subscription");
    step(&(which, i));
    outcome(&exists);
}

// ---------------------------------------------------------------- C20, C21: every pair of paths

const HOWS: [How; 6] = [How::BorrowMut, How::Set, How::Manual, How::Guaranteed, How::GuaranteedSet, How::Silent];

fn expect_fire(bubbling: bool, sub: &dyn Node, w: &dyn Node, how: How, ok: bool) -> bool {
    ok && how != How::Silent && if bubbling { below(w.segs(), sub.segs()) } else { below(sub.segs(), w.segs()) }
}

fn pairs(bubbling: bool, writes: usize) {
    let store = Store::new(initial());
    let mut m = initial();
    // everything is reachable in one of two states of the data
    if choose(2) == 1 {
        let k = choose(2);
        node(&store, idx("kind")).write(How::BorrowMut, k, 1);
        node(&store, idx("kind")).model_write(&mut m, k, 1);
    }
    let s = choose(SEGS.len());
    let sub = node(&store, s);
    let (wk, w) = CountWaker::new();
    let mut cx = Context::from_waker(&w);
    let polled = choose(2) == 0;
    note(|| format!("subscribe to {}, run: {polled}", sub.name()));
    let mut st = sub.subscribe(bubbling);
    if polled {
        ck!(st.as_mut().poll_next(&mut cx).is_pending(), "a subscription fired without a change");
    }
    let mut fires = false;
    for n in 0..writes {
        let wn = node(&store, choose(SEGS.len()));
        let how = if n == 0 { *of(if polled { &HOWS[..] } else { &HOWS[..1] }) } else { How::BorrowMut };
        let kind = if wn.kinds() > 1 && n == 0 { choose(wn.kinds()) } else { 0 };
        let exp = wn.model_write(&mut m, kind, n as u32 + 2);
        let ok = wn.write(how, kind, n as u32 + 2);
        ck!(ok == exp, "writing through {}: {ok}, the piece of data is there: {exp}", wn.name());
        let f = expect_fire(bubbling, &*sub, &*wn, how, ok);
        note(|| format!("write through {} ({how:?}): written {ok}, concerns the subscription: {f}", wn.name()));
        let woken = wk.take() > 0;
        ck!(woken == (f && polled) || (fires && f), "a subscription to {} ({}), and a write through {}: task woken: {woken}, expected {}", sub.name(), if bubbling { "bubbling" } else { "plain" }, wn.name(), f && polled);
        fires |= f;
        step(&(s, n, ok, f));
    }
    let exp = fires && polled;
    let r = st.as_mut().poll_next(&mut cx);
    ck!(matches!(r, Poll::Ready(Some(()))) == exp && (exp || r.is_pending()), "a subscription to {}: fired {}, expected {exp}", sub.name(), r.is_ready());
    ck!(st.as_mut().poll_next(&mut cx).is_pending(), "a subscription fired twice for the same changes");
    drop(st);
    ck!(Arc::strong_count(&wk) == 2, "a dropped subscription still holds its waker");
    outcome(&(s, exp));
}

// ---------------------------------------------------------------- C20, C21, C23: histories

struct Slot<'a> {
    st: Option<Sub<'a>>,
    path: usize,
    bubbling: bool,
    polled: bool,
    changed: bool,
    waker: usize,
}

struct World<'a> {
    store: &'a Store<App>,
    nodes: &'a [Box<dyn Node + 'a>],
    m: App,
    wk: Vec<(Arc<CountWaker>, Waker)>,
    sl: Vec<Slot<'a>>,
}
impl<'a> World<'a> {
    fn new(store: &'a Store<App>, nodes: &'a [Box<dyn Node + 'a>], slots: usize) -> Self {
        let sl = (0..slots).map(|_| Slot { st: None, path: 0, bubbling: false, polled: false, changed: false, waker: 0 }).collect();
        World { store, nodes, m: initial(), wk: (0..slots + 1).map(|_| CountWaker::new()).collect(), sl }
    }
    fn create(&mut self, i: usize, path: usize, bubbling: bool) {
        let n = &self.nodes[path];
        note(|| format!("subscription {i} to {} (bubbling {bubbling})", n.name()));
        self.sl[i] = Slot { st: Some(n.subscribe(bubbling)), path, bubbling, polled: false, changed: false, waker: 0 };
    }
    fn run(&mut self, i: usize, w: usize) {
        let s = &mut self.sl[i];
        let r = s.st.as_mut().unwrap().as_mut().poll_next(&mut Context::from_waker(&self.wk[w].1));
        let want = s.polled && s.changed;
        note(|| format!("run subscription {i} with waker {w}: fired {}", r.is_ready()));
        ck!(!matches!(r, Poll::Ready(None)), "a subscription ended");
        ck!(r.is_ready() == want, "subscription {i} to {}: fired {}, a change concerned it since it was last run: {want}", self.nodes[s.path].name(), r.is_ready());
        s.polled = true;
        s.changed = false;
        s.waker = w;
    }
    fn drop(&mut self, i: usize) {
        note(|| format!("drop subscription {i}"));
        self.sl[i].st = None;
    }
    fn write(&mut self, p: usize, how: How, kind: usize, val: u32) {
        let n = &self.nodes[p];
        let exp = n.model_write(&mut self.m, kind, val);
        let ok = n.write(how, kind, val);
        note(|| format!("write through {} ({how:?}, kind {kind}): {ok}", n.name()));
        ck!(ok == exp, "writing through {}: {ok}, the piece of data is there: {exp}", n.name());
        // a task must be woken when one of its subscriptions has something new; whether it is
        // woken again for one that already had is not specified
        let (mut must, mut may) = (vec![false; self.wk.len()], vec![false; self.wk.len()]);
        for s in self.sl.iter_mut().filter(|s| s.st.is_some()) {
            if expect_fire(s.bubbling, &*self.nodes[s.path], &**n, how, ok) {
                if s.polled {
                    must[s.waker] |= !s.changed;
                    may[s.waker] = true;
                }
                s.changed = true;
            }
        }
        for w in 0..must.len() {
            let got = self.wk[w].0.take() > 0;
            ck!(got || !must[w], "write through {}: task {w} is not woken, although a subscription it last ran is concerned", n.name());
            ck!(!got || may[w], "write through {}: task {w} is woken, although no subscription it last ran is concerned", n.name());
        }
    }
    fn verify(&mut self) {
        for w in &self.wk {
            ck!(w.0.take() == 0, "a task is woken although nothing was written");
        }
        step(&self.sl.iter().map(|s| (s.st.is_some(), s.path, s.bubbling, s.polled, s.changed, s.waker)).collect::<Vec<_>>());
    }
    /// Whatever happened, every subscription still works.
    fn end(mut self) {
        same(self.store, &mut self.m, "at the end");
        let (sl, wk, nodes) = (&mut self.sl, &self.wk, self.nodes);
        for (i, s) in sl.iter_mut().enumerate() {
            let Some(st) = &mut s.st else { continue };
            let r = st.as_mut().poll_next(&mut Context::from_waker(&wk[i].1)).is_ready();
            ck!(r == (s.polled && s.changed), "at the end, subscription {i} to {}: fired {r}", nodes[s.path].name());
            s.polled = true;
            s.changed = false;
        }
        // (of very many, a few)
        for i in (0..sl.len()).step_by(if sl.len() > 1000 { sl.len() / 5 } else { 1 }) {
            if sl[i].st.is_none() {
                continue;
            }
            let p = sl[i].path;
            let ok = nodes[p].model_write(&mut self.m, 0, 99);
            ck!(nodes[p].write(How::BorrowMut, 0, 99) == ok, "at the end, writing through {}, which is there: {ok}", nodes[p].name());
            for s in sl.iter_mut().filter(|s| s.st.is_some()) {
                s.changed |= expect_fire(s.bubbling, &*nodes[s.path], &*nodes[p], How::BorrowMut, ok);
            }
            if ok {
                ck!(wk[i].0.take() > 0, "at the end, subscription {i} to {} is not woken by a write through its own path", nodes[p].name());
            }
            let s = &mut sl[i];
            let fired = s.st.as_mut().unwrap().as_mut().poll_next(&mut Context::from_waker(&wk[i].1)).is_ready();
            ck!(fired == s.changed, "at the end, subscription {i} to {}: fired {fired} after a write through its own path, expected {}", nodes[p].name(), s.changed);
            s.changed = false;
        }
        sl.clear();
        for w in wk {
            ck!(Arc::strong_count(&w.0) == 2, "all subscriptions are gone but the store still holds a waker");
        }
        outcome(&self.m.show());
    }
}

/// Each subscription has a waker of its own, and they share one more. `modes`: which subscriptions may be made; `silent`: also writes that nobody is told about.
fn histories(names: &'static [&'static str], slots: usize, modes: &'static [bool], ops: usize, hows: &'static [How], prefix: usize) {
    let store = Store::new(initial());
    let nodes: Vec<_> = names.iter().map(|s| node(&store, idx(s))).collect();
    let mut w = World::new(&store, &nodes, slots);
    for i in 0..prefix {
        w.create(i, i % names.len(), modes[i % modes.len()]);
        w.run(i, i);
    }
    for n in 0..ops {
        let mut acts: Vec<(u8, usize, usize)> = vec![];
        let mut empty = false;
        for (i, s) in w.sl.iter().enumerate() {
            if s.st.is_some() {
                acts.extend([(1, i, 0), (1, i, 1), (2, i, 0)]);
            } else if !empty {
                empty = true;
                for p in 0..names.len() {
                    acts.extend(modes.iter().map(|b| (0, i, p * 2 + *b as usize)));
                }
            }
        }
        for p in 0..names.len() {
            acts.extend((0..hows.len()).map(|h| (3, p, h)));
        }
        let (k, a, b) = *of(&acts);
        match k {
            0 => w.create(a, b / 2, b % 2 == 1),
            1 => w.run(a, if b == 0 { a } else { slots }),
            2 => w.drop(a),
            _ => {
                let kind = choose(nodes[a].kinds().min(2));
                w.write(a, hows[b], kind, n as u32 + 1);
            }
        }
        w.verify();
    }
    w.end();
}

/// Numbers of repetitions around which a counter of few bits would wrap.
const FAR: &[usize] = &[1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 512, 1024];

/// Running subscriptions; any of `ns` writes, or subscriptions that come and go, between two runs.
fn far(names: &'static [&'static str], modes: &'static [bool], rounds: usize, ns: &'static [usize]) {
    let store = Store::new(initial());
    let nodes: Vec<_> = names.iter().map(|s| node(&store, idx(s))).collect();
    let mut w = World::new(&store, &nodes, 4);
    for i in 0..3 {
        w.create(i, i % names.len(), modes[i % modes.len()]);
        w.run(i, i);
    }
    for r in 0..rounds {
        let n = *of(ns);
        let what = choose(3);
        let p = choose(names.len());
        note(|| format!("{n} times: {}", ["write", "a subscription that is run and dropped", "a subscription that is run, fired and dropped"][what]));
        for k in 0..n {
            if what > 0 {
                w.create(3, p, modes[k % modes.len()]);
                w.run(3, 3);
            }
            if what != 1 {
                w.write(p, How::BorrowMut, 0, (r * n + k) as u32);
            }
            if what == 2 {
                w.run(3, 4);
            }
            if what > 0 {
                w.drop(3);
            }
        }
        w.verify();
        let who = choose(4);
        for i in 0..3 {
            if who == 3 || who == i {
                w.run(i, i);
            }
        }
        w.verify();
    }
    w.end();
}

/// `n` running subscriptions; any two go, up to two come, and every path is written through.
fn crowd(names: &'static [&'static str], modes: &'static [bool], n: usize) {
    let store = Store::new(initial());
    let nodes: Vec<_> = names.iter().map(|s| node(&store, idx(s))).collect();
    let mut w = World::new(&store, &nodes, n + 1);
    for i in 0..n {
        w.create(i, i % names.len(), modes[i / names.len() % modes.len()]);
        w.run(i, i);
    }
    let mut at: Vec<usize> = vec![0, 1, n / 2, n - 2, n - 1, 31, 32, 63, 64, 127, 128, 255, 256, 65535, 65536];
    if n > 60000 {
        at.drain(1..11);
    }
    at.retain(|a| *a < n);
    at.sort();
    at.dedup();
    let (a, b) = (*of(&at), *of(&at));
    w.drop(a);
    w.verify();
    if b != a {
        w.drop(b);
        w.verify();
    }
    for k in 0..choose(3) {
        if let Some(i) = w.sl.iter().position(|s| s.st.is_none()) {
            w.create(i, choose(names.len()), modes[k % modes.len()]);
            w.run(i, i);
            w.verify();
        }
    }
    for p in 0..names.len() {
        w.write(p, How::BorrowMut, 0, p as u32 + 1);
        for i in 0..w.sl.len() {
            if w.sl[i].st.is_some() {
                w.run(i, n - i);
            }
        }
        w.verify();
    }
    w.end();
}

/// Subscriptions are run, made and dropped while a mutable borrow is held.
fn held(names: &'static [&'static str], bubbling: bool, rounds: usize) {
    let store = Store::new(initial());
    let mut m = initial();
    let nodes: Vec<_> = names.iter().map(|s| node(&store, idx(s))).collect();
    let wk: Vec<_> = (0..2).map(|_| CountWaker::new()).collect();
    // (stream, path, polled, changed)
    let mut sl: Vec<Option<(Sub, usize, bool, bool)>> = (0..2)
        .map(|i| {
            let p = choose(nodes.len());
            let mut st = nodes[p].subscribe(bubbling);
            ck!(st.as_mut().poll_next(&mut Context::from_waker(&wk[i].1)).is_pending(), "a subscription fired without a change");
            note(|| format!("subscription to {}", nodes[p].name()));
            Some((st, p, true, false))
        })
        .collect();
    for n in 0..rounds {
        let t = choose(nodes.len());
        let kind = choose(nodes[t].kinds().min(2));
        let exp = nodes[t].model_write(&mut m, kind, n as u32 + 1);
        let ok = nodes[t].hold(kind, n as u32 + 1, &mut |when| {
            note(|| format!("while {} is borrowed, {} the change:", nodes[t].name(), ["before", "after"][when as usize]));
            let mut acts = vec![(0, 0)];
            for (i, s) in sl.iter().enumerate() {
                if s.is_some() {
                    acts.extend([(1, i), (2, i)]);
                } else {
                    acts.extend((0..nodes.len()).map(|p| (3 + p, i)));
                }
            }
            let (k, i) = *of(&acts);
            match k {
                0 => {}
                1 => {
                    let s = sl[i].as_mut().unwrap();
                    let r = s.0.as_mut().poll_next(&mut Context::from_waker(&wk[i].1)).is_ready();
                    let want = s.2 && s.3;
                    note(|| format!("run subscription {i}: fired {r}"));
                    // (the change may or may not be announced before the borrow ends, but it must
                    // be announced when it ends: the data can change until then)
                    let concerned = when == 1 && expect_fire(bubbling, &*nodes[s.1], &*nodes[t], How::BorrowMut, true);
                    ck!(r == want || (concerned && r), "subscription {i} to {} run while {} is borrowed: fired {r}, expected {want}", nodes[s.1].name(), nodes[t].name());
                    s.2 = true;
                    s.3 = false;
                }
                2 => {
                    note(|| format!("drop subscription {i}"));
                    sl[i] = None;
                }
                p => {
                    note(|| format!("subscription {i} to {}", nodes[p - 3].name()));
                    let mut st = nodes[p - 3].subscribe(bubbling);
                    ck!(st.as_mut().poll_next(&mut Context::from_waker(&wk[i].1)).is_pending(), "a new subscription fired when it was first run");
                    sl[i] = Some((st, p - 3, true, false));
                }
            }
        });
        ck!(ok == exp, "borrowing {}: {ok}, the piece of data is there: {exp}", nodes[t].name());
        let mut missing = false;
        for (s, wk) in sl.iter_mut().zip(&wk) {
            let got = wk.0.take() > 0;
            let Some(s) = s else { continue };
            if expect_fire(bubbling, &*nodes[s.1], &*nodes[t], How::BorrowMut, ok) {
                missing |= s.2 && !s.3 && !got;
                s.3 = true;
            }
        }
        ck!(!missing, "the task is not woken when the borrow of {} ends", nodes[t].name());
        step(&(n, t, sl.iter().flatten().map(|s| (s.1, s.3)).collect::<Vec<_>>()));
        for (i, s) in sl.iter_mut().enumerate() {
            if let Some(s) = s {
                if n + 1 < rounds && choose(2) == 1 {
                    continue;
                }
                let r = s.0.as_mut().poll_next(&mut Context::from_waker(&wk[i].1)).is_ready();
                ck!(r == s.3, "subscription {i} to {} run after the borrow of {} ended: fired {r}, expected {}", nodes[s.1].name(), nodes[t].name(), s.3);
                s.3 = false;
            }
        }
    }
    same(&store, &mut m, "at the end");
    sl.clear();
    ck!(wk.iter().all(|w| Arc::strong_count(&w.0) == 2), "all subscriptions are gone but the store still holds a waker");
    outcome(&m.show());
}

// ---------------------------------------------------------------- long paths

#[derive(Trackable)]
#[track(deep)]
struct Tree {
    v: u32,
    kids: Vec<Tree>,
}
fn tree(levels: usize) -> Tree {
    let mut t = Tree { v: 0, kids: vec![] };
    for _ in 0..levels {
        t = Tree { v: 0, kids: vec![t, Tree { v: 0, kids: vec![] }] };
    }
    t
}
type TreePath<'s> = Rc<dyn Path<Out = Tree> + 's>;
fn tree_at<'s>(store: &'s Store<Tree>, at: &[usize]) -> TreePath<'s> {
    let mut p: TreePath<'s> = Rc::new(store.build_path().into_path());
    for i in at {
        p = Rc::new(p.build_path().kids().index(*i).into_path());
    }
    p
}
const LEVELS: &[usize] = &[0, 1, 2, 3, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40];
/// The value at every depth, seen from subscriptions at every depth, through every route.
fn long_paths(bubbling: bool, levels: &'static [usize]) {
    let max = *levels.last().unwrap();
    let store = Store::new(tree(max));
    let mut place = || {
        let l = *of(levels);
        let mut at = vec![0; l];
        if l > 0 && choose(2) == 1 {
            at[l - 1] = 1;
        }
        (at, choose(2) == 1)
    };
    // the node itself or its value
    let (s_at, s_leaf) = place();
    let (w_at, w_leaf) = place();
    let segs = |at: &[usize], leaf: bool| {
        let mut s: Vec<String> = at.iter().flat_map(|i| ["kids".to_string(), i.to_string()]).collect();
        s.extend(leaf.then(|| "v".to_string()));
        s
    };
    let (ss, ws) = (segs(&s_at, s_leaf), segs(&w_at, w_leaf));
    note(|| format!("subscribe at depth {}, write at depth {}", ss.len(), ws.len()));
    let node = tree_at(&store, &s_at);
    let leaf = node.clone().build_path().v().into_path();
    let (wk, w) = CountWaker::new();
    let mut cx = Context::from_waker(&w);
    let mut st: Sub = match (bubbling, s_leaf) {
        (true, true) => Box::pin(leaf.until_bubbling_change()),
        (true, false) => Box::pin(PathExt::until_bubbling_change(&node)),
        (false, true) => Box::pin(leaf.until_change()),
        (false, false) => Box::pin(PathExt::until_change(&node)),
    };
    ck!(st.as_mut().poll_next(&mut cx).is_pending(), "a subscription fired without a change");
    for n in 1..=2 {
        let target = tree_at(&store, &w_at);
        let ok = if w_leaf {
            target.clone().build_path().v().set_opt(n).is_ok()
        } else {
            PathExt::borrow_opt_mut(&target).map(|mut g| g.v = n).is_some()
        };
        ck!(ok, "the piece of data at depth {} is not found", ws.len());
        ck!(PathExt::borrow_opt(&target).map(|g| g.v) == Some(n), "the change at depth {} cannot be read back", ws.len());
        let exp = if bubbling { below(&ws, &ss) } else { below(&ss, &ws) };
        let woken = wk.take() > 0;
        let r = st.as_mut().poll_next(&mut cx).is_ready();
        ck!(woken == exp && r == exp, "a subscription at depth {} and a write at depth {} ({}): woken {woken}, fired {r}, expected {exp}", ss.len(), ws.len(), if exp { "concerned" } else { "elsewhere" });
        ck!(st.as_mut().poll_next(&mut cx).is_pending(), "a subscription fired twice for the same change");
        step(&(ss.len(), ws.len(), exp));
    }
    // nothing else was written
    let mut sum = 0;
    fn add(t: &Tree, sum: &mut u32) {
        *sum += t.v;
        t.kids.iter().for_each(|k| add(k, sum));
    }
    add(&PathExtGuaranteed::borrow(&store.build_path().into_path()), &mut sum);
    ck!(sum == 2, "a write at depth {} changed other pieces of the data", ws.len());
    drop(st);
    ck!(Arc::strong_count(&wk) == 2, "a dropped subscription still holds its waker");
    outcome(&(ss.len(), ws.len()));
}

// ---------------------------------------------------------------- the same steps in another order

#[derive(Trackable, Default)]
#[track(deep)]
struct Bush {
    v: u32,
    kids: Vec<Bush>,
    more: Vec<Bush>,
    by_key: HashMap<usize, Bush>,
}
fn bush(levels: usize) -> Bush {
    if levels == 0 {
        return Bush::default();
    }
    let two = || (0..2).map(|_| bush(levels - 1));
    Bush { v: 0, kids: two().collect(), more: two().collect(), by_key: two().enumerate().collect() }
}
type BushPath<'s> = Rc<dyn Path<Out = Bush> + 's>;
const STEPS: [(&str, usize); 6] = [("kids", 0), ("kids", 1), ("more", 0), ("more", 1), ("by_key", 0), ("by_key", 1)];
fn bush_at<'s>(store: &'s Store<Bush>, at: &[usize]) -> BushPath<'s> {
    let mut p: BushPath<'s> = Rc::new(store.build_path().into_path());
    for i in at {
        let (f, k) = STEPS[*i];
        let b = p.build_path();
        p = match f {
            "kids" => Rc::new(b.kids().index(k).into_path()),
            "more" => Rc::new(b.more().index(k).into_path()),
            _ => Rc::new(b.by_key().key(k).into_path()),
        };
    }
    p
}
/// Data of one type at every place of a tree: no two places are confused, whatever steps they have in common.
fn same_steps(bubbling: bool, levels: usize, steps: usize) {
    let store = Store::new(bush(levels));
    let mut place = || {
        let l = choose(levels + 1);
        let at: Vec<usize> = (0..l).map(|_| choose(steps)).collect();
        let name = at.iter().flat_map(|i| [STEPS[*i].0.to_string(), STEPS[*i].1.to_string()]).collect::<Vec<_>>();
        (at, name)
    };
    let (sa, ss) = place();
    let (wa, ws) = place();
    note(|| format!("subscribe to {:?}, write {:?}", ss.join("."), ws.join(".")));
    let exp = if bubbling { below(&ws, &ss) } else { below(&ss, &ws) };
    let node = bush_at(&store, &sa);
    let (wk, w) = CountWaker::new();
    let mut cx = Context::from_waker(&w);
    let mut st: Sub = if bubbling { Box::pin(PathExt::until_bubbling_change(&node)) } else { Box::pin(PathExt::until_change(&node)) };
    ck!(st.as_mut().poll_next(&mut cx).is_pending(), "a subscription fired without a change");
    let target = bush_at(&store, &wa);
    match PathExt::borrow_opt_mut(&target) {
        Some(mut g) => g.v += 1,
        None => fail("a piece of data that is there is not found"),
    }
    let woken = wk.take() > 0;
    let r = st.as_mut().poll_next(&mut cx).is_ready();
    ck!(woken == exp && r == exp, "woken {woken}, fired {r}, expected {exp}");
    let mut sum = 0;
    fn add(t: &Bush, sum: &mut u32) {
        *sum += t.v;
        t.kids.iter().chain(&t.more).chain(t.by_key.values()).for_each(|k| add(k, sum));
    }
    add(&PathExtGuaranteed::borrow(&store.build_path().into_path()), &mut sum);
    ck!(sum == 1, "a write changed other pieces of the data");
    for (p, n) in [(&sa, &ss), (&wa, &ws)] {
        let got = PathExt::borrow_opt(&bush_at(&store, p)).map(|g| g.v);
        ck!(got == Some((p == &wa) as u32), "{:?} reads {got:?}", n.join("."));
    }
    step(&(ss.len(), ws.len(), exp));
    drop(st);
    ck!(Arc::strong_count(&wk) == 2, "a dropped subscription still holds its waker");
    outcome(&(ss.len(), ws.len(), exp));
}

// ---------------------------------------------------------------- many siblings

#[derive(Trackable)]
#[track(deep)]
pub struct Siblings {
    list: Vec<u8>,
    nums: HashMap<u64, u8>,
    signed: HashMap<i8, u8>,
    text: HashMap<String, u8>,
    pair: HashMap<(u16, u16), u8>,
    many: Many,
}
type LeafPath<'s> = Rc<dyn Path<Out = u8> + 's>;
include!("../many.rs");

const INDICES: &[usize] = &[0, 1, 2, 15, 16, 127, 128, 254, 255, 256, 257, 511, 512, 4095, 4096, 65535, 65536, 65537];
const NUMS: &[u64] = &[0, 1, 255, 256, 1 << 16, (1 << 16) + 1, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 48, 1 << 56, 1 << 63, u64::MAX];
const SIGNED: &[i8] = &[-128, -1, 0, 1, 127];
const TEXT: &[&str] = &["", "a", "b", "aa", "ab", "ba", "a b", "A", "a\0", "\0", "\u{ff}", "longer than the sixteen bytes of a block", "longer than the sixteen bytes of a blocK"];
const PAIRS: &[(u16, u16)] = &[(0, 0), (0, 1), (1, 0), (1, 1), (0, 256), (256, 0), (257, 0), (0, 257)];

fn wide_store() -> Store<Siblings> {
    Store::new(Siblings {
        list: vec![0; 65538],
        nums: NUMS.iter().map(|k| (*k, 0)).collect(),
        signed: SIGNED.iter().map(|k| (*k, 0)).collect(),
        text: TEXT.iter().map(|k| (k.to_string(), 0)).collect(),
        pair: PAIRS.iter().map(|k| (*k, 0)).collect(),
        many: Many::default(),
    })
}
/// The number of siblings of each kind that are looked at.
fn wide_len(kind: usize) -> usize {
    [INDICES.len(), NUMS.len(), SIGNED.len(), TEXT.len(), PAIRS.len(), MANY.len()][kind]
}
fn wide_at<'s>(store: &'s Store<Siblings>, kind: usize, i: usize) -> (LeafPath<'s>, String) {
    let p = store.build_path();
    match kind {
        0 => (Rc::new(p.list().index(INDICES[i]).into_path()), format!("list.{}", INDICES[i])),
        1 => (Rc::new(p.nums().key(NUMS[i]).into_path()), format!("nums.{}", NUMS[i])),
        2 => (Rc::new(p.signed().key(SIGNED[i]).into_path()), format!("signed.{}", SIGNED[i])),
        3 => (Rc::new(p.text().key(TEXT[i].to_string()).into_path()), format!("text.{:?}", TEXT[i])),
        4 => (Rc::new(p.pair().key(PAIRS[i]).into_path()), format!("pair.{:?}", PAIRS[i])),
        _ => (many_at(store, MANY[i]), format!("many.f{}", MANY[i])),
    }
}
/// Many siblings that differ in little: each is its own piece of data with its own subscriptions.
fn wide(bubbling: bool) {
    let store = wide_store();
    let kind = choose(6);
    // the one subscribed to (or all of them), and the one written to
    let (s, w) = (choose(wide_len(kind)), choose(wide_len(kind)));
    let (sp, sn) = wide_at(&store, kind, s);
    let (wp, wn) = wide_at(&store, kind, w);
    note(|| format!("subscribe to {sn}, write {wn}"));
    let (wk, wa) = CountWaker::new();
    let mut cx = Context::from_waker(&wa);
    let mut st: Sub = if bubbling { Box::pin(sp.until_bubbling_change()) } else { Box::pin(sp.until_change()) };
    ck!(st.as_mut().poll_next(&mut cx).is_pending(), "a subscription fired without a change");
    for n in 1..=2u8 {
        match wp.borrow_opt_mut() {
            Some(mut g) => {
                ck!(*g == n - 1, "{wn} is {}, expected {}", *g, n - 1);
                *g = n;
            }
            None => fail(format!("{wn} is not found")),
        }
        let woken = wk.take() > 0;
        let fired = st.as_mut().poll_next(&mut cx).is_ready();
        ck!(woken == (s == w) && fired == (s == w), "subscription to {sn}, write to {wn}: woken {woken}, fired {fired}");
        for i in 0..wide_len(kind) {
            let (p, name) = wide_at(&store, kind, i);
            let (got, exp) = (p.borrow_opt().map(|g| *g), if i == w { n } else { 0 });
            ck!(got == Some(exp), "{name} is {got:?} after a write to {wn}, expected {exp}");
        }
        step(&(kind, s == w, n));
    }
    let all = store.build_path().into_path();
    let all = PathExtGuaranteed::borrow(&all);
    let sum = all.list.iter().chain(all.nums.values()).chain(all.signed.values()).chain(all.text.values()).chain(all.pair.values()).map(|v| *v as u32).sum::<u32>() + many_sum(&all.many);
    ck!(sum == 2, "a write to {wn} changed other pieces of the data");
    outcome(&(kind, s == w));
}

// ---------------------------------------------------------------- C22

/// Work started by `for_each_async`.
#[derive(Default)]
struct Jobs {
    log: RefCell<Vec<String>>,
    /// per job: 0 running, 1 asked to finish, 2 finished, 3 cancelled
    state: RefCell<Vec<u8>>,
    wakers: RefCell<Vec<Option<Waker>>>,
    polls: Cell<u32>,
}
struct Job {
    id: usize,
    j: Rc<Jobs>,
}
impl Drop for Job {
    fn drop(&mut self) {
        let mut s = self.j.state.borrow_mut();
        if s[self.id] != 2 {
            s[self.id] = 3;
        }
    }
}
impl Jobs {
    fn start(self: &Rc<Self>, v: String) -> impl Future<Output = ()> {
        let id = self.state.borrow().len();
        self.state.borrow_mut().push(0);
        self.wakers.borrow_mut().push(None);
        self.log.borrow_mut().push(v);
        let job = Job { id, j: self.clone() };
        poll_fn(move |cx| {
            let j = &job.j;
            j.polls.set(j.polls.get() + 1);
            j.wakers.borrow_mut()[job.id] = Some(cx.waker().clone());
            let mut s = j.state.borrow_mut();
            ck!(s[job.id] < 2, "work that is over is run again");
            if s[job.id] == 1 {
                s[job.id] = 2;
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        })
    }
}

/// Values that come in from the other side of a two-way binding.
#[derive(Default)]
struct Incoming {
    queue: RefCell<VecDeque<Option<String>>>,
    waker: RefCell<Option<Waker>>,
    ended: Cell<bool>,
}
struct In<T>(Rc<Incoming>, fn(String) -> T);
impl<T> Stream for In<T> {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        ck!(!self.0.ended.get(), "a stream is run after it ended");
        *self.0.waker.borrow_mut() = Some(cx.waker().clone());
        match self.0.queue.borrow_mut().pop_front() {
            Some(Some(v)) => Poll::Ready(Some((self.1)(v))),
            Some(None) => {
                self.0.ended.set(true);
                Poll::Ready(None)
            }
            None => Poll::Pending,
        }
    }
}

/// for_each, for_each_async and signal_stream on `names[0]`, writes through all `names`.
/// `reps`: also that many writes, and that many writes each of which is followed by a run.
fn derived(names: &'static [&'static str], what: u8, ops: usize, reps: &'static [usize]) {
    let store = Store::new(initial());
    let mut m = initial();
    let nodes: Vec<_> = names.iter().map(|s| node(&store, idx(s))).collect();
    let me = &*nodes[0];
    let wk: Vec<_> = (0..2).map(|_| CountWaker::new()).collect();
    let log: Log = Default::default();
    let jobs: Rc<Jobs> = Default::default();
    let mut fut = match what {
        0 => Some(me.for_each(log.clone())),
        1 => Some(me.for_each_async(jobs.clone())),
        _ => None,
    };
    let now = what == 2;
    let mut sig = (what >= 2).then(|| me.signal(now));
    let (mut polled, mut changed, mut last_w) = (false, false, 0);
    let mut running: Option<usize> = None;
    let mut queue: VecDeque<(u8, usize, usize)> = VecDeque::new();
    let (mut n, mut left) = (0, ops);
    // one burst in each history
    let mut burst = reps.is_empty();
    loop {
        n += 1;
        let mut acts: Vec<(u8, usize, usize)> = vec![(0, 0, 0), (0, 1, 0)];
        for p in 0..names.len() {
            acts.extend((0..nodes[p].kinds().min(2)).map(|k| (1, p, k)));
        }
        acts.push((2, 0, 0));
        if running.is_some_and(|r| jobs.state.borrow()[r] == 0) {
            acts.push((3, 0, 0));
        }
        if queue.is_empty() {
            if left == 0 {
                break;
            }
            left -= 1;
            let writes = if burst { 0 } else { 2 * names.len() };
            let c = choose(acts.len() + writes);
            if c < acts.len() {
                queue.push_back(acts[c]);
            } else {
                burst = true;
                let (p, run) = ((c - acts.len()) / 2, c % 2 == 1);
                for _ in 0..*of(reps) {
                    queue.push_back((1, p, 0));
                    if run {
                        queue.push_back((0, 0, 0));
                    }
                }
            }
        }
        let (k, a, b) = queue.pop_front().unwrap();
        match k {
            0 => {
                let mut cx = Context::from_waker(&wk[a].1);
                let data = me.model_read(&mut m);
                if let Some(s) = &mut sig {
                    let r = s.as_mut().poll_next(&mut cx);
                    note(|| format!("run with waker {a}: {r:?}"));
                    let fire = if polled { changed } else { now };
                    if !fire {
                        ck!(r.is_pending(), "the stream of values of {} yielded without a change", me.name());
                    } else {
                        ck!(r == Poll::Ready(data.clone()), "the stream of values of {} gives {r:?}, the data is {data:?}", me.name());
                        if data.is_none() {
                            break;
                        }
                    }
                } else {
                    let before = (log.borrow().len(), jobs.log.borrow().len(), jobs.polls.get());
                    ck!(fut.as_mut().unwrap().as_mut().poll(&mut cx).is_pending(), "the future finished by itself");
                    let l = if what == 0 { &log } else { &jobs.log as &RefCell<_> };
                    let from = if what == 0 { before.0 } else { before.1 };
                    let calls = l.borrow()[from..].to_vec();
                    note(|| format!("run with waker {a}: called with {calls:?}"));
                    let exp: Vec<String> = if !polled || changed { data.clone().into_iter().collect() } else { vec![] };
                    ck!(calls == exp, "the function for each value of {} was called with {calls:?}, expected {exp:?}", me.name());
                    if what == 1 {
                        if !exp.is_empty() {
                            if let Some(r) = running {
                                ck!(jobs.state.borrow()[r] >= 2, "the work for the old value goes on after the value changed");
                            }
                            running = Some(jobs.state.borrow().len() - 1);
                        }
                        if let Some(r) = running {
                            let st = jobs.state.borrow()[r];
                            if polled && changed && data.is_none() {
                                // the value is gone: whether its work goes on is not specified
                                if st == 3 {
                                    running = None;
                                }
                            } else {
                                ck!(st != 3, "the work for the current value was cancelled");
                            }
                            ck!(st != 1, "the work for the current value was woken but not run");
                            ck!(st == 2 || running.is_none() || jobs.polls.get() == before.2 + 1, "the work for the current value was run {} times", jobs.polls.get() - before.2);
                            if st == 2 {
                                running = None;
                            }
                        }
                        let live = jobs.state.borrow().iter().filter(|s| **s < 2).count();
                        ck!(live <= 1, "{live} pieces of work are in progress at once");
                    }
                }
                polled = true;
                changed = false;
                last_w = a;
                for w in &wk {
                    w.0.take();
                }
            }
            1 => {
                let exp = nodes[a].model_write(&mut m, b, n as u32 + 1);
                let ok = nodes[a].write(How::BorrowMut, b, n as u32 + 1);
                note(|| format!("write through {} (kind {b}): {ok}", nodes[a].name()));
                ck!(ok == exp, "writing through {}: {ok}, the piece of data is there: {exp}", nodes[a].name());
                let f = ok && below(me.segs(), nodes[a].segs());
                let was = changed;
                changed |= f;
                for (w, k) in wk.iter().enumerate() {
                    let got = k.0.take() > 0;
                    let want = f && polled && last_w == w;
                    ck!(got == want || (want && was), "write through {}: task {w} woken: {got}, expected {want}", nodes[a].name());
                }
            }
            2 => {
                note(|| "write silently".into());
                if me.model_write(&mut m, 0, n as u32 + 1) {
                    me.write(How::Silent, 0, n as u32 + 1);
                }
            }
            _ => {
                let r = running.unwrap();
                note(|| format!("let the work {r} finish"));
                jobs.state.borrow_mut()[r] = 1;
                let w = jobs.wakers.borrow_mut()[r].take();
                match w {
                    Some(w) => w.wake(),
                    None => fail("the work for the current value was never run"),
                }
                ck!(wk[last_w].0.take() > 0, "work in progress was not given the task's waker");
            }
        }
        step(&(polled, changed, running.is_some(), me.read()));
    }
    fut = None;
    sig = None;
    let _ = (&fut, &sig);
    ck!(jobs.state.borrow().iter().all(|s| *s >= 2), "the future was dropped but work it started is still kept");
    jobs.wakers.borrow_mut().clear();
    for w in &wk {
        ck!(Arc::strong_count(&w.0) == 2, "everything is dropped but the store still holds a waker");
    }
    outcome(&m.show());
}

/// A two-way binding of the title (or of an element that may vanish).
fn binding(place: u8, ops: usize) {
    let store = Store::new(initial());
    let root = store.build_path();
    let title = root.title().into_path();
    let elem = store.build_path().list().index(0).name().into_path();
    let wk: Vec<_> = (0..3).map(|_| CountWaker::new()).collect();
    let log: Log = Default::default();
    let inc: Rc<Incoming> = Default::default();
    let l2 = log.clone();
    let on_change = move |v: &String| l2.borrow_mut().push(v.clone());
    let read = || if place == 0 { title.get_opt() } else { elem.get_opt() };
    let mut fut: Option<Pin<Box<dyn Future<Output = ()> + '_>>> = Some(if place == 0 {
        Box::pin(title.bind_for_each(on_change, In(inc.clone(), |s| s)))
    } else {
        Box::pin(elem.bind_for_each(on_change, In(inc.clone(), |s| s)))
    });
    // somebody else who watches the same data
    let mut other: Sub = if place == 0 { Box::pin(title.until_change()) } else { Box::pin(elem.until_change()) };
    ck!(other.as_mut().poll_next(&mut Context::from_waker(&wk[2].1)).is_pending(), "a subscription fired without a change");
    let mut model = read();
    let (mut polled, mut changed, mut last_w) = (false, false, 0);
    for n in 0..ops {
        let mut acts: Vec<u8> = vec![0, 1, 2, 3, 4];
        let ended = inc.queue.borrow().iter().any(|v| v.is_none());
        if !ended && model.is_some() {
            acts.extend([5, 6]);
        } else if !ended {
            acts.push(6);
        }
        if place == 1 {
            acts.push(7);
        }
        let k = *of(&acts);
        let mut external = false;
        match k {
            0 | 1 => {
                let w = k as usize;
                let q: Vec<Option<String>> = inc.queue.borrow().iter().cloned().collect();
                let last = q.iter().flatten().next_back().cloned();
                if last.is_some() && model.is_none() {
                    // where an incoming value goes when there is no data is not specified
                    break;
                }
                let ends = q.iter().any(|v| v.is_none());
                let from = log.borrow().len();
                let r = fut.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&wk[w].1));
                let calls = log.borrow()[from..].to_vec();
                note(|| format!("run with waker {w}, incoming {q:?}: {r:?}, reported {calls:?}"));
                if let Some(v) = &last {
                    model = Some(v.clone());
                }
                ck!(read() == model, "after incoming values {q:?}, the data is {:?}", read());
                ck!(r.is_ready() == ends, "the binding finished: {}, its incoming stream ended: {ends}", r.is_ready());
                let o = other.as_mut().poll_next(&mut Context::from_waker(&wk[2].1)).is_ready();
                ck!(o == last.is_some(), "another subscription to the data fired: {o}, the binding wrote: {}", last.is_some());
                ck!((wk[2].0.take() > 0) == last.is_some(), "the task of another subscription is woken wrongly by a binding");
                if ends {
                    fut = None;
                    break;
                }
                if last.is_none() {
                    let exp: Vec<String> = if !polled || changed { model.clone().into_iter().collect() } else { vec![] };
                    ck!(calls == exp, "the binding reported {calls:?}, expected {exp:?}");
                } else if polled && !changed {
                    ck!(calls.is_empty(), "the binding reported {calls:?} although only an incoming value changed the data");
                } else {
                    // something else changed the data too: at most the current value is reported
                    ck!(calls.is_empty() || Some(&calls[calls.len() - 1]) == model.as_ref(), "the binding reported {calls:?}, the data is {model:?}");
                }
                polled = true;
                changed = false;
                last_w = w;
                wk[0].0.take();
                wk[1].0.take();
            }
            2 => {
                note(|| format!("write v{n}"));
                let ok = if place == 0 { title.set_opt(format!("v{n}")).is_ok() } else { elem.set_opt(format!("v{n}")).is_ok() };
                ck!(ok == model.is_some(), "writing: {ok}");
                if ok {
                    model = Some(format!("v{n}"));
                    external = true;
                }
            }
            3 => {
                note(|| "write everything".into());
                let mut s = initial();
                s.title = format!("w{n}");
                s.list[0].name = format!("w{n}");
                store.build_path().set(s);
                model = Some(format!("w{n}"));
                external = true;
            }
            4 => {
                note(|| "write something else".into());
                *store.build_path().count().borrow_mut() += 1;
            }
            5 => {
                note(|| format!("incoming value i{n}"));
                inc.queue.borrow_mut().push_back(Some(format!("i{n}")));
                wake_in(&inc, &wk, polled, last_w);
            }
            6 => {
                note(|| "the incoming stream ends".into());
                inc.queue.borrow_mut().push_back(None);
                wake_in(&inc, &wk, polled, last_w);
            }
            _ => {
                note(|| "the list becomes empty".into());
                store.build_path().list().borrow_mut().clear();
                model = None;
                external = true;
            }
        }
        if external {
            let got = wk[last_w].0.take() > 0;
            ck!(got || !polled || changed, "the data changed but the task of the binding is not woken");
            changed = true;
            ck!(other.as_mut().poll_next(&mut Context::from_waker(&wk[2].1)).is_ready(), "another subscription missed a change");
            wk[2].0.take();
        }
        step(&(polled, changed, model.is_some(), inc.queue.borrow().len()));
    }
    drop(fut);
    drop(other);
    *inc.waker.borrow_mut() = None;
    for w in &wk {
        ck!(Arc::strong_count(&w.0) == 2, "everything is dropped but the store still holds a waker");
    }
    outcome(&model);
}
fn wake_in(inc: &Incoming, wk: &[(Arc<CountWaker>, Waker)], polled: bool, last_w: usize) {
    if let Some(w) = inc.waker.borrow_mut().take() {
        w.wake();
    }
    let first = inc.queue.borrow().len() == 1;
    let got = wk[last_w].0.take() > 0;
    ck!(got || !polled || !first, "the incoming stream was not given the task's waker");
}

fn main() {
    let mut a = std::env::args().skip(1);
    let p = a.next().expect("property");
    let th = a.next().as_deref() == Some("thorough");
    let t = |q: usize, d: usize| if th { d } else { q };
    let mut cfgs = vec![];
    const FAMILIES: [(&str, &[&str]); 6] = [
        ("lists", &["list", "list.0", "list.0.name", "list.1.name"]),
        ("maps", &["", "map.1", "map.1.name", "map.2"]),
        ("enum variants", &["kind", "kind.One_0", "kind.One_0.a", "kind.Two_left"]),
        ("options and boxes", &["list.0.child", "list.0.child.some", "list.0.child.some.box.name", "opt.some"]),
        ("tuples and generics", &["pos", "pos.1", "pos.1.a", "gen.more.0.0"]),
        ("fields", &["", "title", "title.content", "count"]),
    ];
    match p.as_str() {
        "C19" => {
            cfgs.push(Cfg::new("every path, every way to write, twice", || paths(2, true, false)));
            cfgs.push(Cfg::new("type-erased paths", erased));
            cfgs.push(Cfg::new("many siblings: every pair", || wide(false)));
            cfgs.push(Cfg::new("paths of the same steps, any two of up to 2", || same_steps(false, 2, 6)));
            if th {
                cfgs.push(Cfg::new("every path, every way to write, every kind of change, twice", || paths(2, true, true)));
                cfgs.push(Cfg::new("every path, every way to write, three times", || paths(3, false, false)));
            }
        }
        "C20" | "C21" => {
            let b = p == "C21";
            cfgs.push(Cfg::new("every pair of paths", move || pairs(b, 1)));
            cfgs.push(Cfg::new("every two writes", move || pairs(b, 2)));
            let modes: &'static [bool] = if b { &[true] } else { &[false] };
            for (name, f) in FAMILIES {
                let ops = t(4, 5);
                cfgs.push(Cfg::new(format!("{name}: 2 subscriptions, {ops} operations"), move || histories(f, 2, modes, ops, &[How::BorrowMut, How::Silent], 0)));
                cfgs.push(Cfg::new(format!("{name}: 2 running subscriptions, {ops} operations"), move || histories(f, 2, modes, ops, &[How::BorrowMut, How::Manual], 2)));
            }
            for (name, f) in FAMILIES {
                let r = t(2, 3);
                cfgs.push(Cfg::new(format!("{name}: subscriptions run while a borrow is held, {r} borrows"), move || held(f, b, r)));
            }
            for (name, f) in FAMILIES {
                let r = t(1, 2);
                cfgs.push(Cfg::new(format!("{name}: up to 1024 writes, or subscriptions that come and go, between two runs, {r} times"), move || far(f, modes, r, FAR)));
            }
            for n in [33, 65, 130, 300, 66000] {
                cfgs.push(Cfg::new(format!("{n} running subscriptions: any two go, up to two come"), move || crowd(&["list", "list.0", "list.0.name", "count"], modes, n)));
            }
            cfgs.push(Cfg::new("many siblings: every pair", move || wide(b)));
            cfgs.push(Cfg::new("paths of up to 81 steps", move || long_paths(b, LEVELS)));
            cfgs.push(Cfg::new("paths of the same steps, any two of up to 2", move || same_steps(b, 2, 6)));
            let n = t(2, 4);
            cfgs.push(Cfg::new(format!("paths of the same steps, any two of up to 3 of {n}"), move || same_steps(b, 3, n)));
            let ops = t(6, 7);
            cfgs.push(Cfg::new(format!("2 paths: 2 subscriptions, {ops} operations"), move || histories(&["list", "list.0"], 2, modes, ops, &[How::BorrowMut], 0)));
        }
        "C22" => {
            let places: [(&str, &[&str]); 4] = [
                ("a field", &["title", "", "count"]),
                ("an element", &["list.0.name", "list", "list.0", "list.1.name"]),
                ("a map entry", &["map.1", "map", "map.1.name"]),
                ("an enum variant", &["kind.One_0", "kind", "kind.One_0.a"]),
            ];
            for (name, f) in places {
                for (what, w) in ["for_each", "for_each_async", "signal_stream from the start", "signal_stream"].into_iter().zip(0..) {
                    let (ops, ops3) = (t(7, 8), t(3, 4));
                    cfgs.push(Cfg::new(format!("{what} of {name}, {ops} operations"), move || derived(f, w, ops, &[])));
                    cfgs.push(Cfg::new(format!("{what} of {name}, up to 1024 writes in a row, run after each or not, {ops3} operations"), move || derived(f, w, ops3, FAR)));
                }
            }
            for (name, place) in [("a field", 0), ("an element", 1)] {
                let ops = t(8, 9);
                cfgs.push(Cfg::new(format!("two-way binding of {name}, {ops} operations"), move || binding(place, ops)));
            }
        }
        "C23" => {
            let both: &'static [bool] = &[false, true];
            for (name, f) in FAMILIES {
                let f = &f[..3];
                let ops = t(4, 5);
                cfgs.push(Cfg::new(format!("{name}: 3 subscriptions of both kinds, {ops} operations"), move || histories(f, 3, both, ops, &[How::BorrowMut], 0)));
                for pre in [2, 3, 4, 5] {
                    let ops = if pre == 5 { 4 } else { ops };
                    cfgs.push(Cfg::new(format!("{name}: {pre} running subscriptions of both kinds, {ops} operations"), move || histories(f, pre + 1, both, ops, &[How::BorrowMut], pre)));
                }
            }
            for (k, (name, f)) in FAMILIES.into_iter().enumerate() {
                let f = &f[..3];
                let r = if k == 0 { 2 } else { t(1, 2) };
                cfgs.push(Cfg::new(format!("{name}: up to 1024 writes, or subscriptions that come and go, between two runs, {r} times"), move || far(f, both, r, FAR)));
            }
            cfgs.push(Cfg::new("65536 writes or subscriptions between two runs", move || far(&["count", ""], both, 1, &[65535, 65536])));
            for n in [33, 65, 130, 300, 66000] {
                cfgs.push(Cfg::new(format!("{n} running subscriptions: any two go, up to two come"), move || crowd(&["list", "list.0", "list.0.name", "count"], both, n)));
                cfgs.push(Cfg::new(format!("{n} running subscriptions to one path: any two go, up to two come"), move || crowd(&["count"], both, n)));
            }
            let ops = t(7, 9);
            cfgs.push(Cfg::new(format!("one path: 3 subscriptions, {ops} operations"), move || histories(&["count"], 3, &[false], ops, &[How::BorrowMut], 0)));
            for pre in [8, 14, 15, 16] {
                let ops = t(3, 4);
                cfgs.push(Cfg::new(format!("{pre} running subscriptions, {ops} operations"), move || histories(&["", "list.0.name", "list.0"], pre + 1, both, ops, &[How::BorrowMut], pre)));
            }
        }
        _ => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    run(Check {
        property: p,
        tier: if th { "thorough".into() } else { "quick".into() },
        cfgs,
        rule: "one execution = one history of subscriptions, runs and writes on a real store; every history within the bounds named in the configuration is run; data and prefix relation of the paths are modelled by plain Rust accesses and by the list of segments".into(),
        assumptions: vec!["no two paths of the catalogue have the same 64-bit hash (the documented source of spurious wakes; the hash function is deterministic)".into()],
    })
}
