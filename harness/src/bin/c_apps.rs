//! C28: the applications in /repo/examples, compiled as they are and used in every way up to a bound.
//!
//! The sources of the examples are included unchanged; each runs under the real executor on the
//! in-memory DOM. What the user sees (texts, fields, check boxes, classes, which elements there are)
//! is compared with an ordinary Rust model of the application after every action.
use harness::{choose, ck, note, of, outcome, run, step, Cfg, Check};
use std::future::Future;
use wasm_bindgen::JsCast;
use web_sys::{fake, HtmlElement, HtmlInputElement, Node};

use async_ui_web::mount_at;

#[allow(dead_code, unused)]
mod ex {
    pub mod todomvc {
        include!("/repo/examples/web-todomvc/src/app.rs");
        pub mod css {
            pub use super::style::*;
        }
    }
    pub mod counter {
        include!("/repo/examples/web-simple-examples/src/counter.rs");
    }
    pub mod converter {
        include!("/repo/examples/web-simple-examples/src/temp_converter.rs");
    }
    pub mod timer {
        include!("/repo/examples/web-simple-examples/src/timer.rs");
    }
    pub mod cells {
        include!("/repo/examples/web-simple-examples/src/cells.rs");
    }
    pub mod flight {
        include!("/repo/examples/web-simple-examples/src/flight.rs");
        pub mod css {
            pub use super::style::*;
        }
    }
    pub mod crud {
        include!("/repo/examples/web-simple-examples/src/crud.rs");
    }
    pub mod circles {
        include!("/repo/examples/web-simple-examples/src/circles.rs");
        pub mod css {
            pub use super::style::*;
        }
    }
    pub mod draggable {
        include!("/repo/examples/async_ui_web_draggable/src/lib.rs");
    }
    pub mod login {
        include!("/repo/examples/login-flow/src/lib.rs");
        pub async fn start() {
            app().await
        }
    }
    pub mod playground {
        include!("/repo/examples/x-bow-playground/src/lib.rs");
        pub mod css {
            pub use super::style::*;
        }
        pub async fn start() {
            app().await
        }
    }
    pub mod slots {
        include!("/repo/examples/guide-project/src/dynamicity/dynamic_slot.rs");
        pub async fn start(two: bool) {
            if two {
                show_button_and_remove_2().await
            } else {
                show_button_and_remove().await
            }
        }
    }
    pub mod fibo {
        include!("/repo/examples/guide-project/src/dynamicity/lists.rs");
        pub async fn start() {
            fibonacci().await
        }
    }
    pub mod countdown {
        include!("/repo/examples/guide-project/src/dynamicity/js_api.rs");
        pub async fn start(n: i32) {
            countdown(n).await
        }
    }
    pub mod events {
        include!("/repo/examples/guide-project/src/events/mod.rs");
        pub async fn start(n: usize) {
            match n {
                0 => quick_example().await,
                1 => return_type().await,
                _ => prevent_default_with_stream().await,
            }
        }
    }
}

// ---- the user

/// A page with one of the applications on it.
struct Page {
    host: HtmlElement,
    app: Option<Box<dyn std::any::Any>>,
}
impl Page {
    fn open(app: impl Future<Output = ()> + 'static) -> Page {
        let host: HtmlElement = harness::dom::div().unchecked_into();
        let app = mount_at(app, host.clone().into());
        let p = Page { host, app: Some(Box::new(app)) };
        pump();
        p
    }
    fn close(mut self) {
        self.app = None;
        pump();
        ck!(fake::children(&self.host).is_empty(), "after the application was unmounted, the page still has {}", fake::html(&self.host, true));
        ck!(fake::live_listeners() == 0, "after the application was unmounted, {} event listeners are left", fake::live_listeners());
        ck!(gloo_timers::fake::counting() == 0, "after the application was unmounted, {} timers are left", gloo_timers::fake::counting());
        gloo_timers::fake::reset();
        fake::reset();
    }
}
fn pump() {
    let mut n = 0;
    while fake::timers() > 0 {
        n += 1;
        ck!(n < 500, "the application keeps itself busy without end");
        fake::fire_timer(0);
    }
}
fn fire(n: &Node, class: &'static str, ty: &str) -> bool {
    let e = fake::event(class, ty, true, true);
    fake::dispatch(n.as_ref(), &e);
    pump();
    e.default_prevented()
}
fn click(n: &Node) -> bool {
    fire(n, "MouseEvent", "click")
}
fn input(n: &Node) -> HtmlInputElement {
    n.clone().unchecked_into()
}
fn enter(n: &Node, text: &str, ev: &str) {
    input(n).set_value(text);
    fire(n, "Event", ev);
}
fn has(n: &Node, c: &str) -> bool {
    n.dyn_ref::<web_sys::Element>().is_some_and(|e| e.class_name().split_whitespace().any(|x| x == c))
}
/// Children that are not comments.
fn kids(n: &Node) -> Vec<Node> {
    fake::children(n).into_iter().filter(|c| c.node_type() != 8).collect()
}
fn text(n: &Node) -> String {
    n.text_content().unwrap_or_default()
}
fn find(n: &Node, f: &dyn Fn(&Node) -> bool) -> Vec<Node> {
    let mut out = vec![];
    for k in kids(n) {
        if f(&k) {
            out.push(k.clone());
        }
        out.extend(find(&k, f));
    }
    out
}
fn tags(n: &Node, t: &str) -> Vec<Node> {
    find(n, &|k| fake::tag(k) == t)
}
/// The one element with this class.
fn the(n: &Node, c: &str) -> Node {
    let v = find(n, &|k| has(k, c));
    ck!(v.len() == 1, "the page has {} elements of class {c}, not one: {}", v.len(), fake::html(n, false));
    v.into_iter().next().unwrap()
}

// ---- TodoMVC

use ex::todomvc::css;

#[derive(Debug, Clone, PartialEq, Hash)]
struct Todo {
    text: String,
    checked: bool,
    editor: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Hash)]
struct Seen {
    items: Vec<(String, bool, bool, bool, Option<String>)>,
    entry: String,
    left: String,
    main_hidden: bool,
    clear_hidden: bool,
    all: bool,
    filter: Vec<bool>,
}
#[derive(Default)]
struct TodoModel {
    items: Vec<Todo>,
    entry: String,
    filter: usize,
    all: bool,
}
impl TodoModel {
    fn active(&self) -> usize {
        self.items.iter().filter(|i| !i.checked).count()
    }
    fn counted(&mut self) {
        self.all = self.active() == 0;
    }
    fn expect(&self) -> Seen {
        let n = self.active();
        Seen {
            items: self
                .items
                .iter()
                .map(|i| {
                    let hidden = (self.filter == 1 && i.checked) || (self.filter == 2 && !i.checked);
                    (i.text.clone(), i.checked, i.checked, hidden, i.editor.clone())
                })
                .collect(),
            entry: self.entry.clone(),
            left: if n == 1 { "1 item left".into() } else { format!("{n} items left") },
            main_hidden: self.items.is_empty(),
            clear_hidden: n == self.items.len(),
            all: self.all,
            filter: (0..3).map(|i| i == self.filter).collect(),
        }
    }
}
fn see(p: &Page) -> Seen {
    let main = the(&p.host, css::main);
    let list = the(&p.host, css::todo_list);
    Seen {
        items: kids(&list)
            .iter()
            .map(|li| {
                ck!(fake::tag(li) == "li", "the list holds a {}", fake::tag(li));
                let editors = find(li, &|k| has(k, css::edit));
                ck!(editors.len() <= 1, "an item has {} editors", editors.len());
                ck!(has(li, css::editing) != editors.is_empty(), "an item has the class `editing` but no editor, or the other way round");
                (
                    text(&the(li, css::view)),
                    input(&the(li, css::toggle)).checked(),
                    has(li, css::completed),
                    has(li, css::hidden),
                    editors.first().map(|e| input(e).value()),
                )
            })
            .collect(),
        entry: input(&the(&p.host, css::new_todo)).value(),
        left: text(&the(&main, css::todo_count)),
        main_hidden: has(&main, css::hidden),
        clear_hidden: has(&the(&main, css::clear_completed), css::hidden),
        all: input(&the(&main, css::toggle_all)).checked(),
        filter: tags(&the(&main, css::filters), "a").iter().map(|a| has(a, css::selected)).collect(),
    }
}
const NEW: &[&str] = &["a", " b c ", "  "];
fn todo_ops(m: &TodoModel, cap: usize) -> Vec<(usize, usize)> {
    let n = m.items.len();
    let mut v = vec![];
    if n < cap {
        v.push((0, 0));
        v.push((0, 1));
    }
    v.push((0, 2));
    for i in 0..n {
        v.push((1, i));
        v.push((2, i));
        v.push((3, i));
        if m.items[i].editor.is_some() {
            v.push((4, i));
            v.push((5, i));
        }
    }
    v.push((6, 0));
    for f in 0..3 {
        if f != m.filter {
            v.push((7, f));
        }
    }
    v.push((8, 0));
    v
}
fn todo_do(p: &Page, m: &mut TodoModel, op: (usize, usize)) {
    todo_act(p, m, op);
    let (got, exp) = (see(p), m.expect());
    ck!(got == exp, "TodoMVC shows {got:?}, but after this it must show {exp:?}");
    step(&got);
}
fn todo_act(p: &Page, m: &mut TodoModel, op: (usize, usize)) {
    let (k, i) = op;
    let li = |i: usize| kids(&the(&p.host, css::todo_list))[i].clone();
    match k {
        0 => {
            note(|| format!("enter {:?}", NEW[i]));
            enter(&the(&p.host, css::new_todo), NEW[i], "change");
            if NEW[i].trim().is_empty() {
                m.entry = NEW[i].into();
            } else {
                m.entry.clear();
                m.items.push(Todo { text: NEW[i].trim().into(), checked: false, editor: None });
                m.counted();
            }
        }
        1 => {
            note(|| format!("tick or untick item {i}"));
            let c = !m.items[i].checked;
            let b = the(&li(i), css::toggle);
            input(&b).set_checked(c);
            fire(&b, "Event", "change");
            m.items[i].checked = c;
            m.counted();
        }
        2 => {
            note(|| format!("delete item {i}"));
            click(&the(&li(i), css::destroy));
            m.items.remove(i);
            m.counted();
        }
        3 => {
            note(|| format!("double-click item {i}"));
            fire(&tags(&li(i), "label")[0], "MouseEvent", "dblclick");
            let it = &mut m.items[i];
            if it.editor.is_none() {
                it.editor = Some(it.text.clone());
            }
        }
        4 | 5 => {
            let s = if k == 4 { "new text " } else { "" };
            note(|| format!("edit item {i}: {s:?}"));
            enter(&the(&li(i), css::edit), s, if k == 4 { "change" } else { "blur" });
            m.items[i].text = s.trim().into();
            m.items[i].editor = None;
        }
        6 => {
            let c = !m.all;
            note(|| format!("mark all: {c}"));
            let b = the(&p.host, css::toggle_all);
            input(&b).set_checked(c);
            fire(&b, "Event", "change");
            m.all = c;
            if m.items.iter().any(|x| x.checked != c) {
                m.items.iter_mut().for_each(|x| x.checked = c);
                m.counted();
            }
        }
        7 => {
            note(|| format!("filter {i}"));
            click(&tags(&the(&p.host, css::filters), "a")[i]);
            m.filter = i;
        }
        _ => {
            note(|| "clear completed".to_string());
            click(&the(&p.host, css::clear_completed));
            let n = m.items.len();
            m.items.retain(|x| !x.checked);
            if m.items.len() != n {
                m.counted();
            }
        }
    }
}
fn todomvc(first: usize, ops: usize, cap: usize) {
    let p = Page::open(ex::todomvc::app());
    let mut m = TodoModel { all: false, ..Default::default() };
    for i in 0..first {
        todo_do(&p, &mut m, (0, i % 2));
    }
    for _ in 0..ops {
        let v = todo_ops(&m, cap);
        todo_do(&p, &mut m, *of(&v));
    }
    outcome(&m.expect());
    p.close();
}
/// Many items: add them, then use every item at one of these places.
fn todomvc_many(n: usize) {
    let p = Page::open(ex::todomvc::app());
    let mut m = TodoModel::default();
    for i in 0..n {
        // (a long page is not compared after every one)
        let f = if n > 100 && i + 1 < n && i % 64 > 0 { todo_act } else { todo_do };
        f(&p, &mut m, (0, i % 2));
    }
    let places = [0, 1, n / 2, n - 2, n - 1];
    let a = *of(&places);
    todo_do(&p, &mut m, (1 + choose(3), a));
    let b = *of(&places);
    let b = b.min(m.items.len() - 1);
    todo_do(&p, &mut m, (1 + choose(3), b));
    todo_do(&p, &mut m, *of(&[(6, 0), (7, 1), (7, 2), (8, 0)]));
    todo_do(&p, &mut m, (0, 0));
    todo_do(&p, &mut m, (8, 0));
    p.close();
}

/// The same few actions again and again, after which everything still works.
fn todomvc_long(n: usize) {
    const ROUNDS: &[&[(usize, usize)]] = &[
        &[(0, 0), (2, 0)],
        &[(0, 0), (2, 1)],
        &[(1, 0)],
        &[(1, 0), (8, 0), (0, 1)],
        &[(3, 0), (4, 0)],
        &[(3, 0), (5, 0)],
        &[(6, 0)],
        &[(7, 1), (7, 2), (7, 0)],
        &[(0, 1), (1, 0), (6, 0), (2, 1)],
    ];
    let p = Page::open(ex::todomvc::app());
    let mut m = TodoModel { all: false, ..Default::default() };
    let round = *of(ROUNDS);
    let first = choose(2) + (round.len() == 1 || round[0].0 == 3) as usize;
    for i in 0..first {
        todo_do(&p, &mut m, (0, i));
    }
    for _ in 0..n {
        for op in round {
            if matches!(op.0, 1..=5) && op.1 >= m.items.len() {
                continue;
            }
            todo_do(&p, &mut m, *op);
        }
    }
    for op in [(0, 1), (1, 0), (3, 0), (4, 0), (7, 1), (6, 0), (8, 0)] {
        if matches!(op.0, 1..=5) && op.1 >= m.items.len() {
            continue;
        }
        todo_do(&p, &mut m, op);
    }
    p.close();
}

// ---- the small applications of web-simple-examples

fn counter(ops: usize, long: bool) {
    let p = Page::open(ex::counter::counter());
    let mut v = 0i32;
    let see = |v: i32| {
        let t = text(&p.host);
        ck!(t == format!("{v}+1-1"), "the counter shows {t:?}, but the count is {v}");
        step(&v);
    };
    see(v);
    for _ in 0..ops {
        let d = if long { 0 } else { choose(2) };
        note(|| format!("click {}", ["+1", "-1"][d]));
        click(&tags(&p.host, "button")[d]);
        v += [1, -1][d];
        see(v);
    }
    outcome(&v);
    p.close();
}
fn converter(ops: usize) {
    const T: &[&str] = &["0", "100", "-40", "36.6", "", "x"];
    let p = Page::open(ex::converter::converter());
    let mut m = [String::new(), String::new()];
    for _ in 0..ops {
        let (side, t) = (choose(2), *of(T));
        note(|| format!("write {t:?} into field {side}"));
        let f = tags(&p.host, "input");
        enter(&f[side], t, "input");
        m[side] = t.into();
        if let Ok(v) = t.parse::<f32>() {
            let w = if side == 0 { v / 5.0 * 9.0 + 32.0 } else { (v - 32.0) / 9.0 * 5.0 };
            m[1 - side] = (w.round() as i32).to_string();
        }
        let got = [input(&f[0]).value(), input(&f[1]).value()];
        ck!(got == m, "the converter shows {got:?}, but must show {m:?}");
        step(&got);
    }
    p.close();
}
fn tick() -> bool {
    let b = gloo_timers::fake::expire();
    pump();
    b
}
fn timer(ops: usize) {
    const D: &[&str] = &["0.01", "0.1", "15"];
    let p = Page::open(ex::timer::timer());
    let (mut e, mut d) = (0.0f64, 15.0f64);
    for i in 0..ops + 1 {
        if i > 0 {
            match choose(3) {
                0 => {
                    note(|| "50 ms pass".to_string());
                    ck!(tick(), "the timer application does not wait for anything");
                    if e < d {
                        e += 0.05;
                    }
                }
                1 => {
                    let t = *of(D);
                    note(|| format!("move the slider to {t}"));
                    enter(&tags(&p.host, "input")[0], t, "input");
                    d = t.parse().unwrap();
                }
                _ => {
                    note(|| "reset".to_string());
                    click(&tags(&p.host, "button")[0]);
                    e = 0.0;
                }
            }
        }
        let bar = fake::attr(&tags(&p.host, "meter")[0], "value").unwrap_or_default();
        let t = text(&p.host);
        ck!(bar == (e / d).to_string(), "the bar of the timer is at {bar}, but {e} of {d} have passed");
        ck!(t == format!("Elapsed time: {e:.2}Duration: Reset"), "the timer shows {t:?}, but {e} of {d} have passed");
        step(&t);
    }
    p.close();
}
/// Cells of the spreadsheet: values and sums of ranges, given in an order that has no cycles.
fn cells(ops: usize) {
    const SHOWN: &[(usize, usize)] = &[(0, 0), (1, 0), (2, 0), (3, 1), (25, 99)];
    const WRITE: &[(usize, &str)] = &[
        (0, "1"),
        (0, "2.5"),
        (0, "no number"),
        (1, "3"),
        (1, "=SUM(A0:A0)"),
        (2, "=SUM(A0:B0)"),
        (2, "0"),
        (3, "=SUM(C0:C0)"),
        (3, "=SUM(A0:C0)"),
        (4, "=SUM(D1:D1)"),
    ];
    let p = Page::open(ex::cells::cells());
    let rows = tags(&p.host, "tr");
    ck!(rows.len() == 101, "the spreadsheet has {} rows", rows.len());
    let cell = |i: usize| {
        let (c, r) = SHOWN[i];
        kids(&rows[r + 1])[c + 1].clone()
    };
    let mut m: Vec<&str> = vec![""; SHOWN.len()];
    for _ in 0..ops {
        let (i, t) = *of(WRITE);
        note(|| format!("write {t:?} into cell {i}"));
        enter(&tags(&cell(i), "input")[0], t, "change");
        m[i] = t;
        let mut v = vec![f64::NAN; SHOWN.len()];
        for i in 0..v.len() {
            v[i] = match m[i].strip_prefix("=SUM(") {
                Some(r) => {
                    let at = |c: u8| (c - b'A') as usize;
                    (at(r.as_bytes()[0])..=at(r.as_bytes()[3])).map(|j| v[j]).sum()
                }
                None => m[i].parse().unwrap_or(f64::NAN),
            };
        }
        for i in 0..v.len() {
            let got = text(&tags(&cell(i), "span")[0]);
            let exp = if v[i].is_finite() { format!("={:.3}", v[i]) } else { String::new() };
            ck!(got == exp, "cell {i} shows {got:?}, but its value is {:?} (cells hold {m:?})", v[i]);
            ck!(input(&tags(&cell(i), "input")[0]).value() == m[i], "the text in cell {i} changed");
        }
        step(&m);
    }
    p.close();
}

fn flight(ops: usize) {
    use ex::flight::css as st;
    // with the date as a number that grows with the date
    const D: &[(&str, Option<u32>)] = &[("2024-02-29", Some(1)), ("2024-03-01", Some(2)), ("2023-02-29", None), ("", None)];
    let p = Page::open(ex::flight::flight());
    let (mut two_way, mut d) = (false, [("", None); 2]);
    for i in 0..ops + 1 {
        let f = tags(&p.host, "input");
        let c: web_sys::HtmlSelectElement = tags(&p.host, "select")[0].clone().unchecked_into();
        if i > 0 {
            let k = choose(3);
            if k == 2 {
                two_way = choose(2) == 1;
                note(|| format!("choose a return flight: {two_way}"));
                c.set_value(if two_way { "two-way" } else { "one-way" });
                fire(&c, "Event", "input");
            } else {
                d[k] = *of(D);
                note(|| format!("write {:?} into field {k}", d[k].0));
                enter(&f[k], d[k].0, "input");
            }
        }
        let ok = match (two_way, d[0].1, d[1].1) {
            (true, Some(a), Some(b)) => b > a,
            (false, Some(_), _) => true,
            _ => false,
        };
        let book: web_sys::HtmlButtonElement = tags(&p.host, "button")[0].clone().unchecked_into();
        ck!(c.value() == if two_way { "two-way" } else { "one-way" }, "the kind of flight became {:?}", c.value());
        ck!(book.disabled() != ok, "booking is {}, with a return flight: {two_way}, dates: {d:?}", if ok { "not possible" } else { "possible" });
        ck!(input(&f[1]).disabled() != two_way, "the second field is switched {}", if two_way { "off" } else { "on" });
        for k in 0..2 {
            ck!(has(&f[k], st::invalid) == d[k].1.is_none(), "field {k} with {:?} is marked as invalid: {}", d[k].0, has(&f[k], st::invalid));
        }
        step(&(two_way, d));
    }
    p.close();
}

fn crud(ops: usize) {
    const WHO: &[(&str, &str)] = &[("Ada", "Lovelace"), ("Alan", "Turing"), ("", "")];
    const PREFIX: &[&str] = &["", "Tu", "L"];
    let p = Page::open(ex::crud::crud());
    let f = tags(&p.host, "input");
    ck!(f.len() == 3, "{} input fields", f.len());
    let list: web_sys::HtmlSelectElement = tags(&p.host, "select")[0].clone().unchecked_into();
    let b = tags(&p.host, "button");
    let button = |i: usize| b[i].clone().unchecked_into::<web_sys::HtmlButtonElement>();
    // (number, name, hidden); the one that is selected; whether update and delete are switched on
    let mut m: Vec<(usize, String, bool)> = vec![];
    let (mut next, mut sel, mut on) = (1, None::<usize>, false);
    for _ in 0..ops {
        let k = choose(5);
        let name = || {
            let (n, s) = *of(WHO);
            input(&f[1]).set_value(n);
            input(&f[2]).set_value(s);
            format!("{s}, {n}")
        };
        // updating or deleting without a selection makes this application panic by itself
        if matches!(k, 1 | 2) && sel.is_none() || k == 3 && m.is_empty() {
            continue;
        }
        match k {
            0 => {
                let n = name();
                note(|| format!("create {n}"));
                click(&b[0]);
                m.push((next, n, false));
                next += 1;
            }
            1 => {
                let n = name();
                note(|| format!("make the selected one {n}"));
                click(&b[1]);
                let i = m.iter().position(|x| Some(x.0) == sel).unwrap();
                m[i].1 = n;
            }
            2 => {
                note(|| "delete the selected one".to_string());
                click(&b[2]);
                m.retain(|x| Some(x.0) != sel);
                sel = None;
            }
            3 => {
                let i = choose(m.len());
                note(|| format!("select line {i}"));
                list.set_value(&m[i].0.to_string());
                fire(&list, "Event", "input");
                sel = Some(m[i].0);
                on = true;
            }
            _ => {
                let x = *of(PREFIX);
                note(|| format!("filter {x:?}"));
                enter(&f[0], x, "input");
                m.iter_mut().for_each(|y| y.2 = !y.1.starts_with(x));
            }
        }
        let got: Vec<_> = tags(&p.host, "option")
            .iter()
            .map(|o| {
                let o: web_sys::HtmlOptionElement = o.clone().unchecked_into();
                ck!(o.hidden() == o.disabled(), "a hidden line can be selected");
                (o.value(), text(&o), o.hidden(), o.selected())
            })
            .collect();
        let exp: Vec<_> = m.iter().map(|x| (x.0.to_string(), x.1.clone(), x.2, Some(x.0) == sel)).collect();
        ck!(got == exp, "the list of persons is {got:?}, but must be {exp:?}");
        ck!([button(1).disabled(), button(2).disabled()] == [!on; 2], "update and delete must be switched {}", if on { "on" } else { "off" });
        step(&(&m, sel));
    }
    p.close();
}

// ---- circles: a drawing program with undo

#[derive(Clone, Copy, Debug)]
enum Draw {
    Click(i32, i32),
    Move(i32, i32),
    Menu,
    Adjust,
    Slide(&'static str),
    Away,
    Inside,
    Undo,
    Redo,
}
#[derive(Clone, Debug, PartialEq, Hash)]
struct Shape {
    at: (i32, i32),
    /// the scale the program counts with (as text: it is a float)
    scale: &'static str,
    shown: Option<&'static str>,
    selected: bool,
}
#[derive(Clone, Copy, Debug)]
enum Done {
    Create(i32, i32),
    Scale(usize, &'static str, &'static str),
}
#[derive(Clone, Debug)]
enum Popup {
    Closed,
    Button,
    Slider(Option<&'static str>),
}
struct DrawModel {
    shapes: Vec<Shape>,
    done: Vec<Done>,
    cursor: usize,
    selected: Option<usize>,
    popup: Popup,
    /// the mouse moved while the menu was open
    moved: Option<(i32, i32)>,
}
impl DrawModel {
    fn track(&mut self, x: i32, y: i32) {
        let near = self
            .shapes
            .iter()
            .enumerate()
            .map(|(i, s)| (i, (((s.at.0 - x).pow(2) + (s.at.1 - y).pow(2)) as f64).sqrt()))
            .filter(|(i, d)| *d < self.shapes[*i].scale.parse::<f64>().unwrap() * 25.0)
            .min_by(|a, b| a.1.total_cmp(&b.1))
            .map(|v| v.0);
        if let Some(o) = self.selected {
            if near != Some(o) && o < self.shapes.len() {
                self.shapes[o].selected = false;
            }
        }
        if let Some(n) = near {
            self.shapes[n].selected = true;
        }
        self.selected = near;
    }
    fn add(&mut self, op: Done) {
        self.done.truncate(self.cursor);
        self.done.push(op);
        self.cursor += 1;
    }
    fn create(&mut self, x: i32, y: i32) {
        self.shapes.push(Shape { at: (x, y), scale: "1", shown: None, selected: false });
    }
    fn scale(&mut self, i: usize, v: &'static str) {
        self.shapes[i].scale = v;
        self.shapes[i].shown = Some(v);
    }
}
fn circles(ops: usize) {
    use ex::circles::css as st;
    const AT: &[(i32, i32)] = &[(10, 10), (30, 10), (200, 10)];
    let p = Page::open(ex::circles::circles());
    let mut m = DrawModel { shapes: vec![], done: vec![], cursor: 0, selected: None, popup: Popup::Closed, moved: None };
    let area = the(&p.host, st::area);
    let mouse = |n: &Node, ty: &str, (x, y): (i32, i32)| {
        let e = fake::event("MouseEvent", ty, true, true);
        fake::set_pos(&e, x, y);
        fake::dispatch(n.as_ref(), &e);
        pump();
        e.default_prevented()
    };
    for _ in 0..ops {
        let mut v = vec![];
        match m.popup {
            Popup::Closed => {
                v.extend(AT.iter().map(|a| Draw::Click(a.0, a.1)));
                // a selection that was undone away makes this application panic by itself
                if m.selected.is_none_or(|s| s < m.shapes.len()) {
                    v.push(Draw::Menu);
                }
            }
            Popup::Button => v.extend([Draw::Adjust, Draw::Away, Draw::Inside]),
            Popup::Slider(_) => v.extend([Draw::Slide("0.1"), Draw::Slide("2"), Draw::Away, Draw::Inside]),
        }
        v.extend(AT.iter().map(|a| Draw::Move(a.0, a.1)));
        if m.cursor > 0 {
            v.push(Draw::Undo);
        }
        if m.cursor < m.done.len() {
            v.push(Draw::Redo);
        }
        let op = *of(&v);
        note(|| format!("{op:?}"));
        let open = !matches!(m.popup, Popup::Closed);
        match op {
            Draw::Click(x, y) => {
                mouse(&area, "click", (x, y));
                m.add(Done::Create(x, y));
                m.create(x, y);
                m.track(x, y);
            }
            Draw::Move(x, y) => {
                if open {
                    mouse(&the(&p.host, st::backdrop), "mousemove", (x, y));
                    m.moved = Some((x, y));
                } else {
                    mouse(&area, "mousemove", (x, y));
                    m.track(x, y);
                }
            }
            Draw::Menu => {
                ck!(mouse(&area, "contextmenu", (7, 8)), "the browser's own menu is not suppressed");
                if m.selected.is_some() {
                    m.popup = Popup::Button;
                }
            }
            Draw::Adjust => {
                mouse(&tags(&the(&p.host, st::popup), "button")[0], "click", (0, 0));
                m.popup = Popup::Slider(None);
            }
            Draw::Slide(v) => {
                enter(&tags(&the(&p.host, st::popup), "input")[0], v, "input");
                m.popup = Popup::Slider(Some(v));
                let s = m.selected.unwrap();
                m.shapes[s].shown = Some(v);
            }
            Draw::Inside => {
                mouse(&the(&p.host, st::popup), "click", (0, 0));
            }
            Draw::Away => {
                mouse(&the(&p.host, st::backdrop), "click", (100, 100));
                if let Popup::Slider(Some(v)) = m.popup {
                    let s = m.selected.unwrap();
                    let from = m.shapes[s].scale;
                    m.add(Done::Scale(s, from, v));
                    m.scale(s, v);
                }
                m.popup = Popup::Closed;
                if let Some((x, y)) = m.moved.take() {
                    m.track(x, y);
                }
            }
            Draw::Undo => {
                mouse(&tags(&the(&p.host, st::top_part), "button")[0], "click", (0, 0));
                // while the menu is open the program does not listen
                if !open {
                    m.cursor -= 1;
                    match m.done[m.cursor] {
                        Done::Create(..) => {
                            m.shapes.pop();
                        }
                        Done::Scale(i, from, _) => m.scale(i, from),
                    }
                }
            }
            Draw::Redo => {
                mouse(&tags(&the(&p.host, st::top_part), "button")[1], "click", (0, 0));
                if !open {
                    match m.done[m.cursor] {
                        Done::Create(x, y) => m.create(x, y),
                        Done::Scale(i, _, to) => m.scale(i, to),
                    }
                    m.cursor += 1;
                }
            }
        }
        let seen = find(&area, &|k| has(k, st::circle));
        let got: Vec<_> = seen
            .iter()
            .map(|c| (fake::style(c, "left"), fake::style(c, "top"), fake::style(c, "--circle-scale"), has(c, st::circle_selected)))
            .collect();
        let exp: Vec<_> = m
            .shapes
            .iter()
            .map(|s| (Some(format!("{}px", s.at.0)), Some(format!("{}px", s.at.1)), s.shown.map(|v| v.to_string()), s.selected))
            .collect();
        ck!(got == exp, "the drawing shows {got:?}, but must show {exp:?}");
        let off: Vec<bool> = tags(&the(&p.host, st::top_part), "button").iter().map(|b| b.clone().unchecked_into::<web_sys::HtmlButtonElement>().disabled()).collect();
        let exp = [m.cursor == 0, m.cursor == m.done.len()];
        ck!(off == exp, "(undo, redo) are switched off: {off:?}, but must be {exp:?}");
        let pops = find(&area, &|k| has(k, st::popup));
        let got: Vec<_> = pops.iter().map(|x| (flat(x), fake::style(x, "left"), tags(x, "input").first().map(|i| input(i).value()))).collect();
        let at = Some("7px".to_string());
        let exp = match &m.popup {
            Popup::Closed => vec![],
            Popup::Button => vec![("[div][button]Adjust Diameter".to_string(), at, None)],
            Popup::Slider(v) => vec![("[input]".to_string(), at, Some(v.unwrap_or(m.shapes[m.selected.unwrap()].scale).to_string()))],
        };
        ck!(got == exp, "the menu shows {got:?}, but must show {exp:?}");
        step(&(&m.shapes, m.cursor, m.selected, m.done.len()));
    }
    outcome(&(&m.shapes, m.cursor));
    p.close();
}

// ---- the helper for dragging, used by a small application of our own

fn dragging(ops: usize) {
    use async_ui_web::{html::Div, join};
    use futures_lite::StreamExt;
    use std::{cell::RefCell, rc::Rc};
    let vertical = choose(2) == 0;
    let moves: Rc<RefCell<Vec<(u32, u32, bool)>>> = Default::default();
    let m2 = moves.clone();
    let p = Page::open(async move {
        let d = if vertical { ex::draggable::Dragger::new_vertical() } else { ex::draggable::Dragger::new_horizontal() };
        let divs = [Div::new(), Div::new(), Div::new()];
        join((
            join(divs.iter().enumerate().map(|(i, w)| d.wrap_item(i as u32, std::future::pending::<()>(), w)).collect::<Vec<_>>()),
            async {
                let mut s = Box::pin(d.until_move());
                while let Some(m) = s.next().await {
                    m2.borrow_mut().push((m.from, m.to, m.after));
                }
            },
        ))
        .await;
    });
    let items = kids(&p.host);
    ck!(items.len() == 3, "{} items are shown", items.len());
    // item i is 20 high and wide, at 20 * i
    let it = items.clone();
    fake::set_layout(Some(std::rc::Rc::new(move |e: &web_sys::Element| {
        let i = it.iter().position(|n| n.is_same_node(Some(e.as_ref()))).unwrap_or(0) as f64 * 20.0;
        (i, i + 20.0, i, i + 20.0)
    })));
    let drag = |i: usize, ty: &str, at: i32| {
        let e = fake::event("DragEvent", ty, true, true);
        fake::set_pos(&e, at, at);
        fake::dispatch(items[i].as_ref(), &e);
        pump();
        e.default_prevented()
    };
    // who is dragged; whether it has been dropped; what the drop would say; what was reported
    let (mut from, mut dropped, mut after, mut want) = (None::<usize>, false, false, vec![]);
    let mut gaps = [[false; 2]; 3];
    for _ in 0..ops {
        let (k, i) = (choose(5), choose(3));
        match (k, from) {
            (0, None) => {
                note(|| format!("start to drag item {i}"));
                drag(i, "dragstart", 0);
                from = Some(i);
                dropped = false;
            }
            (1, Some(f)) if i == 0 => {
                note(|| format!("end of dragging item {f}"));
                drag(f, "dragend", 0);
                from = None;
            }
            (2, Some(f)) => {
                for (half, at) in [(false, 5), (true, 15)] {
                    if choose(2) == 1 {
                        continue;
                    }
                    note(|| format!("drag over item {i}, second half: {half}"));
                    let active = !dropped;
                    let got = drag(i, "dragenter", 0);
                    ck!(got == active, "entering item {i} was {}accepted", if got { "" } else { "not " });
                    let got = drag(i, "dragover", 20 * i as i32 + at);
                    ck!(got == active, "dragging over item {i} was {}accepted", if got { "" } else { "not " });
                    if active && i != f {
                        after = half;
                        gaps[i] = [!half, half];
                    }
                }
            }
            (3, Some(_)) => {
                note(|| format!("leave item {i}"));
                drag(i, "dragleave", 0);
                gaps[i] = [false; 2];
            }
            (4, Some(f)) => {
                note(|| format!("drop on item {i}"));
                ck!(drag(i, "drop", 0), "the drop was not accepted");
                if !dropped {
                    want.push((f as u32, i as u32, after));
                }
                dropped = true;
                gaps[i] = [false; 2];
            }
            _ => continue,
        }
        ck!(*moves.borrow() == want, "the moves reported are {:?}, but must be {want:?}", moves.borrow());
        let names = if vertical { ["padding-top", "padding-bottom"] } else { ["padding-left", "padding-right"] };
        for i in 0..3 {
            for (n, name) in names.iter().enumerate() {
                let got = fake::style(&items[i], name);
                let exp = if gaps[i][n] { "20px" } else { "0px" };
                ck!(got.as_deref() == Some(exp), "{name} of item {i} is {got:?}, but must be {exp}");
            }
        }
        step(&(&want, gaps, from));
    }
    fake::set_layout(None);
    p.close();
}

// ---- login flow

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Login {
    Form,
    Checking(bool),
    Wrong,
    Listing,
    Chosen,
    Fetching(i32),
    Done(i32),
}
fn login(ops: usize) {
    let p = Page::open(ex::login::start());
    let mut m = Login::Form;
    for i in 0..ops + 1 {
        if i > 0 {
            let b = tags(&p.host, "button");
            let f = tags(&p.host, "input");
            m = match m {
                Login::Form => {
                    let (u, w) = *of(&[("user", "asdf"), ("user", ""), ("", "asdf")]);
                    note(|| format!("log in with {u:?} and {w:?}"));
                    input(&f[0]).set_value(u);
                    input(&f[1]).set_value(w);
                    click(&b[0]);
                    Login::Checking(u == "user" && w == "asdf")
                }
                Login::Wrong => {
                    click(&b[0]);
                    Login::Form
                }
                Login::Chosen => {
                    let n = choose(4);
                    note(|| format!("choose button {n}"));
                    click(&b[n]);
                    Login::Fetching(n as i32 + 1)
                }
                _ => {
                    note(|| "time passes".to_string());
                    tick();
                    match m {
                        Login::Checking(true) => Login::Listing,
                        Login::Checking(false) => Login::Wrong,
                        Login::Listing => Login::Chosen,
                        Login::Fetching(n) => Login::Done(n),
                        m => m,
                    }
                }
            };
        }
        let exp = match m {
            Login::Form => "username is 'user' and password is 'asdf'[input][input][button]Login".to_string(),
            Login::Checking(_) => "logging in".into(),
            Login::Wrong => "incorrect username/password[button]Retry".into(),
            Login::Listing => "fetching list of available data".into(),
            Login::Chosen => "which one do you want?".to_string() + &(1..5).map(|i| format!("[button]data with id {i}")).collect::<String>(),
            Login::Fetching(_) => "fetching data".into(),
            Login::Done(n) => format!("the connector returned: data id={n}: blah blah blah"),
        };
        let got = flat(&p.host);
        ck!(got == exp, "the application shows {got:?}, but its user is at {m:?} and must see {exp:?}");
        step(&m);
    }
    outcome(&m);
    p.close();
}
/// Texts and tags in document order.
fn flat(n: &Node) -> String {
    kids(n).iter().map(|k| if k.node_type() == 3 { text(k) } else { format!("[{}]{}", fake::tag(k), flat(k)) }).collect()
}

// ---- the x-bow playground

/// For each box in document order: its segments.
const BOXES: &[&str] = &["", "0", "00", "01", "010", "1", "10", "100", "11", "110", "12", "120", "13", "130"];
fn playground(ops: usize) {
    use ex::playground::css as st;
    let p = Page::open(ex::playground::start());
    let boxes = find(&p.host, &|k| has(k, st::node_box) && !has(k, st::instruction_node_box));
    ck!(boxes.len() == BOXES.len(), "the playground shows {} boxes instead of {}", boxes.len(), BOXES.len());
    for (i, b) in boxes.iter().enumerate() {
        let inside: Vec<usize> = (0..BOXES.len()).filter(|j| boxes[*j].contains(Some(b)) && *j != i).collect();
        let exp: Vec<usize> = (0..BOXES.len()).filter(|j| BOXES[i].starts_with(BOXES[*j]) && *j != i).collect();
        ck!(inside == exp, "box {i} is shown inside the boxes {inside:?}, not {exp:?}");
    }
    let clear = tags(&p.host, "button");
    ck!(clear.len() == 1, "the playground has {} buttons", clear.len());
    for _ in 0..ops {
        let k = choose(BOXES.len() + 1);
        note(|| if k == BOXES.len() { "clear".into() } else { format!("click box {k} (path {:?})", BOXES[k]) });
        click(if k == BOXES.len() { &clear[0] } else { &boxes[k] });
        for (i, b) in boxes.iter().enumerate() {
            let exp = match BOXES.get(k) {
                None => (false, false),
                Some(c) => (BOXES[i].starts_with(c), c.starts_with(BOXES[i])),
            };
            let got = (has(b, st::changed_regular), has(b, st::changed_bubbling));
            ck!(got == exp, "box {i} (path {:?}) shows (changed, bubbled) = {got:?}, but must show {exp:?}", BOXES[i]);
        }
        step(&k);
    }
    p.close();
}

// ---- the applications of the guide

fn guide(which: usize, ops: usize) {
    let fib = |n: usize| (0..n).fold((1u64, 1u64), |(a, b), _| (b, a + b)).0;
    let p = match which {
        0 => Page::open(ex::slots::start(false)),
        1 => Page::open(ex::slots::start(true)),
        2 => Page::open(ex::fibo::start()),
        _ => Page::open(ex::countdown::start(3)),
    };
    // the page may be closed at any time
    let stop = choose(ops + 1);
    for i in 0..stop + 1 {
        if i > 0 {
            tick();
        }
        let exp = match (which, i) {
            (0 | 1, 0) => "[button]I will disappear soon!".to_string(),
            (0 | 1, 1) => "The button is gone!".into(),
            (0 | 1, _) => "".into(),
            (2, n) => (0..n + 2).map(|k| format!("[div]The {}th Fibonacci number is {}.", k + 1, fib(k))).collect(),
            (_, n) if n < 3 => (3 - n).to_string(),
            _ => "boom!".into(),
        };
        let got = flat(&p.host);
        ck!(got == exp, "after {i} expired timers the page shows {got:?}, but must show {exp:?}");
        step(&got);
    }
    p.close();
}
fn guide_events(which: usize, ops: usize) {
    let p = Page::open(ex::events::start(which));
    let b = kids(&p.host)[0].clone();
    for i in 0..ops {
        let got = click(&b);
        ck!(got == (which == 2 || which == 1 && i == 0), "click {i}: the default action of the link was {}prevented", if got { "" } else { "not " });
    }
    p.close();
}

fn main() {
    let p = harness::property();
    let th = harness::thorough();
    let t = |a: usize, b: usize| if th { b } else { a };
    let mut cfgs: Vec<Cfg> = vec![];
    let ops = t(5, 6);
    cfgs.push(Cfg::new(format!("TodoMVC, {ops} actions, up to 2 items"), move || todomvc(0, ops, 2)));
    let ops = t(4, 5);
    cfgs.push(Cfg::new(format!("TodoMVC with 2 items, {ops} actions, up to 3 items"), move || todomvc(2, ops, 3)));
    let n = t(300, 1000);
    cfgs.push(Cfg::new(format!("TodoMVC, the same actions {n} times"), move || todomvc_long(n)));
    for n in [9, 40, t(300, 600)] {
        cfgs.push(Cfg::new(format!("TodoMVC with {n} items"), move || todomvc_many(n)));
    }
    let ops = t(8, 12);
    cfgs.push(Cfg::new(format!("counter, {ops} clicks"), move || counter(ops, false)));
    let ops = t(1000, 70_000);
    cfgs.push(Cfg::new(format!("counter, {ops} clicks on +1"), move || counter(ops, true)));
    let ops = t(3, 4);
    cfgs.push(Cfg::new(format!("temperature converter, {ops} inputs"), move || converter(ops)));
    let ops = t(5, 7);
    cfgs.push(Cfg::new(format!("timer, {ops} actions"), move || timer(ops)));
    let ops = t(2, 3);
    cfgs.push(Cfg::new(format!("spreadsheet, {ops} entries"), move || cells(ops)));
    let ops = t(3, 4);
    cfgs.push(Cfg::new(format!("flight booker, {ops} actions"), move || flight(ops)));
    let ops = t(5, 6);
    cfgs.push(Cfg::new(format!("persons, {ops} actions"), move || crud(ops)));
    let ops = t(5, 6);
    cfgs.push(Cfg::new(format!("circles, {ops} actions"), move || circles(ops)));
    let ops = t(4, 5);
    cfgs.push(Cfg::new(format!("draggable, {ops} actions"), move || dragging(ops)));
    let ops = t(12, 16);
    cfgs.push(Cfg::new(format!("login flow, {ops} actions"), move || login(ops)));
    let ops = t(3, 4);
    cfgs.push(Cfg::new(format!("x-bow playground, {ops} clicks"), move || playground(ops)));
    for (i, name, ops) in [(0, "dynamic slot", 4), (1, "two components in turn", 4), (2, "Fibonacci list", t(20, 60)), (3, "countdown", 5)] {
        cfgs.push(Cfg::new(format!("guide: {name}, closed after 0 to {ops} timers"), move || guide(i, ops)));
    }
    for i in 0..3 {
        cfgs.push(Cfg::new(format!("guide: link {i}"), move || guide_events(i, 3)));
    }
    run(Check {
        property: p,
        tier: if th { "thorough".into() } else { "quick".into() },
        cfgs,
        rule: "one execution = one example application and one sequence of user actions and expiring timers, run by the real library on the in-memory DOM".into(),
        assumptions: vec![
            "single-threaded use, as on wasm32".to_string(),
            "the in-memory DOM under /verif/fakes stands in for the browser; timers expire when told to".to_string(),
            "the executor gets its turn between two actions of the user".to_string(),
        ],
    })
}
