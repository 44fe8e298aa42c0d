//! Native stand-in for web-sys: an in-memory DOM that follows the DOM / HTML standards for the
//! operations a UI library performs. Everything is thread local; `fake::*` is the harness side.
#![allow(clippy::too_many_arguments)]
use js_sys::{Array, Function, Object};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;
use wasm_bindgen::{JsCast, JsObject, JsValue, __js_class};

// ---------------------------------------------------------------- objects

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub(crate) enum Kind {
    Element,
    Text,
    Comment,
    Fragment,
    Document,
    /// event targets that are not nodes
    Window,
    Plain,
}

struct Listener {
    ty: String,
    cb: JsValue,
    capture: bool,
    passive: bool,
    once: bool,
    removed: Cell<bool>,
}

pub(crate) struct Obj {
    kind: Kind,
    class: &'static str,
    id: u64,
    tag: String,
    parent: RefCell<Option<JsValue>>,
    children: RefCell<Vec<JsValue>>,
    data: RefCell<String>,
    attrs: RefCell<Vec<(String, String)>>,
    style: RefCell<Vec<(String, String)>>,
    listeners: RefCell<Vec<Rc<Listener>>>,
    // <option>
    selected: Cell<bool>,
    // <input>/<textarea>
    value: RefCell<String>,
    checked: Cell<bool>,
    scroll_top: Cell<f64>,
    scroll_left: Cell<f64>,
}
impl JsObject for Obj {
    fn class(&self) -> &'static str {
        self.class
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn debug(&self) -> String {
        format!("{}<{}>#{}", self.class, self.tag, self.id)
    }
}

pub(crate) struct EventObj {
    class: &'static str,
    ty: String,
    seq: u64,
    cancelable: bool,
    bubbles: bool,
    target: RefCell<JsValue>,
    current: RefCell<JsValue>,
    prevented: Cell<bool>,
    stop: Cell<bool>,
    stop_now: Cell<bool>,
    in_passive: Cell<bool>,
    dispatching: Cell<bool>,
    /// of mouse events: where in the target (and, there is one coordinate system, in the page)
    pos: Cell<(i32, i32)>,
}
impl JsObject for EventObj {
    fn class(&self) -> &'static str {
        self.class
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

struct ExcObj {
    name: &'static str,
    msg: String,
}
impl JsObject for ExcObj {
    fn class(&self) -> &'static str {
        "DOMException"
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn debug(&self) -> String {
        format!("{}: {}", self.name, self.msg)
    }
}
fn exc<T>(name: &'static str, msg: String) -> Result<T, JsValue> {
    Err(JsValue::__from_obj(Rc::new(ExcObj { name, msg })))
}

struct World {
    next_id: u64,
    all: Vec<JsValue>,
    document: Option<JsValue>,
    window: Option<JsValue>,
    timers: VecDeque<(i32, JsValue)>,
    next_timer: i32,
    fuel: u64,
    log_on: bool,
    log: Vec<fake::Mutation>,
    layout: Option<Rc<dyn Fn(&Element) -> (f64, f64, f64, f64)>>,
    ios: Vec<JsValue>,
    event_seq: u64,
    console: Vec<String>,
    listeners_live: i64,
    hooks: HashMap<&'static str, u64>,
}
thread_local!(static W: RefCell<World> = RefCell::new(World {
    next_id: 0, all: vec![], document: None, window: None, timers: VecDeque::new(), next_timer: 1,
    fuel: u64::MAX, log_on: false, log: vec![], layout: None, ios: vec![], event_seq: 0, console: vec![],
    listeners_live: 0, hooks: HashMap::new(),
}));

#[track_caller]
fn burn() {
    let out = W.with(|w| {
        let mut w = w.borrow_mut();
        if w.fuel == 0 {
            return true;
        }
        w.fuel -= 1;
        false
    });
    if out {
        panic!("DOM operation budget exhausted (livelock)");
    }
}

fn new_obj(kind: Kind, class: &'static str, tag: &str) -> JsValue {
    burn();
    W.with(|w| {
        let mut w = w.borrow_mut();
        let id = w.next_id;
        w.next_id += 1;
        let v = JsValue::__from_obj(Rc::new(Obj {
            kind,
            class,
            id,
            tag: tag.to_string(),
            parent: RefCell::new(None),
            children: RefCell::new(vec![]),
            data: RefCell::new(String::new()),
            attrs: RefCell::new(vec![]),
            style: RefCell::new(vec![]),
            listeners: RefCell::new(vec![]),
            selected: Cell::new(false),
            value: RefCell::new(String::new()),
            checked: Cell::new(false),
            scroll_top: Cell::new(0.0),
            scroll_left: Cell::new(0.0),
        }));
        w.all.push(v.clone());
        v
    })
}
#[track_caller]
fn obj(v: &JsValue) -> &Obj {
    match v.__downcast::<Obj>() {
        Some(o) => o,
        None => panic!("TypeError: not a DOM object: {v:?}"),
    }
}
fn cast<T: JsCast>(v: JsValue) -> T {
    T::unchecked_from_js(v)
}

// ---------------------------------------------------------------- class table

fn class_is(c: Option<&'static str>, want: &str) -> bool {
    let Some(mut c) = c else { return false };
    loop {
        if c == want {
            return true;
        }
        match PARENTS.with(|p| p.get(c).copied()) {
            Some(p) => c = p,
            None => return false,
        }
    }
}
macro_rules! classes {
    ($($T:ident < [$P:ident $(, $A:ident)*];)*) => {
        $( __js_class!($T < $P $(, $A)* , Object, JsValue; |v: &JsValue| class_is(v.__class(), stringify!($T))); )*
        thread_local!(static PARENTS: HashMap<&'static str, &'static str> = HashMap::from([$((stringify!($T), stringify!($P)),)*]));
    };
}
__js_class!(EventTarget < Object, JsValue; |v: &JsValue| v.__downcast::<Obj>().is_some());
__js_class!(Event < Object, JsValue; |v: &JsValue| v.__downcast::<EventObj>().is_some());
__js_class!(DomTokenList < Object, JsValue; |v: &JsValue| v.__class() == Some("DOMTokenList"));
__js_class!(CssStyleDeclaration < Object, JsValue; |v: &JsValue| v.__class() == Some("CSSStyleDeclaration"));
__js_class!(DomRect < Object, JsValue; |v: &JsValue| v.__class() == Some("DOMRect"));
__js_class!(AddEventListenerOptions < Object, JsValue; |_v: &JsValue| true);
__js_class!(EventListenerOptions < Object, JsValue; |_v: &JsValue| true);
__js_class!(IntersectionObserverInit < Object, JsValue; |_v: &JsValue| true);
__js_class!(IntersectionObserver < Object, JsValue; |v: &JsValue| v.__class() == Some("IntersectionObserver"));
__js_class!(IntersectionObserverEntry < Object, JsValue; |_v: &JsValue| true);
__js_class!(Performance < Object, JsValue; |_v: &JsValue| true);

classes! {
    Node < [EventTarget];
    Window < [EventTarget];
    Document < [Node, EventTarget];
    DocumentFragment < [Node, EventTarget];
    CharacterData < [Node, EventTarget];
    Text < [CharacterData, Node, EventTarget];
    Comment < [CharacterData, Node, EventTarget];
    Element < [Node, EventTarget];
    HtmlElement < [Element, Node, EventTarget];
    HtmlMediaElement < [HtmlElement, Element, Node, EventTarget];
    HtmlAudioElement < [HtmlMediaElement, HtmlElement, Element, Node, EventTarget];
    HtmlVideoElement < [HtmlMediaElement, HtmlElement, Element, Node, EventTarget];
    HtmlCanvasElement < [HtmlElement, Element, Node, EventTarget];
    HtmlTableColElement < [HtmlElement, Element, Node, EventTarget];
    HtmlDataListElement < [HtmlElement, Element, Node, EventTarget];
    HtmlMetaElement < [HtmlElement, Element, Node, EventTarget];
    HtmlLabelElement < [HtmlElement, Element, Node, EventTarget];
    HtmlHeadElement < [HtmlElement, Element, Node, EventTarget];
    HtmlBrElement < [HtmlElement, Element, Node, EventTarget];
    HtmlTableSectionElement < [HtmlElement, Element, Node, EventTarget];
    HtmlDListElement < [HtmlElement, Element, Node, EventTarget];
    HtmlTableElement < [HtmlElement, Element, Node, EventTarget];
    HtmlUListElement < [HtmlElement, Element, Node, EventTarget];
    HtmlTableCellElement < [HtmlElement, Element, Node, EventTarget];
    HtmlDetailsElement < [HtmlElement, Element, Node, EventTarget];
    HtmlProgressElement < [HtmlElement, Element, Node, EventTarget];
    HtmlSlotElement < [HtmlElement, Element, Node, EventTarget];
    HtmlQuoteElement < [HtmlElement, Element, Node, EventTarget];
    HtmlTimeElement < [HtmlElement, Element, Node, EventTarget];
    HtmlTemplateElement < [HtmlElement, Element, Node, EventTarget];
    HtmlTitleElement < [HtmlElement, Element, Node, EventTarget];
    HtmlOptGroupElement < [HtmlElement, Element, Node, EventTarget];
    HtmlSourceElement < [HtmlElement, Element, Node, EventTarget];
    HtmlFontElement < [HtmlElement, Element, Node, EventTarget];
    HtmlMeterElement < [HtmlElement, Element, Node, EventTarget];
    HtmlFormElement < [HtmlElement, Element, Node, EventTarget];
    HtmlIFrameElement < [HtmlElement, Element, Node, EventTarget];
    HtmlLinkElement < [HtmlElement, Element, Node, EventTarget];
    HtmlBodyElement < [HtmlElement, Element, Node, EventTarget];
    HtmlAreaElement < [HtmlElement, Element, Node, EventTarget];
    HtmlHrElement < [HtmlElement, Element, Node, EventTarget];
    HtmlMapElement < [HtmlElement, Element, Node, EventTarget];
    HtmlEmbedElement < [HtmlElement, Element, Node, EventTarget];
    HtmlDataElement < [HtmlElement, Element, Node, EventTarget];
    HtmlSpanElement < [HtmlElement, Element, Node, EventTarget];
    HtmlLiElement < [HtmlElement, Element, Node, EventTarget];
    HtmlOListElement < [HtmlElement, Element, Node, EventTarget];
    HtmlAnchorElement < [HtmlElement, Element, Node, EventTarget];
    HtmlMenuElement < [HtmlElement, Element, Node, EventTarget];
    HtmlHtmlElement < [HtmlElement, Element, Node, EventTarget];
    HtmlTableRowElement < [HtmlElement, Element, Node, EventTarget];
    HtmlDialogElement < [HtmlElement, Element, Node, EventTarget];
    HtmlPreElement < [HtmlElement, Element, Node, EventTarget];
    HtmlLegendElement < [HtmlElement, Element, Node, EventTarget];
    HtmlFrameElement < [HtmlElement, Element, Node, EventTarget];
    HtmlStyleElement < [HtmlElement, Element, Node, EventTarget];
    HtmlTableCaptionElement < [HtmlElement, Element, Node, EventTarget];
    HtmlOptionElement < [HtmlElement, Element, Node, EventTarget];
    HtmlDivElement < [HtmlElement, Element, Node, EventTarget];
    HtmlFrameSetElement < [HtmlElement, Element, Node, EventTarget];
    HtmlDirectoryElement < [HtmlElement, Element, Node, EventTarget];
    HtmlPictureElement < [HtmlElement, Element, Node, EventTarget];
    HtmlTextAreaElement < [HtmlElement, Element, Node, EventTarget];
    HtmlImageElement < [HtmlElement, Element, Node, EventTarget];
    HtmlObjectElement < [HtmlElement, Element, Node, EventTarget];
    HtmlUnknownElement < [HtmlElement, Element, Node, EventTarget];
    HtmlBaseElement < [HtmlElement, Element, Node, EventTarget];
    HtmlInputElement < [HtmlElement, Element, Node, EventTarget];
    HtmlScriptElement < [HtmlElement, Element, Node, EventTarget];
    HtmlOutputElement < [HtmlElement, Element, Node, EventTarget];
    HtmlMenuItemElement < [HtmlElement, Element, Node, EventTarget];
    HtmlParamElement < [HtmlElement, Element, Node, EventTarget];
    HtmlModElement < [HtmlElement, Element, Node, EventTarget];
    HtmlSelectElement < [HtmlElement, Element, Node, EventTarget];
    HtmlTrackElement < [HtmlElement, Element, Node, EventTarget];
    HtmlButtonElement < [HtmlElement, Element, Node, EventTarget];
    HtmlParagraphElement < [HtmlElement, Element, Node, EventTarget];
    HtmlHeadingElement < [HtmlElement, Element, Node, EventTarget];
    HtmlFieldSetElement < [HtmlElement, Element, Node, EventTarget];
    UiEvent < [Event];
    MouseEvent < [UiEvent, Event];
    WheelEvent < [MouseEvent, UiEvent, Event];
    DragEvent < [MouseEvent, UiEvent, Event];
    PointerEvent < [MouseEvent, UiEvent, Event];
    KeyboardEvent < [UiEvent, Event];
    CompositionEvent < [UiEvent, Event];
    TouchEvent < [UiEvent, Event];
    FocusEvent < [UiEvent, Event];
    InputEvent < [UiEvent, Event];
    ClipboardEvent < [Event];
    CustomEvent < [Event];
}

fn class_of_tag(tag: &str) -> &'static str {
    match tag {
        "a" => "HtmlAnchorElement",
        "area" => "HtmlAreaElement",
        "audio" => "HtmlAudioElement",
        "br" => "HtmlBrElement",
        "base" => "HtmlBaseElement",
        "button" => "HtmlButtonElement",
        "canvas" => "HtmlCanvasElement",
        "dl" => "HtmlDListElement",
        "data" => "HtmlDataElement",
        "datalist" => "HtmlDataListElement",
        "dialog" => "HtmlDialogElement",
        "div" => "HtmlDivElement",
        "embed" => "HtmlEmbedElement",
        "fieldset" => "HtmlFieldSetElement",
        "form" => "HtmlFormElement",
        "frameset" => "HtmlFrameSetElement",
        "hr" => "HtmlHrElement",
        "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => "HtmlHeadingElement",
        "iframe" => "HtmlIFrameElement",
        "img" => "HtmlImageElement",
        "input" => "HtmlInputElement",
        "li" => "HtmlLiElement",
        "label" => "HtmlLabelElement",
        "legend" => "HtmlLegendElement",
        "link" => "HtmlLinkElement",
        "map" => "HtmlMapElement",
        "meta" => "HtmlMetaElement",
        "meter" => "HtmlMeterElement",
        "ol" => "HtmlOListElement",
        "object" => "HtmlObjectElement",
        "optgroup" => "HtmlOptGroupElement",
        "option" => "HtmlOptionElement",
        "output" => "HtmlOutputElement",
        "p" => "HtmlParagraphElement",
        "picture" => "HtmlPictureElement",
        "pre" => "HtmlPreElement",
        "progress" => "HtmlProgressElement",
        "q" | "blockquote" => "HtmlQuoteElement",
        "select" => "HtmlSelectElement",
        "source" => "HtmlSourceElement",
        "span" => "HtmlSpanElement",
        "style" => "HtmlStyleElement",
        "th" | "td" => "HtmlTableCellElement",
        "col" | "colgroup" => "HtmlTableColElement",
        "table" => "HtmlTableElement",
        "tr" => "HtmlTableRowElement",
        "thead" | "tfoot" | "tbody" => "HtmlTableSectionElement",
        "template" => "HtmlTemplateElement",
        "textarea" => "HtmlTextAreaElement",
        "time" => "HtmlTimeElement",
        "track" => "HtmlTrackElement",
        "ul" => "HtmlUListElement",
        "video" => "HtmlVideoElement",
        "body" => "HtmlBodyElement",
        "head" => "HtmlHeadElement",
        "html" => "HtmlHtmlElement",
        _ => "HtmlElement",
    }
}

// ---------------------------------------------------------------- globals

pub fn window() -> Option<Window> {
    let existing = W.with(|w| w.borrow().window.clone());
    let v = existing.unwrap_or_else(|| {
        let v = new_obj(Kind::Window, "Window", "#window");
        W.with(|w| w.borrow_mut().window = Some(v.clone()));
        v
    });
    Some(cast(v))
}
fn document_value() -> JsValue {
    if let Some(d) = W.with(|w| w.borrow().document.clone()) {
        return d;
    }
    let d = new_obj(Kind::Document, "Document", "#document");
    W.with(|w| w.borrow_mut().document = Some(d.clone()));
    let html = new_obj(Kind::Element, "HtmlHtmlElement", "html");
    let head = new_obj(Kind::Element, "HtmlHeadElement", "head");
    let body = new_obj(Kind::Element, "HtmlBodyElement", "body");
    attach(&d, &html, None);
    attach(&html, &head, None);
    attach(&html, &body, None);
    d
}
fn schedule_timer(cb: &JsValue) -> i32 {
    burn();
    W.with(|w| {
        let mut w = w.borrow_mut();
        let id = w.next_timer;
        w.next_timer += 1;
        w.timers.push_back((id, cb.clone()));
        id
    })
}
impl Window {
    pub fn document(&self) -> Option<Document> {
        Some(cast(document_value()))
    }
    pub fn set_timeout_with_callback(&self, f: &Function) -> Result<i32, JsValue> {
        Ok(schedule_timer(f.as_ref()))
    }
    pub fn set_timeout_with_callback_and_timeout_and_arguments_0(&self, f: &Function, _ms: i32) -> Result<i32, JsValue> {
        Ok(schedule_timer(f.as_ref()))
    }
    pub fn request_animation_frame(&self, f: &Function) -> Result<i32, JsValue> {
        Ok(schedule_timer(f.as_ref()))
    }
    pub fn queue_microtask(&self, f: &Function) {
        schedule_timer(f.as_ref());
    }
    pub fn set_timeout_with_callback_and_timeout(&self, f: &Function, _ms: i32) -> Result<i32, JsValue> {
        Ok(schedule_timer(f.as_ref()))
    }
    pub fn set_timeout_with_callback_and_timeout_and_arguments(&self, f: &Function, _ms: i32, _a: &Array) -> Result<i32, JsValue> {
        Ok(schedule_timer(f.as_ref()))
    }
    pub fn cancel_animation_frame(&self, h: i32) -> Result<(), JsValue> {
        self.clear_timeout_with_handle(h);
        Ok(())
    }
    pub fn clear_timeout(&self) {}
    pub fn clear_timeout_with_handle(&self, h: i32) {
        W.with(|w| w.borrow_mut().timers.retain(|(i, _)| *i != h));
    }
}
impl Document {
    pub fn create_element(&self, tag: &str) -> Result<Element, JsValue> {
        if tag.is_empty() || !tag.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') || !tag.as_bytes()[0].is_ascii_alphabetic() {
            return exc("InvalidCharacterError", format!("bad tag name {tag:?}"));
        }
        let tag = tag.to_ascii_lowercase();
        Ok(cast(new_obj(Kind::Element, class_of_tag(&tag), &tag)))
    }
    pub fn create_text_node(&self, data: &str) -> Text {
        let v = new_obj(Kind::Text, "Text", "#text");
        *obj(&v).data.borrow_mut() = data.to_string();
        cast(v)
    }
    pub fn create_comment(&self, data: &str) -> Comment {
        let v = new_obj(Kind::Comment, "Comment", "#comment");
        *obj(&v).data.borrow_mut() = data.to_string();
        cast(v)
    }
    pub fn create_document_fragment(&self) -> DocumentFragment {
        cast(new_obj(Kind::Fragment, "DocumentFragment", "#fragment"))
    }
    fn part(&self, tag: &str) -> Option<JsValue> {
        let d = document_value();
        let html = obj(&d).children.borrow().first().cloned()?;
        let r = obj(&html).children.borrow().iter().find(|c| obj(c).tag == tag).cloned();
        r
    }
    pub fn document_element(&self) -> Option<Element> {
        let d = document_value();
        let r = obj(&d).children.borrow().first().cloned().map(cast);
        r
    }
    pub fn body(&self) -> Option<HtmlElement> {
        self.part("body").map(cast)
    }
    pub fn head(&self) -> Option<HtmlHeadElement> {
        self.part("head").map(cast)
    }
}
impl Text {
    pub fn new() -> Result<Text, JsValue> {
        Self::new_with_data("")
    }
    pub fn new_with_data(s: &str) -> Result<Text, JsValue> {
        let v = new_obj(Kind::Text, "Text", "#text");
        *obj(&v).data.borrow_mut() = s.to_string();
        Ok(cast(v))
    }
}
impl Comment {
    pub fn new() -> Result<Comment, JsValue> {
        Self::new_with_data("")
    }
    pub fn new_with_data(s: &str) -> Result<Comment, JsValue> {
        let v = new_obj(Kind::Comment, "Comment", "#comment");
        *obj(&v).data.borrow_mut() = s.to_string();
        Ok(cast(v))
    }
}
impl DocumentFragment {
    pub fn new() -> Result<DocumentFragment, JsValue> {
        Ok(cast(new_obj(Kind::Fragment, "DocumentFragment", "#fragment")))
    }
}
impl CharacterData {
    pub fn data(&self) -> String {
        obj(self.as_ref()).data.borrow().clone()
    }
    pub fn set_data(&self, s: &str) {
        burn();
        *obj(self.as_ref()).data.borrow_mut() = s.to_string();
    }
    pub fn length(&self) -> u32 {
        self.data().encode_utf16().count() as u32
    }
    pub fn append_data(&self, s: &str) -> Result<(), JsValue> {
        self.set_data(&(self.data() + s));
        Ok(())
    }
    pub fn remove(&self) {
        let me: &JsValue = self.as_ref();
        detach(me);
    }
}

// ---------------------------------------------------------------- tree

fn parent_of(v: &JsValue) -> Option<JsValue> {
    obj(v).parent.borrow().clone()
}
fn index_in(parent: &JsValue, c: &JsValue) -> usize {
    obj(parent).children.borrow().iter().position(|x| x == c).expect("fake DOM corrupted")
}
fn is_inclusive_ancestor(a: &JsValue, of: &JsValue) -> bool {
    let mut cur = Some(of.clone());
    while let Some(c) = cur {
        if &c == a {
            return true;
        }
        cur = parent_of(&c);
    }
    false
}
fn detach(c: &JsValue) {
    if let Some(p) = parent_of(c) {
        let i = index_in(&p, c);
        obj(&p).children.borrow_mut().remove(i);
        *obj(c).parent.borrow_mut() = None;
        log(fake::MutKind::Removed, &p, c);
        select_tree_changed(&p);
    }
}
fn attach(parent: &JsValue, c: &JsValue, before: Option<&JsValue>) {
    let i = match before {
        Some(b) => index_in(parent, b),
        None => obj(parent).children.borrow().len(),
    };
    obj(parent).children.borrow_mut().insert(i, c.clone());
    *obj(c).parent.borrow_mut() = Some(parent.clone());
    log(fake::MutKind::Inserted, parent, c);
    option_inserted(parent, c);
    select_tree_changed(parent);
}
fn log(kind: fake::MutKind, parent: &JsValue, node: &JsValue) {
    W.with(|w| {
        let mut w = w.borrow_mut();
        if w.log_on {
            let m = fake::Mutation { kind, parent: cast(parent.clone()), node: cast(node.clone()) };
            w.log.push(m);
        }
    })
}
fn insert_before_impl(parent: &JsValue, node: &JsValue, child: Option<&JsValue>) -> Result<(), JsValue> {
    burn();
    let p = obj(parent);
    if !matches!(p.kind, Kind::Element | Kind::Fragment | Kind::Document) {
        return exc("HierarchyRequestError", format!("{parent:?} cannot have children"));
    }
    if is_inclusive_ancestor(node, parent) {
        return exc("HierarchyRequestError", format!("{node:?} is an ancestor of {parent:?}"));
    }
    if let Some(c) = child {
        if parent_of(c).as_ref() != Some(parent) {
            return exc("NotFoundError", format!("insertBefore: reference {c:?} is not a child of {parent:?}"));
        }
    }
    match obj(node).kind {
        Kind::Element | Kind::Text | Kind::Comment | Kind::Fragment => {}
        _ => return exc("HierarchyRequestError", format!("{node:?} cannot be inserted")),
    }
    // "if referenceChild is node, then set referenceChild to node's next sibling"
    let mut reference = child.cloned();
    if reference.as_ref() == Some(node) {
        let i = index_in(parent, node);
        reference = p.children.borrow().get(i + 1).cloned();
    }
    if obj(node).kind == Kind::Fragment {
        let kids: Vec<JsValue> = obj(node).children.borrow().clone();
        for k in kids.iter() {
            detach(k);
        }
        for k in kids.iter() {
            burn();
            attach(parent, k, reference.as_ref());
        }
    } else {
        detach(node);
        attach(parent, node, reference.as_ref());
    }
    Ok(())
}
impl Node {
    fn v(&self) -> &JsValue {
        self.as_ref()
    }
    pub const ELEMENT_NODE: u16 = 1;
    pub const TEXT_NODE: u16 = 3;
    pub const COMMENT_NODE: u16 = 8;
    pub const DOCUMENT_NODE: u16 = 9;
    pub const DOCUMENT_FRAGMENT_NODE: u16 = 11;
    pub fn node_type(&self) -> u16 {
        match obj(self.v()).kind {
            Kind::Element => 1,
            Kind::Text => 3,
            Kind::Comment => 8,
            Kind::Document => 9,
            Kind::Fragment => 11,
            _ => 0,
        }
    }
    pub fn node_name(&self) -> String {
        obj(self.v()).tag.to_ascii_uppercase()
    }
    pub fn insert_before(&self, node: &Node, child: Option<&Node>) -> Result<Node, JsValue> {
        insert_before_impl(self.v(), node.v(), child.map(|c| c.v()))?;
        Ok(node.clone())
    }
    pub fn append_child(&self, node: &Node) -> Result<Node, JsValue> {
        insert_before_impl(self.v(), node.v(), None)?;
        Ok(node.clone())
    }
    pub fn replace_child(&self, node: &Node, child: &Node) -> Result<Node, JsValue> {
        burn();
        if parent_of(child.v()).as_ref() != Some(self.v()) {
            return exc("NotFoundError", format!("replaceChild: {child:?} is not a child of {self:?}"));
        }
        let mut next = child.next_sibling();
        if next.as_ref() == Some(node) {
            next = node.next_sibling();
        }
        if child != node {
            detach(child.v());
        }
        insert_before_impl(self.v(), node.v(), next.as_ref().map(|c| c.v()))?;
        Ok(child.clone())
    }
    pub fn remove_child(&self, child: &Node) -> Result<Node, JsValue> {
        burn();
        if parent_of(child.v()).as_ref() != Some(self.v()) {
            return exc("NotFoundError", format!("removeChild: {child:?} is not a child of {self:?}"));
        }
        detach(child.v());
        Ok(child.clone())
    }
    pub fn parent_node(&self) -> Option<Node> {
        parent_of(self.v()).map(cast)
    }
    pub fn parent_element(&self) -> Option<Element> {
        parent_of(self.v()).filter(|p| obj(p).kind == Kind::Element).map(cast)
    }
    pub fn first_child(&self) -> Option<Node> {
        obj(self.v()).children.borrow().first().cloned().map(cast)
    }
    pub fn last_child(&self) -> Option<Node> {
        obj(self.v()).children.borrow().last().cloned().map(cast)
    }
    pub fn next_sibling(&self) -> Option<Node> {
        burn();
        let p = parent_of(self.v())?;
        let i = index_in(&p, self.v());
        let r = obj(&p).children.borrow().get(i + 1).cloned().map(cast);
        r
    }
    pub fn previous_sibling(&self) -> Option<Node> {
        burn();
        let p = parent_of(self.v())?;
        let i = index_in(&p, self.v());
        let r = if i == 0 { None } else { obj(&p).children.borrow().get(i - 1).cloned().map(cast) };
        r
    }
    pub fn has_child_nodes(&self) -> bool {
        !obj(self.v()).children.borrow().is_empty()
    }
    pub fn contains(&self, other: Option<&Node>) -> bool {
        other.is_some_and(|o| is_inclusive_ancestor(self.v(), o.v()))
    }
    pub fn is_same_node(&self, other: Option<&Node>) -> bool {
        other.is_some_and(|o| o.v() == self.v())
    }
    pub fn is_equal_node(&self, other: Option<&Node>) -> bool {
        fn eq(a: &JsValue, b: &JsValue) -> bool {
            let (x, y) = (obj(a), obj(b));
            x.kind == y.kind
                && x.tag == y.tag
                && *x.data.borrow() == *y.data.borrow()
                && *x.attrs.borrow() == *y.attrs.borrow()
                && x.children.borrow().len() == y.children.borrow().len()
                && x.children.borrow().iter().zip(y.children.borrow().iter()).all(|(a, b)| eq(a, b))
        }
        other.is_some_and(|o| eq(self.v(), o.v()))
    }
    pub fn is_connected(&self) -> bool {
        let d = document_value();
        is_inclusive_ancestor(&d, self.v())
    }
    pub fn get_root_node(&self) -> Node {
        let mut cur = self.clone();
        while let Some(p) = cur.parent_node() {
            cur = p;
        }
        cur
    }
    pub fn owner_document(&self) -> Option<Document> {
        Some(cast(document_value()))
    }
    pub fn text_content(&self) -> Option<String> {
        fn t(v: &JsValue, out: &mut String) {
            match obj(v).kind {
                Kind::Text => out.push_str(&obj(v).data.borrow()),
                Kind::Comment => {}
                _ => obj(v).children.borrow().iter().for_each(|c| t(c, out)),
            }
        }
        match obj(self.v()).kind {
            Kind::Text | Kind::Comment => Some(obj(self.v()).data.borrow().clone()),
            Kind::Document => None,
            _ => {
                let mut s = String::new();
                t(self.v(), &mut s);
                Some(s)
            }
        }
    }
    pub fn set_text_content(&self, s: Option<&str>) {
        burn();
        let o = obj(self.v());
        match o.kind {
            Kind::Text | Kind::Comment => *o.data.borrow_mut() = s.unwrap_or("").to_string(),
            Kind::Element | Kind::Fragment => {
                let kids: Vec<JsValue> = o.children.borrow().clone();
                for k in kids.iter() {
                    detach(k);
                }
                if let Some(s) = s.filter(|s| !s.is_empty()) {
                    let t = Text::new_with_data(s).unwrap();
                    attach(self.v(), t.as_ref(), None);
                }
            }
            _ => {}
        }
    }
    pub fn node_value(&self) -> Option<String> {
        match obj(self.v()).kind {
            Kind::Text | Kind::Comment => Some(obj(self.v()).data.borrow().clone()),
            _ => None,
        }
    }
    pub fn set_node_value(&self, s: Option<&str>) {
        let o = obj(self.v());
        if matches!(o.kind, Kind::Text | Kind::Comment) {
            *o.data.borrow_mut() = s.unwrap_or("").to_string();
        }
    }
}
// The ParentNode and ChildNode mixins.
macro_rules! parent_mixin {
    ($($t:ident)*) => { $(
        impl $t {
            pub fn append_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                insert_before_impl(self.as_ref(), n.as_ref(), None)
            }
            pub fn append_with_node_2(&self, n: &Node, m: &Node) -> Result<(), JsValue> {
                insert_before_impl(self.as_ref(), n.as_ref(), None)?;
                insert_before_impl(self.as_ref(), m.as_ref(), None)
            }
            pub fn append_with_str_1(&self, s: &str) -> Result<(), JsValue> {
                let n = Text::new_with_data(s)?;
                insert_before_impl(self.as_ref(), n.as_ref(), None)
            }
            pub fn prepend_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                let first = self.first_child();
                insert_before_impl(self.as_ref(), n.as_ref(), first.as_ref().map(|f| f.as_ref()))
            }
            pub fn replace_children_with_node_0(&self) {
                while let Some(c) = self.first_child() {
                    detach(c.as_ref());
                }
            }
            pub fn replace_children_with_node_1(&self, n: &Node) {
                self.replace_children_with_node_0();
                let _ = insert_before_impl(self.as_ref(), n.as_ref(), None);
            }
        }
    )* };
}
parent_mixin!(Element DocumentFragment);
macro_rules! child_mixin {
    ($($t:ident)*) => { $(
        impl $t {
            pub fn before_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                match self.parent_node() {
                    Some(p) => {
                        // the node itself may be what stands before
                        let at = self.as_ref();
                        insert_before_impl(p.as_ref(), n.as_ref(), Some(at))
                    }
                    None => Ok(()),
                }
            }
            pub fn before_with_node_2(&self, n: &Node, m: &Node) -> Result<(), JsValue> {
                self.before_with_node_1(n)?;
                self.before_with_node_1(m)
            }
            pub fn after_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                match self.parent_node() {
                    Some(p) => {
                        let mut next = self.next_sibling();
                        if next.as_ref().map_or(false, |x| x.is_same_node(Some(n))) {
                            next = next.and_then(|x| x.next_sibling());
                        }
                        insert_before_impl(p.as_ref(), n.as_ref(), next.as_ref().map(|f| f.as_ref()))
                    }
                    None => Ok(()),
                }
            }
            pub fn after_with_node_2(&self, n: &Node, m: &Node) -> Result<(), JsValue> {
                self.after_with_node_1(m)?;
                self.after_with_node_1(n)
            }
            pub fn replace_with_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                match self.parent_node() {
                    Some(p) => {
                        p.replace_child(n, self.as_ref())?;
                        Ok(())
                    }
                    None => Ok(()),
                }
            }
        }
    )* };
}
child_mixin!(Element CharacterData);

// ---------------------------------------------------------------- elements

struct Proxy(&'static str, JsValue);
impl JsObject for Proxy {
    fn class(&self) -> &'static str {
        self.0
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
fn proxied(v: &JsValue) -> &Obj {
    obj(&v.__downcast::<Proxy>().expect("TypeError: not a proxy object").1)
}

fn proxied_attr(v: &JsValue) -> String {
    get_attr(proxied(v), "class").unwrap_or_default()
}
fn get_attr(o: &Obj, k: &str) -> Option<String> {
    o.attrs.borrow().iter().find(|(n, _)| n == k).map(|(_, v)| v.clone())
}
fn set_attr(o: &Obj, k: &str, v: &str) {
    burn();
    let mut a = o.attrs.borrow_mut();
    match a.iter_mut().find(|(n, _)| n == k) {
        Some(e) => e.1 = v.to_string(),
        None => a.push((k.to_string(), v.to_string())),
    }
}
fn del_attr(o: &Obj, k: &str) {
    o.attrs.borrow_mut().retain(|(n, _)| n != k);
}
impl Element {
    fn o(&self) -> &Obj {
        obj(self.as_ref())
    }
    pub fn tag_name(&self) -> String {
        self.o().tag.to_ascii_uppercase()
    }
    pub fn local_name(&self) -> String {
        self.o().tag.clone()
    }
    pub fn id(&self) -> String {
        get_attr(self.o(), "id").unwrap_or_default()
    }
    pub fn set_id(&self, s: &str) {
        set_attr(self.o(), "id", s)
    }
    pub fn class_name(&self) -> String {
        get_attr(self.o(), "class").unwrap_or_default()
    }
    pub fn set_class_name(&self, s: &str) {
        set_attr(self.o(), "class", s)
    }
    pub fn get_attribute(&self, k: &str) -> Option<String> {
        get_attr(self.o(), &k.to_ascii_lowercase())
    }
    pub fn has_attribute(&self, k: &str) -> bool {
        self.get_attribute(k).is_some()
    }
    pub fn set_attribute(&self, k: &str, v: &str) -> Result<(), JsValue> {
        set_attr(self.o(), &k.to_ascii_lowercase(), v);
        Ok(())
    }
    pub fn remove_attribute(&self, k: &str) -> Result<(), JsValue> {
        del_attr(self.o(), &k.to_ascii_lowercase());
        Ok(())
    }
    pub fn class_list(&self) -> DomTokenList {
        let me: &JsValue = self.as_ref();
        cast(JsValue::__from_obj(Rc::new(Proxy("DOMTokenList", me.clone()))))
    }
    pub fn remove(&self) {
        burn();
        detach(self.as_ref());
    }
    pub fn child_element_count(&self) -> u32 {
        self.o().children.borrow().iter().filter(|c| obj(c).kind == Kind::Element).count() as u32
    }
    pub fn first_element_child(&self) -> Option<Element> {
        self.o().children.borrow().iter().find(|c| obj(c).kind == Kind::Element).cloned().map(cast)
    }
    pub fn next_element_sibling(&self) -> Option<Element> {
        let mut n = self.next_sibling();
        while let Some(x) = n {
            if x.node_type() == 1 {
                return Some(x.unchecked_into());
            }
            n = x.next_sibling();
        }
        None
    }
    pub fn set_inner_html(&self, s: &str) {
        self.set_text_content(Some(s))
    }
    pub fn last_element_child(&self) -> Option<Element> {
        self.o().children.borrow().iter().rev().find(|c| obj(c).kind == Kind::Element).cloned().map(cast)
    }
    pub fn previous_element_sibling(&self) -> Option<Element> {
        let mut n = self.previous_sibling();
        while let Some(x) = n {
            if x.node_type() == 1 {
                return Some(x.unchecked_into());
            }
            n = x.previous_sibling();
        }
        None
    }
    pub fn toggle_attribute(&self, k: &str) -> Result<bool, JsValue> {
        if self.has_attribute(k) {
            self.remove_attribute(k)?;
            Ok(false)
        } else {
            self.set_attribute(k, "")?;
            Ok(true)
        }
    }
    pub fn get_bounding_client_rect(&self) -> DomRect {
        burn();
        let l = W.with(|w| w.borrow().layout.clone());
        let r = match l {
            Some(f) => f(self),
            None => (0.0, 0.0, 0.0, 0.0),
        };
        cast(JsValue::__from_obj(Rc::new(RectObj(r))))
    }
    pub fn scroll_top(&self) -> i32 {
        self.o().scroll_top.get() as i32
    }
    pub fn set_scroll_top(&self, v: i32) {
        self.o().scroll_top.set(v as f64)
    }
    pub fn client_width(&self) -> i32 {
        let r = self.get_bounding_client_rect();
        (r.right() - r.left()) as i32
    }
    pub fn client_height(&self) -> i32 {
        let r = self.get_bounding_client_rect();
        (r.bottom() - r.top()) as i32
    }
}
struct RectObj((f64, f64, f64, f64));
impl JsObject for RectObj {
    fn class(&self) -> &'static str {
        "DOMRect"
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
/// (top, bottom, left, right)
impl DomRect {
    fn r(&self) -> (f64, f64, f64, f64) {
        AsRef::<JsValue>::as_ref(self).__downcast::<RectObj>().unwrap().0
    }
    pub fn top(&self) -> f64 {
        self.r().0
    }
    pub fn bottom(&self) -> f64 {
        self.r().1
    }
    pub fn left(&self) -> f64 {
        self.r().2
    }
    pub fn right(&self) -> f64 {
        self.r().3
    }
    pub fn y(&self) -> f64 {
        self.r().0
    }
    pub fn x(&self) -> f64 {
        self.r().2
    }
    pub fn height(&self) -> f64 {
        self.r().1 - self.r().0
    }
    pub fn width(&self) -> f64 {
        self.r().3 - self.r().2
    }
}
impl DomTokenList {
    fn tokens(&self) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        for t in get_attr(proxied(self.as_ref()), "class").unwrap_or_default().split_ascii_whitespace() {
            if !out.iter().any(|o| o == t) {
                out.push(t.to_string());
            }
        }
        out
    }
    fn write(&self, t: &[String]) {
        let o = proxied(self.as_ref());
        // "update steps": if there is no attribute and the token set is empty, return
        if t.is_empty() && get_attr(o, "class").is_none() {
            return;
        }
        set_attr(o, "class", &t.join(" "));
    }
    fn valid(c: &str) -> Result<(), JsValue> {
        if c.is_empty() {
            return exc("SyntaxError", "empty token".into());
        }
        if c.chars().any(|c| c.is_ascii_whitespace()) {
            return exc("InvalidCharacterError", format!("token {c:?} has whitespace"));
        }
        Ok(())
    }
    fn list(a: &Array) -> Result<Vec<String>, JsValue> {
        let v: Vec<String> = a.iter().map(|v| v.as_string().unwrap_or_else(|| "undefined".into())).collect();
        for c in v.iter() {
            Self::valid(c)?;
        }
        Ok(v)
    }
    fn add_all(&self, l: &[String]) {
        let mut t = self.tokens();
        for c in l {
            if !t.contains(c) {
                t.push(c.clone());
            }
        }
        self.write(&t);
    }
    fn del_all(&self, l: &[String]) {
        let mut t = self.tokens();
        t.retain(|c| !l.contains(c));
        self.write(&t);
    }
    pub fn add(&self, a: &Array) -> Result<(), JsValue> {
        let l = Self::list(a)?;
        self.add_all(&l);
        Ok(())
    }
    pub fn add_1(&self, c: &str) -> Result<(), JsValue> {
        Self::valid(c)?;
        self.add_all(&[c.to_string()]);
        Ok(())
    }
    pub fn add_2(&self, c: &str, d: &str) -> Result<(), JsValue> {
        Self::valid(c)?;
        Self::valid(d)?;
        self.add_all(&[c.to_string(), d.to_string()]);
        Ok(())
    }
    pub fn add_0(&self) -> Result<(), JsValue> {
        Ok(())
    }
    pub fn add_3(&self, c: &str, d: &str, e: &str) -> Result<(), JsValue> {
        for x in [c, d, e] {
            Self::valid(x)?;
        }
        self.add_all(&[c.to_string(), d.to_string(), e.to_string()]);
        Ok(())
    }
    pub fn remove_2(&self, c: &str, d: &str) -> Result<(), JsValue> {
        Self::valid(c)?;
        Self::valid(d)?;
        self.del_all(&[c.to_string(), d.to_string()]);
        Ok(())
    }
    pub fn item(&self, i: u32) -> Option<String> {
        self.tokens().get(i as usize).cloned()
    }
    pub fn get(&self, i: u32) -> Option<String> {
        self.item(i)
    }
    pub fn value(&self) -> String {
        proxied_attr(self.as_ref())
    }
    pub fn set_value(&self, v: &str) {
        set_attr(proxied(self.as_ref()), "class", v);
    }
    pub fn replace(&self, old: &str, new: &str) -> Result<bool, JsValue> {
        Self::valid(old)?;
        Self::valid(new)?;
        let mut t = self.tokens();
        match t.iter().position(|x| x == old) {
            Some(i) => {
                if t.iter().any(|x| x == new) {
                    t.remove(i);
                } else {
                    t[i] = new.to_string();
                }
                self.write(&t);
                Ok(true)
            }
            None => Ok(false),
        }
    }
    pub fn remove(&self, a: &Array) -> Result<(), JsValue> {
        let l = Self::list(a)?;
        self.del_all(&l);
        Ok(())
    }
    pub fn remove_1(&self, c: &str) -> Result<(), JsValue> {
        Self::valid(c)?;
        self.del_all(&[c.to_string()]);
        Ok(())
    }
    pub fn contains(&self, c: &str) -> bool {
        self.tokens().iter().any(|t| t == c)
    }
    pub fn length(&self) -> u32 {
        self.tokens().len() as u32
    }
    pub fn toggle(&self, c: &str) -> Result<bool, JsValue> {
        Self::valid(c)?;
        if self.contains(c) {
            self.del_all(&[c.to_string()]);
            Ok(false)
        } else {
            self.add_all(&[c.to_string()]);
            Ok(true)
        }
    }
    pub fn toggle_with_force(&self, c: &str, force: bool) -> Result<bool, JsValue> {
        Self::valid(c)?;
        if force {
            self.add_all(&[c.to_string()]);
        } else {
            self.del_all(&[c.to_string()]);
        }
        Ok(force)
    }
}
impl CssStyleDeclaration {
    pub fn set_property(&self, k: &str, v: &str) -> Result<(), JsValue> {
        burn();
        let o = proxied(self.as_ref());
        let mut s = o.style.borrow_mut();
        s.retain(|(n, _)| n != k);
        if !v.is_empty() {
            s.push((k.to_string(), v.to_string()));
        }
        Ok(())
    }
    pub fn get_property_value(&self, k: &str) -> Result<String, JsValue> {
        let o = proxied(self.as_ref());
        let r = o.style.borrow().iter().find(|(n, _)| n == k).map(|(_, v)| v.clone()).unwrap_or_default();
        Ok(r)
    }
    pub fn remove_property(&self, k: &str) -> Result<String, JsValue> {
        let old = self.get_property_value(k)?;
        proxied(self.as_ref()).style.borrow_mut().retain(|(n, _)| n != k);
        Ok(old)
    }
}
impl HtmlElement {
    pub fn style(&self) -> CssStyleDeclaration {
        let me: &JsValue = self.as_ref();
        cast(JsValue::__from_obj(Rc::new(Proxy("CSSStyleDeclaration", me.clone()))))
    }
    pub fn inner_text(&self) -> String {
        self.text_content().unwrap_or_default()
    }
    pub fn set_inner_text(&self, s: &str) {
        self.set_text_content(Some(s))
    }
    pub fn hidden(&self) -> bool {
        get_attr(obj(self.as_ref()), "hidden").is_some()
    }
    pub fn set_hidden(&self, b: bool) {
        if b {
            set_attr(obj(self.as_ref()), "hidden", "")
        } else {
            del_attr(obj(self.as_ref()), "hidden")
        }
    }
    pub fn click(&self) {
        let ev = fake::event("MouseEvent", "click", true, true);
        fake::dispatch(self.as_ref(), &ev);
    }
    pub fn set_title(&self, s: &str) {
        set_attr(obj(self.as_ref()), "title", s)
    }
    pub fn set_draggable(&self, b: bool) {
        set_attr(obj(self.as_ref()), "draggable", if b { "true" } else { "false" })
    }
    pub fn focus(&self) -> Result<(), JsValue> {
        Ok(())
    }
    pub fn blur(&self) -> Result<(), JsValue> {
        Ok(())
    }
}
impl HtmlInputElement {
    pub fn type_(&self) -> String {
        // reflects, limited to only known values
        let t = get_attr(obj(self.as_ref()), "type").unwrap_or_else(|| "text".into()).to_ascii_lowercase();
        const KNOWN: &[&str] = &[
            "hidden", "text", "search", "tel", "url", "email", "password", "date", "month", "week", "time",
            "datetime-local", "number", "range", "color", "checkbox", "radio", "file", "submit", "image", "reset", "button",
        ];
        if KNOWN.contains(&t.as_str()) {
            t
        } else {
            "text".into()
        }
    }
    pub fn set_type(&self, s: &str) {
        set_attr(obj(self.as_ref()), "type", s)
    }
    pub fn value(&self) -> String {
        obj(self.as_ref()).value.borrow().clone()
    }
    pub fn set_value(&self, s: &str) {
        *obj(self.as_ref()).value.borrow_mut() = s.into()
    }
    pub fn checked(&self) -> bool {
        obj(self.as_ref()).checked.get()
    }
    pub fn set_placeholder(&self, s: &str) {
        set_attr(obj(self.as_ref()), "placeholder", s)
    }
    pub fn set_autofocus(&self, b: bool) {
        if b {
            set_attr(obj(self.as_ref()), "autofocus", "")
        } else {
            del_attr(obj(self.as_ref()), "autofocus")
        }
    }
    pub fn set_min(&self, s: &str) {
        set_attr(obj(self.as_ref()), "min", s)
    }
    pub fn set_max(&self, s: &str) {
        set_attr(obj(self.as_ref()), "max", s)
    }
    pub fn set_step(&self, s: &str) {
        set_attr(obj(self.as_ref()), "step", s)
    }
    pub fn value_as_number(&self) -> f64 {
        self.value().trim().parse().unwrap_or(f64::NAN)
    }
    pub fn set_checked(&self, b: bool) {
        obj(self.as_ref()).checked.set(b)
    }
}

impl HtmlButtonElement {
    pub fn disabled(&self) -> bool {
        get_attr(obj(self.as_ref()), "disabled").is_some()
    }
    pub fn set_disabled(&self, b: bool) {
        if b {
            set_attr(obj(self.as_ref()), "disabled", "")
        } else {
            del_attr(obj(self.as_ref()), "disabled")
        }
    }
}
impl HtmlInputElement {
    pub fn disabled(&self) -> bool {
        get_attr(obj(self.as_ref()), "disabled").is_some()
    }
    pub fn set_disabled(&self, b: bool) {
        if b {
            set_attr(obj(self.as_ref()), "disabled", "")
        } else {
            del_attr(obj(self.as_ref()), "disabled")
        }
    }
}
impl HtmlAnchorElement {
    pub fn href(&self) -> String {
        get_attr(obj(self.as_ref()), "href").unwrap_or_default()
    }
    pub fn set_href(&self, s: &str) {
        set_attr(obj(self.as_ref()), "href", s)
    }
}
impl HtmlLabelElement {
    pub fn html_for(&self) -> String {
        get_attr(obj(self.as_ref()), "for").unwrap_or_default()
    }
    pub fn set_html_for(&self, s: &str) {
        set_attr(obj(self.as_ref()), "for", s)
    }
}
impl HtmlMeterElement {
    pub fn set_min(&self, v: f64) {
        set_attr(obj(self.as_ref()), "min", &v.to_string())
    }
    pub fn set_max(&self, v: f64) {
        set_attr(obj(self.as_ref()), "max", &v.to_string())
    }
    pub fn set_value(&self, v: f64) {
        set_attr(obj(self.as_ref()), "value", &v.to_string())
    }
}

// ---- <select> / <option>: the HTML standard's selectedness rules for a drop-down (not multiple, size 1)

fn options_of(select: &JsValue) -> Vec<JsValue> {
    let mut out = vec![];
    for c in obj(select).children.borrow().iter() {
        match obj(c).tag.as_str() {
            "option" => out.push(c.clone()),
            "optgroup" => out.extend(obj(c).children.borrow().iter().filter(|g| obj(g).tag == "option").cloned()),
            _ => {}
        }
    }
    out
}
fn select_owner(option: &JsValue) -> Option<JsValue> {
    let p = parent_of(option)?;
    match obj(&p).tag.as_str() {
        "select" => Some(p),
        "optgroup" => parent_of(&p).filter(|g| obj(g).tag == "select"),
        _ => None,
    }
}
fn option_disabled(o: &JsValue) -> bool {
    get_attr(obj(o), "disabled").is_some()
}
fn multiple(select: &JsValue) -> bool {
    get_attr(obj(select), "multiple").is_some()
}
/// the selectedness setting algorithm
fn select_reset(select: &JsValue) {
    if multiple(select) {
        return;
    }
    let opts = options_of(select);
    let sel: Vec<&JsValue> = opts.iter().filter(|o| obj(o).selected.get()).collect();
    if sel.is_empty() {
        if let Some(o) = opts.iter().find(|o| !option_disabled(o)) {
            obj(o).selected.set(true);
        }
    } else if sel.len() >= 2 {
        for o in &sel[..sel.len() - 1] {
            obj(o).selected.set(false);
        }
    }
}
fn select_tree_changed(parent: &JsValue) {
    let p = obj(parent);
    if p.tag == "select" {
        select_reset(parent);
    } else if p.tag == "optgroup" {
        if let Some(s) = parent_of(parent).filter(|g| obj(g).tag == "select") {
            select_reset(&s);
        }
    }
}
fn option_inserted(_parent: &JsValue, c: &JsValue) {
    // "whenever an option element with its selectedness set to true is added to the select's list of
    // options, set the selectedness of all the other options to false"
    if obj(c).tag == "option" && obj(c).selected.get() {
        if let Some(s) = select_owner(c).filter(|s| !multiple(s)) {
            for o in options_of(&s) {
                if &o != c {
                    obj(&o).selected.set(false);
                }
            }
        }
    }
}
impl HtmlOptionElement {
    pub fn selected(&self) -> bool {
        obj(self.as_ref()).selected.get()
    }
    pub fn set_selected(&self, b: bool) {
        burn();
        let me: &JsValue = self.as_ref();
        obj(me).selected.set(b);
        if let Some(s) = select_owner(me).filter(|s| !multiple(s)) {
            if b {
                for o in options_of(&s) {
                    if &o != me {
                        obj(&o).selected.set(false);
                    }
                }
            } else {
                select_reset(&s);
            }
        }
    }
    pub fn disabled(&self) -> bool {
        option_disabled(self.as_ref())
    }
    pub fn set_disabled(&self, b: bool) {
        if b {
            set_attr(obj(self.as_ref()), "disabled", "")
        } else {
            del_attr(obj(self.as_ref()), "disabled")
        }
    }
    pub fn text(&self) -> String {
        self.text_content().unwrap_or_default().split_ascii_whitespace().collect::<Vec<_>>().join(" ")
    }
    pub fn set_text(&self, s: &str) {
        self.set_text_content(Some(s))
    }
    pub fn value(&self) -> String {
        get_attr(obj(self.as_ref()), "value").unwrap_or_else(|| self.text())
    }
    pub fn set_value(&self, s: &str) {
        set_attr(obj(self.as_ref()), "value", s)
    }
    pub fn index(&self) -> i32 {
        let me: &JsValue = self.as_ref();
        select_owner(me).and_then(|s| options_of(&s).iter().position(|o| o == me)).unwrap_or(0) as i32
    }
}
impl HtmlSelectElement {
    pub fn multiple(&self) -> bool {
        multiple(self.as_ref())
    }
    pub fn set_multiple(&self, b: bool) {
        if b {
            set_attr(obj(self.as_ref()), "multiple", "")
        } else {
            del_attr(obj(self.as_ref()), "multiple")
        }
    }
    pub fn selected_index(&self) -> i32 {
        burn();
        options_of(self.as_ref()).iter().position(|o| obj(o).selected.get()).map(|i| i as i32).unwrap_or(-1)
    }
    pub fn set_selected_index(&self, i: i32) {
        burn();
        for (j, o) in options_of(self.as_ref()).iter().enumerate() {
            obj(o).selected.set(j as i32 == i);
        }
    }
    pub fn value(&self) -> String {
        options_of(self.as_ref())
            .into_iter()
            .find(|o| obj(o).selected.get())
            .map(|o| cast::<HtmlOptionElement>(o).value())
            .unwrap_or_default()
    }
    pub fn set_value(&self, v: &str) {
        burn();
        let mut done = false;
        for o in options_of(self.as_ref()) {
            let hit = !done && cast::<HtmlOptionElement>(o.clone()).value() == v;
            done |= hit;
            obj(&o).selected.set(hit);
        }
    }
    pub fn length(&self) -> u32 {
        options_of(self.as_ref()).len() as u32
    }
    pub fn disabled(&self) -> bool {
        get_attr(obj(self.as_ref()), "disabled").is_some()
    }
    pub fn set_disabled(&self, b: bool) {
        if b {
            set_attr(obj(self.as_ref()), "disabled", "")
        } else {
            del_attr(obj(self.as_ref()), "disabled")
        }
    }
}
impl HtmlTextAreaElement {
    pub fn value(&self) -> String {
        obj(self.as_ref()).value.borrow().clone()
    }
    pub fn set_value(&self, s: &str) {
        *obj(self.as_ref()).value.borrow_mut() = s.into()
    }
}

// ---------------------------------------------------------------- events

struct OptsObj {
    capture: Cell<bool>,
    passive: Cell<bool>,
    once: Cell<bool>,
}
impl JsObject for OptsObj {
    fn class(&self) -> &'static str {
        "Object"
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
fn new_opts() -> JsValue {
    JsValue::__from_obj(Rc::new(OptsObj { capture: Cell::new(false), passive: Cell::new(false), once: Cell::new(false) }))
}
fn opts(v: &JsValue) -> &OptsObj {
    v.__downcast().expect("TypeError: not an options object")
}
macro_rules! opt_setters {
    ($T:ident) => {
        impl Default for $T {
            fn default() -> Self {
                Self::new()
            }
        }
        impl $T {
            pub fn new() -> Self {
                cast(new_opts())
            }
            pub fn capture(&mut self, b: bool) -> &mut Self {
                self.set_capture(b);
                self
            }
            pub fn set_capture(&self, b: bool) {
                opts(self.as_ref()).capture.set(b)
            }
            pub fn get_capture(&self) -> Option<bool> {
                Some(opts(self.as_ref()).capture.get())
            }
        }
    };
}
opt_setters!(AddEventListenerOptions);
opt_setters!(EventListenerOptions);
impl AddEventListenerOptions {
    pub fn passive(&mut self, b: bool) -> &mut Self {
        self.set_passive(b);
        self
    }
    pub fn set_passive(&self, b: bool) {
        opts(self.as_ref()).passive.set(b)
    }
    pub fn once(&mut self, b: bool) -> &mut Self {
        self.set_once(b);
        self
    }
    pub fn set_once(&self, b: bool) {
        opts(self.as_ref()).once.set(b)
    }
    pub fn get_passive(&self) -> Option<bool> {
        Some(opts(self.as_ref()).passive.get())
    }
}
impl EventTarget {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> Result<EventTarget, JsValue> {
        Ok(cast(new_obj(Kind::Plain, "EventTarget", "#target")))
    }
    fn add(&self, ty: &str, cb: &JsValue, capture: bool, passive: bool, once: bool) {
        burn();
        let mut l = obj(self.as_ref()).listeners.borrow_mut();
        if l.iter().any(|x| x.ty == ty && &x.cb == cb && x.capture == capture) {
            return;
        }
        l.push(Rc::new(Listener { ty: ty.into(), cb: cb.clone(), capture, passive, once, removed: Cell::new(false) }));
        W.with(|w| w.borrow_mut().listeners_live += 1);
    }
    fn del(&self, ty: &str, cb: &JsValue, capture: bool) {
        burn();
        let mut l = obj(self.as_ref()).listeners.borrow_mut();
        if let Some(i) = l.iter().position(|x| x.ty == ty && &x.cb == cb && x.capture == capture) {
            l.remove(i).removed.set(true);
            W.with(|w| w.borrow_mut().listeners_live -= 1);
        }
    }
    pub fn add_event_listener_with_callback(&self, ty: &str, cb: &Function) -> Result<(), JsValue> {
        self.add(ty, cb.as_ref(), false, false, false);
        Ok(())
    }
    pub fn add_event_listener_with_callback_and_bool(&self, ty: &str, cb: &Function, capture: bool) -> Result<(), JsValue> {
        self.add(ty, cb.as_ref(), capture, false, false);
        Ok(())
    }
    pub fn add_event_listener_with_callback_and_add_event_listener_options(
        &self,
        ty: &str,
        cb: &Function,
        o: &AddEventListenerOptions,
    ) -> Result<(), JsValue> {
        let o = opts(o.as_ref());
        self.add(ty, cb.as_ref(), o.capture.get(), o.passive.get(), o.once.get());
        Ok(())
    }
    pub fn remove_event_listener_with_callback(&self, ty: &str, cb: &Function) -> Result<(), JsValue> {
        self.del(ty, cb.as_ref(), false);
        Ok(())
    }
    pub fn remove_event_listener_with_callback_and_bool(&self, ty: &str, cb: &Function, capture: bool) -> Result<(), JsValue> {
        self.del(ty, cb.as_ref(), capture);
        Ok(())
    }
    pub fn remove_event_listener_with_callback_and_event_listener_options(
        &self,
        ty: &str,
        cb: &Function,
        o: &EventListenerOptions,
    ) -> Result<(), JsValue> {
        self.del(ty, cb.as_ref(), opts(o.as_ref()).capture.get());
        Ok(())
    }
    pub fn dispatch_event(&self, ev: &Event) -> Result<bool, JsValue> {
        Ok(fake::dispatch(self, ev))
    }
}
impl Event {
    fn e(&self) -> &EventObj {
        AsRef::<JsValue>::as_ref(self).__downcast().expect("TypeError: not an event")
    }
    pub fn new(ty: &str) -> Result<Event, JsValue> {
        Ok(fake::event("Event", ty, false, false))
    }
    pub fn type_(&self) -> String {
        self.e().ty.clone()
    }
    pub fn target(&self) -> Option<EventTarget> {
        let t = self.e().target.borrow().clone();
        (!t.is_null_or_undefined()).then(|| cast(t))
    }
    pub fn current_target(&self) -> Option<EventTarget> {
        let t = self.e().current.borrow().clone();
        (!t.is_null_or_undefined()).then(|| cast(t))
    }
    pub fn bubbles(&self) -> bool {
        self.e().bubbles
    }
    pub fn cancelable(&self) -> bool {
        self.e().cancelable
    }
    pub fn prevent_default(&self) {
        let e = self.e();
        // only effective while the event is being dispatched, cancelable, and not in a passive listener
        if e.cancelable && !e.in_passive.get() && e.dispatching.get() {
            e.prevented.set(true);
        }
    }
    pub fn default_prevented(&self) -> bool {
        self.e().prevented.get()
    }
    pub fn stop_propagation(&self) {
        self.e().stop.set(true)
    }
    pub fn stop_immediate_propagation(&self) {
        self.e().stop.set(true);
        self.e().stop_now.set(true)
    }
}
impl MouseEvent {
    pub fn offset_x(&self) -> i32 {
        self.e().pos.get().0
    }
    pub fn offset_y(&self) -> i32 {
        self.e().pos.get().1
    }
    pub fn client_x(&self) -> i32 {
        self.e().pos.get().0
    }
    pub fn client_y(&self) -> i32 {
        self.e().pos.get().1
    }
}
__js_class!(DataTransfer < Object, JsValue; |v: &JsValue| v.__class() == Some("DataTransfer"));
impl DragEvent {
    pub fn data_transfer(&self) -> Option<DataTransfer> {
        Some(cast(JsValue::__from_obj(Rc::new(Proxy("DataTransfer", JsValue::NULL)))))
    }
}
impl DataTransfer {
    pub fn set_data(&self, _format: &str, _data: &str) -> Result<(), JsValue> {
        Ok(())
    }
}

// ---------------------------------------------------------------- intersection observer

struct IoObj {
    cb: JsValue,
    root: Option<Element>,
    /// top, right, bottom, left; (amount, is a percentage)
    margin: [(f64, bool); 4],
    /// with the state reported last
    targets: RefCell<Vec<(JsValue, Option<bool>)>>,
}
struct IoInit {
    root: RefCell<Option<Element>>,
    margin: RefCell<String>,
}
impl JsObject for IoInit {
    fn class(&self) -> &'static str {
        "Object"
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
fn margins(s: &str) -> Option<[(f64, bool); 4]> {
    let v: Option<Vec<(f64, bool)>> = s
        .split_whitespace()
        .map(|p| match (p.strip_suffix('%'), p.strip_suffix("px")) {
            (Some(n), _) => n.parse().ok().map(|n: f64| (n / 100.0, true)),
            (_, Some(n)) => n.parse().ok().map(|n| (n, false)),
            _ => None,
        })
        .collect();
    let v = v?;
    Some(match v[..] {
        [] => [(0.0, false); 4],
        [a] => [a; 4],
        [a, b] => [a, b, a, b],
        [a, b, c] => [a, b, c, b],
        [a, b, c, d] => [a, b, c, d],
        _ => return None,
    })
}
impl JsObject for IoObj {
    fn class(&self) -> &'static str {
        "IntersectionObserver"
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
impl Default for IntersectionObserverInit {
    fn default() -> Self {
        Self::new()
    }
}
impl IntersectionObserverInit {
    pub fn new() -> Self {
        cast(JsValue::__from_obj(Rc::new(IoInit { root: RefCell::new(None), margin: RefCell::new(String::new()) })))
    }
    fn i(&self) -> &IoInit {
        AsRef::<JsValue>::as_ref(self).__downcast().expect("TypeError: not an options object")
    }
    pub fn root(&mut self, r: Option<&Element>) -> &mut Self {
        self.set_root(r);
        self
    }
    pub fn root_margin(&mut self, r: &str) -> &mut Self {
        self.set_root_margin(r);
        self
    }
    pub fn set_root(&self, r: Option<&Element>) {
        *self.i().root.borrow_mut() = r.cloned();
    }
    pub fn set_root_margin(&self, r: &str) {
        *self.i().margin.borrow_mut() = r.to_string();
    }
    pub fn set_threshold(&self, _r: &JsValue) {}
}
impl IntersectionObserver {
    pub fn new(cb: &Function) -> Result<IntersectionObserver, JsValue> {
        Self::new_with_options(cb, &IntersectionObserverInit::new())
    }
    pub fn new_with_options(cb: &Function, o: &IntersectionObserverInit) -> Result<IntersectionObserver, JsValue> {
        let cb: &JsValue = cb.as_ref();
        let Some(margin) = margins(&o.i().margin.borrow()) else {
            return Err(JsValue::from_str("SyntaxError: rootMargin must be specified in pixels or percent."));
        };
        let v = JsValue::__from_obj(Rc::new(IoObj { cb: cb.clone(), root: o.i().root.borrow().clone(), margin, targets: RefCell::new(vec![]) }));
        W.with(|w| w.borrow_mut().ios.push(v.clone()));
        Ok(cast(v))
    }
    fn io(&self) -> &IoObj {
        AsRef::<JsValue>::as_ref(self).__downcast().unwrap()
    }
    pub fn observe(&self, e: &Element) {
        let e: &JsValue = e.as_ref();
        let mut t = self.io().targets.borrow_mut();
        if !t.iter().any(|x| x.0 == *e) {
            t.push((e.clone(), None));
        }
    }
    pub fn unobserve(&self, e: &Element) {
        let e: &JsValue = e.as_ref();
        self.io().targets.borrow_mut().retain(|x| x.0 != *e);
    }
    pub fn disconnect(&self) {
        self.io().targets.borrow_mut().clear();
    }
}

pub mod console {
    use super::*;
    fn put(level: &str, a: &[&JsValue]) {
        let s = format!("{level}: {a:?}");
        W.with(|w| w.borrow_mut().console.push(s));
    }
    pub fn log_1(a: &JsValue) {
        put("log", &[a])
    }
    pub fn warn_1(a: &JsValue) {
        put("warn", &[a])
    }
    pub fn error_1(a: &JsValue) {
        put("error", &[a])
    }
    pub fn error_2(a: &JsValue, b: &JsValue) {
        put("error", &[a, b])
    }
}

/// Harness side.
pub mod fake {
    use super::*;

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum MutKind {
        Inserted,
        Removed,
    }
    #[derive(Clone, Debug)]
    pub struct Mutation {
        pub kind: MutKind,
        pub parent: Node,
        pub node: Node,
    }

    pub fn set_fuel(n: u64) {
        W.with(|w| w.borrow_mut().fuel = n)
    }
    pub fn record(on: bool) {
        W.with(|w| {
            let mut w = w.borrow_mut();
            w.log_on = on;
            w.log.clear();
        })
    }
    pub fn take_log() -> Vec<Mutation> {
        W.with(|w| std::mem::take(&mut w.borrow_mut().log))
    }
    pub fn take_console() -> Vec<String> {
        W.with(|w| std::mem::take(&mut w.borrow_mut().console))
    }
    /// stable creation-order number of an object
    pub fn id(v: &JsValue) -> u64 {
        obj(v).id
    }
    pub fn children(n: &Node) -> Vec<Node> {
        obj(n.as_ref()).children.borrow().iter().cloned().map(cast).collect()
    }
    pub fn tag(n: &Node) -> String {
        obj(n.as_ref()).tag.clone()
    }
    pub fn class(n: &JsValue) -> &'static str {
        n.__class().unwrap_or("?")
    }
    pub fn attr(n: &Node, k: &str) -> Option<String> {
        get_attr(obj(n.as_ref()), k)
    }
    /// Number of registered event listeners in the whole world.
    pub fn live_listeners() -> i64 {
        W.with(|w| w.borrow().listeners_live)
    }
    /// (type, capture, passive) of the listeners of one target
    pub fn listeners(t: &EventTarget) -> Vec<(String, bool, bool)> {
        obj(t.as_ref()).listeners.borrow().iter().map(|l| (l.ty.clone(), l.capture, l.passive)).collect()
    }
    pub fn timers() -> usize {
        W.with(|w| w.borrow().timers.len())
    }
    /// Runs the i-th pending timer callback; false if there is none.
    pub fn fire_timer(i: usize) -> bool {
        let t = W.with(|w| w.borrow_mut().timers.remove(i));
        match t {
            Some((_, cb)) => {
                let _ = cb.__call(&[]);
                true
            }
            None => false,
        }
    }
    pub fn set_layout(f: Option<Rc<dyn Fn(&Element) -> (f64, f64, f64, f64)>>) {
        W.with(|w| w.borrow_mut().layout = f)
    }
    pub fn style(e: &Node, k: &str) -> Option<String> {
        obj(e.as_ref()).style.borrow().iter().find(|(n, _)| n == k).map(|(_, v)| v.clone())
    }
    /// What a browser does after it laid out the page: calls the IntersectionObservers for which it
    /// changed whether a target meets the root's rectangle extended by the margins (and those with
    /// targets that were not reported yet). Returns how many were called.
    pub fn frame() -> usize {
        let ios: Vec<JsValue> = W.with(|w| w.borrow().ios.clone());
        let mut calls = vec![];
        for v in ios {
            let io: &IoObj = v.__downcast().unwrap();
            let n = io.targets.borrow().len();
            let mut any = false;
            for i in 0..n {
                let (t, was) = io.targets.borrow()[i].clone();
                let e: Element = cast(t);
                let r = match &io.root {
                    Some(r) => {
                        let inside = {
                            let mut p = e.parent_node();
                            loop {
                                match p {
                                    None => break false,
                                    Some(q) if id(&q) == id(r) => break true,
                                    Some(q) => p = q.parent_node(),
                                }
                            }
                        };
                        inside.then(|| r.get_bounding_client_rect())
                    }
                    None => Some(cast(JsValue::__from_obj(Rc::new(RectObj((0.0, 1000.0, 0.0, 1000.0)))))),
                };
                let now = r.map_or(false, |r: DomRect| {
                    let (h, w) = (r.bottom() - r.top(), r.right() - r.left());
                    let m = |k: usize| { let (a, pc) = io.margin[k]; if pc { a * if k % 2 == 0 { h } else { w } } else { a } };
                    let t = e.get_bounding_client_rect();
                    t.top() <= r.bottom() + m(2) && t.bottom() >= r.top() - m(0) && t.left() <= r.right() + m(1) && t.right() >= r.left() - m(3)
                });
                if was != Some(now) {
                    io.targets.borrow_mut()[i].1 = Some(now);
                    any = true;
                }
            }
            if any {
                calls.push(io.cb.clone());
            }
        }
        let n = calls.len();
        for c in calls {
            let _ = c.__call(&[JsValue::UNDEFINED]);
        }
        n
    }
    /// Calls every IntersectionObserver that currently observes something.
    pub fn fire_intersection() -> usize {
        let ios: Vec<JsValue> = W.with(|w| w.borrow().ios.clone());
        let mut n = 0;
        for v in ios {
            let io: &IoObj = v.__downcast().unwrap();
            if !io.targets.borrow().is_empty() {
                n += 1;
                let _ = io.cb.__call(&[JsValue::UNDEFINED]);
            }
        }
        n
    }
    pub fn live_observers() -> usize {
        W.with(|w| w.borrow().ios.iter().filter(|v| !v.__downcast::<IoObj>().unwrap().targets.borrow().is_empty()).count())
    }
    pub fn event(class: &'static str, ty: &str, bubbles: bool, cancelable: bool) -> Event {
        let seq = W.with(|w| {
            let mut w = w.borrow_mut();
            w.event_seq += 1;
            w.event_seq
        });
        cast(JsValue::__from_obj(Rc::new(EventObj {
            class,
            ty: ty.into(),
            seq,
            cancelable,
            bubbles,
            target: RefCell::new(JsValue::NULL),
            current: RefCell::new(JsValue::NULL),
            prevented: Cell::new(false),
            stop: Cell::new(false),
            stop_now: Cell::new(false),
            in_passive: Cell::new(false),
            dispatching: Cell::new(false),
            pos: Cell::new((0, 0)),
        })))
    }
    pub fn set_pos(e: &Event, x: i32, y: i32) {
        e.e().pos.set((x, y))
    }
    pub fn event_seq(e: &Event) -> u64 {
        e.e().seq
    }
    fn invoke(target: &JsValue, ev: &Event, capture: Option<bool>) {
        let e = ev.e();
        *e.current.borrow_mut() = target.clone();
        // the listener list is cloned at this point; listeners removed meanwhile are skipped
        let ls: Vec<Rc<Listener>> = obj(target).listeners.borrow().clone();
        for l in ls {
            if l.removed.get() || l.ty != e.ty || capture.is_some_and(|c| c != l.capture) {
                continue;
            }
            if l.once {
                cast::<EventTarget>(target.clone()).del(&l.ty, &l.cb, l.capture);
            }
            e.in_passive.set(l.passive);
            let _ = l.cb.__call(&[AsRef::<JsValue>::as_ref(ev).clone()]);
            e.in_passive.set(false);
            if e.stop_now.get() {
                break;
            }
        }
    }
    /// Dispatches per the DOM standard (capture, target, bubble). Returns false if default was prevented.
    pub fn dispatch(target: &EventTarget, ev: &Event) -> bool {
        burn();
        let e = ev.e();
        let t: &JsValue = target.as_ref();
        *e.target.borrow_mut() = t.clone();
        e.dispatching.set(true);
        let mut path = vec![];
        let mut cur = parent_of(t);
        while let Some(c) = cur {
            cur = parent_of(&c);
            path.push(c);
        }
        for p in path.iter().rev() {
            if e.stop.get() {
                break;
            }
            invoke(p, ev, Some(true));
        }
        if !e.stop.get() {
            invoke(t, ev, Some(true));
        }
        if !e.stop.get() {
            invoke(t, ev, Some(false));
        }
        if e.bubbles {
            for p in path.iter() {
                if e.stop.get() {
                    break;
                }
                invoke(p, ev, Some(false));
            }
        }
        *e.current.borrow_mut() = JsValue::NULL;
        e.dispatching.set(false);
        e.stop.set(false);
        e.stop_now.set(false);
        !e.prevented.get()
    }
    /// Breaks reference cycles so the world can be freed.
    pub fn reset() {
        let (all, timers, ios) = W.with(|w| {
            let mut w = w.borrow_mut();
            w.document = None;
            w.log.clear();
            w.layout = None;
            w.console.clear();
            w.listeners_live = 0;
            (std::mem::take(&mut w.all), std::mem::take(&mut w.timers), std::mem::take(&mut w.ios))
        });
        for v in all.iter() {
            let o = obj(v);
            o.children.borrow_mut().clear();
            *o.parent.borrow_mut() = None;
            o.listeners.borrow_mut().clear();
        }
        drop(timers);
        drop(ios);
    }
    pub fn counter(name: &'static str) -> u64 {
        W.with(|w| {
            let mut w = w.borrow_mut();
            let c = w.hooks.entry(name).or_insert(0);
            *c += 1;
            *c
        })
    }
    /// `<tag>...</tag>` rendering of the subtree; comments are written `<!>` when asked for.
    pub fn html(n: &Node, comments: bool) -> String {
        fn go(v: &JsValue, comments: bool, out: &mut String) {
            let o = obj(v);
            match o.kind {
                Kind::Text => out.push_str(&o.data.borrow()),
                Kind::Comment => {
                    if comments {
                        out.push_str("<!>")
                    }
                }
                Kind::Fragment | Kind::Document => o.children.borrow().iter().for_each(|c| go(c, comments, out)),
                _ => {
                    out.push('<');
                    out.push_str(&o.tag);
                    if let Some(i) = get_attr(o, "id") {
                        out.push('#');
                        out.push_str(&i);
                    }
                    out.push('>');
                    o.children.borrow().iter().for_each(|c| go(c, comments, out));
                    out.push_str("</>");
                }
            }
        }
        let mut s = String::new();
        for c in obj(n.as_ref()).children.borrow().iter() {
            go(c, comments, &mut s);
        }
        s
    }
}
