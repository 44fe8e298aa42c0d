// The tables of C27, written out: what each exported item is documented to be.
use async_ui_web::html;

fn shown(host: &Node, tag: &str, what: &str) -> Node {
    let k = fake::children(host);
    ck!(k.len() == 1, "{what}: {} nodes on the page", k.len());
    ck!(fake::tag(&k[0]) == tag, "{what} renders <{}>, documented is <{tag}>", fake::tag(&k[0]));
    k[0].clone()
}
/// Render with content, let the content change, drop.
fn with_content<F: Future<Output = u8>>(what: &str, tag: &str, node: &Node, mk: impl FnOnce(Pin<Box<dyn Future<Output = u8>>>) -> F) {
    let host = dom::div();
    let (_, w) = CountWaker::new();
    let text = html::Text::new();
    text.set_data("content");
    let tn: Node = (*text).clone().into();
    let go = Rc::new(Cell::new(false));
    let g = go.clone();
    ck!(fake::children(&host).is_empty() && node.parent_node().is_none(), "{what} is on the page before it is rendered");
    let content = Box::pin(async move {
        let mut t = Box::pin(text.render());
        poll_fn(|cx| {
            let _ = t.as_mut().poll(cx);
            if g.get() { Poll::Ready(7) } else { Poll::Pending }
        })
        .await
    });
    let mut fut = Some(Box::pin(mk(content)));
    ck!(fake::children(&host).is_empty(), "{what} is on the page before it is rendered");
    dom::within(&host, &w, |cx| {
        ck!(fut.as_mut().unwrap().as_mut().poll(cx).is_pending(), "{what} finished before its content");
        let n = shown(&host, tag, what);
        ck!(fake::id(&n) == fake::id(node), "{what} renders an element other than its own");
        let k = fake::children(&n);
        ck!(k.len() == 1 && fake::id(&k[0]) == fake::id(&tn), "{what} does not hold its content");
        step(&tag);
        go.set(choose(2) == 1);
        if go.get() {
            let r = fut.as_mut().unwrap().as_mut().poll(cx);
            ck!(matches!(r, Poll::Ready(7)), "{what} did not finish with its content's value");
        }
        fut = None;
        ck!(fake::children(&host).is_empty(), "{what} is still on the page after it was dropped");
    });
    outcome(tag);
    done();
}
fn without_content<F: Future>(what: &str, tag: &str, node: &Node, mk: impl FnOnce() -> F) {
    let host = dom::div();
    let (_, w) = CountWaker::new();
    ck!(node.parent_node().is_none(), "{what} is on the page before it is rendered");
    let mut fut = Some(Box::pin(mk()));
    dom::within(&host, &w, |cx| {
        for _ in 0..3 {
            ck!(fut.as_mut().unwrap().as_mut().poll(cx).is_pending(), "{what} finished by itself");
            let n = shown(&host, tag, what);
            ck!(fake::id(&n) == fake::id(node), "{what} renders an element other than its own");
            ck!(fake::children(&n).is_empty(), "{what} has content");
        }
        step(&tag);
        fut = None;
        ck!(fake::children(&host).is_empty(), "{what} is still on the page after it was dropped");
    });
    outcome(tag);
    done();
}
fn node_of(x: &impl AsRef<Node>) -> Node {
    x.as_ref().clone()
}
/// The method waits for the event of its name and for no other.
fn event_method(what: &str, name: &str, target: &EventTarget, mut s: impl Future + Unpin) {
    let (k, w) = CountWaker::new();
    let mut cx = Context::from_waker(&w);
    ck!(fake::listeners(target).is_empty(), "{what} listens before it is run");
    ck!(Pin::new(&mut s).poll(&mut cx).is_pending(), "{what} fired without an event");
    ck!(fake::listeners(target) == [(name.to_string(), false, false)], "{what} listens for {:?}, documented is {name}", fake::listeners(target));
    for other in ["other", "click", "input", name] {
        if other != name {
            fake::dispatch(target, &fake::event("Event", other, true, true));
            ck!(Pin::new(&mut s).poll(&mut cx).is_pending(), "{what} fired for {other}");
        }
    }
    step(&name);
    k.take();
    fake::dispatch(target, &fake::event("Event", name, true, true));
    ck!(k.woken(), "{what} did not wake its task");
    ck!(Pin::new(&mut s).poll(&mut cx).is_ready(), "{what} did not fire for {name}");
    drop(s);
    ck!(fake::listeners(target).is_empty(), "{what} left its listener behind");
    outcome(name);
    done();
}
fn input_type(what: &str, ty: &str, i: html::Input) {
    let n = node_of(&i);
    ck!(fake::attr(&n, "type").as_deref() == Some(ty), "{what} has type {:?}, documented is {ty}", fake::attr(&n, "type"));
    without_content(what, "input", &n, || i.render());
}

fn table_cfgs(cfgs: &mut Vec<Cfg>) {
    macro_rules! childed { ($($t:ident $tag:literal)*) => { $(
        cfgs.push(Cfg::new(concat!("html::", stringify!($t)), || {
            let c = if choose(2) == 1 { html::$t::default() } else { html::$t::new() };
            let n = node_of(&c);
            with_content(stringify!($t), $tag, &n, |f| c.render(f));
        }));
    )* } }
    macro_rules! childless { ($($t:ident $tag:literal)*) => { $(
        cfgs.push(Cfg::new(concat!("html::", stringify!($t)), || {
            let c = if choose(2) == 1 { html::$t::default() } else { html::$t::new() };
            let n = node_of(&c);
            without_content(stringify!($t), $tag, &n, || c.render());
        }));
    )* } }
    macro_rules! events { ($el:ident: $($f:ident $name:literal)*) => { $(
        cfgs.push(Cfg::new(concat!(stringify!($el), "::", stringify!($f)), || {
            let e: web_sys::$el = wasm_bindgen::JsCast::unchecked_into(dom::div());
            event_method(stringify!($f), $name, e.as_ref(), e.$f());
        }));
    )* } }
    macro_rules! inputs { ($($f:ident $ty:literal)*) => { $(
        cfgs.push(Cfg::new(concat!("Input::", stringify!($f)), || input_type(stringify!($f), $ty, html::Input::$f())));
    )* } }
    childed!(Anchor "a" Audio "audio" Bold "b" Button "button" Canvas "canvas" Dl "dl" Data "data" DataList "datalist" Dialog "dialog" Div "div" FieldSet "fieldset" Form "form" FrameSet "frameset" H1 "h1" H2 "h2" H3 "h3" H4 "h4" H5 "h5" H6 "h6" Italic "i" IFrame "iframe" Img "img" Li "li" Label "label" Legend "legend" Map "map" Meter "meter" Ol "ol" Object "object" OptGroup "optgroup" Option "option" Output "output" Paragraph "p" Picture "picture" Pre "pre" Progress "progress" Quote "q" Select "select" Span "span" Style "style" Th "th" Td "td" Col "col" ColGroup "colgroup" Table "table" Tr "tr" THead "thead" TFoot "tfoot" TBody "tbody" Template "template" TextArea "textarea" Time "time" Ul "ul" Video "video");
    childless!(Area "area" Br "br" Base "base" Embed "embed" Hr "hr" Input "input" Link "link" Meta "meta" Source "source" Track "track");
    events!(Element: until_cancel "cancel" until_error "error" until_scroll "scroll" until_securitypolicyviolation "securitypolicyviolation" until_select "select" until_wheel "wheel" until_compositionend "compositionend" until_compositionstart "compositionstart" until_compositionupdate "compositionupdate" until_blur "blur" until_focus "focus" until_focusin "focusin" until_focusout "focusout" until_fullscreenchange "fullscreenchange" until_fullscreenerror "fullscreenerror" until_keydown "keydown" until_keyup "keyup" until_auxclick "auxclick" until_click "click" until_contextmenu "contextmenu" until_dblclick "dblclick" until_mousedown "mousedown" until_mouseenter "mouseenter" until_mouseleave "mouseleave" until_mousemove "mousemove" until_mouseout "mouseout" until_mouseover "mouseover" until_mouseup "mouseup" until_touchcancel "touchcancel" until_touchend "touchend" until_touchmove "touchmove" until_touchstart "touchstart");
    events!(HtmlElement: until_input "input" until_change "change" until_drag "drag" until_dragend "dragend" until_dragenter "dragenter" until_dragleave "dragleave" until_dragover "dragover" until_dragstart "dragstart" until_drop "drop" until_load "load");
    inputs!(new_button "button" new_checkbox "checkbox" new_color "color" new_date "date" new_datetime "datetime" new_email "email" new_file "file" new_hidden "hidden" new_image "image" new_month "month" new_number "number" new_password "password" new_radio "radio" new_range "range" new_reset "reset" new_search "search" new_submit "submit" new_tel "tel" new_text "text" new_time "time" new_url "url" new_week "week");
    for tag in ["my-element", "section"] {
        cfgs.push(Cfg::new(format!("CustomElement {tag}"), move || {
            let c = html::CustomElement::new(tag.into());
            let n = node_of(&c.element);
            with_content("CustomElement", tag, &n, |f| c.render(f));
        }));
    }
    cfgs.push(Cfg::new("str::render", || text_nodes()));
}
/// Text nodes and the `render` shortcut of strings.
fn text_nodes() {
    let host = dom::div();
    let (_, w) = CountWaker::new();
    let data = *of(&["", "hello", "a\u{e9}<b>&amp;"]);
    let kind = choose(3);
    let t = html::Text::new();
    t.set_data(data);
    let owned = data.to_string();
    let mut fut: Option<Pin<Box<dyn Future<Output = ()> + '_>>> = Some(match kind {
        0 => {
            let r = t.render();
            Box::pin(async { r.await; })
        }
        1 => Box::pin(async { data.render().await; }),
        _ => Box::pin(async { owned.as_str().render().await; }),
    });
    dom::within(&host, &w, |cx| {
        for _ in 0..2 {
            ck!(fut.as_mut().unwrap().as_mut().poll(cx).is_pending(), "a text finished by itself");
            let k = fake::children(&host);
            ck!(k.len() == 1 && k[0].node_type() == 3, "a text is not rendered as one text node");
            ck!(k[0].node_value().as_deref() == Some(data), "the text {data:?} is rendered as {:?}", k[0].node_value());
        }
        step(&data);
        if kind == 0 {
            t.set_data("new");
            ck!(fake::children(&host)[0].node_value().as_deref() == Some("new"), "set_data does not reach the page");
        }
        fut = None;
        ck!(fake::children(&host).is_empty(), "a text is still on the page after it was dropped");
    });
    outcome(data);
    done();
}
