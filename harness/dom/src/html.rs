//! H01: random trees of every element type, text nodes and inputs, with random class
//! operations and completing contents, compared with a model after every step.
use crate::driver::*;
use crate::tree::{to_node, to_obj};
use async_ui_web::prelude_traits::*;
use async_ui_web::shortcut_traits::{ShortcutClassList, ShortcutClassListBuilder};
use async_ui_web::{html, join, mount_at, race, NoChild};
use std::cell::{Cell, RefCell};
use std::future::{pending, Future};
use std::pin::Pin;
use std::rc::Rc;
use wasm_bindgen::native::{self, NodeKind, Obj};
use wasm_bindgen::{JsCast, JsValue};

use crate::stat::Sig;

type BF<T> = Pin<Box<dyn Future<Output = T>>>;
/// One created component, with its concrete type hidden.
struct Made {
    node: Rc<Obj>,
    element: web_sys::Element,
    render: Box<dyn Fn(BF<u64>) -> BF<u64>>,
    with_class: Box<dyn Fn(&str) -> bool>,
    with_classes: Box<dyn Fn(Vec<&str>) -> bool>,
}
/// is the value of the DOM interface its Rust type claims?
fn typed<E: JsCast>(e: &E) -> bool {
    let v: &JsValue = e.as_ref();
    E::instanceof(v)
}
macro_rules! render_it {
    ($x:ident, childed) => {
        Box::new(move |c: BF<u64>| -> BF<u64> { Box::pin($x.render(c)) })
    };
    ($x:ident, childless) => {
        Box::new(move |_c: BF<u64>| -> BF<u64> {
            let f = $x.render();
            Box::pin(async move {
                f.await;
                u64::MAX
            })
        })
    };
}
macro_rules! elements {
    ($($name:ident $tag:literal $kind:ident;)*) => {
        const ELEMENTS: &[(&str, &str, bool)] = &[$((stringify!($name), $tag, matches!(stringify!($kind).as_bytes(), b"childed"))),*];
        fn make(ix: usize, default: bool) -> Result<Made, String> {
            let mut i = 0;
            $(
                if i == ix {
                    let x = Rc::new(if default { html::$name::default() } else { html::$name::new() });
                    return finish_making(stringify!($name), x.clone(), render_it!(x, $kind));
                }
                i += 1;
            )*
            let _ = i;
            unreachable!()
        }
    };
}
fn finish_making<T, E>(name: &str, x: Rc<T>, render: Box<dyn Fn(BF<u64>) -> BF<u64>>) -> Result<Made, String>
where
    T: std::ops::Deref<Target = E> + AsRef<web_sys::Element> + AsRef<E> + AsRef<web_sys::Node> + AsRef<web_sys::HtmlElement> + 'static,
    E: JsCast + AsRef<web_sys::Element>,
{
    let direct: &E = &x;
    check!(typed(direct), "html::{name} gives its element a type the browser's element does not have ({:?})", to_obj(direct).class);
    let element: web_sys::Element = AsRef::<web_sys::Element>::as_ref(&*x).clone();
    let node = to_obj(&element);
    check!(Rc::ptr_eq(&node, &to_obj(direct)), "html::{name}: the element reached by Deref is another one than by AsRef<Element>");
    check!(Rc::ptr_eq(&node, &to_obj(AsRef::<web_sys::Node>::as_ref(&*x))), "html::{name}: AsRef<Node> gives another element");
    check!(Rc::ptr_eq(&node, &to_obj(AsRef::<web_sys::HtmlElement>::as_ref(&*x))), "html::{name}: AsRef<HtmlElement> gives another element");
    let (a, b) = (x.clone(), x);
    Ok(Made {
        node,
        element,
        render,
        with_class: Box::new(move |c| std::ptr::eq(a.with_class(c), &*a)),
        with_classes: Box::new(move |c| std::ptr::eq(b.with_classes(c), &*b)),
    })
}
elements! {
    Anchor "a" childed;
    Area "area" childless;
    Audio "audio" childed;
    Bold "b" childed;
    Br "br" childless;
    Base "base" childless;
    Button "button" childed;
    Canvas "canvas" childed;
    Dl "dl" childed;
    Data "data" childed;
    DataList "datalist" childed;
    Dialog "dialog" childed;
    Div "div" childed;
    Embed "embed" childless;
    FieldSet "fieldset" childed;
    Form "form" childed;
    FrameSet "frameset" childed;
    Hr "hr" childless;
    H1 "h1" childed;
    H2 "h2" childed;
    H3 "h3" childed;
    H4 "h4" childed;
    H5 "h5" childed;
    H6 "h6" childed;
    Italic "i" childed;
    IFrame "iframe" childed;
    Img "img" childed;
    Input "input" childless;
    Li "li" childed;
    Label "label" childed;
    Legend "legend" childed;
    Link "link" childless;
    Map "map" childed;
    Meta "meta" childless;
    Meter "meter" childed;
    Ol "ol" childed;
    Object "object" childed;
    OptGroup "optgroup" childed;
    Option "option" childed;
    Output "output" childed;
    Paragraph "p" childed;
    Picture "picture" childed;
    Pre "pre" childed;
    Progress "progress" childed;
    Quote "q" childed;
    Select "select" childed;
    Source "source" childless;
    Span "span" childed;
    Style "style" childed;
    Th "th" childed;
    Td "td" childed;
    Col "col" childed;
    ColGroup "colgroup" childed;
    Table "table" childed;
    Tr "tr" childed;
    THead "thead" childed;
    TFoot "tfoot" childed;
    TBody "tbody" childed;
    Template "template" childed;
    TextArea "textarea" childed;
    Time "time" childed;
    Track "track" childless;
    Ul "ul" childed;
    Video "video" childed;
}
type MkInput = (fn() -> html::Input, &'static str);
const INPUTS: &[MkInput] = &[
    (html::Input::new_button, "button"),
    (html::Input::new_checkbox, "checkbox"),
    (html::Input::new_color, "color"),
    (html::Input::new_date, "date"),
    (html::Input::new_datetime, "datetime"),
    (html::Input::new_email, "email"),
    (html::Input::new_file, "file"),
    (html::Input::new_hidden, "hidden"),
    (html::Input::new_image, "image"),
    (html::Input::new_month, "month"),
    (html::Input::new_number, "number"),
    (html::Input::new_password, "password"),
    (html::Input::new_radio, "radio"),
    (html::Input::new_range, "range"),
    (html::Input::new_reset, "reset"),
    (html::Input::new_search, "search"),
    (html::Input::new_submit, "submit"),
    (html::Input::new_tel, "tel"),
    (html::Input::new_text, "text"),
    (html::Input::new_time, "time"),
    (html::Input::new_url, "url"),
    (html::Input::new_week, "week"),
];
const CUSTOM: &[&str] = &["my-element", "article", "x-y-z", "section", "main", "details", "custom-élan"];
const CLASSES: &[&str] = &["a", "b", "c", "a-b", "B", "wide_1", "très", "x:y", "a/b", "0", "-", "aa"];

/// What a component of the app should look like, shared with its running future.
struct Model {
    what: String,
    tag: String,
    childed: bool,
    input_type: Option<&'static str>,
    /// what is displayed once the component is finished
    after: Option<String>,
    node: RefCell<Option<Rc<Obj>>>,
    element: RefCell<Option<web_sys::Element>>,
    with_class: RefCell<Option<Box<dyn Fn(&str) -> bool>>>,
    with_classes: RefCell<Option<Box<dyn Fn(Vec<&str>) -> bool>>>,
    text: RefCell<Option<web_sys::Text>>,
    want_text: RefCell<Option<String>>,
    classes: RefCell<Vec<String>>,
    kids: Vec<Rc<Model>>,
    sig: Sig,
    told: Cell<bool>,
    value: u64,
    content_done: Cell<bool>,
    render_done: Cell<Option<u64>>,
    polls_between: Cell<u32>,
    parent_gone: Cell<bool>,
}
const CHUNKS: &[&str] = &["", "a", "hello ", "<b>&amp;</b>", "\"'`", "\n", "  ", "é", "日本", "\u{1F600}", "\u{0}", "\u{200d}", "{{x}}", "-->", "\t", "\u{feff}", "word"];
fn text(cx: &mut Cx) -> String {
    let n = cx.rng.below(5);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(cx.rng.pick::<&str>(CHUNKS));
    }
    if cx.rng.chance(1, 60) {
        s = s.repeat(300);
    }
    s
}
/// build the model and the future of a component
fn component(cx: &mut Cx, depth: usize, all: &mut Vec<Rc<Model>>, bad: &Rc<RefCell<Vec<String>>>) -> (Rc<Model>, BF<()>) {
    let mut m = Model {
        what: String::new(),
        tag: String::new(),
        childed: true,
        input_type: None,
        after: None,
        node: Default::default(),
        element: Default::default(),
        with_class: Default::default(),
        with_classes: Default::default(),
        text: Default::default(),
        want_text: Default::default(),
        classes: Default::default(),
        kids: vec![],
        sig: Sig::default(),
        told: Cell::new(false),
        value: cx.rng.below(1000) as u64,
        content_done: Cell::new(false),
        render_done: Cell::new(None),
        polls_between: Cell::new(0),
        parent_gone: Cell::new(false),
    };
    let roll = cx.rng.below(10);
    if roll < 3 {
        // text
        let t = text(cx);
        m.tag = "#text".into();
        m.childed = false;
        *m.want_text.borrow_mut() = Some(t.clone());
        let obj = cx.rng.chance(1, 2);
        let history: Vec<String> = (0..cx.rng.below(3)).map(|_| text(cx)).collect();
        m.what = if obj { "html::Text".into() } else { "str.render()".into() };
        cov(|c| c.hit(if obj { "text_components" } else { "str_components" }));
        let m = Rc::new(m);
        all.push(m.clone());
        let m2 = m.clone();
        let early = cx.rng.chance(1, 2);
        let built = move || -> html::Text {
            let x = if t.len() % 2 == 0 { html::Text::new() } else { html::Text::default() };
            for h in &history {
                x.set_data(h);
            }
            if !t.is_empty() || !history.is_empty() {
                x.set_data(&t);
            }
            *m2.node.borrow_mut() = Some(to_obj(&x.node));
            *m2.text.borrow_mut() = Some(x.node.clone());
            x
        };
        let m2 = m.clone();
        let f: BF<()> = if obj {
            let made = early.then(&built);
            Box::pin(async move {
                let x = made.unwrap_or_else(&built);
                x.render().await;
                m2.render_done.set(Some(u64::MAX));
            })
        } else {
            Box::pin(async move {
                let s = m2.want_text.borrow().clone().unwrap();
                if s.len() % 3 == 0 {
                    s.render().await;
                } else {
                    let f = s.as_str().render();
                    drop(s);
                    f.await;
                }
                m2.render_done.set(Some(u64::MAX));
            })
        };
        return (m, f);
    }
    let maker: Box<dyn Fn() -> Result<Made, String>>;
    if roll == 3 {
        let (mk, ty) = *cx.rng.pick(INPUTS);
        m.what = format!("Input({ty})");
        m.tag = "input".into();
        m.childed = false;
        m.input_type = Some(ty);
        maker = Box::new(move || {
            let x = Rc::new(mk());
            finish_making("Input", x.clone(), render_it!(x, childless))
        });
    } else if roll == 4 {
        let tag = *cx.rng.pick(CUSTOM);
        let owned = cx.rng.chance(1, 2);
        m.what = format!("CustomElement({tag})");
        m.tag = tag.into();
        maker = Box::new(move || {
            let x = html::CustomElement::new(if owned { tag.to_string().into() } else { tag.into() });
            let element: web_sys::Element = x.element.clone().into();
            let (a, b) = (element.clone(), element.clone());
            Ok(Made {
                node: to_obj(&element),
                element,
                render: render_it!(x, childed),
                with_class: Box::new(move |c| std::ptr::eq(a.with_class(c), &a)),
                with_classes: Box::new(move |c| std::ptr::eq(b.with_classes(c), &b)),
            })
        });
    } else {
        let ix = cx.rng.below(ELEMENTS.len());
        let (name, tag, childed) = ELEMENTS[ix];
        let default = cx.rng.chance(1, 3);
        m.what = name.into();
        m.tag = tag.into();
        m.childed = childed;
        maker = Box::new(move || make(ix, default));
    }
    cov(|c| {
        c.hit("element_components");
        c.hit(&format!("tag:{}", m.tag));
    });
    let mut kids: Vec<BF<()>> = vec![];
    if m.childed && depth > 0 {
        for _ in 0..cx.rng.below(4) {
            let (k, f) = component(cx, depth - 1, all, bad);
            m.kids.push(k);
            kids.push(f);
        }
    }
    if m.childed && cx.rng.chance(1, 2) {
        m.after = Some(text(cx));
    }
    let m = Rc::new(m);
    all.push(m.clone());
    let (m2, bad2) = (m.clone(), bad.clone());
    let create = move || -> Option<Made> {
        let mut made = match maker() {
            Ok(x) => x,
            Err(e) => {
                bad2.borrow_mut().push(e);
                return None;
            }
        };
        *m2.node.borrow_mut() = Some(made.node.clone());
        *m2.element.borrow_mut() = Some(made.element.clone());
        *m2.with_class.borrow_mut() = Some(std::mem::replace(&mut made.with_class, Box::new(|_| false)));
        *m2.with_classes.borrow_mut() = Some(std::mem::replace(&mut made.with_classes, Box::new(|_| false)));
        Some(made)
    };
    let early = cx.rng.chance(1, 2);
    let made = if early { create() } else { None };
    let m2 = m.clone();
    let (no_child, slow) = (kids.is_empty() && cx.rng.chance(1, 3), cx.rng.chance(1, 4));
    let f: BF<()> = Box::pin(async move {
        let made = match made {
            Some(x) => x,
            None => match create() {
                Some(x) => x,
                None => return,
            },
        };
        let m3 = m2.clone();
        let content: BF<u64> = Box::pin(async move {
            if m3.kids.is_empty() && no_child {
                race((NoChild, m3.sig.wait())).await;
            } else if kids.is_empty() {
                m3.sig.wait().await;
            } else {
                let all = async {
                    join(kids).await;
                    pending::<()>().await;
                };
                race((all, m3.sig.wait())).await;
            }
            if slow {
                futures_lite::future::yield_now().await;
            }
            m3.content_done.set(true);
            m3.value
        });
        let mut rendering = (made.render)(content);
        drop(made);
        let m3 = m2.clone();
        let v = std::future::poll_fn(move |cx| {
            let r = rendering.as_mut().poll(cx);
            if m3.content_done.get() && r.is_pending() {
                m3.polls_between.set(m3.polls_between.get() + 1);
            }
            r
        })
        .await;
        m2.render_done.set(Some(v));
        if let Some(t) = &m2.after {
            t.render().await;
        }
        pending::<()>().await
    });
    (m, f)
}
/// compare the children of `at` (from `skip` on) with the model
fn compare(at: &Rc<Obj>, kids: &[Rc<Model>], skip: usize, path: &str) -> CaseResult {
    let real: Vec<Rc<Obj>> = native::children_of(at).into_iter().skip(skip).filter(|c| matches!(c.node().unwrap().kind, NodeKind::Element | NodeKind::Text)).collect();
    let mut it = real.into_iter();
    for k in kids {
        if let Some(v) = k.render_done.get() {
            check!(k.childed, "{path}: the render future of {} finished, with {v}", k.what);
            check!(k.content_done.get(), "{path}: the render future of {} finished before its content", k.what);
            check!(v == k.value, "{path}: the render future of {} gave {v}, its content {}", k.what, k.value);
            if let Some(t) = &k.after {
                let o = it.next().ok_or_else(|| format!("{path}: nothing shown where text {t:?} was rendered after {}", k.what))?;
                let n = o.node().unwrap();
                check!(n.kind == NodeKind::Text && *n.data.borrow() == *t, "{path}: expected text {t:?}, found {} {:?}", n.name, n.data.borrow());
            }
            continue;
        }
        check!(!k.content_done.get(), "{path}: the content of {} is done but its render future is not", k.what);
        let o = it.next().ok_or_else(|| format!("{path}: {} is missing", k.what))?;
        let n = o.node().unwrap();
        let path = format!("{path}/{}", k.what);
        if let Some(t) = &*k.want_text.borrow() {
            check!(n.kind == NodeKind::Text, "{path}: expected a text node, found {}", n.name);
            check!(*n.data.borrow() == *t, "{path}: expected text {t:?}, found {:?}", n.data.borrow());
        } else {
            check!(n.kind == NodeKind::Element && n.name == k.tag, "{path}: expected a <{}>, found {:?} {}", k.tag, n.kind, n.name);
            let ty = n.attrs.borrow().get("type").cloned();
            check!(ty.as_deref() == k.input_type, "{path}: type is {ty:?}, not {:?}", k.input_type);
        }
        if let Some(h) = &*k.node.borrow() {
            check!(Rc::ptr_eq(h, &o), "{path}: another node is displayed than the one created");
        }
        compare(&o, &k.kids, 0, &path)?;
    }
    if let Some(o) = it.next() {
        let n = o.node().unwrap();
        return Err(format!("{path}: unexpected {} {:?}", n.name, n.data.borrow()));
    }
    Ok(())
}
fn check_classes(all: &[Rc<Model>]) -> CaseResult {
    for k in all {
        let Some(o) = k.node.borrow().clone() else { continue };
        let n = o.node().unwrap();
        if n.kind != NodeKind::Element {
            continue;
        }
        let mut got: Vec<String> = native::class_tokens(&o);
        let mut want = k.classes.borrow().clone();
        got.sort();
        want.sort();
        check!(got == want, "{}: classes are {got:?}, expected {want:?}", k.what);
        let extra: Vec<String> = n.attrs.borrow().keys().filter(|a| !matches!(a.as_str(), "class" | "type")).cloned().collect();
        check!(extra.is_empty(), "{}: unexpected attributes {extra:?}", k.what);
    }
    Ok(())
}
fn class_op(cx: &mut Cx, k: &Model) -> CaseResult {
    let Some(e) = k.element.borrow().clone() else { return Ok(()) };
    let one = *cx.rng.pick(CLASSES);
    let many: Vec<&str> = (0..cx.rng.below(5)).map(|_| *cx.rng.pick(CLASSES)).collect();
    let mut m = k.classes.borrow_mut();
    let add = |m: &mut Vec<String>, c: &str| {
        if !m.iter().any(|x| x == c) {
            m.push(c.into())
        }
    };
    let op = cx.rng.below(9);
    tr!("{} op {op} {one:?} {many:?}", k.what);
    cov(|c| c.hit("class_operations"));
    match op {
        0 => {
            e.add_class(one);
            add(&mut m, one);
        }
        1 => {
            if cx.rng.chance(1, 2) {
                e.add_classes(many.iter().copied());
            } else {
                e.add_classes(many.clone());
            }
            many.iter().for_each(|c| add(&mut m, c));
        }
        2 => {
            e.del_class(one);
            m.retain(|x| x != one);
        }
        3 => {
            e.del_classes(many.clone());
            m.retain(|x| !many.contains(&x.as_str()));
        }
        4 => {
            e.set_class(one, true);
            add(&mut m, one);
        }
        5 => {
            e.set_class(one, false);
            m.retain(|x| x != one);
        }
        6 => {
            let r = k.with_class.borrow();
            check!(r.as_ref().unwrap()(one), "with_class returned something else than its receiver");
            add(&mut m, one);
        }
        7 => {
            let r = k.with_classes.borrow();
            check!(r.as_ref().unwrap()(many.clone()), "with_classes returned something else than its receiver");
            many.iter().for_each(|c| add(&mut m, c));
        }
        _ => {
            // somebody else writes the attribute
            e.set_class_name(&many.join(if cx.rng.chance(1, 2) { " " } else { "\n " }));
            m.clear();
            many.iter().for_each(|c| add(&mut m, c));
        }
    }
    Ok(())
}
fn gone(k: &Model) {
    for c in &k.kids {
        c.parent_gone.set(true);
        gone(c);
    }
}
pub fn h01(cx: &mut Cx) -> CaseResult {
    let body = native::body();
    let host = native::new_element_raw("section");
    native::insert_before(&body, &host, None).unwrap();
    let own = native::new_char_data(NodeKind::Text, "own");
    native::insert_before(&host, &own, None).unwrap();
    let mut all = vec![];
    let bad = Rc::new(RefCell::new(vec![]));
    let (mut roots, mut futs) = (vec![], vec![]);
    for _ in 0..cx.scaled(1, 5) {
        let depth = cx.scaled(0, 3);
        let (m, f) = component(cx, depth, &mut all, &bad);
        roots.push(m);
        futs.push(f);
    }
    for k in &all {
        if cx.rng.chance(1, 2) && !k.node.borrow().is_none() {
            class_op(cx, k)?;
        }
    }
    let handle = mount_at(
        async move {
            join(futs).await;
        },
        to_node(&host),
    );
    let settle = || -> CaseResult {
        let n = native::run_timers(2000);
        check!(n < 2000, "HARNESS: the page does not settle");
        check!(native::stats(|s| s.exceptions) == 0, "a DOM operation failed");
        check!(native::page().uncaught.borrow().is_empty(), "uncaught: {:?}", native::page().uncaught.borrow());
        if let Some(b) = bad.borrow().first() {
            return Err(b.clone());
        }
        for k in &all {
            check!(k.polls_between.get() == 0, "the content of {} finished, its render future did not in the same poll", k.what);
            if let (Some(v), false) = (k.render_done.get(), k.content_done.get()) {
                return Err(format!("the render future of {} finished, with {v}, without its content", k.what));
            }
            check!(k.parent_gone.get() || k.told.get() == k.content_done.get(), "HARNESS: content of {} told {} done {}", k.what, k.told.get(), k.content_done.get());
        }
        compare(&host, &roots, 1, "page")?;
        check_classes(&all)
    };
    settle()?;
    let steps = cx.scaled(2, 14);
    for _ in 0..steps {
        let k = cx.rng.pick(&all).clone();
        match cx.rng.below(6) {
            0 => {
                // finish the content of an element
                if k.childed && !k.told.get() && !k.parent_gone.get() {
                    tr!("finish {}", k.what);
                    k.told.set(true);
                    k.sig.set();
                    gone(&k);
                    cov(|c| c.hit("contents_finished"));
                }
            }
            1 | 2 => {
                let t = k.text.borrow().clone();
                if let Some(t) = t {
                    let (s, old) = (text(cx), k.want_text.borrow().clone().unwrap());
                    let new = if cx.rng.chance(1, 3) {
                        t.append_data(&s).unwrap();
                        old + &s
                    } else {
                        t.set_data(&s);
                        s
                    };
                    tr!("{} text := {new:?}", k.what);
                    *k.want_text.borrow_mut() = Some(new);
                    cov(|c| c.hit("text_changes"));
                }
            }
            _ => class_op(cx, &k)?,
        }
        if cx.rng.chance(2, 3) {
            settle()?;
        }
    }
    settle()?;
    cov(|c| {
        c.add("components", all.len() as u64);
        c.sig(all.iter().map(|k| (k.tag.clone(), k.classes.borrow().clone(), k.told.get())).collect::<Vec<_>>());
    });
    drop(handle);
    native::run_timers(2000);
    let left = native::children_of(&host);
    check!(left.len() == 1 && Rc::ptr_eq(&left[0], &own), "{} nodes left after unmounting", left.len() - 1);
    check_classes(&all)
}
