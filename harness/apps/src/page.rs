//! What a user sees and does on the page.
use crate::driver::*;
use async_ui_web::mount_at;
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;
use wasm_bindgen::native::{self, Obj};
use wasm_bindgen::{JsCast, JsValue};

pub type O = Rc<Obj>;
pub fn tag(o: &O) -> &str {
    o.node().map(|n| n.name.as_str()).unwrap_or("")
}
pub fn find(root: &O, f: &dyn Fn(&O) -> bool) -> Vec<O> {
    let mut out = vec![];
    fn go(o: &O, f: &dyn Fn(&O) -> bool, out: &mut Vec<O>) {
        if f(o) {
            out.push(o.clone());
        }
        for c in native::children_of(o) {
            go(&c, f, out);
        }
    }
    for c in native::children_of(root) {
        go(&c, f, &mut out);
    }
    out
}
pub fn by_tag(root: &O, t: &str) -> Vec<O> {
    find(root, &|o| tag(o) == t)
}
/// a class of a css! block: its name, a dash, eight characters
pub fn has(o: &O, class: &str) -> bool {
    o.node().is_some()
        && native::class_tokens(o).iter().any(|t| t == class || t.strip_prefix(class).is_some_and(|r| r.len() == 9 && r.starts_with('-')))
}
pub fn by_class(root: &O, c: &str) -> Vec<O> {
    find(root, &|o| has(o, c))
}
pub fn one(v: Vec<O>, what: &str) -> Result<O, String> {
    match v.len() {
        1 => Ok(v[0].clone()),
        n => Err(format!("{n} {what} on the page, expected one")),
    }
}
pub fn elements(o: &O) -> Vec<O> {
    native::children_of(o).into_iter().filter(|c| c.class != "Comment" && c.class != "Text").collect()
}
pub fn text(o: &O) -> String {
    native::text_content(o)
}
pub fn value(o: &O) -> String {
    native::to_string(&o.prop("value"))
}
pub fn flag(o: &O, p: &str) -> bool {
    o.prop(p).is_truthy()
}
thread_local! {
    static ROOT: RefCell<Option<O>> = const { RefCell::new(None) };
    static NEIGHBOURS: RefCell<Option<Neighbours>> = const { RefCell::new(None) };
}
/// the element the application under observation is mounted in
pub fn root() -> O {
    ROOT.with(|r| r.borrow().clone()).expect("HARNESS: no root")
}
/// other applications on the same page, used at random and not looked at closely
struct Neighbours {
    rng: Rng,
    apps: Vec<(O, Option<Box<dyn std::any::Any>>)>,
}
pub fn new_page(cx: &mut Cx) {
    let div = || {
        let d = native::new_element_raw("div");
        native::insert_before(&native::body(), &d, None).expect("HARNESS: insert");
        d
    };
    let mut apps = vec![];
    let n = if cx.rng.chance(1, 3) { cx.rng.range(1, 3) } else { 0 };
    let own = cx.rng.below(n + 1);
    for k in 0..n + 1 {
        let d = div();
        if k == own {
            ROOT.with(|r| *r.borrow_mut() = Some(d));
            continue;
        }
        let node: web_sys::Node = JsValue::from_obj(d.clone()).unchecked_into();
        let which = cx.rng.below(6);
        tr!("next to it: application {which}");
        let t: Box<dyn std::any::Any> = match which {
            0 => Box::new(mount_at(crate::ex::counter::counter(), node)),
            1 => Box::new(mount_at(crate::ex::timer::timer(), node)),
            2 => Box::new(mount_at(crate::ex::todomvc::app(), node)),
            3 => Box::new(mount_at(crate::ex::flight::flight(), node)),
            4 => Box::new(mount_at(crate::ex::temp_converter::converter(), node)),
            _ => Box::new(mount_at(crate::ex::play::the_app(), node)),
        };
        apps.push((d, Some(t)));
        cov(|c| c.hit("neighbours"));
    }
    if !apps.is_empty() {
        let rng = cx.rng.fork();
        NEIGHBOURS.with(|n| *n.borrow_mut() = Some(Neighbours { rng, apps }));
    }
}
/// somebody does something with a neighbour
fn poke() {
    let Some(mut n) = NEIGHBOURS.with(|n| n.borrow_mut().take()) else { return };
    let k = n.rng.below(n.apps.len());
    let d = n.apps[k].0.clone();
    match n.rng.below(12) {
        0..=4 => {
            let all = find(&d, &|o| matches!(tag(o), "button" | "a" | "div" | "label") && !flag(o, "disabled"));
            if !all.is_empty() {
                fire(n.rng.pick(&all), "MouseEvent", if n.rng.chance(1, 4) { "dblclick" } else { "click" }, true, &[]);
            }
        }
        5..=7 => {
            let all = by_tag(&d, "input");
            if !all.is_empty() {
                let o = n.rng.pick(&all).clone();
                let s = *n.rng.pick(&["1", "x", "2024-02-03", "7.5"]);
                type_in(&o, s, if n.rng.chance(1, 2) { "input" } else { "change" });
            }
        }
        8 if n.rng.chance(1, 8) => {
            // it goes away
            n.apps[k].1.take();
            native::advance(0.0);
            cov(|c| c.hit("neighbours unmounted"));
        }
        _ => {}
    }
    NEIGHBOURS.with(|x| *x.borrow_mut() = Some(n));
}
/// the text of the application
pub fn body_text() -> String {
    text(&root())
}
/// returns false if the default action was prevented
pub fn fire(o: &O, class: &'static str, ty: &str, bubbles: bool, props: &[(&str, JsValue)]) -> bool {
    let e = native::new_event(class, ty, bubbles, true);
    for (k, v) in props {
        e.set_prop(k, v.clone());
    }
    e.event().unwrap().trusted.set(true);
    cov(|c| c.hit("user events"));
    native::dispatch_event(o, &e).expect("HARNESS: dispatch")
}
pub fn click(o: &O) -> bool {
    assert!(!flag(o, "disabled"), "HARNESS: click on a disabled element");
    fire(o, "MouseEvent", "click", true, &[])
}
pub fn type_in(o: &O, s: &str, ty: &str) {
    o.set_prop("value", s.into());
    fire(o, if ty == "input" { "InputEvent" } else { "Event" }, ty, true, &[]);
}
pub fn settle() {
    native::advance(0.0);
    poke();
    native::advance(0.0);
}
pub fn no_errors(what: &str) -> CaseResult {
    let u = native::page().uncaught.borrow().clone();
    check!(u.is_empty(), "{what}: an exception escaped: {u:?}");
    let p = recorded_panics();
    check!(p.is_empty(), "{what}: the application panicked: {:?}", p[0]);
    Ok(())
}
pub struct Mounted {
    task: Option<Box<dyn std::any::Any>>,
}
pub fn mount(f: impl Future<Output = ()> + 'static) -> Mounted {
    let m = mount_early(f);
    settle();
    m
}
/// mounted, but nothing has run since
pub fn mount_early(f: impl Future<Output = ()> + 'static) -> Mounted {
    let node: web_sys::Node = JsValue::from_obj(root()).unchecked_into();
    let task: Box<dyn std::any::Any> = Box::new(mount_at(f, node));
    Mounted { task: Some(task) }
}
impl Mounted {
    /// take the application away: nothing of it may stay
    pub fn unmount(mut self) -> CaseResult {
        let body = root();
        let all = find(&body, &|_| true);
        self.task.take();
        settle();
        let left = native::children_of(&body);
        check!(left.is_empty(), "unmounting left {} nodes on the page, the first with text {:?}", left.len(), text(&left[0]));
        for o in all {
            let l = native::listeners_of(&o);
            check!(l.is_empty(), "unmounting left a listener for {:?} on a <{}>", l[0].ty, tag(&o));
        }
        let l = native::listeners_of(&body);
        check!(l.is_empty(), "unmounting left a listener for {:?} on the element it was mounted in", l[0].ty);
        native::advance(10_000.0);
        check!(native::children_of(&body).is_empty(), "the page shows something again long after unmounting");
        let gone = NEIGHBOURS.with(|n| n.borrow_mut().take());
        for (d, t) in gone.into_iter().flat_map(|n| n.apps) {
            let there = !native::children_of(&d).is_empty();
            check!(there == t.is_some(), "an application next to it is on the page: {there}, expected {}", t.is_some());
            drop(t);
        }
        native::advance(0.0);
        no_errors("unmounting")
    }
}
impl Drop for Mounted {
    fn drop(&mut self) {
        // ends the task of a case that failed, too
        self.task.take();
    }
}
