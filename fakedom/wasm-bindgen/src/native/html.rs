//! Window, elements, class lists, style, select/option, observers.
use super::*;

type R = Option<Result<JsValue, JsValue>>;
fn u() -> JsValue {
    JsValue::UNDEFINED
}
pub struct ObserverData {
    pub callback: JsValue,
    pub root: Option<Rc<Obj>>,
    pub root_margin: String,
    pub targets: RefCell<Vec<Rc<Obj>>>,
}

pub(crate) fn window_op(kind: Kind, name: &str, a: &[JsValue]) -> R {
    Some(Ok(match (kind, name) {
        (Kind::Get, "document") => JsValue::from_obj(page().document.clone()),
        (Kind::Get, "window" | "self") => JsValue::from_obj(page().window.clone()),
        (Kind::Call, "setTimeout" | "setInterval" | "clearTimeout" | "clearInterval" | "cancelAnimationFrame") => return timer_op(name, a).map(Ok),
        (Kind::Call, "requestAnimationFrame") => (add_timer(arg(a, 0), vec![JsValue::from(0.0)], 16.0, "raf") as f64).into(),
        (Kind::Call, "queueMicrotask") => {
            add_timer(arg(a, 0), vec![], -1.0, "microtask");
            u()
        }
        _ => return None,
    }))
}

pub fn class_tokens(o: &Rc<Obj>) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    if let Some(n) = o.node() {
        if let Some(c) = n.attrs.borrow().get("class") {
            for t in c.split_ascii_whitespace() {
                if !v.iter().any(|x| x == t) {
                    v.push(t.to_string());
                }
            }
        }
    }
    v
}
fn set_tokens(o: &Rc<Obj>, t: &[String]) {
    let n = o.node().unwrap();
    if t.is_empty() && !n.attrs.borrow().contains_key("class") {
        return;
    }
    n.attrs.borrow_mut().insert("class".into(), t.join(" "));
}
fn check_token(t: &str) -> Result<(), JsValue> {
    if t.is_empty() {
        return Err(dom_error("SyntaxError", "The token provided must not be empty."));
    }
    if t.contains(|c: char| matches!(c, ' ' | '\t' | '\n' | '\x0c' | '\r')) {
        return Err(dom_error("InvalidCharacterError", "The token provided contains HTML space characters"));
    }
    Ok(())
}
pub(crate) fn token_list_op(kind: Kind, name: &str, o: &Option<Rc<Obj>>, a: &[JsValue]) -> R {
    let o = o.as_ref()?;
    let strs: Vec<String> = a.iter().map(to_string).collect();
    Some((|| {
        let mut t = class_tokens(o);
        Ok(match (kind, name) {
            (Kind::Get, "length") => (t.len() as f64).into(),
            (Kind::Get, "value") => o.node().unwrap().attrs.borrow().get("class").cloned().unwrap_or_default().into(),
            (Kind::Set, "value") => {
                o.node().unwrap().attrs.borrow_mut().insert("class".into(), to_string(&arg(a, 0)));
                u()
            }
            (Kind::Call, "contains") => t.contains(&strs[0]).into(),
            (Kind::Call, "item") | (Kind::Index, _) => t.get(arg(a, 0).as_f64().unwrap_or(0.0) as usize).cloned().map(JsValue::from).unwrap_or(JsValue::NULL),
            (Kind::Call, "add") => {
                for s in &strs {
                    check_token(s)?;
                }
                for s in strs.iter() {
                    if !t.contains(s) {
                        t.push(s.clone());
                    }
                }
                set_tokens(o, &t);
                u()
            }
            (Kind::Call, "remove") => {
                for s in &strs {
                    check_token(s)?;
                }
                t.retain(|x| !strs.contains(x));
                set_tokens(o, &t);
                u()
            }
            (Kind::Call, "toggle") => {
                let s = to_string(&arg(a, 0));
                check_token(&s)?;
                let force = a.get(1).filter(|f| !f.is_undefined()).map(|f| f.is_truthy());
                let has = t.contains(&s);
                let want = force.unwrap_or(!has);
                if want && !has {
                    t.push(s);
                } else if !want {
                    t.retain(|x| *x != s);
                }
                if want != has {
                    set_tokens(o, &t);
                }
                want.into()
            }
            (Kind::Call, "replace") => {
                let (x, y) = (to_string(&arg(a, 0)), to_string(&arg(a, 1)));
                check_token(&x)?;
                check_token(&y)?;
                match t.iter().position(|k| *k == x) {
                    None => false.into(),
                    Some(i) => {
                        t[i] = y.clone();
                        let mut seen = vec![];
                        t.retain(|k| {
                            let new = !seen.contains(k);
                            seen.push(k.clone());
                            new
                        });
                        set_tokens(o, &t);
                        true.into()
                    }
                }
            }
            _ => unsupported(&format!("DOMTokenList.{name}")),
        })
    })())
}
pub(crate) fn style_op(kind: Kind, name: &str, o: &Rc<Obj>, _el: &Option<Rc<Obj>>, a: &[JsValue]) -> R {
    Some(Ok(match (kind, name) {
        (Kind::Call, "setProperty") => {
            o.set_prop(&to_string(&arg(a, 0)), to_string(&arg(a, 1)).into());
            u()
        }
        (Kind::Call, "getPropertyValue") => to_string(&o.prop(&to_string(&arg(a, 0)))).into(),
        (Kind::Call, "removeProperty") => {
            let k = to_string(&arg(a, 0));
            let old = o.props.borrow_mut().remove(&k);
            to_string(&old.unwrap_or_default()).into()
        }
        _ => return None,
    }))
}
pub fn style_of(o: &Rc<Obj>) -> Rc<Obj> {
    let s = o.prop("[[style]]");
    match s.obj() {
        Some(s) => s.clone(),
        None => {
            let s = Obj::new("CSSStyleDeclaration", Data::Style(Rc::downgrade(o)));
            o.set_prop("[[style]]", JsValue::from_obj(s.clone()));
            s
        }
    }
}
// ---------------------------------------------------------------- select
fn options(sel: &Rc<Obj>) -> Vec<Rc<Obj>> {
    let mut v = vec![];
    for c in children_of(sel) {
        match c.node().unwrap().name.as_str() {
            "option" => v.push(c),
            "optgroup" => v.extend(children_of(&c).into_iter().filter(|x| x.node().unwrap().name == "option")),
            _ => {}
        }
    }
    v
}
fn owner_select(opt: &Rc<Obj>) -> Option<Rc<Obj>> {
    let p = parent_of(opt)?;
    match p.node()?.name.as_str() {
        "select" => Some(p),
        "optgroup" => parent_of(&p).filter(|g| g.node().unwrap().name == "select"),
        _ => None,
    }
}
fn is_multiple(sel: &Rc<Obj>) -> bool {
    sel.prop("multiple").is_truthy() || sel.node().unwrap().attrs.borrow().contains_key("multiple")
}
fn disabled(o: &Rc<Obj>) -> bool {
    o.prop("disabled").is_truthy() || o.node().unwrap().attrs.borrow().contains_key("disabled")
}
/// "selectedness setting algorithm"
fn fix_selectedness(sel: &Rc<Obj>) {
    if is_multiple(sel) {
        return;
    }
    let opts = options(sel);
    let chosen: Vec<_> = opts.iter().filter(|o| o.node().unwrap().selected.get()).collect();
    let size = sel.prop("size").as_f64().unwrap_or(0.0);
    if chosen.is_empty() && size <= 1.0 {
        if let Some(f) = opts.iter().find(|o| !disabled(o)) {
            f.node().unwrap().selected.set(true);
        }
    } else if chosen.len() >= 2 {
        let last = (*chosen.last().unwrap()).clone();
        for o in &opts {
            o.node().unwrap().selected.set(Rc::ptr_eq(o, &last));
        }
    }
}
fn pick(sel: &Rc<Obj>, which: Option<&Rc<Obj>>) {
    for o in options(sel) {
        o.node().unwrap().selected.set(which.is_some_and(|w| Rc::ptr_eq(w, &o)));
        o.node().unwrap().dirty.set(true);
    }
}
pub fn option_text(o: &Rc<Obj>) -> String {
    text_content(o).split_ascii_whitespace().collect::<Vec<_>>().join(" ")
}
pub fn option_value(o: &Rc<Obj>) -> String {
    match o.node().unwrap().attrs.borrow().get("value") {
        Some(v) => v.clone(),
        None => option_text(o),
    }
}
pub fn selected_index(sel: &Rc<Obj>) -> i32 {
    options(sel).iter().position(|o| o.node().unwrap().selected.get()).map(|i| i as i32).unwrap_or(-1)
}
/// The user picks option `ix` in the UI (fires input and change).
pub fn user_select(sel: &Rc<Obj>, ix: usize) {
    let o = options(sel)[ix].clone();
    pick(sel, Some(&o));
    for ty in ["input", "change"] {
        let e = new_event("Event", ty, true, false);
        e.event().unwrap().trusted.set(true);
        let _ = dispatch_event(sel, &e);
    }
}
pub(crate) fn after_inserted(parent: &Rc<Obj>, node: &Rc<Obj>) {
    let Some(n) = node.node() else { return };
    if n.name == "option" {
        if let Some(sel) = owner_select(node) {
            if n.selected.get() && !is_multiple(&sel) {
                for o in options(&sel) {
                    if !Rc::ptr_eq(&o, node) {
                        o.node().unwrap().selected.set(false);
                    }
                }
            }
            fix_selectedness(&sel);
        }
    }
    let _ = parent;
}
pub(crate) fn after_children_changed(parent: &Rc<Obj>) {
    if parent.node().is_some_and(|n| n.name == "select") {
        fix_selectedness(parent);
    }
}
fn rect(r: [f64; 4]) -> JsValue {
    let [x, y, w, h] = r;
    let o = Obj::new("DOMRect", Data::Plain);
    for (k, v) in [
        ("x", x),
        ("y", y),
        ("left", x),
        ("top", y),
        ("width", w),
        ("height", h),
        ("right", x + w),
        ("bottom", y + h),
    ] {
        o.set_prop(k, v.into());
    }
    JsValue::from_obj(o)
}
/// Geometry of an element per the installed layout function: [x, y, w, h].
pub fn bounding_rect(o: &Rc<Obj>) -> [f64; 4] {
    let l = page().layout.borrow().clone();
    l.map(|l| l(o)).unwrap_or([0.0; 4])
}
/// Reflected content attributes: IDL name -> attribute name.
fn reflected(name: &str) -> Option<&'static str> {
    Some(match name {
        "id" => "id",
        "className" => "class",
        "title" => "title",
        "lang" => "lang",
        "dir" => "dir",
        "href" => "href",
        "src" => "src",
        "alt" => "alt",
        "name" => "name",
        "type" => "type",
        "placeholder" => "placeholder",
        "htmlFor" => "for",
        "rel" => "rel",
        "target" => "target",
        _ => return None,
    })
}
pub(crate) fn element_op(kind: Kind, name: &str, o: &Rc<Obj>, a: &[JsValue]) -> R {
    let n = o.node().unwrap();
    let tag = n.name.as_str();
    let key = || to_string(&arg(a, 0)).to_ascii_lowercase();
    let r = match (tag, kind, name) {
        ("select", Kind::Get, "selectedIndex") => selected_index(o).into(),
        ("select", Kind::Set, "selectedIndex") => {
            let i = arg(a, 0).as_f64().unwrap_or(-1.0);
            let opts = options(o);
            let w = if i >= 0.0 { opts.get(i as usize) } else { None };
            pick(o, w);
            u()
        }
        ("select", Kind::Get, "value") => options(o).iter().find(|x| x.node().unwrap().selected.get()).map(option_value).unwrap_or_default().into(),
        ("select", Kind::Set, "value") => {
            let v = to_string(&arg(a, 0));
            let opts = options(o);
            pick(o, opts.iter().find(|x| option_value(x) == v));
            u()
        }
        ("select", Kind::Get, "length") => (options(o).len() as f64).into(),
        ("select", Kind::Get, "options") => JsValue::from_obj(Obj::new("HTMLOptionsCollection", Data::Array(RefCell::new(options(o).into_iter().map(JsValue::from_obj).collect())))),
        ("select", Kind::Get, "selectedOptions") => JsValue::from_obj(Obj::new("HTMLCollection", Data::Array(RefCell::new(options(o).into_iter().filter(|x| x.node().unwrap().selected.get()).map(JsValue::from_obj).collect())))),
        ("select", Kind::Call, "item") => opt_obj(options(o).get(arg(a, 0).as_f64().unwrap_or(0.0) as usize).cloned()),
        ("select", Kind::Call, "remove") => {
            let i = arg(a, 0).as_f64().unwrap_or(-1.0);
            if i >= 0.0 {
                if let Some(x) = options(o).get(i as usize) {
                    unlink(x);
                }
            }
            u()
        }
        ("select", Kind::Call, "add") => {
            let before = arg(a, 1);
            let b = match before.as_f64() {
                Some(i) => options(o).get(i as usize).cloned(),
                None => before.obj().cloned(),
            };
            let c = arg(a, 0);
            let p = b.as_ref().and_then(parent_of).unwrap_or_else(|| o.clone());
            return Some(insert_before(&p, c.obj().unwrap(), b.as_ref()).map(|_| u()));
        }
        ("option", Kind::Get, "selected") => n.selected.get().into(),
        ("option", Kind::Set, "selected") => {
            let v = arg(a, 0).is_truthy();
            n.selected.set(v);
            n.dirty.set(true);
            if let Some(sel) = owner_select(o) {
                if v && !is_multiple(&sel) {
                    pick(&sel, Some(o));
                } else {
                    fix_selectedness(&sel);
                }
            }
            u()
        }
        ("option", Kind::Get, "value") => option_value(o).into(),
        ("option", Kind::Set, "value") => {
            n.attrs.borrow_mut().insert("value".into(), to_string(&arg(a, 0)));
            u()
        }
        ("option", Kind::Get, "text") => option_text(o).into(),
        ("option", Kind::Set, "text") => return node_op(Kind::Set, "textContent", o, a),
        ("option", Kind::Get, "index") => owner_select(o)
            .and_then(|s| options(&s).iter().position(|x| Rc::ptr_eq(x, o)))
            .unwrap_or(0)
            .into(),
        (_, Kind::Get, "classList") => {
            let c = o.prop("[[classList]]");
            if c.is_undefined() {
                let t = JsValue::from_obj(Obj::new("DOMTokenList", Data::TokenList(Rc::downgrade(o))));
                o.set_prop("[[classList]]", t.clone());
                t
            } else {
                c
            }
        }
        ("input", Kind::Get, "valueAsNumber") => to_string(&o.prop("value")).trim().parse::<f64>().unwrap_or(f64::NAN).into(),
        (_, Kind::Get, "style") => JsValue::from_obj(style_of(o)),
        (_, Kind::Get, k) if reflected(k).is_some() => n.attrs.borrow().get(reflected(k).unwrap()).cloned().unwrap_or_default().into(),
        (_, Kind::Set, k) if reflected(k).is_some() => {
            n.attrs.borrow_mut().insert(reflected(k).unwrap().into(), to_string(&arg(a, 0)));
            u()
        }
        (_, Kind::Call, "getAttribute") => n.attrs.borrow().get(&key()).cloned().map(JsValue::from).unwrap_or(JsValue::NULL),
        (_, Kind::Call, "setAttribute") => {
            n.attrs.borrow_mut().insert(key(), to_string(&arg(a, 1)));
            u()
        }
        (_, Kind::Call, "removeAttribute") => {
            n.attrs.borrow_mut().remove(&key());
            u()
        }
        (_, Kind::Call, "hasAttribute") => n.attrs.borrow().contains_key(&key()).into(),
        (_, Kind::Call, "hasAttributes") => (!n.attrs.borrow().is_empty()).into(),
        (_, Kind::Call, "toggleAttribute") => {
            let k = key();
            let has = n.attrs.borrow().contains_key(&k);
            let want = a.get(1).filter(|f| !f.is_undefined()).map(|f| f.is_truthy()).unwrap_or(!has);
            if want && !has {
                n.attrs.borrow_mut().insert(k, String::new());
            } else if !want {
                n.attrs.borrow_mut().remove(&k);
            }
            want.into()
        }
        (_, Kind::Call, "getBoundingClientRect") => rect(bounding_rect(o)),
        (_, Kind::Get, "clientHeight" | "offsetHeight") => bounding_rect(o)[3].into(),
        (_, Kind::Get, "clientWidth" | "offsetWidth") => bounding_rect(o)[2].into(),
        (_, Kind::Get, "innerHTML") => unsupported("innerHTML"),
        (_, Kind::Set, "innerHTML") => {
            let s = to_string(&arg(a, 0));
            if s.contains(['<', '&']) {
                unsupported("innerHTML with markup");
            }
            return node_op(Kind::Set, "textContent", o, a);
        }
        (_, Kind::Call, "insertAdjacentElement" | "insertAdjacentText") => {
            let x = if name.ends_with("Text") {
                new_char_data(NodeKind::Text, &to_string(&arg(a, 1)))
            } else {
                arg(a, 1).obj().unwrap().clone()
            };
            let r = match to_string(&arg(a, 0)).to_ascii_lowercase().as_str() {
                "beforebegin" => parent_of(o).map(|p| insert_before(&p, &x, Some(o))),
                "afterend" => parent_of(o).map(|p| {
                    let next = index_of(&p, o).and_then(|i| children_of(&p).get(i + 1).cloned());
                    insert_before(&p, &x, next.as_ref())
                }),
                "afterbegin" => Some(insert_before(o, &x, children_of(o).first())),
                "beforeend" => Some(insert_before(o, &x, None)),
                _ => Some(Err(dom_error("SyntaxError", "bad position"))),
            };
            return Some(match r {
                None => Ok(JsValue::NULL),
                Some(r) => r.map(|_| JsValue::from_obj(x)),
            });
        }
        (_, Kind::Call, "click") => {
            let e = new_event("MouseEvent", "click", true, true);
            let _ = dispatch_event(o, &e);
            u()
        }
        (_, Kind::Call, "focus" | "blur" | "scrollIntoView") => u(),
        _ => return None,
    };
    Some(Ok(r))
}
// ---------------------------------------------------------------- IntersectionObserver
pub(crate) fn new_observer(a: &[JsValue]) -> Result<JsValue, JsValue> {
    let init = arg(a, 1);
    let get = |k: &str| init.obj().map(|o| o.prop(k)).unwrap_or_default();
    let o = Obj::new(
        "IntersectionObserver",
        Data::Observer(ObserverData {
            callback: arg(a, 0),
            root: get("root").obj().cloned(),
            root_margin: opt_str(&get("rootMargin")).unwrap_or_else(|| "0px".into()),
            targets: Default::default(),
        }),
    );
    page().observers.borrow_mut().push(Rc::downgrade(&o));
    Ok(JsValue::from_obj(o))
}
pub(crate) fn observer_op(kind: Kind, name: &str, o: &Rc<Obj>, a: &[JsValue]) -> R {
    let Data::Observer(d) = &o.data else { return None };
    Some(Ok(match (kind, name) {
        (Kind::Call, "observe") => {
            if let Some(t) = arg(a, 0).obj() {
                if !d.targets.borrow().iter().any(|x| Rc::ptr_eq(x, t)) {
                    d.targets.borrow_mut().push(t.clone());
                    // keeps itself alive while observing
                    o.set_prop("[[self]]", JsValue::from_obj(o.clone()));
                }
            }
            u()
        }
        (Kind::Call, "unobserve") => {
            if let Some(t) = arg(a, 0).obj() {
                d.targets.borrow_mut().retain(|x| !Rc::ptr_eq(x, t));
            }
            u()
        }
        (Kind::Call, "disconnect") => {
            d.targets.borrow_mut().clear();
            let s = o.props.borrow_mut().remove("[[self]]");
            drop(s);
            u()
        }
        (Kind::Get, "root") => opt_obj(d.root.clone()),
        (Kind::Get, "rootMargin") => d.root_margin.clone().into(),
        (Kind::Call, "takeRecords") => array(vec![]),
        _ => return None,
    }))
}
/// Observers that currently watch something.
pub fn active_observers() -> Vec<Rc<Obj>> {
    let p = page();
    p.observers.borrow_mut().retain(|w| w.strong_count() > 0);
    let v = p.observers.borrow().iter().filter_map(|w| w.upgrade()).collect::<Vec<_>>();
    v.into_iter()
        .filter(|o| matches!(&o.data, Data::Observer(d) if !d.targets.borrow().is_empty()))
        .collect()
}
/// Deliver a notification to an observer (entries are not modelled).
pub fn notify_observer(o: &Rc<Obj>) {
    if let Data::Observer(d) = &o.data {
        call_reporting(&d.callback, &[array(vec![]), JsValue::from_obj(o.clone())]);
    }
}
