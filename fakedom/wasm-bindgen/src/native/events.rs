//! Event targets, events and dispatch.
use super::*;

pub struct Listener {
    pub ty: String,
    pub callback: JsValue,
    pub capture: bool,
    pub once: bool,
    pub passive: bool,
    pub removed: Cell<bool>,
}
pub struct EventData {
    pub ty: String,
    pub bubbles: bool,
    pub cancelable: bool,
    pub target: RefCell<Option<Rc<Obj>>>,
    pub current: RefCell<Option<Rc<Obj>>>,
    pub phase: Cell<u16>,
    pub stop: Cell<bool>,
    pub stop_now: Cell<bool>,
    pub canceled: Cell<bool>,
    pub in_passive: Cell<bool>,
    pub dispatching: Cell<bool>,
    pub trusted: Cell<bool>,
}
pub fn new_event(class: &'static str, ty: &str, bubbles: bool, cancelable: bool) -> Rc<Obj> {
    Obj::new(
        class,
        Data::Event(EventData {
            ty: ty.to_string(),
            bubbles,
            cancelable,
            target: Default::default(),
            current: Default::default(),
            phase: Cell::new(0),
            stop: Cell::new(false),
            stop_now: Cell::new(false),
            canceled: Cell::new(false),
            in_passive: Cell::new(false),
            dispatching: Cell::new(false),
            trusted: Cell::new(false),
        }),
    )
}
pub(crate) fn construct_event(class: &str, a: &[JsValue]) -> Result<JsValue, JsValue> {
    let class: &'static str = match class {
        "Event" => "Event",
        "UIEvent" => "UIEvent",
        "MouseEvent" => "MouseEvent",
        "KeyboardEvent" => "KeyboardEvent",
        "FocusEvent" => "FocusEvent",
        "InputEvent" => "InputEvent",
        "CompositionEvent" => "CompositionEvent",
        "TouchEvent" => "TouchEvent",
        "WheelEvent" => "WheelEvent",
        "DragEvent" => "DragEvent",
        "PointerEvent" => "PointerEvent",
        "CustomEvent" => "CustomEvent",
        "ClipboardEvent" => "ClipboardEvent",
        _ => unsupported(&format!("new {class}()")),
    };
    let init = arg(a, 1);
    let flag = |k: &str| init.obj().is_some_and(|o| o.prop(k).is_truthy());
    Ok(JsValue::from_obj(new_event(class, &to_string(&arg(a, 0)), flag("bubbles"), flag("cancelable"))))
}
/// Dispatch; returns false if the default action was prevented.
pub fn dispatch_event(target: &Rc<Obj>, ev: &Rc<Obj>) -> Result<bool, JsValue> {
    let e = ev.event().expect("event");
    if e.dispatching.get() {
        return Err(dom_error("InvalidStateError", "The event is already being dispatched."));
    }
    stats(|s| s.dispatches += 1);
    e.dispatching.set(true);
    *e.target.borrow_mut() = Some(target.clone());
    // path: target, ancestors, then the window
    let mut path = vec![target.clone()];
    let mut c = parent_of(target);
    while let Some(p) = c {
        path.push(p.clone());
        c = parent_of(&p);
    }
    if path.last().is_some_and(|l| Rc::ptr_eq(l, &page().document)) && e.ty != "load" {
        path.push(page().window.clone());
    }
    for (i, t) in path.iter().enumerate().rev() {
        if e.stop.get() {
            break;
        }
        e.phase.set(if i == 0 { 2 } else { 1 });
        invoke(t, ev, true);
    }
    for (i, t) in path.iter().enumerate() {
        if e.stop.get() {
            break;
        }
        if i > 0 && !e.bubbles {
            break;
        }
        e.phase.set(if i == 0 { 2 } else { 3 });
        invoke(t, ev, false);
    }
    e.phase.set(0);
    *e.current.borrow_mut() = None;
    e.dispatching.set(false);
    e.stop.set(false);
    e.stop_now.set(false);
    Ok(!e.canceled.get())
}
fn invoke(t: &Rc<Obj>, ev: &Rc<Obj>, capture: bool) {
    let e = ev.event().unwrap();
    *e.current.borrow_mut() = Some(t.clone());
    let list: Vec<Rc<Listener>> = t.listeners.borrow().clone();
    for l in list {
        if l.removed.get() || l.ty != e.ty || l.capture != capture {
            continue;
        }
        if l.once {
            l.removed.set(true);
            t.listeners.borrow_mut().retain(|x| !Rc::ptr_eq(x, &l));
        }
        e.in_passive.set(l.passive);
        call_reporting(&l.callback, &[JsValue::from_obj(ev.clone())]);
        e.in_passive.set(false);
        if e.stop_now.get() {
            return;
        }
    }
}
fn capture_flag(v: &JsValue) -> bool {
    match v.obj() {
        Some(o) => o.prop("capture").is_truthy(),
        None => v.is_truthy(),
    }
}
pub(crate) fn event_target_op(
    kind: Kind,
    name: &str,
    o: &Rc<Obj>,
    a: &[JsValue],
) -> Option<Result<JsValue, JsValue>> {
    if kind != Kind::Call || !instance_of_class(o.class, "EventTarget") {
        return None;
    }
    match name {
        "addEventListener" => {
            let (ty, cb, opt) = (to_string(&arg(a, 0)), arg(a, 1), arg(a, 2));
            let capture = capture_flag(&opt);
            if cb.is_null_or_undefined() {
                return Some(Ok(JsValue::UNDEFINED));
            }
            let dup = o
                .listeners
                .borrow()
                .iter()
                .any(|l| l.ty == ty && l.callback == cb && l.capture == capture);
            if !dup {
                stats(|s| s.listeners_added += 1);
                let f = |k: &str| opt.obj().is_some_and(|o| o.prop(k).is_truthy());
                o.listeners.borrow_mut().push(Rc::new(Listener {
                    ty,
                    callback: cb,
                    capture,
                    once: f("once"),
                    passive: f("passive"),
                    removed: Cell::new(false),
                }));
            }
            Some(Ok(JsValue::UNDEFINED))
        }
        "removeEventListener" => {
            let (ty, cb, capture) = (to_string(&arg(a, 0)), arg(a, 1), capture_flag(&arg(a, 2)));
            let mut gone = vec![];
            o.listeners.borrow_mut().retain(|l| {
                let hit = l.ty == ty && l.callback == cb && l.capture == capture;
                if hit {
                    l.removed.set(true);
                    gone.push(l.clone());
                }
                !hit
            });
            stats(|s| s.listeners_removed += gone.len() as u64);
            Some(Ok(JsValue::UNDEFINED))
        }
        "dispatchEvent" => {
            let ev = arg(a, 0);
            match ev.obj() {
                Some(e) if e.event().is_some() => Some(dispatch_event(o, e).map(JsValue::from)),
                _ => Some(Err(dom_error("TypeError", "not an Event"))),
            }
        }
        _ => None,
    }
}
pub(crate) fn event_op(kind: Kind, name: &str, o: &Rc<Obj>, _a: &[JsValue]) -> Option<Result<JsValue, JsValue>> {
    let e = o.event().unwrap();
    Some(Ok(match (kind, name) {
        (Kind::Get, "type") => e.ty.clone().into(),
        (Kind::Get, "target" | "srcElement") => opt_obj(e.target.borrow().clone()),
        (Kind::Get, "currentTarget") => opt_obj(e.current.borrow().clone()),
        (Kind::Get, "eventPhase") => (e.phase.get() as f64).into(),
        (Kind::Get, "bubbles") => e.bubbles.into(),
        (Kind::Get, "cancelable") => e.cancelable.into(),
        (Kind::Get, "defaultPrevented") => e.canceled.get().into(),
        (Kind::Get, "isTrusted") => e.trusted.get().into(),
        (Kind::Call, "preventDefault") => {
            if e.cancelable && !e.in_passive.get() && e.dispatching.get() {
                e.canceled.set(true);
            }
            JsValue::UNDEFINED
        }
        (Kind::Call, "stopPropagation") => {
            e.stop.set(true);
            JsValue::UNDEFINED
        }
        (Kind::Call, "stopImmediatePropagation") => {
            e.stop.set(true);
            e.stop_now.set(true);
            JsValue::UNDEFINED
        }
        _ => return None,
    }))
}
/// Every listener registered on `o`.
pub fn listeners_of(o: &Rc<Obj>) -> Vec<Rc<Listener>> {
    o.listeners.borrow().clone()
}
