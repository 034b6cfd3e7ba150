//! E01, E02: single event streams against a ground truth recorded by a plain listener
//! registered right behind each stream's own.  E03 (and E02): whole apps whose event
//! handling code must run inside the dispatch.
use crate::driver::*;
use crate::tree::to_obj;
use async_ui_web::components::DynamicSlot;
use async_ui_web::event_handling::EventFutureStream;
use async_ui_web::event_traits::*;
use async_ui_web::html;
use async_ui_web::lists::DynamicList;
use async_ui_web::{join, mount_at, race, select};
use futures_lite::Stream;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::future::{pending, Future};
use std::pin::Pin;
use std::rc::{Rc, Weak};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use wasm_bindgen::closure::Closure;
use wasm_bindgen::native::{self, Obj};
use wasm_bindgen::{JsCast, JsValue};

fn et(o: &Rc<Obj>) -> web_sys::EventTarget {
    JsValue::from_obj(o.clone()).unchecked_into()
}
/// a plain listener of the page, next to the framework's
struct Raw {
    target: Rc<Obj>,
    name: String,
    capture: bool,
    f: Closure<dyn Fn(JsValue)>,
}
impl Raw {
    fn new(target: &Rc<Obj>, name: &str, capture: bool, f: impl Fn(JsValue) + 'static) -> Raw {
        let f = Closure::<dyn Fn(JsValue)>::new(f);
        et(target).add_event_listener_with_callback_and_bool(name, f.as_ref().unchecked_ref(), capture).unwrap();
        Raw { target: target.clone(), name: name.into(), capture, f }
    }
    fn js(&self) -> JsValue {
        let v: &JsValue = self.f.as_ref();
        v.clone()
    }
}
impl Drop for Raw {
    fn drop(&mut self) {
        let _ = et(&self.target).remove_event_listener_with_callback_and_bool(&self.name, self.f.as_ref().unchecked_ref(), self.capture);
    }
}
struct CountWaker(AtomicU64);
impl Wake for CountWaker {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}
/// (name, capture, passive) of every listener of the framework at a target
fn framework_listeners(t: &Rc<Obj>, ours: &[JsValue]) -> Vec<(String, bool, bool)> {
    let mut v: Vec<_> = native::listeners_of(t)
        .iter()
        .filter(|l| !ours.contains(&l.callback))
        .map(|l| (l.ty.clone(), l.capture, l.passive))
        .collect();
    v.sort();
    v
}

// ------------------------------------------------------------------ single streams
type PollFn = Box<dyn FnMut(&mut Context<'_>, bool) -> Poll<Option<Rc<Obj>>>>;
struct S {
    poll: Option<PollFn>,
    target: usize,
    name: &'static str,
    capture: bool,
    passive: bool,
    raw: Option<Raw>,
    /// the latest event dispatched to it and not yet yielded
    due: Option<u64>,
    waker: Option<Arc<CountWaker>>,
    woken_at_poll: u64,
}
struct A {
    rng: Rng,
    targets: Vec<Rc<Obj>>,
    s: Vec<S>,
    bad: Vec<String>,
    budget: usize,
    depth: usize,
    hist: u64,
    ops: Vec<Raw>,
}
thread_local! {
    static A_: RefCell<Option<A>> = const { RefCell::new(None) };
}
fn wa<R>(f: impl FnOnce(&mut A) -> R) -> R {
    A_.with(|w| f(w.borrow_mut().as_mut().expect("HARNESS: no world")))
}
const NAMES: &[&str] = &["click", "foo", "x-y", "input"];
fn poller<E: JsCast + AsRef<JsValue> + 'static>(mut s: Pin<Box<EventFutureStream<E>>>) -> PollFn {
    Box::new(move |cx, as_stream| {
        let ob = |e: E| {
            let v: &JsValue = e.as_ref();
            v.obj().expect("event").clone()
        };
        if as_stream {
            s.as_mut().poll_next(cx).map(|e| e.map(ob))
        } else {
            s.as_mut().poll(cx).map(|e| Some(ob(e)))
        }
    })
}
fn create() {
    wa(|w| {
        let target = w.rng.below(w.targets.len());
        let name = *w.rng.pick(NAMES);
        let t = et(&w.targets[target]);
        let (mut capture, mut passive) = (false, false);
        let is_el = w.targets[target].node().is_some() && target < 6;
        let poll = match w.rng.below(4) {
            0 if name == "click" && is_el => {
                let e: &web_sys::Element = t.unchecked_ref();
                poller(Box::pin(e.until_click()))
            }
            0 if name == "input" && is_el => {
                let e: &web_sys::HtmlElement = t.unchecked_ref();
                poller(Box::pin(e.until_input()))
            }
            1 => poller(Box::pin(t.until_event::<web_sys::Event>(Cow::Borrowed(name)))),
            _ => {
                let mut s = EventFutureStream::<web_sys::Event>::new(t, Cow::Owned(name.to_string()));
                for _ in 0..w.rng.below(4) {
                    if w.rng.chance(1, 2) {
                        capture = w.rng.chance(2, 3);
                        s.set_capture(capture);
                    } else {
                        passive = w.rng.chance(2, 3);
                        s.set_passive(passive);
                    }
                }
                poller(Box::pin(s))
            }
        };
        let id = w.s.len();
        tr!("create s{id} for {name} at {target}{}{}", if capture { " capture" } else { "" }, if passive { " passive" } else { "" });
        w.s.push(S { poll: Some(poll), target, name, capture, passive, raw: None, due: None, waker: None, woken_at_poll: 0 });
    });
}
fn live() -> Option<usize> {
    wa(|w| {
        let v: Vec<usize> = (0..w.s.len()).filter(|i| w.s[*i].poll.is_some()).collect();
        if v.is_empty() {
            None
        } else {
            Some(*w.rng.pick(&v))
        }
    })
}
fn delivered(id: usize, ev: JsValue) {
    let e = ev.obj().unwrap().id;
    wa(|w| {
        let s = &mut w.s[id];
        tr!("  event {e} reached s{id}");
        s.due = Some(e);
        let n = s.waker.as_ref().map_or(0, |k| k.0.load(Ordering::Relaxed));
        if n <= s.woken_at_poll {
            w.bad.push(format!("E01|event {e} was dispatched to stream {id} ({} at {}), whose latest waker was not woken since it was last polled", s.name, s.target));
        }
        w.hist = mix(w.hist ^ (id as u64 + 1) * 77);
    });
    cov(|c| c.hit("events_delivered"));
}
fn poll_one(id: usize) {
    let Some(mut p) = wa(|w| w.s[id].poll.take()) else { return };
    let (wk, as_stream) = wa(|w| {
        let new = w.s[id].waker.is_none() || w.rng.chance(1, 2);
        if new {
            w.s[id].waker = Some(Arc::new(CountWaker(AtomicU64::new(0))));
        }
        (w.s[id].waker.clone().unwrap(), w.rng.chance(1, 2))
    });
    let waker: Waker = wk.clone().into();
    let r = p(&mut Context::from_waker(&waker), as_stream);
    cov(|c| c.hit("polls"));
    let first = wa(|w| {
        let s = &mut w.s[id];
        s.poll = Some(p);
        s.woken_at_poll = wk.0.load(Ordering::Relaxed);
        let due = s.due.take();
        let got = match &r {
            Poll::Ready(Some(e)) => Some(e.id),
            Poll::Ready(None) => {
                w.bad.push(format!("E01|stream {id} ended"));
                None
            }
            Poll::Pending => None,
        };
        tr!("poll s{id}: {got:?}");
        if got != due {
            w.bad.push(format!("E01|polling stream {id} gave event {got:?}, the latest one dispatched to it and not yet yielded is {due:?}"));
        }
        if got.is_some() {
            cov(|c| c.hit("events_yielded"));
        }
        s.raw.is_none()
    });
    if first {
        let (t, name, cap) = wa(|w| (w.targets[w.s[id].target].clone(), w.s[id].name, w.s[id].capture));
        let raw = Raw::new(&t, name, cap, move |ev| delivered(id, ev));
        wa(|w| w.s[id].raw = Some(raw));
    }
}
fn drop_one(id: usize) {
    tr!("drop s{id}");
    let p = wa(|w| {
        let s = &mut w.s[id];
        s.due = None;
        (s.poll.take(), s.raw.take())
    });
    cov(|c| c.hit("streams_dropped"));
    drop(p);
}
fn fire_a() {
    let (t, ev, ix) = wa(|w| {
        w.depth += 1;
        let ix = w.rng.below(w.targets.len());
        let name = *w.rng.pick(NAMES);
        let class = if name == "click" { "MouseEvent" } else { "Event" };
        let ev = native::new_event(class, name, w.rng.chance(2, 3), w.rng.chance(1, 2));
        tr!("dispatch {name} (event {}) at {ix}", ev.id);
        (w.targets[ix].clone(), ev, ix)
    });
    cov(|c| c.hit(if wa(|w| w.depth) > 1 { "nested_dispatches" } else { "dispatches" }));
    native::dispatch_event(&t, &ev).unwrap();
    tr!("dispatched at {ix}");
    wa(|w| w.depth -= 1);
}
fn op_a() {
    let k = wa(|w| {
        if w.budget == 0 {
            return 99;
        }
        w.budget -= 1;
        w.rng.below(12)
    });
    wa(|w| w.hist = mix(w.hist ^ k as u64));
    match k {
        0..=1 => create(),
        2..=5 => {
            if let Some(i) = live() {
                poll_one(i)
            }
        }
        6 => {
            if let Some(i) = live() {
                drop_one(i)
            }
        }
        7..=10 if wa(|w| w.depth < 4) => fire_a(),
        11 => {
            // move an element of the page
            wa(|w| {
                let (a, b) = (w.rng.range(2, 5), w.rng.below(3));
                if a != b && b < a {
                    native::insert_before(&w.targets[b].clone(), &w.targets[a].clone(), None).ok();
                }
            })
        }
        _ => {}
    }
    registry_a();
}
fn registry_a() {
    wa(|w| {
        let ours: Vec<JsValue> = w.s.iter().filter_map(|s| s.raw.as_ref().map(|r| r.js())).chain(w.ops.iter().map(|r| r.js())).collect();
        for (ix, t) in w.targets.iter().enumerate() {
            let got = framework_listeners(t, &ours);
            let mut want: Vec<_> =
                w.s.iter().filter(|s| s.poll.is_some() && s.raw.is_some() && s.target == ix).map(|s| (s.name.to_string(), s.capture, s.passive)).collect();
            want.sort();
            if got != want {
                w.bad.push(format!("E02|listeners (name, capture, passive) at target {ix} are {got:?}, the live polled streams there are {want:?}"));
            }
        }
    })
}
fn streams(cx: &mut Cx) -> CaseResult {
    let body = native::body();
    let mut targets = vec![];
    for i in 0..6 {
        let e = native::new_element_raw("button");
        let p = match i {
            0 => body.clone(),
            5 => native::new_element_raw("div"), // not in the page
            _ => {
                let k: usize = cx.rng.below(i);
                let t: &Rc<Obj> = &targets[k];
                t.clone()
            }
        };
        native::insert_before(&p, &e, None).unwrap();
        targets.push(e);
    }
    targets.push(body);
    targets.push(native::page().document.clone());
    targets.push(native::page().window.clone());
    let n = cx.scaled(4, 120);
    A_.with(|w| {
        *w.borrow_mut() =
            Some(A { rng: cx.rng.fork(), targets, s: vec![], bad: vec![], budget: n * 2, depth: 0, hist: 0, ops: vec![] })
    });
    // listeners of the page that do things in the middle of a dispatch
    for _ in 0..cx.rng.below(4) {
        let (t, name) = wa(|w| (w.rng.pick(&w.targets.clone()).clone(), *w.rng.pick(NAMES)));
        let cap = cx.rng.chance(1, 2);
        let k = cx.rng.range(1, 3);
        let r = Raw::new(&t, name, cap, move |_| {
            for _ in 0..k {
                op_a()
            }
        });
        wa(|w| w.ops.push(r));
        for _ in 0..cx.rng.below(3) {
            create();
            let i = wa(|w| w.s.len() - 1);
            poll_one(i);
        }
    }
    create();
    for _ in 0..n {
        op_a();
        if wa(|w| !w.bad.is_empty() || w.budget == 0) {
            break;
        }
    }
    // the end: everybody gets what is due, then all go away
    wa(|w| w.budget = 0);
    for i in 0..wa(|w| w.s.len()) {
        poll_one(i);
        drop_one(i);
        registry_a();
    }
    for name in NAMES {
        for t in wa(|w| w.targets.clone()) {
            native::dispatch_event(&t, &native::new_event("Event", name, true, true)).unwrap();
        }
    }
    let w = A_.with(|w| w.borrow_mut().take()).unwrap();
    cov(|c| c.sig(w.hist));
    let bad = w.bad.first().cloned();
    drop(w);
    if let Some(b) = bad {
        return Err(b);
    }
    check!(native::page().uncaught.borrow().is_empty(), "E02|an exception escaped: {:?}", native::page().uncaught.borrow());
    check!(native::pending_timers() == 0 || native::run_timers(100) < 100, "timers left");
    Ok(())
}

// ------------------------------------------------------------------ the named helpers
macro_rules! named {
    ($e:ident, $v:ident; $($f:ident)*) => { $( $v.push((stringify!($f), poller(Box::pin($e.$f())))); )* };
}
pub fn helpers(_cx: &mut Cx) -> CaseResult {
    let o = native::new_element_raw("input");
    native::insert_before(&native::body(), &o, None).unwrap();
    let el: web_sys::HtmlElement = JsValue::from_obj(o.clone()).unchecked_into();
    let mut v: Vec<(&str, PollFn)> = vec![];
    named!(el, v; until_cancel until_error until_scroll until_securitypolicyviolation until_select until_wheel
        until_compositionend until_compositionstart until_compositionupdate until_blur until_focus until_focusin until_focusout
        until_fullscreenchange until_fullscreenerror until_keydown until_keyup until_auxclick until_click until_contextmenu
        until_dblclick until_mousedown until_mouseenter until_mouseleave until_mousemove until_mouseout until_mouseover until_mouseup
        until_touchcancel until_touchend until_touchmove until_touchstart
        until_input until_change until_drag until_dragend until_dragenter until_dragleave until_dragover until_dragstart until_drop until_load);
    let n = v.len();
    let waker: Waker = Arc::new(CountWaker(AtomicU64::new(0))).into();
    let mut cx = Context::from_waker(&waker);
    for (f, p) in v.iter_mut() {
        check!(p(&mut cx, true).is_pending(), "E01|{f} yields something at its first poll");
    }
    for i in 0..n {
        let name = v[i].0.trim_start_matches("until_");
        let ev = native::new_event("Event", name, true, true);
        native::dispatch_event(&o, &ev).unwrap();
        for (j, (f, p)) in v.iter_mut().enumerate() {
            let r = p(&mut cx, true);
            match r {
                Poll::Ready(Some(e)) => check!(i == j && e.id == ev.id, "E01|{f} yields event {:?} although {name} was dispatched", e.event().map(|e| e.ty.clone())),
                Poll::Ready(None) => check!(false, "E01|{f} ended"),
                Poll::Pending => check!(i != j, "E01|{f} doesn't yield the {name} event"),
            }
        }
    }
    drop(v);
    check!(native::listeners_of(&o).is_empty(), "E02|listeners stay after all streams were dropped");
    cov(|c| c.add("named_helpers", n as u64));
    Ok(())
}

// ------------------------------------------------------------------ whole apps
type BF = Pin<Box<dyn Future<Output = ()>>>;
struct Watch {
    raw: Option<Raw>,
    armed: bool,
    target: Rc<Obj>,
    name: &'static str,
    capture: bool,
    passive: bool,
    due: Vec<u64>,
}
struct Fire {
    ev: u64,
    was_active: bool,
    prevent: bool,
}
#[derive(Clone, Default)]
struct Gate(Rc<(Cell<bool>, RefCell<Option<Waker>>)>);
struct B {
    rng: Rng,
    bad: Vec<String>,
    w: Vec<Watch>,
    active: usize,
    fires: Vec<Fire>,
    targets: Vec<Rc<Obj>>,
    own: Vec<Weak<Obj>>,
    gates: Vec<Gate>,
    slots: Vec<Weak<DynamicSlot<BF>>>,
    lists: Vec<(Weak<DynamicList<'static, u32, BF>>, u32)>,
    tasks: Vec<Option<async_executor::Task<()>>>,
    ops: Vec<Raw>,
    budget: usize,
    build: usize,
    hist: u64,
}
thread_local! {
    static B_: RefCell<Option<B>> = const { RefCell::new(None) };
}
fn wb<R>(f: impl FnOnce(&mut B) -> R) -> R {
    B_.with(|w| f(w.borrow_mut().as_mut().expect("HARNESS: no world")))
}
/// the root of an app: knows when the app runs
struct Root(BF);
impl Future for Root {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        wb(|w| {
            w.active += 1;
            if w.active > 1 {
                w.bad.push("E03|an app is polled while another poll is going on".into());
            }
        });
        let r = self.0.as_mut().poll(cx);
        wb(|w| w.active -= 1);
        r
    }
}
struct Guard(usize);
impl Drop for Guard {
    fn drop(&mut self) {
        let _ = B_.try_with(|w| {
            if let Ok(mut w) = w.try_borrow_mut() {
                if let Some(w) = w.as_mut() {
                    let x = &mut w.w[self.0];
                    x.raw = None;
                    x.armed = false;
                    x.due.clear();
                    tr!("  w{} dropped", self.0);
                }
            }
        });
    }
}
struct Next<'a>(usize, &'a mut EventFutureStream<web_sys::Event>, bool);
impl Future for Next<'_> {
    type Output = Rc<Obj>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Rc<Obj>> {
        let id = self.0;
        let arm = wb(|w| if w.w[id].armed { None } else { Some((w.w[id].target.clone(), w.w[id].name, w.w[id].capture)) });
        if let Some((t, name, cap)) = arm {
            let raw = Raw::new(&t, name, cap, move |ev| {
                let e = ev.obj().unwrap().id;
                tr!("  event {e} is about to reach w{id}");
                cov(|c| c.hit("events_delivered"));
                wb(|w| w.w[id].due.push(e));
            });
            wb(|w| {
                w.w[id].raw = Some(raw);
                w.w[id].armed = true;
            });
        }
        let as_stream = self.2;
        let s = &mut *self.1;
        let r = if as_stream {
            match Pin::new(s).poll_next(cx) {
                Poll::Ready(Some(e)) => Poll::Ready(e),
                Poll::Ready(None) => {
                    wb(|w| w.bad.push(format!("E01|stream of w{id} ended")));
                    Poll::Pending
                }
                Poll::Pending => Poll::Pending,
            }
        } else {
            Pin::new(s).poll(cx)
        };
        match r {
            Poll::Ready(e) => {
                let v: &JsValue = e.as_ref();
                let o = v.obj().unwrap().clone();
                wb(|w| {
                    let d = std::mem::take(&mut w.w[id].due);
                    if d.last() != Some(&o.id) {
                        w.bad.push(format!("E01|w{id} got event {} while those dispatched to it since its last one are {d:?}", o.id));
                    }
                });
                Poll::Ready(o)
            }
            Poll::Pending => {
                wb(|w| {
                    if !w.w[id].due.is_empty() {
                        let d = w.w[id].due.clone();
                        w.bad.push(format!("E01|w{id} is polled and doesn't get the events {d:?} dispatched to it"));
                    }
                });
                Poll::Pending
            }
        }
    }
}
async fn watch(own: Option<Rc<Obj>>) {
    let (id, passive, capture, rounds) = wb(|w| {
        let target = match &own {
            Some(o) => o.clone(),
            None => {
                let own: Vec<Rc<Obj>> = w.own.iter().filter_map(|o| o.upgrade()).collect();
                if !own.is_empty() && w.rng.chance(1, 3) {
                    w.rng.pick(&own).clone()
                } else {
                    w.rng.pick(&w.targets.clone()).clone()
                }
            }
        };
        let name = *w.rng.pick(&NAMES[..2]);
        let (capture, passive) = (w.rng.chance(1, 4), w.rng.chance(1, 4));
        w.w.push(Watch { raw: None, armed: false, target, name, capture, passive, due: vec![] });
        let r = if w.rng.chance(1, 2) { 1000 } else { w.rng.range(1, 3) };
        (w.w.len() - 1, passive, capture, r)
    });
    tr!("  w{id} starts");
    let _g = Guard(id);
    let make = || {
        let (t, name) = wb(|w| (et(&w.w[id].target), w.w[id].name));
        let mut s = t.until_event::<web_sys::Event>(name.into());
        if capture {
            s.set_capture(true);
        }
        if passive {
            s.set_passive(true);
        }
        s
    };
    let mut s = make();
    for _ in 0..rounds {
        let as_stream = wb(|w| w.rng.chance(1, 2));
        let ev = Next(id, &mut s, as_stream).await;
        handle(id, &ev);
        if wb(|w| w.rng.chance(1, 3)) {
            // a new stream for the next event
            wb(|w| {
                w.w[id].armed = false;
                w.w[id].raw = None;
                w.w[id].due.clear();
            });
            drop(s);
            s = make();
        }
        if wb(|w| w.rng.chance(1, 6)) {
            yield_once().await;
        }
    }
}
async fn yield_once() {
    let mut first = true;
    std::future::poll_fn(|cx| {
        if std::mem::take(&mut first) {
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}
fn handle(id: usize, ev: &Rc<Obj>) {
    cov(|c| c.hit("events_handled"));
    wb(|w| w.hist = mix(w.hist ^ (id as u64 + 5) << 3));
    if wb(|w| w.rng.chance(1, 2)) {
        let e: web_sys::Event = JsValue::from_obj(ev.clone()).unchecked_into();
        tr!("  w{id} prevents the default of event {}", ev.id);
        e.prevent_default();
        wb(|w| {
            let passive = w.w[id].passive;
            if let Some(f) = w.fires.last_mut() {
                if f.ev == ev.id && !f.was_active && !passive {
                    f.prevent = true;
                }
            }
        });
    }
    for _ in 0..wb(|w| if w.rng.chance(1, 2) { w.rng.range(1, 2) } else { 0 }) {
        op_b()
    }
}
fn fire_b() {
    if wb(|w| w.fires.len() >= 4) {
        return;
    }
    let (t, ev, cancelable) = wb(|w| {
        let own: Vec<Rc<Obj>> = w.own.iter().filter_map(|o| o.upgrade()).collect();
        let waited: Vec<(Rc<Obj>, &'static str)> = w.w.iter().filter(|x| x.armed).map(|x| (x.target.clone(), x.name)).collect();
        let (t, name) = if !waited.is_empty() && w.rng.chance(3, 4) {
            w.rng.pick(&waited).clone()
        } else {
            let t = if !own.is_empty() && w.rng.chance(1, 2) { w.rng.pick(&own).clone() } else { w.rng.pick(&w.targets.clone()).clone() };
            (t, *w.rng.pick(&NAMES[..2]))
        };
        let cancelable = w.rng.chance(3, 4);
        let ev = native::new_event(if name == "click" { "MouseEvent" } else { "Event" }, name, w.rng.chance(2, 3), cancelable);
        tr!("dispatch {name} (event {}){}", ev.id, if w.active > 0 { " from inside the app" } else { "" });
        let was_active = w.active > 0;
        cov(|c| c.hit(if was_active { "dispatches_inside_app" } else if w.fires.is_empty() { "dispatches" } else { "nested_dispatches" }));
        w.fires.push(Fire { ev: ev.id, was_active, prevent: false });
        (t, ev, cancelable)
    });
    let ok = if wb(|w| w.rng.chance(1, 2)) {
        native::dispatch_event(&t, &ev).unwrap()
    } else {
        let e: web_sys::Event = JsValue::from_obj(ev.clone()).unchecked_into();
        et(&t).dispatch_event(&e).unwrap()
    };
    wb(|w| {
        let f = w.fires.pop().unwrap();
        if !f.was_active && ok == (f.prevent && cancelable) {
            w.bad.push(format!(
                "E03|event {} was {}prevented by app code awaiting it, the dispatch returned {ok}",
                f.ev,
                if f.prevent && cancelable { "" } else { "not " }
            ));
        }
    });
    control_back("the dispatch of an event returned");
}
/// outside the app: everything dispatched to waiting code has been handled
fn control_back(when: &str) {
    wb(|w| {
        if w.active > 0 {
            return;
        }
        for (i, x) in w.w.iter().enumerate() {
            if !x.due.is_empty() {
                w.bad.push(format!("E03|events {:?} were dispatched to w{i}, which is waiting for them, and its code didn't run before {when}", x.due));
            }
        }
    })
}
fn op_b() {
    let k = wb(|w| {
        if w.budget == 0 {
            return 99;
        }
        w.budget -= 1;
        w.rng.below(14)
    });
    match k {
        0..=5 => fire_b(),
        6..=7 => {
            let g = wb(|w| {
                let v: Vec<Gate> = w.gates.iter().filter(|g| !g.0 .0.get()).cloned().collect();
                if v.is_empty() {
                    None
                } else {
                    Some(w.rng.pick(&v).clone())
                }
            });
            if let Some(g) = g {
                tr!("open a gate");
                g.0 .0.set(true);
                if let Some(wk) = g.0 .1.take() {
                    wk.wake()
                }
            }
        }
        8..=9 => {
            let s = wb(|w| {
                let v: Vec<_> = w.slots.iter().filter_map(|s| s.upgrade()).collect();
                if v.is_empty() {
                    None
                } else {
                    Some(w.rng.pick(&v).clone())
                }
            });
            if let Some(s) = s {
                tr!("set a slot");
                if wb(|w| w.rng.chance(3, 4)) {
                    let d = wb(|w| w.rng.below(3));
                    s.set_future(build(d));
                } else {
                    s.clear_future();
                }
            }
        }
        10..=11 => {
            let l = wb(|w| {
                let v: Vec<_> = (0..w.lists.len()).filter(|i| w.lists[*i].0.upgrade().is_some()).collect();
                if v.is_empty() {
                    return None;
                }
                let i = *w.rng.pick(&v);
                w.lists[i].1 += 1;
                Some((w.lists[i].0.upgrade().unwrap(), w.lists[i].1, w.rng.below(8) as u32))
            });
            if let Some((l, n, k)) = l {
                if wb(|w| w.rng.chance(2, 3)) {
                    tr!("insert into a list");
                    let d = wb(|w| w.rng.below(3));
                    l.insert(n, build(d), Some(&k));
                } else {
                    tr!("remove from a list");
                    l.remove(&k);
                }
            }
        }
        12 => {
            let t = wb(|w| {
                if !w.rng.chance(1, 3) {
                    return None;
                }
                let v: Vec<usize> = (0..w.tasks.len()).filter(|i| w.tasks[*i].is_some()).collect();
                if v.len() < 2 {
                    return None;
                }
                let i = *w.rng.pick(&v);
                w.tasks[i].take()
            });
            if t.is_some() {
                tr!("unmount an app");
            }
            drop(t);
        }
        13 => {
            let c = Closure::<dyn FnMut()>::new(|| {
                tr!("timer");
                op_b();
            });
            native::add_timer(c.into_js_value(), vec![], 0.0, "harness");
        }
        _ => {}
    }
}
fn gate() -> Gate {
    let g = Gate::default();
    wb(|w| w.gates.push(g.clone()));
    g
}
async fn pass(g: Gate) {
    std::future::poll_fn(|cx| {
        if g.0 .0.get() {
            Poll::Ready(())
        } else {
            *g.0 .1.borrow_mut() = Some(cx.waker().clone());
            Poll::Pending
        }
    })
    .await
}
fn build(depth: usize) -> BF {
    let k = wb(|w| {
        if depth == 0 || w.build == 0 {
            return w.rng.below(3);
        }
        w.build -= 1;
        w.rng.below(20)
    });
    let d = depth.saturating_sub(1);
    match k {
        0..=1 => Box::pin(watch(None)),
        2..=4 => {
            let b = html::Button::new();
            let o = {
                let e: &web_sys::Element = b.as_ref();
                to_obj(e)
            };
            wb(|w| w.own.push(Rc::downgrade(&o)));
            Box::pin(async move {
                join((b.render(pending::<()>()), watch(Some(o)))).await;
            })
        }
        5..=6 => {
            let (a, b) = (build(d), build(d));
            Box::pin(async move {
                join((a, b)).await;
            })
        }
        7..=8 => {
            let n = wb(|w| w.rng.range(1, 4));
            let v: Vec<BF> = (0..n).map(|_| build(d)).collect();
            Box::pin(async move {
                join(v).await;
            })
        }
        9..=10 => {
            let (a, b, g) = (build(d), build(d), gate());
            Box::pin(async move {
                race((a, pass(g))).await;
                b.await
            })
        }
        11 => {
            let (a, b, c) = (build(d), build(d), build(d));
            Box::pin(async move {
                select! {
                    _ = a => {},
                    _ = b => { c.await }
                }
            })
        }
        12..=13 => {
            let (a, e) = (build(d), html::Div::new());
            let o = {
                let e: &web_sys::Element = e.as_ref();
                to_obj(e)
            };
            wb(|w| w.own.push(Rc::downgrade(&o)));
            Box::pin(async move { e.render(a).await })
        }
        14..=16 => {
            let s = Rc::new(DynamicSlot::new());
            wb(|w| w.slots.push(Rc::downgrade(&s)));
            s.set_future(build(d));
            Box::pin(async move { s.render().await })
        }
        17..=18 => {
            let l = Rc::new(DynamicList::new());
            for i in 0..wb(|w| w.rng.below(3)) {
                l.insert(i as u32, build(d), None);
            }
            wb(|w| w.lists.push((Rc::downgrade(&l), 3)));
            Box::pin(async move { l.render().await })
        }
        _ => {
            let (a, g) = (build(d), gate());
            Box::pin(async move {
                pass(g).await;
                a.await
            })
        }
    }
}
fn registry_b() {
    wb(|w| {
        let ours: Vec<JsValue> = w.w.iter().filter_map(|s| s.raw.as_ref().map(|r| r.js())).chain(w.ops.iter().map(|r| r.js())).collect();
        let mut all: Vec<Rc<Obj>> = w.targets.clone();
        all.extend(w.own.iter().filter_map(|o| o.upgrade()));
        for t in all {
            let got = framework_listeners(&t, &ours);
            let mut want: Vec<_> = w.w.iter().filter(|x| x.armed && x.target.id == t.id).map(|x| (x.name.to_string(), x.capture, x.passive)).collect();
            want.sort();
            if got != want {
                w.bad.push(format!("E02|listeners (name, capture, passive) are {got:?}, the streams waited for there are {want:?}"));
            }
        }
    })
}
fn apps(cx: &mut Cx) -> CaseResult {
    let body = native::body();
    let mut targets: Vec<Rc<Obj>> = vec![body.clone()];
    for i in 0..3 {
        let e = native::new_element_raw("section");
        let p = if i == 2 { targets[1].clone() } else { body.clone() };
        native::insert_before(&p, &e, None).unwrap();
        targets.push(e);
    }
    targets.push(native::page().window.clone());
    let n = cx.scaled(4, 80);
    let build_n = cx.scaled(3, 30);
    B_.with(|w| {
        *w.borrow_mut() = Some(B {
            rng: cx.rng.fork(),
            bad: vec![],
            w: vec![],
            active: 0,
            fires: vec![],
            targets,
            own: vec![],
            gates: vec![],
            slots: vec![],
            lists: vec![],
            tasks: vec![],
            ops: vec![],
            budget: n * 3,
            build: build_n,
            hist: 0,
        })
    });
    for _ in 0..cx.rng.below(3) {
        let (t, name) = wb(|w| (w.rng.pick(&w.targets.clone()).clone(), *w.rng.pick(&NAMES[..2])));
        let r = Raw::new(&t, name, cx.rng.chance(1, 2), |_| op_b());
        wb(|w| w.ops.push(r));
    }
    for _ in 0..cx.rng.range(1, 3) {
        let d = cx.rng.range(0, 4);
        let f = build(d);
        let t = wb(|w| w.rng.pick(&w.targets[..4].to_vec()).clone());
        let node: web_sys::Node = JsValue::from_obj(t).unchecked_into();
        let task = mount_at(Root(f), node);
        wb(|w| w.tasks.push(Some(task)));
    }
    for _ in 0..n {
        match cx.rng.below(3) {
            0 => {
                native::run_one_timer();
                control_back("control went back to the browser");
            }
            1 => fire_b(),
            _ => op_b(),
        }
        registry_b();
        if let Some(b) = wb(|w| w.bad.first().cloned()) {
            return Err(b);
        }
    }
    let mut k = 0;
    wb(|w| w.budget = 0);
    while native::run_one_timer() {
        control_back("control went back to the browser");
        k += 1;
        check!(k < 10_000, "HARNESS: never idle");
    }
    registry_b();
    let t = wb(|w| std::mem::take(&mut w.tasks));
    drop(t);
    native::run_timers(10_000);
    registry_b();
    check!(wb(|w| w.w.iter().all(|x| !x.armed)), "E02|streams stay after all apps were unmounted");
    if let Some(b) = wb(|w| w.bad.first().cloned()) {
        return Err(b);
    }
    check!(native::page().uncaught.borrow().is_empty(), "E02|an exception escaped: {:?}", native::page().uncaught.borrow());
    cov(|c| {
        c.add("watches", wb(|w| w.w.len() as u64));
        c.sig(wb(|w| (w.hist, w.w.len())))
    });
    Ok(())
}
fn focus(p: &str, r: CaseResult) -> CaseResult {
    A_.with(|w| w.borrow_mut().take());
    let b = B_.with(|w| w.borrow_mut().take());
    drop(b);
    match r {
        Err(e) => match e.split_once('|') {
            Some((q, m)) if q == p => Err(m.to_string()),
            Some((q, _)) if q.len() == 3 => {
                cov(|c| c.hit("failed_otherwise"));
                Ok(())
            }
            _ => Err(e),
        },
        ok => ok,
    }
}
pub fn e01(cx: &mut Cx) -> CaseResult {
    let r = if cx.rng.chance(3, 4) { streams(cx) } else { apps(cx) };
    focus("E01", r)
}
pub fn e02(cx: &mut Cx) -> CaseResult {
    let r = if cx.rng.chance(1, 2) { streams(cx) } else { apps(cx) };
    focus("E02", r)
}
pub fn e03(cx: &mut Cx) -> CaseResult {
    let r = apps(cx);
    focus("E03", r)
}
pub fn helpers1(cx: &mut Cx) -> CaseResult {
    let r = helpers(cx);
    focus("E01", r)
}
