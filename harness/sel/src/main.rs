//! M01: programs around select! with instrumented futures, on a simulated page.
#[macro_use]
#[path = "../../common/driver.rs"]
mod driver;
#[cfg(not(feature = "control"))]
mod shapes;
use async_ui_web::prelude_traits::*;
use async_ui_web::{join, mount_at};
use driver::*;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use wasm_bindgen::native::{self, NodeKind, Obj};
use wasm_bindgen::{JsCast, JsValue};

pub type Key = (u32, u32);
#[derive(Default)]
struct State {
    /// futures allowed to finish
    open: RefCell<Vec<Key>>,
    /// opened in the middle of the poll of the first
    chain: RefCell<Vec<(Key, Key)>>,
    wakers: RefCell<Vec<(Key, Waker)>>,
    created: RefCell<Vec<Key>>,
    alive: RefCell<Vec<(Key, bool)>>,
    polled: RefCell<Vec<Key>>,
    /// futures that returned Ready, in order
    ready: RefCell<Vec<Key>>,
    /// bodies entered, in order
    bodies: RefCell<Vec<Key>>,
    problems: RefCell<Vec<String>>,
    finished: RefCell<Option<String>>,
    ui: RefCell<Vec<Key>>,
    host: RefCell<Option<Rc<Obj>>>,
}
#[derive(Clone, Default)]
pub struct Ctl(Rc<State>);
/// A future of a select! branch.  `T` is its output.
pub struct Child<T> {
    ctl: Ctl,
    key: Key,
    outer: bool,
    val: Option<T>,
    ui: Option<Pin<Box<dyn Future<Output = ()>>>>,
}
impl<T> Unpin for Child<T> {}
impl<T> Drop for Child<T> {
    fn drop(&mut self) {
        tr!("drop {:?}", self.key);
        let mut a = self.ctl.0.alive.borrow_mut();
        let i = a.iter().position(|x| x.0 == self.key).unwrap();
        a.remove(i);
    }
}
impl<T> Future for Child<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<T> {
        let this = &mut *self;
        tr!("poll {:?}", this.key);
        let s = this.ctl.0.clone();
        s.polled.borrow_mut().push(this.key);
        if this.val.is_none() {
            s.problems.borrow_mut().push(format!("the future {:?} was polled after it finished", this.key));
            return Poll::Pending;
        }
        for (a, b) in s.chain.borrow().iter() {
            if *a == this.key {
                this.ctl.open(*b);
            }
        }
        if s.open.borrow().contains(&this.key) {
            tr!("ready {:?}", this.key);
            s.ready.borrow_mut().push(this.key);
            return Poll::Ready(this.val.take().unwrap());
        }
        if let Some(ui) = &mut this.ui {
            let _ = ui.as_mut().poll(cx);
        }
        s.wakers.borrow_mut().push((this.key, cx.waker().clone()));
        Poll::Pending
    }
}
impl Ctl {
    /// a branch future of select! number `g`, branch `i`
    pub fn c<T: 'static>(&self, g: u32, i: u32, val: T) -> Child<T> {
        self.make((g, i), false, val)
    }
    /// one which the program owns, and may outlive the select!
    pub fn own<T: 'static>(&self, g: u32, i: u32, val: T) -> Child<T> {
        self.make((g, i), true, val)
    }
    fn make<T: 'static>(&self, key: Key, outer: bool, val: T) -> Child<T> {
        self.0.created.borrow_mut().push(key);
        self.0.alive.borrow_mut().push((key, outer));
        let ui = self.0.ui.borrow().contains(&key).then(|| {
            let text = format!("<{},{}>", key.0, key.1);
            let f: Pin<Box<dyn Future<Output = ()>>> = Box::pin(async move { text.render().await });
            f
        });
        Child { ctl: self.clone(), key, outer, val: Some(val), ui }
    }
    fn open(&self, k: Key) {
        if !self.0.open.borrow().contains(&k) {
            tr!("open {k:?}");
            self.0.open.borrow_mut().push(k);
        }
        let w: Vec<Waker> = {
            let mut w = self.0.wakers.borrow_mut();
            let (a, b): (Vec<_>, Vec<_>) = w.drain(..).partition(|x| x.0 == k);
            *w = b;
            a.into_iter().map(|x| x.1).collect()
        };
        w.into_iter().for_each(Waker::wake);
    }
    fn problem(&self, s: String) {
        tr!("PROBLEM {s}");
        self.0.problems.borrow_mut().push(s);
    }
    /// first thing in the body of branch `i` of select! number `g`
    pub fn b(&self, g: u32, i: u32) {
        tr!("body {:?}", (g, i));
        let s = &self.0;
        // every round of the select! has one winner and one body
        let winners = s.ready.borrow().iter().filter(|k| k.0 == g).count();
        let before = s.bodies.borrow().iter().filter(|k| k.0 == g).count();
        s.bodies.borrow_mut().push((g, i));
        if winners != before + 1 {
            self.problem(format!("select! {g}: {winners} of its futures finished and it runs its body number {}", before + 1));
        }
        match s.ready.borrow().iter().rev().find(|k| k.0 == g) {
            Some(k) if k.1 == i => {}
            other => self.problem(format!("select! {g}: branch {i} runs, the future that finished was {other:?}")),
        }
        for (k, outer) in s.alive.borrow().iter() {
            if k.0 == g && !outer {
                self.problem(format!("select! {g}: future {k:?} is still alive when the body of branch {i} begins"));
            }
        }
        let page = shown(s.host.borrow().as_ref().unwrap());
        if page.contains(&format!("<{g},")) {
            self.problem(format!("select! {g}: UI of its futures is still on the page in the body of branch {i}: {page:?}"));
        }
    }
}
pub fn shown(o: &Rc<Obj>) -> String {
    let mut s = String::new();
    for c in native::children_of(o) {
        let n = c.node().unwrap();
        match n.kind {
            NodeKind::Element => s.push_str(&format!("{}({})", n.name, shown(&c))),
            NodeKind::Text => s.push_str(&n.data.borrow()),
            _ => {}
        }
    }
    s
}
pub type Fut = Pin<Box<dyn Future<Output = String>>>;
/// what the program must return, from the bodies entered (select! number, branch)
pub type Expect = fn(&[Key]) -> String;
pub struct Shape {
    pub name: &'static str,
    pub run: fn(Ctl) -> Fut,
    pub expect: Expect,
    /// futures it may wait for
    pub keys: &'static [Key],
}
#[cfg(feature = "control")]
mod shapes {
    pub fn all() -> Vec<super::Shape> {
        vec![]
    }
}
fn m01(cx: &mut Cx) -> CaseResult {
    let all = shapes::all();
    if all.is_empty() {
        return Err("HARNESS: control build".into());
    }
    let shape = &all[cx.rng.below(all.len())];
    tr!("program {}", shape.name);
    let body = native::body();
    let host = native::new_element_raw("section");
    native::insert_before(&body, &host, None).unwrap();
    let ctl = Ctl::default();
    *ctl.0.host.borrow_mut() = Some(host.clone());
    for k in shape.keys {
        if cx.rng.chance(1, 3) {
            ctl.0.ui.borrow_mut().push(*k);
        }
        // some are done from the beginning, some open others while they are polled
        if cx.rng.chance(1, 8) {
            ctl.open(*k);
        }
        if cx.rng.chance(1, 10) {
            let b = *cx.rng.pick(shape.keys);
            ctl.0.chain.borrow_mut().push((*k, b));
        }
    }
    let f = (shape.run)(ctl.clone());
    let c2 = ctl.clone();
    let finished = Rc::new(Cell::new(false));
    let fin2 = finished.clone();
    let app = async move {
        join((
            "[".render(),
            async move {
                let r = f.await;
                *c2.0.finished.borrow_mut() = Some(r);
                fin2.set(true);
            },
            "]".render(),
        ))
        .await;
    };
    let node: web_sys::Node = JsValue::from_obj(host.clone()).unchecked_into();
    let handle = mount_at(app, node);
    let settle = || -> CaseResult {
        let n = native::run_timers(2000);
        check!(n < 2000, "HARNESS: the page does not settle");
        check!(native::stats(|s| s.exceptions) == 0, "a DOM operation failed");
        let un = native::page().uncaught.borrow().clone();
        check!(un.is_empty(), "uncaught: {un:?}");
        if let Some(p) = ctl.0.problems.borrow().first() {
            return Err(format!("[{}] {p}", shape.name));
        }
        Ok(())
    };
    let cut = cx.rng.chance(1, 6);
    let mut steps = 0;
    if !cx.rng.chance(1, 5) {
        settle()?;
    }
    while !finished.get() && steps < 60 {
        steps += 1;
        let k = *cx.rng.pick(shape.keys);
        ctl.open(k);
        if cx.rng.chance(1, 3) {
            let k = *cx.rng.pick(shape.keys);
            ctl.open(k);
        }
        settle()?;
        // futures whose select! is still waiting are all driven: each was polled, and what
        // they render is on the page
        let alive: Vec<Key> = ctl.0.alive.borrow().iter().filter(|a| !a.1).map(|a| a.0).collect();
        let page = shown(&host);
        for k in &alive {
            check!(ctl.0.polled.borrow().contains(k), "[{}] the future {k:?} was not polled while its select! waits", shape.name);
            check!(!ctl.0.open.borrow().contains(k), "[{}] the future {k:?} could finish but its select! still waits", shape.name);
            if ctl.0.ui.borrow().contains(k) {
                check!(page.contains(&format!("<{},{}>", k.0, k.1)), "[{}] the UI of the waiting future {k:?} is not on the page: {page:?}", shape.name);
                cov(|c| c.hit("branches_with_ui_seen"));
            }
        }
        if cut && steps == 1 {
            break;
        }
    }
    settle()?;
    if finished.get() {
        let bodies = ctl.0.bodies.borrow().clone();
        let want = (shape.expect)(&bodies);
        let got = ctl.0.finished.borrow().clone().unwrap();
        check!(got == want, "[{}] bodies {bodies:?}: the program returned {got:?}, expected {want:?}", shape.name);
        cov(|c| {
            c.hit("programs_finished");
            c.hit(&format!("program:{}", shape.name));
            c.add("bodies", bodies.len() as u64);
            c.sig((shape.name, bodies.clone(), ctl.0.polled.borrow().clone()));
        });
        let page = shown(&host);
        check!(page == "[]", "[{}] left on the page after the program: {page:?}", shape.name);
    } else {
        check!(cut, "[{}] HARNESS: the program does not finish", shape.name);
        cov(|c| c.hit("programs_cut"));
    }
    drop(handle);
    native::run_timers(2000);
    let left = ctl.0.alive.borrow().clone();
    check!(left.is_empty(), "[{}] futures still alive after the end: {left:?}", shape.name);
    check!(shown(&host).is_empty(), "[{}] left on the page after unmounting: {:?}", shape.name, shown(&host));
    let out = native::page().uncaught.borrow().clone();
    check!(out.is_empty(), "uncaught: {out:?}");
    let _ = Child::<()>::outer_of;
    Ok(())
}
impl<T> Child<T> {
    fn outer_of(&self) -> bool {
        self.outer
    }
}
fn main() {
    driver::main(&[Prop { id: "M01", run: m01, directed: &[], quick: 40_000, thorough: 1_000_000 }])
}
