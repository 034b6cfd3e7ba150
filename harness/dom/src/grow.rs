//! G01: apps that run for a long time, and apps mounted and unmounted many times.
//! Cycles of the same operations (with fresh keys) that end in the same state are run over and
//! over, and what is allocated is measured after 1, 2, 4 and 8 times as many.
use crate::driver::*;
use crate::virt::{Browser, Geo, Geom};
use async_executor::Task;
use async_ui_web::components::{DynamicSlot, Dropdown};
use async_ui_web::executor::get_executor;
use async_ui_web::lists::{DiffedList, DynamicList, ListModel, ModeledList, VirtualizedList};
use async_ui_web::prelude_traits::*;
use async_ui_web::{html, join, mount_at, race, race_ok, select, try_join, NoChild, ReactiveCell};
use futures_lite::StreamExt;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::future::{pending, ready, Future};
use std::pin::Pin;
use std::rc::Rc;
use wasm_bindgen::native::{self, Obj};
use wasm_bindgen::{JsCast, JsValue};
use x_bow::{PathExt, Store};

type Fut = Pin<Box<dyn Future<Output = ()>>>;

/// what the app's parts share
struct Shared {
    cell: ReactiveCell<u64>,
    store: Store<HashMap<u64, Vec<u64>>>,
    base: u64,
}
type Sh = Rc<Shared>;
fn text(k: u64) -> String {
    format!("{k:010}")
}

fn leaf(r: &mut Rng, k: u64, sh: &Sh) -> Fut {
    let sh = sh.clone();
    match r.below(16) {
        0 => Box::pin(async move { text(k).render().await }),
        1 => Box::pin(async move {
            let d = html::Div::new();
            d.add_classes(["a", "b"]);
            d.set_class("c", true);
            d.del_class("a");
            d.render(text(k).render()).await;
        }),
        2 => Box::pin(ready(())),
        3 => Box::pin(async move {
            let b = html::Button::new();
            let f = async {
                let mut n = 0u64;
                loop {
                    b.until_click().await;
                    n += 1;
                    b.set_text_content(Some(&text(n % 7)));
                }
            };
            join((b.render(text(k).render()), f)).await;
        }),
        4 => Box::pin(async move {
            let b = html::Button::new();
            race((b.render(NoChild), async {
                b.until_click().await;
            }))
            .await;
            "clicked".render().await;
        }),
        5 => Box::pin(async move {
            let t = html::Text::new();
            let f = async {
                let mut s = sh.cell.until_change();
                loop {
                    s.next().await;
                    let v = *sh.cell.borrow();
                    t.set_data(&text(v));
                }
            };
            join((t.render(), f)).await;
        }),
        6 => Box::pin(async move {
            let d = html::Span::new();
            let p = sh.store.build_path().key(k);
            let f = p.for_each(|v| d.set_text_content(Some(&text(v.len() as u64))));
            join((d.render(NoChild), f)).await;
        }),
        7 => Box::pin(async move {
            let p = sh.store.build_path();
            let f = p.for_each_async(|m| {
                let n = m.len() as u64;
                async move { text(n).render().await }
            });
            let q = sh.store.build_path().key(k).index(1);
            let g = async {
                let mut s = q.until_change();
                loop {
                    s.next().await;
                }
            };
            let root = sh.store.build_path();
            let h = async {
                let mut s = root.until_bubbling_change();
                loop {
                    s.next().await;
                }
            };
            join((f, g, h)).await;
        }),
        8 => Box::pin(async move {
            let l = DynamicList::new();
            l.insert(k, "x".render(), None);
            let f = async {
                let mut n = k;
                let mut s = sh.cell.until_change();
                loop {
                    s.next().await;
                    l.insert(n + 1, "x".render(), Some(&n));
                    l.remove(&n);
                    n += 1;
                }
            };
            join((l.render(), f)).await;
        }),
        9 => Box::pin(async move {
            loop {
                let a = html::Button::new();
                let b = html::Input::new();
                select! {
                    _ = a.render("a".render()) => (),
                    _ = b.render() => (),
                    _ = a.until_click() => (),
                    _ = b.until_input() => (),
                    _ = sh.cell.until_change() => break,
                }
            }
            text(k).render().await;
        }),
        10 => Box::pin(async move {
            let p = sh.store.build_path().key(k);
            let q = sh.store.build_path();
            let t = html::Text::new();
            let f = async {
                let mut s = p.signal_stream(k % 2 == 0);
                while let Some(v) = s.next().await {
                    t.set_data(&text(v.len() as u64));
                }
            };
            let incoming = sh.cell.until_change().map(|_| vec![7, 8]).take(3);
            let g = p.bind_for_each(|v| t.set_data(&text(v.len() as u64)), incoming);
            let h = q.for_each(|m| t.set_data(&text(m.len() as u64)));
            join((t.render(), f, g, h)).await;
        }),
        11 => Box::pin(async move {
            let t = html::Text::new();
            join((t.render(), sh.cell.for_each(|v| t.set_data(&text(*v))))).await;
        }),
        12 => Box::pin(async move {
            // heap-allocated outputs and errors, of which some are never taken
            let ok = |n: u64| async move {
                if n % 2 == 0 {
                    sh_tick().await
                }
                Ok::<String, String>(text(n))
            };
            let bad = |n: u64| async move {
                if n % 3 == 0 {
                    sh_tick().await
                }
                Err::<String, String>(text(n))
            };
            let _ = try_join((ok(k), ok(k + 1), bad(k))).await;
            let _ = try_join([ok(k), ok(k + 1)]).await;
            let _ = race_ok((bad(k), bad(k + 1), ok(k))).await;
            let _ = race_ok(vec![bad(k), bad(k + 1)]).await;
            let _ = race_ok([bad(k), bad(k + 2)]).await;
            let _ = race(vec![ok(k), ok(k + 1), ok(k)]).await;
            let _ = race([bad_as_ok(k), bad_as_ok(k + 1)]).await;
            let _ = join([ok(k), ok(k + 1), ok(k + 2)]).await;
            let many: Vec<_> = (0..70).map(|i| text(k + i).render()).collect();
            race((
                async {
                    join(many).await;
                },
                sh.cell.until_change(),
            ))
            .await;
            let _ = ok(k).pend_after::<()>().meanwhile(ok(k + 1)).await;
        }),
        13 => Box::pin(async move {
            let f = html::Form::new();
            let i = html::Input::new_checkbox();
            let a = html::Anchor::new();
            let c = html::CustomElement::new("my-thing".into());
            a.add_class("z");
            let g = async {
                loop {
                    i.until_input().await;
                    a.set_class("on", i.checked());
                }
            };
            let h = async {
                let mut s = i.until_event::<web_sys::Event>("input".into());
                s.set_capture(true);
                loop {
                    (&mut s).await;
                }
            };
            f.render(join((i.render(), a.render(c.render("c".render())), g, h))).await;
        }),
        14 => Box::pin(async move {
            let m: RefCell<ListModel<u64>> = RefCell::new((k..k + 6).collect());
            let l = ModeledList::new(|k: &u64| ready(*k));
            let d = DiffedList::new(|k: &u64| {
                let k = *k;
                async move { text(k).render().await }
            });
            l.update(&m.borrow());
            let f = async {
                let mut s = sh.cell.until_change();
                loop {
                    d.update(m.borrow().to_vec());
                    s.next().await;
                    m.borrow_mut().swap(0, 3);
                    m.borrow_mut().pop();
                    m.borrow_mut().push(k + 70);
                    l.update(&m.borrow());
                    l.update(&m.borrow().clone());
                }
            };
            join((l.render(), d.render(), f)).await;
        }),
        _ => Box::pin(async move {
            let body: web_sys::EventTarget = JsValue::from_obj(native::body()).unchecked_into();
            let mut s = body.until_event::<web_sys::Event>("keydown".into());
            s.set_passive(true);
            if k % 2 == 0 {
                s.set_capture(true);
            }
            loop {
                s.next().await;
            }
        }),
    }
}
async fn sh_tick() {
    futures_lite::future::yield_now().await
}
async fn bad_as_ok(k: u64) -> Result<String, String> {
    sh_tick().await;
    Err(text(k))
}
fn content(r: &mut Rng, k: u64, sh: &Sh, depth: usize) -> Fut {
    if depth == 0 || r.chance(1, 2) {
        return leaf(r, k, sh);
    }
    let mut sub = |r: &mut Rng| content(r, k, sh, depth - 1);
    match r.below(9) {
        0 => {
            let (a, b) = (sub(r), sub(r));
            Box::pin(async move {
                html::Div::new().render(join((a, b))).await;
            })
        }
        1 => {
            let v: Vec<Fut> = (0..r.below(4)).map(|_| sub(r)).collect();
            Box::pin(async move {
                join(v).await;
            })
        }
        2 => {
            let (a, b) = (sub(r), sub(r));
            Box::pin(async move {
                race([a, b]).await;
                "done".render().await
            })
        }
        3 => {
            let (a, b) = (sub(r), sub(r));
            let ok = |f: Fut| async move {
                f.await;
                Ok::<(), ()>(())
            };
            Box::pin(async move {
                let _ = try_join((ok(a), ok(b), async { Ok::<(), ()>(()) })).await;
            })
        }
        4 => {
            let (a, b) = (sub(r), sub(r));
            let bad = |f: Fut| async move {
                f.await;
                Err::<(), u32>(1)
            };
            Box::pin(async move {
                let _ = race_ok((bad(a), bad(b))).await;
            })
        }
        5 => {
            let a = sub(r);
            Box::pin(async move {
                a.pend_after::<()>().await;
            })
        }
        6 => {
            let (a, b) = (sub(r), sub(r));
            Box::pin(async move {
                a.meanwhile(b).await;
                html::Hr::new().render().await
            })
        }
        7 => {
            let (a, b) = (sub(r), sub(r));
            Box::pin(async move {
                a.await;
                b.await;
            })
        }
        _ => {
            let (a, b) = (sub(r), sub(r));
            let sh = sh.clone();
            Box::pin(async move {
                let s = DynamicSlot::new();
                s.set_future(a);
                let f = async {
                    sh.cell.until_change().await;
                    s.set_future(b);
                    pending::<()>().await
                };
                join((s.render(), f)).await;
            })
        }
    }
}

trait Part {
    fn name(&self) -> &'static str;
    fn ui(self: Rc<Self>) -> Fut;
    fn op(&self, r: &mut Rng, k: u64, sh: &Sh);
    fn reset(&self);
}

struct PSlot(DynamicSlot<Fut>);
impl Part for PSlot {
    fn name(&self) -> &'static str {
        "slot"
    }
    fn ui(self: Rc<Self>) -> Fut {
        Box::pin(async move {
            self.0.render().await;
        })
    }
    fn op(&self, r: &mut Rng, k: u64, sh: &Sh) {
        if r.chance(1, 5) {
            self.0.clear_future()
        } else {
            self.0.set_future(content(r, k, sh, 2))
        }
    }
    fn reset(&self) {
        self.0.clear_future()
    }
}

struct PDyn {
    list: DynamicList<'static, u64, Fut>,
    keys: RefCell<Vec<u64>>,
}
impl Part for PDyn {
    fn name(&self) -> &'static str {
        "dynamic list"
    }
    fn ui(self: Rc<Self>) -> Fut {
        Box::pin(async move {
            self.list.render().await;
        })
    }
    fn op(&self, r: &mut Rng, k: u64, sh: &Sh) {
        let mut keys = self.keys.borrow_mut();
        let before = (!keys.is_empty() && r.chance(1, 2)).then(|| *r.pick(&keys));
        match r.below(if keys.len() < 2 { 2 } else { 8 }) {
            0..=2 => {
                self.list.insert(k, content(r, k, sh, 2), before.as_ref());
                keys.push(k);
            }
            3 => {
                let i = r.below(keys.len());
                self.list.insert(keys[i], content(r, k, sh, 1), before.as_ref());
            }
            4 => {
                let i = r.below(keys.len());
                self.list.remove(&keys.swap_remove(i));
            }
            5 => self.list.swap(r.pick(&keys), r.pick(&keys)),
            6 => {
                let min = r.below(3) as u64;
                self.list.retain(|k| k % 3 != min);
                keys.retain(|k| k % 3 != min);
            }
            _ => self.list.move_before(r.pick(&keys), before.as_ref()),
        }
    }
    fn reset(&self) {
        for k in self.keys.borrow_mut().drain(..) {
            self.list.remove(&k);
        }
    }
}

struct PModel {
    list: ModeledList<'static, u64, Fut, Box<dyn Fn(&u64) -> Fut>>,
    model: RefCell<ListModel<u64>>,
    base: usize,
    next: Cell<u64>,
}
impl Part for PModel {
    fn name(&self) -> &'static str {
        "modeled list"
    }
    fn ui(self: Rc<Self>) -> Fut {
        Box::pin(async move {
            self.list.render().await;
        })
    }
    fn op(&self, r: &mut Rng, k: u64, _: &Sh) {
        let mut m = self.model.borrow_mut();
        for i in 0..r.range(1, 4) as u64 {
            let n = m.len();
            match r.below(if n < 2 { 2 } else { 8 }) {
                0 | 1 => m.push(k * 8 + i),
                2 => m.insert(r.below(n + 1), k * 8 + i),
                3 | 4 => {
                    m.remove(r.below(n));
                }
                5 => {
                    m.pop();
                }
                6 => m.swap(r.below(n), r.below(n)),
                _ => m.move_item(r.below(n), r.below(n)),
            }
        }
        if r.chance(1, 10) {
            m.modify_vec().reverse();
        }
        if r.chance(2, 3) {
            self.list.update(&m);
        }
    }
    fn reset(&self) {
        let mut m = self.model.borrow_mut();
        while m.pop().is_some() {}
        self.next.set(self.next.get() + 1);
        for i in 0..self.base {
            // (what is rendered for a key depends on the key modulo 13)
            m.push(13 * (1_000_000_000 + 100 * self.next.get()) + i as u64);
        }
        self.list.update(&m);
    }
}

struct PDiff {
    list: DiffedList<'static, u64, Box<dyn FnMut(&u64) -> Fut>, Fut>,
    keys: RefCell<Vec<u64>>,
}
impl Part for PDiff {
    fn name(&self) -> &'static str {
        "diffed list"
    }
    fn ui(self: Rc<Self>) -> Fut {
        Box::pin(async move {
            self.list.render().await;
        })
    }
    fn op(&self, r: &mut Rng, k: u64, _: &Sh) {
        let mut keys = self.keys.borrow_mut();
        match r.below(4) {
            0 => r.shuffle(&mut keys),
            1 => {
                let n = r.below(keys.len() + 1);
                keys.truncate(n)
            }
            _ => {
                let at = r.below(keys.len() + 1);
                keys.insert(at, k)
            }
        }
        self.list.update(keys.clone());
    }
    fn reset(&self) {
        self.keys.borrow_mut().clear();
        self.list.update(vec![]);
    }
}

struct PDrop(Dropdown<u64>, RefCell<Vec<u64>>);
impl PDrop {
    fn update(&self) {
        let v: Vec<(u64, String)> = self.1.borrow().iter().map(|k| (*k, text(*k))).collect();
        self.0.update_options(v.iter().map(|(k, t)| (*k, t.as_str())));
    }
}
impl Part for PDrop {
    fn name(&self) -> &'static str {
        "dropdown"
    }
    fn ui(self: Rc<Self>) -> Fut {
        Box::pin(async move {
            let f = async {
                let mut s = self.0.until_change();
                loop {
                    s.next().await;
                }
            };
            join((self.0.render(), f)).await;
        })
    }
    fn op(&self, r: &mut Rng, k: u64, _: &Sh) {
        let n = self.1.borrow().len();
        match r.below(5) {
            0 if n > 0 => self.0.set_value(Some(self.1.borrow()[r.below(n)])),
            1 => self.0.set_value((k % 2 == 0).then_some(k)),
            2 if n > 0 => {
                self.1.borrow_mut().remove(r.below(n));
                self.update();
            }
            3 if n > 0 => {
                let el: &web_sys::Element = self.0.as_ref();
                let v: &JsValue = el.as_ref();
                native::user_select(v.obj().unwrap(), r.below(n));
            }
            _ => {
                self.1.borrow_mut().insert(r.below(n + 1), k);
                self.update();
            }
        }
    }
    fn reset(&self) {
        self.1.borrow_mut().clear();
        self.update();
        self.0.set_value(None);
    }
}

/// temporary apps and tasks, beside the main app
struct PTemp {
    place: Rc<Obj>,
    apps: RefCell<Vec<Task<()>>>,
    tasks: RefCell<Vec<Task<()>>>,
}
impl Part for PTemp {
    fn name(&self) -> &'static str {
        "temporary apps and tasks"
    }
    fn ui(self: Rc<Self>) -> Fut {
        Box::pin(pending())
    }
    fn op(&self, r: &mut Rng, k: u64, sh: &Sh) {
        let c = content(r, k, sh, 2);
        let mut apps = self.apps.borrow_mut();
        let mut tasks = self.tasks.borrow_mut();
        match r.below(5) {
            0 | 1 => {
                let node: web_sys::Node = JsValue::from_obj(self.place.clone()).unchecked_into();
                apps.push(mount_at(c, node))
            }
            2 if !apps.is_empty() => {
                let i = r.below(apps.len());
                drop(apps.swap_remove(i))
            }
            3 => {
                let sh = sh.clone();
                tasks.push(get_executor().spawn(async move {
                    loop {
                        sh.cell.until_change().await;
                    }
                }))
            }
            _ => get_executor()
                .spawn(async move {
                    futures_lite::future::yield_now().await;
                })
                .detach(),
        }
    }
    fn reset(&self) {
        self.apps.borrow_mut().clear();
        self.tasks.borrow_mut().clear();
    }
}

struct PVirt {
    root: Rc<html::Div>,
    geo: RefCell<Option<(Geom, Browser)>>,
    num: Cell<usize>,
    signal: Rc<ReactiveCell<()>>,
}
fn obj_of(d: &html::Div) -> Rc<Obj> {
    let e: &web_sys::Element = d.as_ref();
    let v: &JsValue = e.as_ref();
    v.obj().unwrap().clone()
}
impl PVirt {
    fn settle(&self) {
        let b = self.geo.borrow_mut().take();
        if let Some((g, mut b)) = b {
            let _ = b.settle();
            let mut s = self.geo.borrow_mut();
            // unless it was rendered anew meanwhile
            if s.is_none() && native::page().layout.borrow().is_some() {
                *s = Some((g, b));
            }
        }
    }
}
struct Unlayout(Rc<PVirt>);
impl Drop for Unlayout {
    fn drop(&mut self) {
        self.0.geo.borrow_mut().take();
        native::page().layout.borrow_mut().take();
    }
}
impl Part for PVirt {
    fn name(&self) -> &'static str {
        "virtualized list"
    }
    fn ui(self: Rc<Self>) -> Fut {
        Box::pin(async move {
            let root = self.root.clone();
            let (spf, spb) = (html::Div::new(), html::Div::new());
            obj_of(&spf).set_prop("spacer", JsValue::from(true));
            obj_of(&spb).set_prop("spacer", JsValue::from(true));
            let geo: Geom = Rc::new(RefCell::new(Geo { root: obj_of(&root), horizontal: false, h: 90.0, top: 5.0, scroll: 0.0, hidden: false, max_h: 90.0, item: 20.0, header: 0.0 }));
            let g2 = geo.clone();
            let _un = Unlayout(self.clone());
            *native::page().layout.borrow_mut() = Some(Rc::new(move |o: &Rc<Obj>| g2.borrow().rect(o)));
            *self.geo.borrow_mut() = Some((geo.clone(), Browser { geo, last_scroll: 0.0, io: vec![] }));
            let list = VirtualizedList::new(&root.element, spf.element.clone().into(), spb.element.clone().into(), |ix| async move {
                let d = html::Div::new();
                obj_of(&d).set_prop("vindex", JsValue::from(ix as f64));
                d.render(NoChild).await;
            });
            list.set_num_items(self.num.get());
            let f = async {
                let mut s = self.signal.until_change();
                loop {
                    s.next().await;
                    list.set_num_items(self.num.get());
                }
            };
            root.render(join((list.render(), f))).await;
        })
    }
    fn op(&self, r: &mut Rng, _: u64, _: &Sh) {
        match r.below(3) {
            0 => {
                self.num.set(r.below(120));
                self.signal.borrow_mut();
            }
            _ => {
                if let Some((g, _)) = self.geo.borrow().as_ref() {
                    let mut g = g.borrow_mut();
                    g.scroll = g.max_scroll() * r.below(11) as f64 / 10.0;
                }
            }
        }
        self.settle();
    }
    fn reset(&self) {
        if let Some((g, _)) = self.geo.borrow().as_ref() {
            g.borrow_mut().scroll = 0.0;
        }
        self.num.set(30);
        self.signal.borrow_mut();
        self.settle();
    }
}

fn make(kind: usize, r: &mut Rng, place: &Rc<Obj>, sh: &Sh) -> Rc<dyn Part> {
    let s = r.u64();
    let sh = sh.clone();
    match kind {
        0 => Rc::new(PSlot(DynamicSlot::new())),
        1 => Rc::new(PDyn { list: DynamicList::new(), keys: Default::default() }),
        2 => {
            let base = r.below(24);
            let first: ListModel<u64> = (0..base as u64).collect();
            let list: ModeledList<'static, u64, Fut, Box<dyn Fn(&u64) -> Fut>> = ModeledList::new(Box::new(move |k: &u64| {
                let f = content(&mut Rng::new(s ^ (k % 13)), *k, &sh, 1);
                f
            }));
            list.update(&first);
            Rc::new(PModel { list, model: RefCell::new(first), base, next: Cell::new(0) })
        }
        3 => Rc::new(PDiff { list: DiffedList::new(Box::new(move |k: &u64| content(&mut Rng::new(s ^ (k % 13)), *k, &sh, 1))), keys: Default::default() }),
        4 => Rc::new(PDrop(Dropdown::new(), Default::default())),
        5 => Rc::new(PTemp { place: place.clone(), apps: Default::default(), tasks: Default::default() }),
        _ => Rc::new(PVirt { root: Rc::new(html::Div::new()), geo: Default::default(), num: Cell::new(30), signal: Rc::new(ReactiveCell::new(())) }),
    }
}
const KINDS: usize = 7;

fn settle() -> CaseResult {
    check!(native::run_timers(20_000) < 20_000, "the page never comes to rest");
    Ok(())
}
fn buttons(tag: &str) -> Vec<Rc<Obj>> {
    let mut v = vec![];
    native::descendants(&native::body(), &mut v);
    v.retain(|o| o.class == tag);
    v
}

struct Life {
    parts: Vec<Rc<dyn Part>>,
    top: Rc<DynamicSlot<Fut>>,
    app: Option<Task<()>>,
    shown: bool,
    sh: Sh,
    place: Rc<Obj>,
}
impl Life {
    fn new(r: &mut Rng, kinds: &[usize], place: &Rc<Obj>, temp: &Rc<Obj>) -> Life {
        let sh = Rc::new(Shared { cell: ReactiveCell::new(0), store: Store::new(HashMap::new()), base: 0 });
        let _ = sh.base;
        let parts: Vec<_> = kinds.iter().map(|k| make(*k, r, temp, &sh)).collect();
        let mut l = Life { parts, top: Rc::new(DynamicSlot::new()), app: None, shown: false, sh, place: place.clone() };
        l.mount();
        l
    }
    fn mount(&mut self) {
        let top = self.top.clone();
        let node: web_sys::Node = JsValue::from_obj(self.place.clone()).unchecked_into();
        self.app = Some(mount_at(
            async move {
                top.render().await;
            },
            node,
        ));
        self.shown = false;
        self.show(true);
    }
    fn show(&mut self, on: bool) {
        if on != self.shown {
            self.shown = on;
            if on {
                let v: Vec<Fut> = self.parts.iter().map(|p| p.clone().ui()).collect();
                self.top.set_future(Box::pin(async move {
                    join(v).await;
                }));
            } else {
                self.top.clear_future();
            }
        }
    }
    fn cycle(&mut self, seed: u64, n: u64, steps: usize) -> CaseResult {
        let mut r = Rng::new(seed);
        let r = &mut r;
        for s in 0..steps {
            let k = n * 1000 + s as u64 + 1_000;
            match r.below(14) {
                0 => *self.sh.cell.borrow_mut() += 1,
                1 => {
                    let p = self.sh.store.build_path();
                    if let Some(mut m) = p.borrow_opt_mut() {
                        m.insert(k, vec![1, 2, 3]);
                        m.insert(k + 1, vec![]);
                    };
                }
                2 => {
                    let q = self.sh.store.build_path().key(k - r.below(4) as u64);
                    if let Some(mut v) = q.borrow_opt_mut() {
                        v.push(k)
                    }
                    let i = q.index(1);
                    let _ = i.set_opt(3);
                }
                3 => {
                    let b = buttons("HTMLButtonElement");
                    if !b.is_empty() {
                        let ev = native::new_event("MouseEvent", "click", true, true);
                        let _ = native::dispatch_event(r.pick(&b), &ev);
                    }
                }
                4 => {
                    let b = buttons("HTMLInputElement");
                    if !b.is_empty() {
                        let ev = native::new_event("Event", "input", true, false);
                        let _ = native::dispatch_event(r.pick(&b), &ev);
                    }
                    let ev = native::new_event("KeyboardEvent", "keydown", true, true);
                    let _ = native::dispatch_event(&native::body(), &ev);
                }
                5 if r.chance(1, 2) => {
                    let on = !self.shown;
                    self.show(on);
                }
                6 if r.chance(1, 3) => {
                    // the app goes and another one takes its place
                    self.app.take();
                    if r.chance(1, 2) {
                        settle()?;
                    }
                    self.mount();
                }
                _ => {
                    let p = r.pick(&self.parts).clone();
                    p.op(r, k, &self.sh);
                }
            }
            match r.below(3) {
                0 => settle()?,
                1 => {
                    native::run_one_timer();
                }
                _ => (),
            }
        }
        self.show(true);
        settle()?;
        if let Some(mut m) = self.sh.store.build_path().borrow_opt_mut() {
            m.clear();
        }
        for p in &self.parts {
            p.reset();
        }
        settle()
    }
}

#[derive(Clone, Copy, Debug)]
struct Use {
    bytes: i64,
    objs: i64,
    listeners: i64,
}
fn measure(keep: &[Rc<Obj>]) -> Use {
    native::collect();
    let p = native::page();
    p.uncaught.borrow_mut().clear();
    p.console.borrow_mut().clear();
    Use {
        bytes: crate::live_bytes(),
        objs: native::live_objects(),
        listeners: keep.iter().chain([&p.window, &p.document]).map(|o| native::listeners_of(o).len() as i64).sum(),
    }
}

type Measure = fn(&Use) -> i64;
fn growing(uses: &[Use], at: &[u64]) -> Option<(&'static str, Vec<i64>)> {
    let kinds: [(&str, Measure, i64); 3] = [
        ("allocated bytes", |u| u.bytes, 4),
        ("objects of the browser", |u| u.objs, 1),
        ("event listeners on what stays", |u| u.listeners, 1),
    ];
    for (what, get, least) in kinds {
        let v: Vec<i64> = uses.iter().map(get).collect();
        let grew = |i: usize| 2 * (v[i + 1] - v[i]) >= least * (at[i + 1] - at[i]) as i64;
        if (0..v.len() - 1).all(grew) {
            return Some((what, v));
        }
    }
    None
}

pub fn g01(cx: &mut Cx) -> CaseResult {
    let seed = cx.rng.u64();
    let single = cx.rng.chance(1, 2);
    let kinds: Vec<usize> = if single {
        vec![cx.rng.below(KINDS)]
    } else {
        let mut v: Vec<usize> = (0..KINDS).collect();
        cx.rng.shuffle(&mut v);
        v.truncate(cx.rng.range(2, 4));
        v
    };
    let lives = cx.rng.chance(1, 3);
    let steps = cx.rng.range(2, 24);
    let first: u64 = if cx.thorough { 24 } else { 12 };
    let mk = |tag: &str| {
        let o = native::new_element_raw(tag);
        native::insert_before(&native::body(), &o, None).unwrap();
        o
    };
    let (place, temp) = (mk("div"), mk("div"));
    let keep = [place.clone(), temp.clone(), native::body()];
    let mut names: Vec<&str> = vec![];
    let mut uses: Vec<Use> = Vec::with_capacity(7);
    let mut life: Option<Life> = None;
    let mut n = 0;
    tr!("parts {kinds:?}, {steps} steps per cycle, {}", if lives { "a new life each cycle" } else { "one life" });
    let mut at: Vec<u64> = Vec::with_capacity(7);
    let mut grows = None;
    for i in 0..7 {
        let k = first << i;
        while n < k {
            let mut l = match life.take() {
                Some(l) if !lives => l,
                _ => Life::new(&mut Rng::new(seed), &kinds, &place, &temp),
            };
            l.cycle(seed, n, steps)?;
            n += 1;
            if n == 1 {
                names = l.parts.iter().map(|p| p.name()).collect();
            }
            if lives {
                drop(l);
                settle()?;
            } else {
                life = Some(l);
            }
        }
        uses.push(measure(&keep));
        at.push(n);
        if i < 3 {
            continue;
        }
        // a leak in every cycle adds to each stretch, however long the app runs
        grows = growing(&uses, &at);
        if grows.is_none() {
            break;
        }
    }
    tr!("after {at:?} cycles: {uses:?}");
    if let Some((what, v)) = grows {
        tr!("objects now: {:?}", native::live_by_class());
        return Err(format!(
            "{what} keep growing while {} ({}) does the same over and over and ends in the same state: {v:?} after {at:?} cycles",
            if lives { "an app that is mounted and unmounted again" } else { "an app" },
            names.join(", "),
        ));
    }
    cov(|c| {
        c.add("cycles", n);
        c.hit(if lives { "many lives" } else { "one long life" });
        for n in &names {
            c.hit(&format!("with {n}"));
        }
        c.max("objects at the end", uses[3].objs as u64);
        c.sig((&kinds, seed, lives, steps));
    });
    Ok(())
}
