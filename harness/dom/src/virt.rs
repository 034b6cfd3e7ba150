//! L05: virtualized lists on a simulated layout: scrolling, resizing, hiding, data changes.
use crate::driver::*;
use async_ui_web::html;
use async_ui_web::lists::VirtualizedList;
use async_ui_web::{join, mount_at, race, NoChild};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use wasm_bindgen::native::{self, Data, Obj};
use wasm_bindgen::{JsCast, JsValue};

pub struct Geo {
    pub root: Rc<Obj>,
    pub horizontal: bool,
    /// root size, root offset on the page, scroll position
    pub h: f64,
    pub top: f64,
    pub scroll: f64,
    pub item: f64,
    pub header: f64,
    /// nothing is laid out (`display: none` on an ancestor)
    pub hidden: bool,
    /// the largest root so far
    pub max_h: f64,
}
impl Geo {
    fn size_of(&self, o: &Rc<Obj>) -> f64 {
        if o.prop("vindex").as_f64().is_some() {
            self.item
        } else if o.prop("header").is_truthy() {
            self.header
        } else if o.prop("spacer").is_truthy() {
            let p = if self.horizontal { "inline-size" } else { "block-size" };
            let s = native::to_string(&native::style_of(o).prop(p));
            let s2 = native::to_string(&native::style_of(o).prop(if self.horizontal { "width" } else { "height" }));
            let num = |s: &str| s.strip_suffix("px").and_then(|n| n.parse::<f64>().ok()).filter(|x| x.is_finite() && *x >= 0.0);
            num(&s).or(num(&s2)).unwrap_or(0.0)
        } else {
            0.0
        }
    }
    fn content(&self) -> f64 {
        native::children_of(&self.root).iter().filter(|o| o.class != "Comment").map(|o| self.size_of(o)).sum()
    }
    pub fn max_scroll(&self) -> f64 {
        if self.hidden {
            return 0.0;
        }
        (self.content() - self.h).max(0.0)
    }
    /// start and end on the scrolling axis, in page coordinates
    fn span(&self, o: &Rc<Obj>) -> (f64, f64) {
        if Rc::ptr_eq(o, &self.root) {
            return (self.top, self.top + self.h);
        }
        let mut y = self.top - self.scroll;
        for c in native::children_of(&self.root) {
            if c.class == "Comment" {
                continue;
            }
            let s = self.size_of(&c);
            if Rc::ptr_eq(&c, o) {
                return (y, y + s);
            }
            y += s;
        }
        (0.0, 0.0)
    }
    pub fn rect(&self, o: &Rc<Obj>) -> [f64; 4] {
        let (a, b) = self.span(o);
        let inside = Rc::ptr_eq(o, &self.root) || native::parent_of(o).is_some_and(|p| Rc::ptr_eq(&p, &self.root));
        if !inside || self.hidden {
            return [0.0; 4];
        }
        if self.horizontal {
            [a, 7.0, b - a, 60.0]
        } else {
            [7.0, a, 60.0, b - a]
        }
    }
}
struct Inst {
    ix: usize,
    node: Option<Rc<Obj>>,
    dropped: u32,
}
struct W {
    inst: Vec<Inst>,
    bad: Vec<String>,
    strict: bool,
    shown: bool,
    waker: Option<Waker>,
    calls: u64,
    num: usize,
}
thread_local! {
    static W_: RefCell<Option<W>> = const { RefCell::new(None) };
}
fn with<R>(f: impl FnOnce(&mut W) -> R) -> R {
    W_.with(|w| f(w.borrow_mut().as_mut().expect("HARNESS: no world")))
}
struct Item {
    id: usize,
    f: Pin<Box<dyn Future<Output = ()>>>,
}
impl Future for Item {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.f.as_mut().poll(cx)
    }
}
impl Drop for Item {
    fn drop(&mut self) {
        let _ = W_.try_with(|w| {
            if let Some(w) = w.borrow_mut().as_mut() {
                let i = &mut w.inst[self.id];
                i.dropped += 1;
                i.node = None;
            }
        });
    }
}
fn item(ix: usize) -> Item {
    let id = with(|w| {
        w.calls += 1;
        if w.strict && w.inst.iter().any(|i| i.ix == ix && i.dropped == 0) {
            w.bad.push(format!("the renderer is called for index {ix}, which is still displayed"));
        }
        if ix >= w.num {
            let n = w.num;
            w.bad.push(format!("the renderer is called for index {ix} of {n} items"));
        }
        w.inst.push(Inst { ix, node: None, dropped: 0 });
        w.inst.len() - 1
    });
    Item {
        id,
        f: Box::pin(async move {
            let d = html::Div::new();
            let e: &web_sys::Element = d.as_ref();
            let v: &JsValue = e.as_ref();
            let o = v.obj().unwrap().clone();
            o.set_prop("vindex", JsValue::from(ix as f64));
            with(|w| w.inst[id].node = Some(o));
            d.render(NoChild).await;
            std::future::pending::<()>().await
        }),
    }
}
struct Until(bool);
impl Future for Until {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        with(|w| {
            if w.shown == self.0 {
                return Poll::Ready(());
            }
            w.waker = Some(cx.waker().clone());
            Poll::Pending
        })
    }
}
pub type Geom = Rc<RefCell<Geo>>;
pub struct Browser {
    pub geo: Geom,
    pub last_scroll: f64,
    /// observer, target, was intersecting
    pub io: Vec<(Rc<Obj>, Rc<Obj>, bool)>,
}
impl Browser {
    /// what the browser does at a frame; returns whether anything happened
    pub fn frame(&mut self) -> bool {
        let mut any = native::run_timers(2000) > 0;
        {
            let mut g = self.geo.borrow_mut();
            let m = g.max_scroll();
            if g.scroll > m {
                g.scroll = m
            }
        }
        let s = self.geo.borrow().scroll;
        let root = self.geo.borrow().root.clone();
        if s != self.last_scroll {
            self.last_scroll = s;
            let ev = native::new_event("Event", "scroll", false, false);
            native::dispatch_event(&root, &ev).unwrap();
            cov(|c| c.hit("scroll_events"));
            any = true;
        }
        let obs = native::active_observers();
        self.io.retain(|x| obs.iter().any(|o| Rc::ptr_eq(o, &x.0)));
        for o in obs {
            let Data::Observer(d) = &o.data else { continue };
            let margin = match d.root_margin.trim() {
                "100%" => 1.0,
                m => m.strip_suffix('%').and_then(|m| m.trim().parse::<f64>().ok()).map(|x| x / 100.0).unwrap_or(0.0),
            };
            let mut notify = false;
            for t in d.targets.borrow().iter() {
                let hit = {
                    let g = self.geo.borrow();
                    let inside = native::parent_of(t).is_some_and(|p| Rc::ptr_eq(&p, &g.root));
                    let (a, b) = g.span(t);
                    let m = margin * g.h;
                    inside && !g.hidden && b >= g.top - m && a <= g.top + g.h + m
                };
                match self.io.iter_mut().find(|x| Rc::ptr_eq(&x.0, &o) && Rc::ptr_eq(&x.1, t)) {
                    Some(x) if x.2 == hit => {}
                    Some(x) => {
                        x.2 = hit;
                        notify = true
                    }
                    None => {
                        self.io.push((o.clone(), t.clone(), hit));
                        notify = true
                    }
                }
            }
            if notify {
                native::notify_observer(&o);
                cov(|c| c.hit("observer_notifications"));
                any = true;
            }
        }
        any
    }
    pub fn settle(&mut self) -> CaseResult {
        for _ in 0..60 {
            if !self.frame() {
                return Ok(());
            }
        }
        Err("scrolling never comes to rest".into())
    }
}
pub fn l05(cx: &mut Cx) -> CaseResult {
    W_.with(|w| *w.borrow_mut() = Some(W { inst: vec![], bad: vec![], strict: true, shown: false, waker: None, calls: 0, num: 0 }));
    let r = go(cx);
    native::page().layout.borrow_mut().take();
    let w = W_.with(|w| w.borrow_mut().take());
    if let Some(w) = w {
        cov(|c| c.add("rendered_items", w.calls));
    }
    r
}
fn go(cx: &mut Cx) -> CaseResult {
    let steps = cx.scaled(2, 30);
    // `Direction` is not exported, so a horizontal list cannot be made from outside
    let horizontal = false;
    let h = cx.rng.range(40, 400) as f64;
    let item_size = match cx.rng.below(6) {
        0 => (h / 40.0).max(1.0),
        1 => h / 16.0,
        2 => h / 4.0,
        3 => h / 3.3,
        4 => h * 0.9,
        _ => h * 2.5,
    };
    let root: &'static html::Div = Box::leak(Box::new(html::Div::new()));
    let (spf, spb) = (html::Div::new(), html::Div::new());
    let obj = |d: &html::Div| -> Rc<Obj> {
        let e: &web_sys::Element = d.as_ref();
        let v: &JsValue = e.as_ref();
        v.obj().unwrap().clone()
    };
    let (ro, fo, bo) = (obj(root), obj(&spf), obj(&spb));
    fo.set_prop("spacer", JsValue::from(true));
    bo.set_prop("spacer", JsValue::from(true));
    let header = match cx.rng.below(5) {
        0 | 1 => h * cx.rng.range(1, 60) as f64 / 10.0,
        _ => 0.0,
    };
    let geo: Geom = Rc::new(RefCell::new(Geo {
        root: ro.clone(),
        horizontal,
        h,
        top: [0.0, 13.0, 900.0][cx.rng.below(3)],
        scroll: 0.0,
        item: item_size,
        header,
        hidden: cx.rng.chance(1, 6),
        max_h: h,
    }));
    let g2 = geo.clone();
    *native::page().layout.borrow_mut() = Some(Rc::new(move |o: &Rc<Obj>| g2.borrow().rect(o)));
    let list = VirtualizedList::new(&root.element, spf.element.clone().into(), spb.element.clone().into(), |ix| item(ix));
    tr!("{} root {h}, items {item_size}, header {header}", if horizontal { "horizontal" } else { "vertical" });
    let list = Rc::new(list);
    let set_num = |n: usize| {
        tr!("set_num_items {n}");
        with(|w| w.num = n);
        list.set_num_items(n);
    };
    let max_n = if item_size * 60.0 < h * 3.0 { 600 } else { 150 };
    let pick_n = |cx: &mut Cx| match cx.rng.below(6) {
        0 => 0,
        1 => cx.rng.range(1, 4),
        5 if cx.rng.chance(1, 3) => 30_000,
        2 => cx.rng.range(5, 30),
        _ => cx.rng.range(0, max_n),
    };
    if cx.rng.chance(2, 3) {
        let n = pick_n(cx);
        set_num(n);
    }
    let l2 = list.clone();
    let node: web_sys::Node = JsValue::from_obj(native::body()).unchecked_into();
    let task = mount_at(
        async move {
            let hd = html::Div::new();
            let e: &web_sys::Element = hd.as_ref();
            let v: &JsValue = e.as_ref();
            v.obj().unwrap().set_prop("header", JsValue::from(true));
            root.render(join((hd.render(NoChild), async {
                loop {
                    Until(true).await;
                    race((l2.render(), Until(false))).await;
                }
            })))
            .await;
        },
        node,
    );
    let show = |on: bool| {
        tr!("{}", if on { "show" } else { "hide" });
        let wk = with(|w| {
            w.shown = on;
            w.waker.take()
        });
        if let Some(w) = wk {
            w.wake()
        }
    };
    let mut b = Browser { geo: geo.clone(), last_scroll: 0.0, io: vec![] };
    if cx.rng.chance(1, 2) {
        b.settle()?;
    }
    show(true);
    b.settle()?;
    let mut sig = vec![];
    check(false, &geo, &ro, &fo, &bo, &mut sig)?;
    for _ in 0..steps {
        let roll = if geo.borrow().hidden && cx.rng.chance(1, 2) { 12 } else { cx.rng.below(13) };
        let mut sets = 0;
        match roll {
            0..=5 => {
                let (h, m, s) = {
                    let g = geo.borrow();
                    (g.h, g.max_scroll(), g.scroll)
                };
                let to = match cx.rng.below(7) {
                    0 => 0.0,
                    1 => m,
                    2 => m * cx.rng.below(1000) as f64 / 1000.0,
                    3 | 4 => s + h * (cx.rng.below(400) as f64 / 100.0 - 2.0),
                    _ => s + item_size * (cx.rng.below(40) as f64 - 20.0) / 4.0,
                };
                let to = to.clamp(0.0, m).round();
                tr!("scroll {s} -> {to} of {m}");
                geo.borrow_mut().scroll = to;
                if cx.rng.chance(1, 3) {
                    b.frame();
                    let mut g = geo.borrow_mut();
                    let m = g.max_scroll();
                    g.scroll = (g.scroll + g.h * (cx.rng.below(300) as f64 / 100.0)).min(m);
                }
            }
            6 | 7 => {
                let f = [0.3, 0.5, 0.9, 1.1, 2.0, 3.0][cx.rng.below(6)];
                let mut g = geo.borrow_mut();
                g.h = (g.h * f).clamp(20.0, 1600.0).round();
                g.max_h = g.max_h.max(g.h);
                tr!("resize the root to {}", g.h);
                cov(|c| c.hit("resizes"));
            }
            8 | 9 => {
                sets = 1;
                let few = geo.borrow().h * 5.0 / item_size < 150.0;
                if few && cx.rng.chance(1, 2) {
                    // (with more items displayed: known finding many-at-once, below)
                    sets = cx.rng.range(2, 3);
                    with(|w| w.strict = false);
                }
                for _ in 0..sets {
                    let n = pick_n(cx);
                    set_num(n);
                }
                cov(|c| c.hit("num_changes"));
            }
            12 => {
                let mut g = geo.borrow_mut();
                g.hidden = !g.hidden;
                tr!("{}", if g.hidden { "not laid out any more" } else { "laid out again" });
                if g.hidden {
                    g.scroll = 0.0;
                    b.last_scroll = 0.0;
                    cov(|c| c.hit("not_laid_out"));
                }
            }
            10 => {
                show(false);
                b.settle()?;
                leftovers(&ro)?;
                check!(!native::children_of(&ro).iter().any(|c| c.prop("vindex").as_f64().is_some() || c.prop("spacer").is_truthy()), "items or spacers are displayed although the list is not rendered");
                cov(|c| c.hit("hidden"));
                show(true);
            }
            _ => {
                let mut g = geo.borrow_mut();
                g.top = [0.0, 13.0, 900.0][cx.rng.below(3)];
            }
        }
        b.settle()?;
        check(false, &geo, &ro, &fo, &bo, &mut sig)?;
        if sets > 1 {
            with(|w| w.strict = true);
        }
    }
    cov(|c| c.sig((sig, horizontal)));
    drop(task);
    native::run_timers(1000);
    leftovers(&ro)?;
    check!(native::children_of(&native::body()).is_empty(), "something stays on the page");
    drop(list);
    native::run_timers(1000);
    let n = with(|w| w.inst.iter().filter(|i| i.dropped != 1).count());
    check!(n == 0, "{n} items were not dropped exactly once after the list was dropped");
    Ok(())
}
/// known finding: more than 200 new items at once are measured before all of them are rendered
pub fn many_at_once(cx: &mut Cx) -> CaseResult {
    W_.with(|w| *w.borrow_mut() = Some(W { inst: vec![], bad: vec![], strict: false, shown: false, waker: None, calls: 0, num: 0 }));
    let mut c = Cx { rng: Rng::new(cx.seed), seed: cx.seed, size: 0, thorough: false };
    let r = scripted(&mut c, 1000.0, 2.0, &[Do::Num(100), Do::Settle, Do::Num(0), Do::Settle, Do::Num(300), Do::Num(30_000), Do::Num(30_000), Do::Settle]);
    native::page().layout.borrow_mut().take();
    W_.with(|w| w.borrow_mut().take());
    match r {
        Err(e) if e.contains("fill the view") => {
            cov(|c| {
                c.hit("known:many-at-once");
                c.known.insert("many-at-once".into(), e.to_string());
            });
            Ok(())
        }
        r => r,
    }
}
/// what was known as reset-many
pub fn reset_many(cx: &mut Cx) -> CaseResult {
    W_.with(|w| *w.borrow_mut() = Some(W { inst: vec![], bad: vec![], strict: false, shown: false, waker: None, calls: 0, num: 0 }));
    let mut c = Cx { rng: Rng::new(cx.seed), seed: cx.seed, size: 0, thorough: false };
    let r = scripted(&mut c, 300.0, 5.0, &[Do::Num(0), Do::Settle, Do::Num(400), Do::Num(500), Do::Settle, Do::Scroll(2000.0), Do::Settle, Do::Num(0), Do::Num(240), Do::Settle]);
    native::page().layout.borrow_mut().take();
    W_.with(|w| w.borrow_mut().take());
    r
}
#[derive(Clone, Copy)]
pub enum Do {
    Num(usize),
    Scroll(f64),
    Settle,
}
fn scripted(_cx: &mut Cx, h: f64, item_size: f64, script: &[Do]) -> CaseResult {
    let root: &'static html::Div = Box::leak(Box::new(html::Div::new()));
    let (spf, spb) = (html::Div::new(), html::Div::new());
    let obj = |d: &html::Div| -> Rc<Obj> {
        let e: &web_sys::Element = d.as_ref();
        let v: &JsValue = e.as_ref();
        v.obj().unwrap().clone()
    };
    let (ro, fo, bo) = (obj(root), obj(&spf), obj(&spb));
    fo.set_prop("spacer", JsValue::from(true));
    bo.set_prop("spacer", JsValue::from(true));
    let geo: Geom = Rc::new(RefCell::new(Geo { root: ro.clone(), horizontal: false, h, top: 13.0, scroll: 0.0, item: item_size, header: 0.0, hidden: false, max_h: h }));
    let g2 = geo.clone();
    *native::page().layout.borrow_mut() = Some(Rc::new(move |o: &Rc<Obj>| g2.borrow().rect(o)));
    let list = Rc::new(VirtualizedList::new(&root.element, spf.element.clone().into(), spb.element.clone().into(), item));
    let l2 = list.clone();
    let node: web_sys::Node = JsValue::from_obj(native::body()).unchecked_into();
    let task = mount_at(async move { root.render(l2.render()).await }, node);
    let mut b = Browser { geo: geo.clone(), last_scroll: 0.0, io: vec![] };
    let mut sig = vec![];
    b.settle()?;
    for s in script {
        match s {
            Do::Num(n) => {
                tr!("set_num_items {n}");
                with(|w| w.num = *n);
                list.set_num_items(*n)
            }
            Do::Scroll(y) => {
                tr!("scroll to {y}");
                geo.borrow_mut().scroll = *y
            }
            Do::Settle => {
                b.settle()?;
                check(true, &geo, &ro, &fo, &bo, &mut sig)?;
            }
        }
    }
    drop(task);
    native::run_timers(1000);
    leftovers(&ro)
}
fn leftovers(ro: &Rc<Obj>) -> CaseResult {
    let n = native::listeners_of(ro).len();
    check!(n == 0, "{n} event listeners are left after rendering stopped");
    let n = native::active_observers().len();
    check!(n == 0, "{n} observers are left after rendering stopped");
    Ok(())
}
fn check(bounded: bool, geo: &Geom, ro: &Rc<Obj>, fo: &Rc<Obj>, bo: &Rc<Obj>, sig: &mut Vec<(usize, usize)>) -> CaseResult {
    if let Some(b) = with(|w| w.bad.first().cloned()) {
        return Err(b);
    }
    let u = native::page().uncaught.borrow().clone();
    check!(u.is_empty(), "an exception escaped: {u:?}");
    let g = geo.borrow();
    let kids: Vec<Rc<Obj>> = native::children_of(ro).into_iter().filter(|o| o.class != "Comment" && !o.prop("header").is_truthy()).collect();
    check!(
        kids.len() >= 2 && Rc::ptr_eq(&kids[0], fo) && Rc::ptr_eq(&kids[kids.len() - 1], bo),
        "the items are not between the two spacers"
    );
    let ixs: Vec<Option<f64>> = kids[1..kids.len() - 1].iter().map(|k| k.prop("vindex").as_f64()).collect();
    check!(ixs.iter().all(|i| i.is_some()), "a foreign node is between the items");
    let ixs: Vec<usize> = ixs.iter().map(|i| i.unwrap() as usize).collect();
    check!(ixs.windows(2).all(|p| p[1] == p[0] + 1), "the displayed indices are not one contiguous increasing run: {ixs:?}");
    let num = with(|w| w.num);
    check!(ixs.last().is_none_or(|l| *l < num), "indices up to {:?} are displayed, but there are {num} items", ixs.last());
    let (f, bk) = (g.span(fo), g.span(bo));
    let view = (g.top, g.top + g.h);
    let what = format!("displayed {:?}..={:?} of {num}, spacers {f:?} {bk:?}, view {view:?}, items of {}", ixs.first(), ixs.last(), g.item);
    let eps = 1.0;
    if g.hidden {
        // nothing is in sight
    } else if ixs.is_empty() {
        // where the items would be must be out of sight
        let list = (f.0, f.0 + num as f64 * g.item);
        check!(num == 0 || list.1 <= view.0 + eps || list.0 >= view.1 - eps, "nothing is displayed although items are in sight: {what}");
    } else {
        if ixs[0] > 0 {
            check!(f.1 <= view.0 + eps || f.0 >= view.1 - eps, "items before the first displayed one are in sight: {what}");
            check!(f.1 > f.0, "nothing holds the place of the items before the first displayed one: {what}");
        }
        if *ixs.last().unwrap() + 1 < num {
            check!(bk.0 >= view.1 - eps || bk.1 <= view.0 + eps, "items after the last displayed one are in sight: {what}");
        }
    }
    // the point of the list: not everything is rendered
    let most = 40.0 + 10.0 * g.max_h / g.item;
    // (with more than 200 new items at once: known finding many-at-once)
    check!((ixs.len() as f64) < most || !bounded && 5.0 * g.max_h / g.item > 180.0, "{} items are displayed where {:.0} fill the view: {what}", ixs.len(), g.max_h / g.item);
    // exactly one live item per displayed index
    with(|w| {
        let mut live: Vec<(usize, bool)> = w.inst.iter().filter(|i| i.dropped == 0).map(|i| (i.ix, i.node.is_some())).collect();
        live.sort();
        let l: Vec<usize> = live.iter().map(|x| x.0).collect();
        check!(l == ixs, "live items {l:?}, displayed {ixs:?}");
        check!(w.inst.iter().all(|i| i.dropped <= 1), "an item was dropped twice");
        Ok(())
    })?;
    cov(|c| {
        c.hit("settled_checks");
        c.max("displayed", ixs.len() as u64);
        c.max("first_displayed", ixs.first().copied().unwrap_or(0) as u64);
    });
    sig.push((ixs.first().copied().unwrap_or(0), ixs.len()));
    tr!("-> {what}");
    Ok(())
}
