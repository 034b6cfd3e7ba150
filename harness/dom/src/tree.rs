//! Engine for D01, D02, D03 (and light coverage of slots and lists): random apps built
//! from elements, text, combinators, sequences, slots and lists run on the real framework
//! over the simulated page. Every composed future is wrapped in a `Probe` that records
//! when it was first polled and when it was dropped; the expected child list of every
//! element follows from the composition tree and those records.
use crate::driver::*;
use async_executor::Task;
use async_ui_web::components::DynamicSlot;
use async_ui_web::executor::get_executor;
use async_ui_web::html;
use async_ui_web::lists::DynamicList;
use async_ui_web::{join, mount, mount_at, race, race_ok, select, try_join, NoChild};
use async_ui_web::shortcut_traits::UiFutureExt;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use wasm_bindgen::native::{self, Obj};
use wasm_bindgen::{JsCast, JsValue};

pub type Out = Result<u32, u32>;
pub type BF = Pin<Box<dyn Future<Output = Out>>>;
pub type List = DynamicList<'static, u32, Probe>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum RK {
    App,
    Elem,
    Text,
    Group,
    Slot,
    List,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    New,
    Live,
    Gone,
}
struct Rec {
    parent: usize,
    kids: Vec<usize>,
    kind: RK,
    st: St,
    node: Option<Rc<Obj>>,
    label: &'static str,
    finished: bool,
}
struct GateRec {
    open: Cell<bool>,
    wakers: RefCell<Vec<Waker>>,
    polled: Cell<bool>,
    ok: bool,
}
struct SlotH {
    rec: usize,
    slot: Rc<DynamicSlot<Probe>>,
    latest: Option<usize>,
}
struct ListH {
    rec: usize,
    list: Rc<List>,
    model: Vec<(u32, usize)>,
    next: u32,
    frozen: bool,
    changed: bool,
}
struct App {
    rec: usize,
    task: Option<Task<Out>>,
    detached: bool,
    /// the handle was dropped
    unmounted: bool,
}
pub struct World {
    rng: Rng,
    recs: Vec<Rec>,
    gates: Vec<Rc<GateRec>>,
    slots: Vec<SlotH>,
    lists: Vec<ListH>,
    apps: Vec<App>,
    foreign: BTreeMap<u64, Vec<Rc<Obj>>>,
    bad: Vec<(&'static str, String)>,
    dirty: bool,
    budget: usize,
    hook_depth: usize,
    mid_checks: u64,
    renders: u64,
    drops: u64,
    ended_live: u64,
    /// every element made: the type, its node
    elems: Vec<(&'static str, Rc<Obj>, Rc<dyn std::any::Any>)>,
    focus: &'static str,
    use_lists: bool,
    use_slots: bool,
}
thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}
fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("HARNESS: no world")))
}
/// does nothing once the case is over
fn try_with(f: impl FnOnce(&mut World)) {
    let _ = WORLD.try_with(|w| {
        if let Ok(mut w) = w.try_borrow_mut() {
            if let Some(w) = w.as_mut() {
                f(w)
            }
        }
    });
}
impl World {
    fn bad(&mut self, class: &'static str, m: String) {
        if self.bad.len() < 8 {
            trace(format!("!! {class}: {m}"));
            self.bad.push((class, m));
        }
    }
    /// an element of a type that isn't rendered, nor about to be
    fn idle(&mut self, ty: &str) -> Option<Rc<dyn std::any::Any>> {
        let mut v: Vec<usize> = (0..self.elems.len()).filter(|i| self.elems[*i].0 == ty).collect();
        v.retain(|i| {
            let n = &self.elems[*i].1;
            // neither is anything mounted in it
            self.recs.iter().all(|r| r.node.as_ref().is_none_or(|x| x.id != n.id) || r.st == St::Gone && r.kind == RK::Elem)
        });
        if v.is_empty() {
            return None;
        }
        let i = self.rng.below(v.len());
        Some(self.elems[v[i]].2.clone())
    }
    fn name(&self, id: usize) -> String {
        format!("{}#{id}", self.recs[id].label)
    }
    fn rec(&mut self, parent: usize, kind: RK, label: &'static str) -> usize {
        let id = self.recs.len();
        self.recs.push(Rec {
            parent,
            kids: vec![],
            kind,
            st: St::New,
            node: None,
            label,
            finished: false,
        });
        if parent != usize::MAX {
            self.recs[parent].kids.push(id);
        }
        id
    }
    fn shape(&self, id: usize) -> String {
        let r = &self.recs[id];
        if r.kids.is_empty() {
            self.name(id)
        } else {
            format!("{}({})", self.name(id), r.kids.iter().map(|k| self.shape(*k)).collect::<Vec<_>>().join(" "))
        }
    }
}

// ------------------------------------------------------------------ probe, gate
pub struct Probe {
    id: usize,
    fut: BF,
}
impl Probe {
    fn new(id: usize, f: impl Future<Output = Out> + 'static) -> Self {
        Probe { id, fut: Box::pin(f) }
    }
}
impl Future for Probe {
    type Output = Out;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Out> {
        let id = self.id;
        with(|w| {
            let r = &mut w.recs[id];
            if r.st != St::Live {
                if r.st == St::New {
                    w.renders += 1;
                }
                let r = &mut w.recs[id];
                if r.st == St::Gone && r.kind != RK::List {
                    let m = format!("{} polled after it was dropped", w.name(id));
                    w.bad("D02", m);
                }
                w.recs[id].st = St::Live;
            }
        });
        let r = self.fut.as_mut().poll(cx);
        if r.is_ready() {
            with(|w| w.recs[id].finished = true);
        }
        r
    }
}
impl Drop for Probe {
    fn drop(&mut self) {
        let id = self.id;
        try_with(|w| {
            w.drops += 1;
            if w.recs[id].st == St::Live && !w.recs[id].finished {
                w.ended_live += 1;
            }
            w.recs[id].st = St::Gone;
        })
    }
}
struct Gate(Rc<GateRec>);
impl Future for Gate {
    type Output = Out;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Out> {
        self.0.polled.set(true);
        if self.0.open.get() {
            Poll::Ready(if self.0.ok { Ok(0) } else { Err(0) })
        } else {
            self.0.wakers.borrow_mut().push(cx.waker().clone());
            Poll::Pending
        }
    }
}
fn gate() -> Gate {
    Gate(with(|w| {
        let g = Rc::new(GateRec {
            open: Cell::new(w.rng.chance(1, 12)),
            wakers: Default::default(),
            polled: Cell::new(false),
            ok: w.rng.chance(2, 3),
        });
        w.gates.push(g.clone());
        g
    }))
}
fn open_gate(g: &GateRec) {
    g.open.set(true);
    let ws = std::mem::take(&mut *g.wakers.borrow_mut());
    for wk in ws {
        wk.wake();
    }
}

// ------------------------------------------------------------------ building programs
fn group(parent: usize, label: &'static str) -> usize {
    with(|w| w.rec(parent, RK::Group, label))
}
pub fn to_obj<T: AsRef<JsValue>>(x: &T) -> Rc<Obj> {
    x.as_ref().obj().unwrap().clone()
}
pub fn to_node(o: &Rc<Obj>) -> web_sys::Node {
    JsValue::from_obj(o.clone()).unchecked_into()
}
fn leaf(parent: usize) -> Probe {
    let k = with(|w| w.rng.below(6));
    match k {
        0..=2 => {
            let id = with(|w| w.rec(parent, RK::Text, "text"));
            let t = html::Text::new();
            t.set_data(&format!("t{id}"));
            with(|w| w.recs[id].node = Some(to_obj(&t.node)));
            let f = t.render();
            Probe::new(id, async move {
                f.await;
                Ok(1)
            })
        }
        3 => {
            let id = with(|w| w.rec(parent, RK::Elem, "input"));
            let t = html::Input::new();
            with(|w| w.recs[id].node = Some(to_obj(&t.element)));
            let f = t.render();
            Probe::new(id, async move {
                f.await;
                Ok(1)
            })
        }
        4 => {
            let id = with(|w| w.rec(parent, RK::Elem, "div"));
            let t = html::Div::new();
            with(|w| w.recs[id].node = Some(to_obj(&t.element)));
            let f = t.render(NoChild);
            Probe::new(id, async move {
                f.await;
                Ok(1)
            })
        }
        _ => {
            let id = group(parent, "gate");
            let g = gate();
            Probe::new(id, async move {
                let r = g.await;
                hook(id);
                r
            })
        }
    }
}
struct Keep<F, G>(F, G);
impl<F: Future, G: Fn(F::Output) -> Out> Future for Keep<F, G> {
    type Output = Out;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Out> {
        // SAFETY: structural pinning of field 0
        let this = unsafe { self.get_unchecked_mut() };
        unsafe { Pin::new_unchecked(&mut this.0) }.poll(cx).map(&this.1)
    }
}
fn elem(parent: usize, depth: usize) -> Probe {
    let (id, tag) = with(|w| (w.rec(parent, RK::Elem, "elem"), w.rng.below(4)));
    let child = build(id, depth);
    macro_rules! e {
        ($t:ident) => {{
            // an element may be rendered again once it isn't rendered any more
            let again = with(|w| if w.rng.chance(3, 4) { w.idle(stringify!($t)) } else { None });
            if again.is_some() {
                cov(|c| c.hit("elements_rendered_again"));
            }
            let (el, fresh) = match again {
                Some(e) => (e.downcast::<html::$t>().unwrap(), false),
                None => (Rc::new(html::$t::new()), true),
            };
            let o = to_obj(&el.element);
            with(|w| {
                w.recs[id].node = Some(o.clone());
                if fresh {
                    w.elems.push((stringify!($t), o.clone(), el.clone()));
                    if w.rng.chance(1, 8) {
                        add_foreign(w, &o);
                    }
                }
            });
            // retained as a struct: the element stays until the future is dropped
            Probe::new(id, Keep(el.render(child), |r| r))
        }};
    }
    match tag {
        0 => e!(Div),
        1 => e!(Span),
        2 => e!(Button),
        _ => e!(Li),
    }
}
fn add_foreign(w: &mut World, o: &Rc<Obj>) {
    for _ in 0..w.rng.range(1, 2) {
        let f = if w.rng.chance(1, 2) {
            native::new_char_data(native::NodeKind::Text, "foreign")
        } else {
            native::new_element_raw("hr")
        };
        native::insert_before(o, &f, None).unwrap();
        w.foreign.entry(o.id).or_default().push(f);
    }
}
/// after `done` finished and its future was dropped, its whole subtree must be dead
fn must_be_dead(id: usize) {
    with(|w| {
        let mut st = vec![id];
        while let Some(x) = st.pop() {
            if w.recs[x].st == St::Live {
                let m = format!("{} is still alive although its parent moved on", w.name(x));
                w.bad("D02", m);
            }
            if w.recs[x].kind != RK::List {
                st.extend(w.recs[x].kids.iter().copied());
            }
        }
    })
}
/// runs inside the app's own code, after something happened
fn hook(_at: usize) {
    let acts = with(|w| {
        if w.hook_depth > 0 {
            return 0;
        }
        w.hook_depth += 1;
        if w.rng.chance(2, 3) {
            w.mid_checks += 1;
            w.check(false);
        }
        if w.rng.chance(1, 3) {
            w.rng.range(1, 2)
        } else {
            0
        }
    });
    for _ in 0..acts {
        random_op(true);
    }
    with(|w| w.hook_depth = w.hook_depth.saturating_sub(1));
}
fn combine(kind: usize, id: usize, depth: usize, n: usize, cont: usize) -> Probe {
    let mut v: Vec<Probe> = (0..n).map(|_| build(id, depth)).collect();
    fn sum(v: Vec<Out>) -> Out {
        v.into_iter().next().unwrap_or(Ok(7))
    }
    macro_rules! tup {
        ($($x:ident)*) => {{ let mut it = v.into_iter(); $(let $x = it.next().unwrap();)* ($($x,)*) }};
    }
    macro_rules! arr {
        ($n:literal) => {{
            let a: [Probe; $n] = v.try_into().ok().unwrap();
            a
        }};
    }
    macro_rules! go {
        ($c:expr, $jm:expr) => {
            match kind {
                0 => Probe::new(id, Keep(join($c), $jm)),
                1 => Probe::new(id, Keep(race($c), |r| r)),
                2 => Probe::new(id, Keep(try_join($c), |r: Result<_, u32>| if let Err(e) = r { Err(e) } else { Ok(0) })),
                _ => Probe::new(id, Keep(race_ok($c), |r: Result<u32, _>| if let Ok(e) = r { Ok(e) } else { Err(0) })),
            }
        };
    }
    match (cont, n) {
        (0, 1) => go!(tup!(a), |(a,)| a),
        (0, 2) => go!(tup!(a b), |(a, _)| a),
        (0, 3) => go!(tup!(a b c), |(a, _, _)| a),
        (0, 4) => go!(tup!(a b c d), |(a, _, _, _)| a),
        (0, 5) => go!(tup!(a b c d e), |(a, _, _, _, _)| a),
        (0, 6) => go!(tup!(a b c d e f), |(a, _, _, _, _, _)| a),
        (0, 9) => go!(tup!(a b c d e f g h i), |(a, _, _, _, _, _, _, _, _)| a),
        (0, 11) => go!(tup!(a b c d e f g h i j k), |(a, _, _, _, _, _, _, _, _, _, _)| a),
        (1, 2) => go!(arr!(2), |v: [Out; 2]| sum(v.into())),
        (1, 3) => go!(arr!(3), |v: [Out; 3]| sum(v.into())),
        (1, 5) => go!(arr!(5), |v: [Out; 5]| sum(v.into())),
        _ => {
            v.shrink_to_fit();
            go!(v, sum)
        }
    }
}
pub fn build(parent: usize, depth: usize) -> Probe {
    let (kind, stop) = with(|w| {
        let stop = depth == 0 || w.budget == 0;
        w.budget = w.budget.saturating_sub(1);
        (w.rng.below(32), stop)
    });
    if stop {
        return leaf(parent);
    }
    let d = depth - 1;
    match kind {
        0..=2 => leaf(parent),
        3..=7 => elem(parent, d),
        8..=12 => {
            let (n, c, wide) = with(|w| (w.rng.range(1, 6), w.rng.below(3), w.rng.below(300)));
            match wide {
                0 => {
                    // positions beyond what fits a byte
                    let n = with(|w| w.rng.range(257, 300));
                    cov(|c| c.hit("joins_of_over_256"));
                    combine(0, group(parent, "join"), 0, n, 2)
                }
                1..=8 => combine(0, group(parent, "join"), d, [9, 11][wide % 2], 0),
                _ => combine(0, group(parent, "join"), d, n, c),
            }
        }
        13..=14 => {
            let (n, c) = with(|w| (w.rng.range(1, 5), w.rng.below(3)));
            combine(1, group(parent, "race"), d, n, c)
        }
        15 => combine(2, group(parent, "try_join"), d, with(|w| w.rng.range(1, 4)), with(|w| w.rng.below(3))),
        16 => combine(3, group(parent, "race_ok"), d, with(|w| w.rng.range(1, 4)), with(|w| w.rng.below(3))),
        17..=19 => {
            // a sequence of awaits, then whatever comes last stays
            let id = group(parent, "seq");
            let n = with(|w| w.rng.range(1, 4));
            Probe::new(id, async move {
                let mut last = Ok(3);
                for _ in 0..n {
                    let p = cuttable(id, d);
                    let pid = p.id;
                    last = p.await;
                    must_be_dead(pid);
                    hook(id);
                }
                last
            })
        }
        20..=22 => {
            let p = cuttable(parent, d);
            p
        }
        23 => {
            let id = group(parent, "delay");
            let g = gate();
            Probe::new(id, async move {
                let _ = g.await;
                hook(id);
                let p = build(id, d);
                p.await
            })
        }
        24 => {
            let id = group(parent, "meanwhile");
            // meanwhile is race((self, effect.pend_after())): the main future comes first
            let a = build(id, d);
            let b = build(id, d);
            Probe::new(id, Keep(a.meanwhile(b), |r| r))
        }
        25 => {
            let id = group(parent, "pend_after");
            let a = build(id, d);
            Probe::new(id, Keep(a.pend_after::<Out>(), |r| r))
        }
        26 => {
            let id = group(parent, "select");
            let (a, b, c) = (build(id, d), build(id, d), build(id, d));
            Probe::new(id, async move {
                let ids = [a.id, b.id, c.id];
                let r = select! {
                    x = a => { ids.iter().for_each(|i| must_be_dead(*i)); hook(id); x },
                    y = b => { ids.iter().for_each(|i| must_be_dead(*i)); hook(id); y },
                    z = c => { ids.iter().for_each(|i| must_be_dead(*i)); hook(id); z }
                };
                if with(|w| w.rng.chance(1, 2)) {
                    let p = build(id, d);
                    p.await
                } else {
                    r
                }
            })
        }
        27..=29 if with(|w| w.use_slots) => {
            let id = with(|w| w.rec(parent, RK::Slot, "slot"));
            let slot = Rc::new(DynamicSlot::new());
            let six = with(|w| {
                w.slots.push(SlotH { rec: id, slot: slot.clone(), latest: None });
                w.slots.len() - 1
            });
            if with(|w| w.rng.chance(1, 2)) {
                slot_set(six, d);
            }
            Probe::new(id, async move {
                slot.render().await;
                Ok(5)
            })
        }
        30..=31 if with(|w| w.use_lists) => {
            let id = with(|w| w.rec(parent, RK::List, "list"));
            let list: Rc<List> = Rc::new(DynamicList::new());
            let lix = with(|w| {
                w.lists.push(ListH { rec: id, list: list.clone(), model: vec![], next: 0, frozen: false, changed: false });
                w.lists.len() - 1
            });
            for _ in 0..with(|w| w.rng.below(4)) {
                list_op(lix, 0);
            }
            Probe::new(id, async move {
                list.render().await;
                Ok(6)
            })
        }
        _ => leaf(parent),
    }
}
/// content that a gate can cut off
fn cuttable(parent: usize, d: usize) -> Probe {
    let id = group(parent, "cut");
    let a = build(id, d);
    let gid = group(id, "gate");
    let g = gate();
    let b = Probe::new(gid, async move {
        let r = g.await;
        hook(gid);
        r
    });
    if with(|w| w.rng.chance(1, 3)) {
        // gate first
        with(|w| w.recs[id].kids.reverse());
        Probe::new(id, Keep(race((b, a)), |r| r))
    } else {
        Probe::new(id, Keep(race((a, b)), |r| r))
    }
}

// ------------------------------------------------------------------ operations
fn slot_set(six: usize, d: usize) {
    let (rec, slot) = with(|w| (w.slots[six].rec, w.slots[six].slot.clone()));
    let p = build(rec, d);
    with(|w| w.slots[six].latest = Some(p.id));
    slot.set_future(p);
}
fn list_op(lix: usize, force: usize) {
    let (rec, list) = with(|w| {
        w.dirty = true;
        let rec = w.lists[lix].rec;
        w.lists[lix].changed = true;
        if w.recs[rec].st != St::New && !w.active(rec) {
            w.lists[lix].frozen = true;
        }
        (w.lists[lix].rec, w.lists[lix].list.clone())
    });
    let (what, len) = with(|w| (if force == 0 { 0 } else { w.rng.below(8) }, w.lists[lix].model.len()));
    let sync = |w: &mut World| {
        let kids = w.lists[lix].model.iter().map(|m| m.1).collect();
        w.recs[rec].kids = kids;
    };
    match what {
        0..=3 => {
            let p = {
                let d = with(|w| w.rng.below(3));
                build(rec, d)
            };
            let (key, before) = with(|w| {
                let l = &mut w.lists[lix];
                let key = l.next;
                l.next += 1;
                let at = if w.rng.chance(1, 2) { len } else { w.rng.below(len + 1) };
                let l = &mut w.lists[lix];
                let before = l.model.get(at).map(|m| m.0);
                l.model.insert(at, (key, p.id));
                (key, before)
            });
            with(sync);
            list.insert(key, p, before.as_ref());
        }
        4..=5 if len > 0 => {
            let k = with(|w| {
                let i = w.rng.below(len);
                w.lists[lix].model.remove(i).0
            });
            with(sync);
            list.remove(&k);
        }
        6 if len > 1 => {
            let (k, b) = with(|w| {
                let i = w.rng.below(len);
                let it = w.lists[lix].model.remove(i);
                let j = w.rng.below(len);
                let b = w.lists[lix].model.get(j).map(|m| m.0);
                w.lists[lix].model.insert(j, it);
                (it.0, b)
            });
            with(sync);
            list.move_before(&k, b.as_ref());
        }
        7 if len > 1 => {
            let (a, b) = with(|w| {
                let i = w.rng.below(len);
                let j = w.rng.below(len);
                let l = &mut w.lists[lix];
                let r = (l.model[i].0, l.model[j].0);
                l.model.swap(i, j);
                r
            });
            with(sync);
            list.swap(&a, &b);
        }
        _ => {}
    }
}
fn random_op(inside: bool) {
    let k = with(|w| w.rng.below(12));
    match k {
        0..=6 => {
            let g = with(|w| {
                let c: Vec<_> = w.gates.iter().filter(|g| !g.open.get() && g.polled.get()).cloned().collect();
                if c.is_empty() {
                    None
                } else {
                    Some(w.rng.pick(&c).clone())
                }
            });
            if let Some(g) = g {
                tr!("{}open a gate", if inside { "  (inside) " } else { "- " });
                open_gate(&g);
            }
        }
        7..=8 => {
            let six = with(|w| if w.slots.is_empty() { None } else { Some(w.rng.below(w.slots.len())) });
            if let Some(six) = six {
                if with(|w| w.rng.chance(2, 3) && w.budget > 0) {
                    let d = with(|w| w.rng.below(3));
                    slot_set(six, d);
                    tr!("{}set {}", if inside { "  (inside) " } else { "- " }, with(|w| w.name(w.slots[six].rec)));
                } else {
                    tr!("{}clear {}", if inside { "  (inside) " } else { "- " }, with(|w| w.name(w.slots[six].rec)));
                    let s = with(|w| {
                        w.slots[six].latest = None;
                        w.slots[six].slot.clone()
                    });
                    s.clear_future();
                }
            }
        }
        9..=10 => {
            let lix = with(|w| if w.lists.is_empty() || w.budget == 0 { None } else { Some(w.rng.below(w.lists.len())) });
            if let Some(l) = lix {
                tr!("{}list op on {}", if inside { "  (inside) " } else { "- " }, with(|w| w.name(w.lists[l].rec)));
                list_op(l, 1);
            }
        }
        _ => {
            if with(|w| w.focus == "D03" || w.rng.chance(1, 6)) {
                unmount_one(inside);
            }
        }
    }
}
fn unmount_one(inside: bool) {
    let t = with(|w| {
        let c: Vec<usize> = (0..w.apps.len()).filter(|i| w.apps[*i].task.is_some()).collect();
        if c.is_empty() {
            return None;
        }
        let i = *w.rng.pick(&c);
        w.apps[i].unmounted = true;
        w.dirty = true;
        w.apps[i].task.take().map(|t| (i, t))
    });
    if let Some((i, t)) = t {
        tr!("{}unmount app {i}", if inside { "  (inside) " } else { "- " });
        drop(t);
    }
}
fn mount_one(depth: usize) {
    // where: the body, a plain element of the page, or an element rendered by another app
    let (kind, pick) = with(|w| (w.rng.below(8), w.rng.u64()));
    let body = native::body();
    let node = match kind {
        0..=3 => body.clone(),
        4..=6 => {
            let id = with(|w| w.rng.below(3));
            page_div(id)
        }
        _ => with(|w| {
            let c: Vec<Rc<Obj>> = w
                .recs
                .iter()
                .filter(|r| r.kind == RK::Elem && r.st == St::Live && r.label == "elem")
                .filter_map(|r| r.node.clone())
                .collect();
            if c.is_empty() {
                body.clone()
            } else {
                c[(pick % c.len() as u64) as usize].clone()
            }
        }),
    };
    let rec = with(|w| {
        let r = w.rec(usize::MAX, RK::App, "app");
        w.recs[r].node = Some(node.clone());
        w.recs[r].st = St::Live;
        r
    });
    let p = build(rec, depth);
    tr!("- mount {}", with(|w| w.shape(rec)));
    let short = kind <= 1 && with(|w| w.rng.chance(1, 2));
    if short {
        mount(p);
        with(|w| w.apps.push(App { rec, task: None, detached: true, unmounted: false }));
    } else {
        let t = mount_at(p, to_node(&node));
        with(|w| w.apps.push(App { rec, task: Some(t), detached: false, unmounted: false }));
    }
}
fn page_div(i: usize) -> Rc<Obj> {
    let body = native::body();
    let mut n = 0;
    for c in native::children_of(&body) {
        if c.node().unwrap().attrs.borrow().get("id").is_some_and(|x| *x == format!("page{i}")) {
            return c;
        }
        n += 1;
    }
    let _ = n;
    panic!("HARNESS: no page div")
}

// ------------------------------------------------------------------ oracle
impl World {
    /// will this future be polled again when woken?
    fn active(&self, id: usize) -> bool {
        let mut i = id;
        while i != usize::MAX {
            let r = &self.recs[i];
            if r.finished || r.st == St::Gone {
                return false;
            }
            i = r.parent;
        }
        true
    }
    /// a list that was changed while nothing polls it any more
    fn frozen_list_under(&self, id: usize) -> bool {
        self.recs[id].kids.iter().any(|&k| {
            let r = &self.recs[k];
            r.kind != RK::Elem && (self.lists.iter().any(|l| l.rec == k && l.frozen) || self.frozen_list_under(k))
        })
    }
    fn collect(&self, id: usize, out: &mut Vec<Rc<Obj>>, lists: &mut bool) {
        for &k in &self.recs[id].kids {
            let r = &self.recs[k];
            if r.st != St::Live {
                continue;
            }
            match r.kind {
                RK::Elem | RK::Text => out.push(r.node.clone().unwrap()),
                RK::List => {
                    *lists = true;
                    self.collect(k, out, lists)
                }
                _ => self.collect(k, out, lists),
            }
        }
    }
    fn show(&self, v: &[Rc<Obj>]) -> String {
        v.iter()
            .map(|o| match self.recs.iter().position(|r| r.kind != RK::App && r.node.as_ref().is_some_and(|n| n.id == o.id)) {
                Some(i) => self.name(i),
                None => native::dump(o),
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
    /// compare every container with the composition tree
    pub fn check(&mut self, settled: bool) {
        for l in 0..self.lists.len() {
            let rec = self.lists[l].rec;
            if self.lists[l].changed && self.recs[rec].st != St::New && !self.active(rec) {
                self.lists[l].frozen = true;
            }
            if settled {
                self.lists[l].changed = false;
            }
        }
        let mut conts: BTreeMap<u64, (Rc<Obj>, Vec<usize>)> = BTreeMap::new();
        for (i, r) in self.recs.iter().enumerate() {
            let contributes = match r.kind {
                RK::Elem => r.st == St::Live,
                RK::App => true,
                _ => false,
            };
            if contributes {
                let n = r.node.clone().unwrap();
                conts.entry(n.id).or_insert_with(|| (n, vec![])).1.push(i);
            }
        }
        let mut msgs = vec![];
        for (nid, (node, contributors)) in &conts {
            let mut any_list = false;
            let mut union: Vec<Rc<Obj>> = vec![];
            let mut per: Vec<(usize, Vec<Rc<Obj>>)> = vec![];
            for &c in contributors {
                let mut v = vec![];
                self.collect(c, &mut v, &mut any_list);
                union.extend(v.iter().cloned());
                per.push((c, v));
            }
            if any_list && (self.dirty && !settled || contributors.iter().any(|c| self.frozen_list_under(*c))) {
                continue;
            }
            let actual = native::children_of(node);
            let foreign = self.foreign.get(nid).cloned().unwrap_or_default();
            let is_foreign = |o: &Rc<Obj>| foreign.iter().any(|f| f.id == o.id);
            let fpos: Vec<u64> = actual.iter().filter(|o| is_foreign(o)).map(|o| o.id).collect();
            if fpos != foreign.iter().map(|f| f.id).collect::<Vec<_>>() {
                msgs.push(("D02", format!("nodes the framework did not create were removed or reordered: {}", self.show(&actual))));
            }
            let own: Vec<Rc<Obj>> = actual
                .iter()
                .filter(|o| !is_foreign(o))
                .filter(|o| {
                    let n = o.node().unwrap();
                    !(any_list && n.kind == native::NodeKind::Comment && n.data.borrow().is_empty())
                })
                .cloned()
                .collect();
            if let (Some(last_f), Some(first_o)) =
                (actual.iter().rposition(|o| is_foreign(o)), actual.iter().position(|o| own.iter().any(|x| x.id == o.id)))
            {
                if first_o < last_f {
                    msgs.push(("D03", format!("content rendered before what the node already contained: {}", self.show(&actual))));
                }
            }
            let extra: Vec<Rc<Obj>> = own.iter().filter(|o| !union.iter().any(|u| u.id == o.id)).cloned().collect();
            let missing: Vec<Rc<Obj>> = union.iter().filter(|o| !own.iter().any(|u| u.id == o.id)).cloned().collect();
            let who = contributors.iter().map(|c| self.name(*c)).collect::<Vec<_>>().join("+");
            if !extra.is_empty() {
                msgs.push(("D02", format!("{who} contains nodes of futures that are gone: {} (all: {})", self.show(&extra), self.show(&actual))));
            }
            if !missing.is_empty() {
                msgs.push(("D01", format!("{who} lacks nodes of live futures: {} (has: {})", self.show(&missing), self.show(&actual))));
                msgs.push(("D02", format!("{who} lost nodes of live futures: {} (has: {})", self.show(&missing), self.show(&actual))));
            }
            if extra.is_empty() && missing.is_empty() {
                if own.len() != union.len() {
                    msgs.push(("D01", format!("{who} has duplicate children: {}", self.show(&actual))));
                }
                for (c, want) in &per {
                    let got: Vec<Rc<Obj>> = own.iter().filter(|o| want.iter().any(|x| x.id == o.id)).cloned().collect();
                    if got.iter().map(|o| o.id).ne(want.iter().map(|o| o.id)) {
                        msgs.push((
                            "D01",
                            format!("wrong order in {who}: expected [{}] found [{}] (part of {})", self.show(want), self.show(&actual), self.name(*c)),
                        ));
                    }
                }
            }
        }
        for (c, m) in msgs {
            let m = format!("{m}{}", if settled { "" } else { " (inside the app)" });
            // a set mismatch breaks both the order property and the removal property
            if c == "D02" {
                self.bad("D01", m.clone());
            }
            self.bad(c, m);
        }
        if settled {
            for i in 0..self.recs.len() {
                let r = &self.recs[i];
                if r.st == St::Gone && r.kind != RK::List {
                    for k in r.kids.clone() {
                        if self.recs[k].st == St::Live {
                            let m = format!("{} is alive although {} was dropped", self.name(k), self.name(i));
                            self.bad("D02", m);
                        }
                    }
                }
            }
            for s in 0..self.slots.len() {
                let (rec, latest) = (self.slots[s].rec, self.slots[s].latest);
                if !self.active(rec) || self.recs[rec].st != St::Live {
                    continue;
                }
                for k in self.recs[rec].kids.clone() {
                    let st = self.recs[k].st;
                    let want = if Some(k) == latest { St::Live } else { St::Gone };
                    if st != want {
                        let m = format!("{}: content {} is {st:?}, expected {want:?}", self.name(rec), self.name(k));
                        self.bad("D01", m.clone());
                        self.bad("S01", m);
                    }
                }
            }
            for l in 0..self.lists.len() {
                let rec = self.lists[l].rec;
                if !self.active(rec) || self.recs[rec].st != St::Live {
                    continue;
                }
                for (_, k) in self.lists[l].model.clone() {
                    let st = self.recs[k].st;
                    if st != St::Live && !self.recs[k].finished {
                        let m = format!("{}: item {} is {st:?} although it is in the list", self.name(rec), self.name(k));
                        self.bad("D01", m.clone());
                        self.bad("L01", m);
                    }
                }
            }
        }
    }
}
fn settle() -> Result<(), String> {
    let n = native::run_timers(3000);
    check!(n < 3000, "HARNESS: the page does not settle");
    with(|w| {
        for i in 0..w.apps.len() {
            let a = &w.apps[i];
            let rec = a.rec;
            let root = w.recs[rec].kids[0];
            if a.unmounted && w.recs[root].st != St::Gone {
                let m = format!("app {i} was unmounted but its root future is {:?}", w.recs[root].st);
                w.bad("D03", m);
            }
            if !w.apps[i].unmounted && w.recs[root].st == St::New {
                let m = format!("app {i} is mounted but was never polled");
                w.bad("D03", m);
            }
            if !w.apps[i].unmounted && w.recs[root].st == St::Gone && !w.recs[root].finished {
                let m = format!("app {i} was dropped although it is still mounted");
                w.bad("D03", m);
            }
            if w.recs[root].finished && w.recs[root].st == St::Live {
                let m = format!("app {i} finished but was not dropped");
                w.bad("D03", m);
            }
        }
        w.check(true);
        w.dirty = false;
        w.hook_depth = 0;
        let ex = native::stats(|s| s.exceptions);
        if ex > 0 {
            w.bad("D02", format!("{ex} DOM operation(s) failed"));
        }
        cov(|c| {
            c.hit("settled_states_checked");
            c.sig(native::dump(&native::body()));
        });
    });
    Ok(())
}

pub fn case(cx: &mut Cx, focus: &'static str) -> CaseResult {
    let size = cx.size;
    let budget = cx.rng.range(3, 8 + size * 70 / 100);
    let use_lists = cx.rng.chance(2, 3);
    let use_slots = cx.rng.chance(4, 5);
    WORLD.with(|w| {
        *w.borrow_mut() = Some(World {
            rng: cx.rng.fork(),
            recs: vec![],
            gates: vec![],
            slots: vec![],
            lists: vec![],
            apps: vec![],
            foreign: BTreeMap::new(),
            bad: vec![],
            dirty: false,
            budget,
            hook_depth: 0,
            elems: vec![],
            mid_checks: 0,
            renders: 0,
            drops: 0,
            ended_live: 0,
            focus,
            use_lists,
            use_slots,
        })
    });
    let body = native::body();
    for i in 0..3 {
        let d = native::new_element_raw("section");
        d.node().unwrap().attrs.borrow_mut().insert("id".into(), format!("page{i}"));
        native::insert_before(&body, &d, None).unwrap();
        with(|w| {
            w.foreign.entry(body.id).or_default().push(d.clone());
            if w.rng.chance(1, 2) {
                add_foreign(w, &d);
            }
        });
    }
    let before = native::dump(&body);
    let depth = cx.rng.range(1, 2 + size / 25);
    let n_apps = if focus == "D03" { cx.rng.range(1, 4) } else { 1 + cx.rng.below(4) / 3 };
    let ops = cx.rng.range(1, 6 + size / 2);
    mount_one(depth);
    let mut mounted = 1;
    let mut last_settled = false;
    for i in 0..ops {
        if mounted < n_apps && cx.rng.chance(1, 4) {
            mount_one(depth);
            mounted += 1;
        }
        if i == 0 || cx.rng.chance(3, 5) {
            tr!("- settle");
            settle()?;
            tr!("  page: {}", native::dump(&body));
            last_settled = true;
        } else {
            // several changes before the page gets to run
            last_settled = false;
        }
        if !with(|w| w.bad.is_empty()) {
            break;
        }
        random_op(false);
        if focus != "D01" && cx.rng.chance(1, 10) {
            unmount_one(false);
        }
    }
    let _ = last_settled;
    if with(|w| w.bad.is_empty()) {
        settle()?;
        tr!("- unmount everything");
        loop {
            let more = with(|w| w.apps.iter().any(|a| a.task.is_some()));
            if !more {
                break;
            }
            unmount_one(false);
            if cx.rng.chance(1, 2) {
                settle()?;
            }
        }
        settle()?;
        if with(|w| w.apps.iter().all(|a| !a.detached || w.recs[w.recs[a.rec].kids[0]].st == St::Gone)) {
            let after = native::dump(&body);
            if after != before {
                with(|w| {
                    let m = format!("after unmounting everything the page is {after}, before mounting it was {before}");
                    w.bad("D03", m.clone());
                    w.bad("D02", m);
                });
            }
            cov(|c| c.hit("fully_unmounted"));
        }
    }
    let exe = get_executor();
    let _ = exe;
    // release the handles that the case kept; queued futures die here, outside any context
    let (slots, lists) = with(|w| (std::mem::take(&mut w.slots), std::mem::take(&mut w.lists)));
    drop(slots);
    drop(lists);
    let w = WORLD.with(|w| {
        let mut w = w.borrow_mut();
        let w = w.as_mut().unwrap();
        cov(|c| {
            c.add("futures", w.recs.len() as u64);
            c.add("renders", w.renders);
            c.add("drops_while_rendered", w.ended_live);
            c.add("checks_inside_app", w.mid_checks);
            c.add("dom_inserts", native::stats(|s| s.inserts));
            c.add("dom_removals", native::stats(|s| s.removes));
            c.add("apps", w.apps.len() as u64);
            for r in &w.recs {
                c.hit(&format!("kind:{}", r.label));
            }
        });
        std::mem::take(&mut w.bad)
    });
    // detached apps stay on the leaked executor; keep what they use
    WORLD.with(|w| std::mem::forget(w.borrow_mut().take()));
    for (k, m) in &w {
        if *k == focus {
            return Err(m.clone());
        }
    }
    Ok(())
}
pub fn d01(cx: &mut Cx) -> CaseResult {
    case(cx, "D01")
}
pub fn d02(cx: &mut Cx) -> CaseResult {
    case(cx, "D02")
}
pub fn d03(cx: &mut Cx) -> CaseResult {
    case(cx, "D03")
}
