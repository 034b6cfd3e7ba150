//! S01, L01-L04: slots and lists under random operation histories, from outside, from inside
//! items, and while not rendered; every displayed node is accounted for by identity.
use crate::driver::*;
use async_executor::Task;
use async_ui_web::components::DynamicSlot;
use async_ui_web::html;
use async_ui_web::lists::{DiffedList, DynamicList, ListModel, ModeledList};
use async_ui_web::{join, mount_at, race, NoChild};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use wasm_bindgen::native::{self, Obj};
use wasm_bindgen::{JsCast, JsValue};

#[derive(Default)]
struct Inst {
    key: u32,
    nodes: Vec<Rc<Obj>>,
    want: usize,
    wakers: Vec<Waker>,
    bumped: bool,
    quit: bool,
    done: bool,
    dropped: u32,
    polls: u64,
    /// do something to the list while being dropped
    drop_op: bool,
    side: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    Slot,
    Dynamic,
    Modeled,
    Diffed,
}
type Ren = Box<dyn Fn(&u32) -> Item>;
#[derive(Clone)]
enum Subject {
    S(Rc<DynamicSlot<Item>>),
    D(Rc<DynamicList<'static, u32, Item>>),
    M(Rc<ModeledList<'static, u32, Item, Ren>>),
    F(Rc<DiffedList<'static, u32, Ren, Item>>),
}
struct W {
    rng: Rng,
    inst: Vec<Inst>,
    order: Vec<(u32, usize)>,
    subject: Option<Subject>,
    models: Vec<Option<(ListModel<u32>, Vec<u32>)>>,
    /// which model was shown last
    last_model: usize,
    /// per model: keys removed (and maybe put back) since that model was last passed
    touched: Vec<BTreeSet<u32>>,
    shown: bool,
    shown_waker: Option<Waker>,
    next_key: u32,
    bad: Vec<String>,
    budget: usize,
    rendered: Vec<(u32, usize)>,
    inside: u64,
    size: usize,
    dying: bool,
}
thread_local! {
    static W_: RefCell<Option<W>> = const { RefCell::new(None) };
}
fn with<R>(f: impl FnOnce(&mut W) -> R) -> R {
    W_.with(|w| f(w.borrow_mut().as_mut().expect("HARNESS: no world")))
}
fn bad(m: String) {
    tr!("!! {m}");
    with(|w| w.bad.push(m))
}
struct Item {
    id: usize,
    inner: Option<Pin<Box<dyn Future<Output = ()>>>>,
}
impl Future for Item {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let id = self.id;
        let err = with(|w| {
            let keep = w.rng.chance(1, 4);
            let i = &mut w.inst[id];
            i.polls += 1;
            if !keep {
                i.wakers.clear()
            }
            i.wakers.push(cx.waker().clone());
            if i.done {
                Some(format!("item {id} is polled after it completed"))
            } else if i.dropped > 0 {
                Some(format!("item {id} is polled after it was dropped"))
            } else {
                None
            }
        });
        if let Some(e) = err {
            bad(e);
            return Poll::Pending;
        }
        let r = self.inner.as_mut().unwrap().as_mut().poll(cx);
        if r.is_ready() {
            with(|w| {
                w.inst[id].done = true;
                w.inst[id].nodes.clear()
            });
        }
        r
    }
}
impl Drop for Item {
    fn drop(&mut self) {
        self.inner = None;
        let id = self.id;
        let op = W_
            .try_with(|w| {
                let mut w = w.try_borrow_mut().expect("HARNESS: world borrowed in a drop");
                let Some(w) = w.as_mut() else { return false };
                tr!("drop item {id}");
                let i = &mut w.inst[id];
                i.dropped += 1;
                i.nodes.clear();
                if i.dropped > 1 {
                    w.bad.push(format!("item {id} is dropped twice"));
                    return false;
                }
                i.drop_op && !w.dying && w.budget > 0
            })
            .unwrap_or(false);
        if op {
            cov(|c| c.hit("ops_in_drop"));
            op_inside(id);
        }
    }
}
/// resolves when the item is bumped
struct Bump(usize);
impl Future for Bump {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        with(|w| {
            let i = &mut w.inst[self.0];
            if std::mem::take(&mut i.bumped) {
                return Poll::Ready(());
            }
            i.wakers.push(cx.waker().clone());
            Poll::Pending
        })
    }
}
fn new_item(key: u32, side: bool) -> Item {
    let id = with(|w| {
        let want = [0, 1, 1, 1, 2, 3][w.rng.below(6)];
        let drop_op = !side && w.rng.chance(1, 8);
        w.inst.push(Inst { key, want, side, drop_op, ..Inst::default() });
        w.inst.len() - 1
    });
    Item { id, inner: Some(Box::pin(item_body(id))) }
}
async fn item_body(id: usize) {
    loop {
        let n = with(|w| w.inst[id].want);
        let divs: Vec<html::Div> = (0..n).map(|_| html::Div::new()).collect();
        let objs: Vec<Rc<Obj>> = divs.iter().map(|d| {
            let e: &web_sys::Element = d.as_ref();
            let v: &JsValue = e.as_ref();
            v.obj().unwrap().clone()
        }).collect();
        with(|w| w.inst[id].nodes = objs);
        let bodies: Vec<_> = divs.iter().map(|d| d.render(NoChild)).collect();
        race((
            async {
                join(bodies).await;
                std::future::pending::<()>().await
            },
            Bump(id),
        ))
        .await;
        with(|w| w.inst[id].nodes.clear());
        let (quit, op) = with(|w| {
            let op = w.rng.chance(1, 4) && w.budget > 0 && !w.inst[id].side;
            (w.inst[id].quit, op)
        });
        if op {
            op_inside(id);
        }
        if quit {
            return;
        }
        with(|w| w.inst[id].want = w.rng.below(4));
    }
}
fn op_inside(id: usize) {
    with(|w| {
        w.budget -= 1;
        w.inside += 1;
    });
    tr!("from item {id}:");
    cov(|c| c.hit("ops_from_inside"));
    op();
}
fn bump() {
    let ws = with(|w| {
        let live: Vec<usize> = (0..w.inst.len()).filter(|i| !w.inst[*i].done && w.inst[*i].dropped == 0).collect();
        if live.is_empty() {
            return vec![];
        }
        let i = live[w.rng.below(live.len())];
        let quit = !w.inst[i].side && w.rng.chance(1, 6);
        let it = &mut w.inst[i];
        it.bumped = true;
        it.quit |= quit;
        tr!("bump item {i}{}", if it.quit { " to its end" } else { "" });
        std::mem::take(&mut it.wakers)
    });
    for w in ws {
        w.wake();
    }
}
fn op() {
    let s = with(|w| w.subject.clone());
    match s {
        Some(Subject::S(s)) => slot_op(&s),
        Some(Subject::D(l)) => dyn_op(&l),
        Some(Subject::M(l)) => model_op(&l),
        Some(Subject::F(l)) => diff_op(&l),
        None => {}
    }
}
fn slot_op(s: &DynamicSlot<Item>) {
    for _ in 0..with(|w| w.rng.range(1, 2)) {
        if with(|w| w.rng.chance(3, 4)) {
            let it = new_item(0, false);
            let id = it.id;
            tr!("set item {id}");
            with(|w| w.order = vec![(0, id)]);
            s.set_future(it);
        } else {
            tr!("clear");
            with(|w| w.order.clear());
            s.clear_future();
        }
    }
}
fn dyn_op(l: &DynamicList<'static, u32, Item>) {
    let (what, n, a, b, absent) = with(|w| {
        let n = w.order.len();
        (w.rng.below(12), n, w.rng.below(n.max(1)), w.rng.below(n.max(1)), w.rng.chance(1, 8))
    });
    let key_at = |i: usize| with(|w| w.order[i].0);
    match what {
        0..=4 => {
            let replace = n > 0 && with(|w| w.rng.chance(1, 5));
            let key = if replace {
                key_at(a)
            } else {
                with(|w| {
                    w.next_key += 1;
                    w.next_key
                })
            };
            if !replace && n > with(|w| w.size) {
                return;
            }
            let before = if absent {
                Some(9999)
            } else if n == 0 || with(|w| w.rng.chance(1, 3)) {
                None
            } else {
                Some(key_at(b))
            };
            let it = new_item(key, false);
            let id = it.id;
            tr!("insert {key} (item {id}) before {before:?}{}", if replace { ", replacing" } else { "" });
            with(|w| {
                let pos = before.and_then(|k| w.order.iter().position(|x| x.0 == k)).unwrap_or(w.order.len());
                let old = w.order.iter().position(|x| x.0 == key);
                w.order.insert(pos, (key, id));
                if let Some(o) = old {
                    w.order.remove(if o >= pos { o + 1 } else { o });
                }
            });
            let r = l.insert(key, it, before.as_ref());
            if r != replace {
                bad(format!("insert({key}) returned {r}"));
            }
        }
        5 | 6 => {
            if n == 0 || absent {
                tr!("remove an absent key");
                if l.remove(&9998) {
                    bad("remove of an absent key returned true".into());
                }
                return;
            }
            let k = key_at(a);
            tr!("remove {k}");
            with(|w| w.order.remove(a));
            if !l.remove(&k) {
                bad(format!("remove({k}) returned false"));
            }
        }
        7 | 8 if n > 0 => {
            let k = key_at(a);
            let before = if absent { Some(9999) } else if with(|w| w.rng.chance(1, 4)) { None } else { Some(key_at(b)) };
            tr!("move {k} before {before:?}");
            with(|w| {
                if before != Some(k) {
                    let it = w.order.remove(a);
                    let pos = before.and_then(|k| w.order.iter().position(|x| x.0 == k)).unwrap_or(w.order.len());
                    w.order.insert(pos, it);
                }
            });
            l.move_before(&k, before.as_ref());
        }
        9 | 10 if n > 0 => {
            let (k1, k2) = (key_at(a), key_at(b));
            tr!("swap {k1} {k2}");
            with(|w| w.order.swap(a, b));
            l.swap(&k1, &k2);
        }
        11 => {
            let keep: Vec<u32> = with(|w| {
                let r = &mut w.rng;
                w.order.iter().map(|x| x.0).filter(|_| !r.chance(1, 4)).collect()
            });
            tr!("retain {keep:?}");
            with(|w| w.order.retain(|x| keep.contains(&x.0)));
            let seen = RefCell::new(vec![]);
            l.retain(|k| {
                seen.borrow_mut().push(*k);
                keep.contains(k)
            });
            let mut seen = seen.into_inner();
            seen.sort();
            if seen.windows(2).any(|p| p[0] == p[1]) || seen.len() != n {
                bad(format!("retain asked about {seen:?} of {n} items"));
            }
        }
        _ => {
            if n > 0 {
                let k = key_at(a);
                if !l.contains_key(&k) || l.contains_key(&9997) {
                    bad(format!("contains_key({k}) is wrong"));
                }
            }
        }
    }
}
/// after an `update` to `keys`: who must have been rendered anew, who kept
fn after_update(keys: &[u32], stayed: &BTreeSet<u32>, what: &str) {
    let msg = with(|w| {
        let rendered = std::mem::take(&mut w.rendered);
        let mut new = vec![];
        let mut err = None;
        for k in keys {
            let calls: Vec<usize> = rendered.iter().filter(|r| r.0 == *k).map(|r| r.1).collect();
            let prev = w.order.iter().find(|x| x.0 == *k).map(|x| x.1);
            match (prev, calls.len()) {
                (Some(i), 0) => new.push((*k, i)),
                (Some(_), _) if stayed.contains(k) => err = Some(format!("the renderer was called for key {k}, which was in the list and stayed ({what})")),
                (_, 1) => new.push((*k, calls[0])),
                (None, 0) => err = Some(format!("the renderer was not called for the new key {k} ({what})")),
                // a key that left and came back between two updates may be rendered anew each time
                (_, _) if !stayed.contains(k) && what == "modeled" => new.push((*k, *calls.last().unwrap())),
                (_, n) => err = Some(format!("the renderer was called {n} times for the new key {k} ({what})")),
            }
        }
        if what == "diffed" {
            if let Some(r) = rendered.iter().find(|r| !keys.contains(&r.0)) {
                err = Some(format!("the renderer was called for {}, which is not in the vector", r.0));
            }
        }
        cov(|c| {
            c.add("rendered", rendered.len() as u64);
            c.add("kept", keys.len().saturating_sub(rendered.len()) as u64);
            c.hit("updates");
        });
        w.order = new;
        err
    });
    if let Some(m) = msg {
        bad(m)
    }
}
fn fresh(w: &mut W, cur: &[u32]) -> u32 {
    // sometimes a key that was there before
    for _ in 0..3 {
        let k = w.rng.below(w.size * 2 + 3) as u32;
        if !cur.contains(&k) {
            return k;
        }
    }
    w.next_key += 1;
    1000 + w.next_key
}
fn edit(w: &mut W, m: usize) {
    let Some((mut model, mut vec)) = w.models[m].take() else { return };
    let n = vec.len();
    let (a, b) = (w.rng.below(n.max(1)), w.rng.below(n.max(1)));
    let roll = w.rng.below(14);
    let mut note = String::new();
    match roll {
        0..=3 if n < w.size => {
            let k = fresh(w, &vec);
            let at = w.rng.below(n + 1);
            model.insert(at, k);
            vec.insert(at, k);
            note = format!("insert({at}, {k})");
        }
        4 if n < w.size => {
            let k = fresh(w, &vec);
            model.push(k);
            vec.push(k);
            note = format!("push({k})");
        }
        5 => {
            let (x, y) = (model.pop(), vec.pop());
            if x != y {
                w.bad.push(format!("pop returned {x:?}, the vector {y:?}"));
            }
            w.touched[m].extend(y);
            note = format!("pop() = {y:?}");
        }
        6 | 7 if n > 0 => {
            let (x, y) = (model.remove(a), vec.remove(a));
            if x != y {
                w.bad.push(format!("remove({a}) returned {x}, the vector {y}"));
            }
            w.touched[m].insert(y);
            note = format!("remove({a}) = {y}");
        }
        8 | 9 if n > 0 => {
            model.swap(a, b);
            vec.swap(a, b);
            note = format!("swap({a}, {b})");
        }
        10 | 11 if n > 0 => {
            model.move_item(a, b);
            let x = vec.remove(a);
            vec.insert(b, x);
            note = format!("move_item({a}, {b})");
        }
        12 => {
            // raw editing
            let k = fresh(w, &vec);
            let r = &mut w.rng;
            match r.below(4) {
                0 => {
                    model.modify_vec().reverse();
                    vec.reverse();
                }
                1 if n > 0 => {
                    model.modify_vec().remove(a);
                    vec.remove(a);
                }
                2 if n < w.size => {
                    model.modify_vec().insert(a, k);
                    vec.insert(a, k);
                }
                _ => {
                    let mut p = vec.clone();
                    r.shuffle(&mut p);
                    p.truncate(r.range(n / 2, n));
                    *model.modify_vec() = p.clone();
                    vec = p;
                }
            }
            note = format!("modify_vec to {vec:?}");
        }
        13 => {
            // clone, or a fresh model with the same contents
            let other = w.rng.below(w.models.len());
            if other != m {
                let c = if w.rng.chance(2, 3) { model.clone() } else { ListModel::from(vec.clone()) };
                note = format!("model {other} := copy");
                w.models[other] = Some((c, vec.clone()));
                w.touched[other] = BTreeSet::new();
            } else if w.rng.chance(1, 3) {
                let c: ListModel<u32> = vec.iter().rev().cloned().collect();
                vec.reverse();
                model = c;
                note = "rebuilt reversed".into();
            }
        }
        _ => {}
    }
    tr!("model {m} {note} -> {vec:?}");
    cov(|c| c.hit("model_edits"));
    // the model behaves as the vector
    let same = model[..] == vec[..]
        && model.len() == vec.len()
        && model.is_empty() == vec.is_empty()
        && model.first() == vec.first()
        && model.last() == vec.last()
        && model.iter().eq(vec.iter())
        && model.get(a) == vec.get(a);
    if !same {
        w.bad.push(format!("after {note} the model holds {:?}, the vector {vec:?}", &model[..]));
    }
    w.models[m] = Some((model, vec));
}
fn model_op(l: &ModeledList<'static, u32, Item, Ren>) {
    let m = with(|w| {
        let m = if w.rng.chance(5, 6) { w.last_model } else { w.rng.below(w.models.len()) };
        let k = [0, 1, 1, 2, 3, 6, 12][w.rng.below(7)];
        for _ in 0..k {
            edit(w, m)
        }
        m
    });
    if with(|w| w.rng.chance(1, 8)) {
        return; // edits that are shown only later
    }
    let Some((model, vec)) = with(|w| w.models[m].take()) else { return };
    tr!("update to model {m} {vec:?}");
    let stayed = with(|w| {
        let same = m == w.last_model;
        w.last_model = m;
        let t = std::mem::take(&mut w.touched[m]);
        w.order.iter().map(|x| x.0).filter(|k| vec.contains(k) && (!same || !t.contains(k))).collect::<BTreeSet<_>>()
    });
    l.update(&model);
    after_update(&vec, &stayed, "modeled");
    with(|w| w.models[m] = Some((model, vec)));
}
fn diff_op(l: &DiffedList<'static, u32, Ren, Item>) {
    let new: Vec<u32> = with(|w| {
        let mut v: Vec<u32> = w.order.iter().map(|x| x.0).collect();
        match w.rng.below(8) {
            0 => w.rng.shuffle(&mut v),
            1 => v.reverse(),
            2 => {
                let mut r = w.rng.fork();
                v.retain(|_| !r.chance(1, 3));
            }
            _ => {}
        }
        for _ in 0..w.rng.below(6) {
            let n = v.len();
            let (a, b) = (w.rng.below(n.max(1)), w.rng.below(n.max(1)));
            match w.rng.below(5) {
                0 | 1 if n < w.size => {
                    let k = fresh(w, &v);
                    v.insert(w.rng.below(n + 1), k);
                }
                2 if n > 0 => {
                    v.remove(a);
                }
                3 if n > 0 => v.swap(a, b),
                4 if n > 0 => {
                    let x = v.remove(a);
                    v.insert(b, x);
                }
                _ => {}
            }
        }
        v
    });
    tr!("update {:?} -> {new:?}", with(|w| w.order.iter().map(|x| x.0).collect::<Vec<_>>()));
    let stayed: BTreeSet<u32> = with(|w| w.order.iter().map(|x| x.0).filter(|k| new.contains(k)).collect());
    let old: Vec<u32> = with(|w| w.order.iter().map(|x| x.0).collect());
    l.update(new.clone());
    after_update(&new, &stayed, "diffed");
    for k in old.iter().chain(&new) {
        if l.contains_key(k) != new.contains(k) {
            bad(format!("contains_key({k}) is wrong after the update"));
        }
    }
}
struct Until(bool);
impl Future for Until {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        with(|w| {
            if w.shown == self.0 {
                return Poll::Ready(());
            }
            w.shown_waker = Some(cx.waker().clone());
            Poll::Pending
        })
    }
}
fn check(container: &Rc<Obj>, sides: (usize, usize), foreign: &[Rc<Obj>], alive: bool) -> CaseResult {
    let kids: Vec<Rc<Obj>> = native::children_of(container).into_iter().filter(|o| o.class != "Comment").collect();
    with(|w| {
        if let Some(b) = w.bad.first() {
            return Err(b.clone());
        }
        let mut want: Vec<(String, Rc<Obj>)> = foreign.iter().map(|f| ("foreign".to_string(), f.clone())).collect();
        if alive {
            let mut add = |i: usize, w: &W| {
                for n in &w.inst[i].nodes {
                    want.push((format!("item {i} (key {})", w.inst[i].key), n.clone()))
                }
            };
            add(sides.0, w);
            if w.shown {
                for (_, i) in &w.order {
                    add(*i, w);
                }
            }
            add(sides.1, w);
        }
        let ok = kids.len() == want.len() && kids.iter().zip(&want).all(|(a, b)| Rc::ptr_eq(a, &b.1));
        if !ok {
            let have: Vec<String> = kids
                .iter()
                .map(|k| {
                    want.iter().find(|x| Rc::ptr_eq(&x.1, k)).map(|x| x.0.clone()).unwrap_or_else(|| {
                        w.inst.iter().position(|i| i.nodes.iter().any(|n| Rc::ptr_eq(n, k))).map(|i| format!("(item {i})")).unwrap_or("(unknown)".into())
                    })
                })
                .collect();
            return Err(format!("displayed: {have:?}, expected: {:?}", want.iter().map(|x| &x.0).collect::<Vec<_>>()));
        }
        for (i, it) in w.inst.iter().enumerate() {
            let current = w.order.iter().any(|x| x.1 == i) || it.side;
            check!(!(current && alive && it.dropped > 0 && !it.done), "item {i} (key {}) is in the list but was dropped", it.key);
            if w.shown && alive {
                check!(current || it.dropped == 1, "item {i} (key {}) left the list and was not dropped", it.key);
                check!(!(current && it.bumped && !it.done), "item {i} (key {}) was woken and not polled", it.key);
                check!(!(current && it.polls == 0), "item {i} (key {}) was never polled", it.key);
            }
        }
        Ok(())
    })?;
    let u = native::page().uncaught.borrow().clone();
    check!(u.is_empty(), "an exception escaped: {u:?}");
    cov(|c| c.hit("settled_checks"));
    Ok(())
}
fn case(cx: &mut Cx, mode: Mode) -> CaseResult {
    let steps = cx.scaled(3, 40);
    let size = cx.scaled(3, 24);
    let models = (0..3).map(|_| None).collect();
    W_.with(|w| {
        *w.borrow_mut() = Some(W {
            rng: cx.rng.fork(),
            inst: vec![],
            order: vec![],
            subject: None,
            models,
            last_model: 0,
            touched: vec![BTreeSet::new(); 3],
            shown: false,
            shown_waker: None,
            next_key: 0,
            bad: vec![],
            budget: steps,
            rendered: vec![],
            inside: 0,
            size,
            dying: false,
        })
    });
    let r = go(cx, mode, steps);
    let w = W_.with(|w| w.borrow_mut().take());
    if let Some(w) = &w {
        let sig: Vec<(u32, u64)> = w.inst.iter().map(|i| (i.key, i.polls)).collect();
        cov(|c| {
            c.sig((sig, w.order.clone(), w.inside));
            c.max("items", w.order.len() as u64);
            c.add("instances", w.inst.len() as u64)
        });
    }
    drop(w);
    r
}
fn go(cx: &mut Cx, mode: Mode, steps: usize) -> CaseResult {
    let ren = || -> Ren {
        Box::new(|k: &u32| {
            let it = new_item(*k, false);
            tr!("render key {k}: item {}", it.id);
            with(|w| w.rendered.push((*k, it.id)));
            it
        })
    };
    let subject = match mode {
        Mode::Slot => Subject::S(Rc::new(if cx.rng.chance(1, 2) { DynamicSlot::new() } else { DynamicSlot::default() })),
        Mode::Dynamic => Subject::D(Rc::new(if cx.rng.chance(1, 2) { DynamicList::new() } else { DynamicList::default() })),
        Mode::Modeled => Subject::M(Rc::new(ModeledList::new(ren()))),
        Mode::Diffed => Subject::F(Rc::new(DiffedList::new(ren()))),
    };
    with(|w| {
        w.subject = Some(subject.clone());
        if mode == Mode::Modeled {
            let n = w.rng.below(w.size);
            for m in 0..3 {
                let v: Vec<u32> = (0..n as u32).collect();
                w.models[m] = Some((if n == 0 { ListModel::new() } else { ListModel::from(v.clone()) }, v));
            }
        }
    });
    let container = native::new_element_raw("div");
    native::insert_before(&native::body(), &container, None).unwrap();
    let mut foreign = vec![];
    for _ in 0..cx.rng.below(3) {
        let f = native::new_element_raw("hr");
        native::insert_before(&container, &f, None).unwrap();
        foreign.push(f);
    }
    // operations before rendering
    for _ in 0..cx.rng.below(4) {
        op();
    }
    let (l, r) = (new_item(0, true), new_item(0, true));
    let sides = (l.id, r.id);
    let s2 = subject.clone();
    let toggled = async move {
        loop {
            Until(true).await;
            race((
                async {
                    match &s2 {
                        Subject::S(s) => s.render().await,
                        Subject::D(s) => s.render().await,
                        Subject::M(s) => s.render().await,
                        Subject::F(s) => s.render().await,
                    }
                    bad("rendering a slot or list completed".into())
                },
                Until(false),
            ))
            .await;
        }
    };
    let node: web_sys::Node = JsValue::from_obj(container.clone()).unchecked_into();
    let layout = cx.rng.below(3);
    let task: Task<()> = mount_at(
        async move {
            match layout {
                0 => {
                    join((l, toggled, r)).await;
                }
                1 => {
                    join((join([Box::pin(l) as Pin<Box<dyn Future<Output = ()>>>, Box::pin(toggled)]), r)).await;
                }
                _ => {
                    let l = async { l.await };
                    let rest = async { join((toggled, r)).await };
                    join(vec![Box::pin(async { l.await }) as Pin<Box<dyn Future<Output = ()>>>, Box::pin(async { rest.await; })]).await;
                }
            }
        },
        node,
    );
    // a list can be hidden and shown again; a slot is rendered once
    let show = |on: bool| {
        tr!("{}", if on { "show" } else { "hide" });
        let wk = with(|w| {
            w.shown = on;
            w.shown_waker.take()
        });
        if let Some(w) = wk {
            w.wake()
        }
    };
    if cx.rng.chance(2, 3) {
        show(true);
    }
    let settle = || -> CaseResult {
        let n = native::run_timers(2000);
        check!(n < 2000, "the app does not come to rest");
        check(&container, sides, &foreign, true)
    };
    for _ in 0..steps {
        match cx.rng.below(12) {
            0 => {
                let on = with(|w| w.shown);
                if mode != Mode::Slot || !on {
                    show(!on);
                    cov(|c| c.hit("toggled"));
                }
            }
            1..=3 => bump(),
            4 => {
                op();
                native::run_one_timer();
            }
            _ => op(),
        }
        if let Some(b) = with(|w| w.bad.first().cloned()) {
            return Err(b);
        }
        if cx.rng.chance(3, 5) {
            settle()?;
        }
    }
    if !with(|w| w.shown) {
        show(true);
    }
    settle()?;
    // the end: unmount, then drop the list
    with(|w| w.dying = true);
    drop(task);
    native::run_timers(1000);
    check(&container, sides, &foreign, false)?;
    with(|w| w.subject = None);
    drop(subject);
    native::run_timers(1000);
    with(|w| {
        if let Some(b) = w.bad.first() {
            return Err(b.clone());
        }
        for (i, it) in w.inst.iter().enumerate() {
            check!(it.dropped == 1, "item {i} was dropped {} times in its life", it.dropped);
        }
        Ok(())
    })
}
pub fn s01(cx: &mut Cx) -> CaseResult {
    case(cx, Mode::Slot)
}
pub fn l01(cx: &mut Cx) -> CaseResult {
    case(cx, Mode::Dynamic)
}
pub fn l02(cx: &mut Cx) -> CaseResult {
    case(cx, Mode::Modeled)
}
pub fn l03(cx: &mut Cx) -> CaseResult {
    case(cx, Mode::Diffed)
}
/// models alone, much longer histories
pub fn l04(cx: &mut Cx) -> CaseResult {
    let steps = cx.scaled(5, 200);
    let size = cx.scaled(3, 40);
    let mut w = W {
        rng: cx.rng.fork(),
        inst: vec![],
        order: vec![],
        subject: None,
        models: vec![],
        last_model: 0,
        touched: vec![BTreeSet::new(); 4],
        shown: false,
        shown_waker: None,
        next_key: 0,
        bad: vec![],
        budget: 0,
        rendered: vec![],
        inside: 0,
        size,
        dying: false,
    };
    for _ in 0..4 {
        let n = w.rng.below(size);
        let v: Vec<u32> = (0..n as u32).collect();
        w.models.push(Some((ListModel::from(v.clone()), v)));
    }
    let mut seen: BTreeMap<usize, Vec<u32>> = BTreeMap::new();
    for _ in 0..steps {
        let m = w.rng.below(4);
        edit(&mut w, m);
        if let Some(b) = w.bad.first() {
            return Err(b.clone());
        }
        // nobody else's contents changed
        for (i, x) in w.models.iter().enumerate() {
            let (model, vec) = x.as_ref().unwrap();
            check!(model[..] == vec[..], "model {i} holds {:?} after an edit of model {m}, the vector {vec:?}", &model[..]);
            seen.insert(i, vec.clone());
        }
    }
    cov(|c| c.sig(seen));
    Ok(())
}
