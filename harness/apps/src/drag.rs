//! A list whose items the user drags around: the draggable helper with a dynamic list.
use crate::driver::*;
use crate::page::*;
use async_ui_web::html::Div;
use async_ui_web::join;
use async_ui_web::lists::DynamicList;
use async_ui_web::prelude_traits::*;
use crate::ex::draggable::Dragger;
use futures_lite::StreamExt;
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::native::{self, Data, Obj};
use wasm_bindgen::JsValue;

struct Log {
    moves: Vec<(usize, usize, bool)>,
}
async fn app(n: usize, horizontal: bool, log: Rc<RefCell<Log>>) {
    let dragger = &if horizontal { Dragger::new_horizontal() } else { Dragger::new_vertical() };
    let list = &DynamicList::new();
    let order = RefCell::new((0..n).collect::<Vec<usize>>());
    for id in 0..n {
        list.insert(
            id,
            async move {
                let w = Div::new();
                dragger.wrap_item(id, format!("item {id}").render(), &w).await;
            },
            None,
        );
    }
    join((list.render(), async {
        let mut moves = std::pin::pin!(dragger.until_move());
        while let Some(m) = moves.next().await {
            log.borrow_mut().moves.push((m.from, m.to, m.after));
            if m.from == m.to {
                continue;
            }
            let mut o = order.borrow_mut();
            o.retain(|x| *x != m.from);
            let at = o.iter().position(|x| *x == m.to).unwrap() + m.after as usize;
            let before = o.get(at).copied();
            o.insert(at, m.from);
            list.move_before(&m.from, before.as_ref());
        }
    }))
    .await;
}
const SIZE: f64 = 40.0;
fn drag_event(o: &O, ty: &str, bubbles: bool, at: f64) -> bool {
    let dt = Obj::new("DataTransfer", Data::Plain);
    fire(
        o,
        "DragEvent",
        ty,
        bubbles,
        &[("dataTransfer", JsValue::from_obj(dt)), ("clientX", JsValue::from(at)), ("clientY", JsValue::from(at))],
    )
}
pub fn run(cx: &mut Cx) -> CaseResult {
    let n = cx.scaled(2, 9);
    let horizontal = cx.rng.chance(1, 2);
    let log = Rc::new(RefCell::new(Log { moves: vec![] }));
    // items below (or beside) each other
    let body = root();
    {
        let body = body.clone();
        *native::page().layout.borrow_mut() = Some(Rc::new(move |o: &O| {
            let k = elements(&body).iter().position(|x| Rc::ptr_eq(x, o));
            match k {
                Some(k) => {
                    let a = k as f64 * SIZE;
                    if horizontal {
                        [a, 0.0, SIZE, 10.0]
                    } else {
                        [0.0, a, 10.0, SIZE]
                    }
                }
                None => [0.0; 4],
            }
        }));
    }
    let m = mount(app(n, horizontal, log.clone()));
    let items = elements(&body);
    check!(items.len() == n, "{} items, expected {n}", items.len());
    for (i, o) in items.iter().enumerate() {
        check!(text(o) == format!("item {i}") && flag(o, "draggable"), "item {i} is not a draggable {:?}", text(o));
    }
    let pads = if horizontal { ["padding-left", "padding-right"] } else { ["padding-top", "padding-bottom"] };
    let pad = |o: &O, after: usize| native::to_string(&native::style_of(o).prop(pads[after]));
    let mut order: Vec<usize> = (0..n).collect();
    let mut moves = vec![];
    for _ in 0..cx.scaled(2, 25) {
        let from = cx.rng.below(n);
        tr!("drag item {from}");
        drag_event(&items[from], "dragstart", true, 0.0);
        let mut over: Option<(usize, bool)> = None;
        // which half of another item the mouse was last over
        let mut last_after: Option<bool> = None;
        for _ in 0..cx.rng.range(1, 4) {
            let to = cx.rng.below(n);
            // entering an element is announced before leaving the one before
            let e = drag_event(&items[to], "dragenter", true, 0.0);
            check!(!e, "entering item {to} while dragging doesn't make it a place to drop");
            if let Some((old, _)) = over {
                if old != to {
                    drag_event(&items[old], "dragleave", true, 0.0);
                    settle();
                    check!(pad(&items[old], 0) == "0px" && pad(&items[old], 1) == "0px", "item {old} keeps room after the mouse has left");
                }
            }
            for _ in 0..cx.rng.range(1, 3) {
                let after = cx.rng.chance(1, 2);
                let k = order.iter().position(|x| *x == to).unwrap() as f64;
                let at = k * SIZE + if after { 30.0 } else { 10.0 };
                let e = drag_event(&items[to], "dragover", true, at);
                check!(!e, "item {to} doesn't accept what is dragged over it");
                settle();
                if to != from {
                    last_after = Some(after);
                    let got = [pad(&items[to], 0), pad(&items[to], 1)];
                    let mut want = ["0px".to_string(), "0px".to_string()];
                    want[after as usize] = "40px".into();
                    check!(got == want, "item {to} makes room {got:?}, expected {want:?}");
                }
                over = Some((to, after));
            }
        }
        no_errors("dragging")?;
        let (to, _) = over.unwrap();
        if cx.rng.chance(3, 4) {
            tr!("drop at {to}, after: {last_after:?}");
            drag_event(&items[to], "drop", true, 0.0);
            settle();
            let l = log.borrow().moves.last().copied();
            match last_after {
                Some(after) => moves.push((from, to, after)),
                // over nothing but itself: the side is that of the drag before
                None => moves.push((from, to, l.map(|l| l.2).unwrap_or(false))),
            }
            if from != to {
                order.retain(|x| *x != from);
                let at = order.iter().position(|x| *x == to).unwrap() + last_after.unwrap() as usize;
                order.insert(at, from);
            }
        } else {
            tr!("let go outside");
            drag_event(&items[to], "dragleave", true, 0.0);
        }
        drag_event(&items[from], "dragend", true, 0.0);
        settle();
        no_errors("dropping")?;
        check!(log.borrow().moves == moves, "the application was told of the moves {:?}, expected {moves:?}", log.borrow().moves);
        let got: Vec<String> = elements(&body).iter().map(text).collect();
        let want: Vec<String> = order.iter().map(|i| format!("item {i}")).collect();
        check!(got == want, "the list shows {got:?}, expected {want:?}");
        for (i, o) in items.iter().enumerate() {
            check!(pad(o, 0) == "0px" && pad(o, 1) == "0px", "item {i} keeps room after the drag");
        }
        cov(|c| c.hit("checks"));
        cov(|c| c.sig(("drag", &order)));
    }
    m.unmount()
}
