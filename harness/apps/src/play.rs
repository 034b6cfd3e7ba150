//! The x-bow playground: nested boxes, one per piece of the data.
use crate::driver::*;
use crate::ex;
use crate::page::*;
use std::rc::Rc;
use wasm_bindgen::native;

pub fn run(cx: &mut Cx) -> CaseResult {
    let m = mount(ex::play::the_app());
    let body = root();
    let boxes: Vec<O> = find(&body, &|o| has(o, "node-box") && !has(o, "instruction-node-box"));
    // root, field_1, hello, field_2, world, the vector and four times two
    check!(boxes.len() == 14, "{} boxes, expected 14", boxes.len());
    let inside = |a: &O, b: &O| -> bool {
        let mut c = Some(a.clone());
        while let Some(o) = c {
            if Rc::ptr_eq(&o, b) {
                return true;
            }
            c = native::parent_of(&o);
        }
        false
    };
    let clear = one(find(&body, &|o| tag(o) == "button"), "buttons")?;
    for _ in 0..cx.scaled(2, 40) {
        let k = cx.rng.below(boxes.len() + 1);
        let clicked = boxes.get(k);
        tr!("click on {}", clicked.map(|_| format!("box {k}")).unwrap_or("clear".into()));
        match clicked {
            Some(b) => {
                // on the box itself or on its label
                let at = if cx.rng.chance(1, 2) { native::children_of(b).into_iter().find(|c| c.class == "Text").unwrap_or(b.clone()) } else { b.clone() };
                fire(&at, "MouseEvent", "click", true, &[]);
            }
            None => {
                click(&clear);
            }
        }
        settle();
        no_errors("the click")?;
        for (i, x) in boxes.iter().enumerate() {
            // a change is seen by everything inside, and bubbles up to everything around
            let reg = clicked.is_some_and(|b| inside(x, b));
            let bub = clicked.is_some_and(|b| inside(b, x));
            check!(
                has(x, "changed-regular") == reg && has(x, "changed-bubbling") == bub,
                "after a click on box {k}, box {i} shows (changed, changed inside) = ({}, {}), expected ({reg}, {bub})",
                has(x, "changed-regular"),
                has(x, "changed-bubbling")
            );
        }
        cov(|c| c.hit("checks"));
        cov(|c| c.sig(("play", k)));
    }
    m.unmount()
}
