//! W01: dropdowns under random updates, user selections and programmatic selections.
use crate::driver::*;
use async_ui_web::components::Dropdown;
use async_ui_web::mount_at;
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::native::{self, Obj};
use wasm_bindgen::{JsCast, JsValue};

type Key = String;
fn obj_of(d: &Dropdown<Key>) -> Rc<Obj> {
    let e: &web_sys::Element = (**d).as_ref();
    let v: &JsValue = e.as_ref();
    v.obj().unwrap().clone()
}
#[derive(Clone, Debug)]
struct M {
    opts: Vec<(Key, String)>,
    sel: Option<Key>,
    /// what was selected when it stopped being offered
    ghost: Option<Key>,
}
fn check(d: &Dropdown<Key>, sel: &Rc<Obj>, m: &mut M, what: &str) -> CaseResult {
    let kids: Vec<Rc<Obj>> = native::children_of(sel);
    let texts: Vec<String> = kids.iter().map(native::text_content).collect();
    let want: Vec<String> = m.opts.iter().map(|o| o.1.clone()).collect();
    check!(kids.iter().all(|k| k.node().unwrap().name == "option"), "{what}: something else than options is in the dropdown");
    check!(texts == want, "{what}: the dropdown offers {texts:?}, expected {want:?}");
    let v = d.value();
    let ix = native::selected_index(sel);
    let shown = if ix >= 0 { Some(m.opts[ix as usize].0.clone()) } else { None };
    if m.sel.is_none() && m.ghost.is_some() {
        // the selected option had stopped being offered: it may or may not be remembered
        let g = m.ghost.clone();
        check!(v.is_none() || v == g, "{what}: the value is {v:?}, but nothing was selected since {g:?} went away");
        check!(shown.is_none() || shown == g, "{what}: {shown:?} is shown as selected, but nothing was selected since {g:?} went away");
        if m.opts.iter().any(|o| Some(&o.0) == g.as_ref()) {
            check!(v == shown, "{what}: the value is {v:?} while {shown:?} is shown as selected");
            m.sel = v;
            m.ghost = None;
        }
        cov(|c| c.hit("ghost_checks"));
    } else {
        check!(v == m.sel, "{what}: the value is {v:?}, expected {:?}", m.sel);
        check!(shown == m.sel, "{what}: {shown:?} is shown as selected, expected {:?}", m.sel);
    }
    for o in &m.opts {
        check!(d.contains_key(&o.0), "{what}: contains_key({:?}) is false for an offered option", o.0);
    }
    check!(!d.contains_key("absent"), "{what}: contains_key is true for an option that isn't offered");
    cov(|c| c.hit("checks"));
    Ok(())
}
pub fn w01(cx: &mut Cx) -> CaseResult {
    let size = cx.scaled(2, 14);
    let steps = cx.scaled(3, 40);
    let d: Rc<Dropdown<Key>> = Rc::new(if cx.rng.chance(1, 2) { Dropdown::new() } else { Dropdown::default() });
    let sel = obj_of(&d);
    let mut m = M { opts: vec![], sel: None, ghost: None };
    let heard: Rc<RefCell<Vec<Option<Key>>>> = Rc::default();
    let d2 = d.clone();
    let h2 = heard.clone();
    let node: web_sys::Node = JsValue::from_obj(native::body()).unchecked_into();
    let mut task = None;
    let mount_when = cx.rng.below(4);
    let mut mounted = false;
    let mut sig = vec![];
    for step in 0..steps {
        if step == mount_when {
            let (d2, h2) = (d2.clone(), h2.clone());
            task = Some(mount_at(
                async move {
                    async_ui_web::join((d2.render(), async {
                        loop {
                            d2.until_change().await;
                            h2.borrow_mut().push(d2.value());
                        }
                    }))
                    .await;
                },
                node.clone(),
            ));
            native::run_timers(100);
            mounted = true;
            check!(native::parent_of(&sel).is_some_and(|p| Rc::ptr_eq(&p, &native::body())), "the dropdown is not rendered in its place");
            check(&d, &sel, &mut m, "rendering")?;
        }
        let n = m.opts.len();
        let roll = cx.rng.below(10);
        match roll {
            0..=5 => {
                let mut v: Vec<(Key, String)> = m.opts.clone();
                match cx.rng.below(7) {
                    0 => cx.rng.shuffle(&mut v),
                    1 => v.reverse(),
                    2 => {
                        let mut r = cx.rng.fork();
                        v.retain(|_| !r.chance(1, 3));
                    }
                    3 if cx.rng.chance(1, 3) => v.clear(),
                    _ => {}
                }
                for _ in 0..cx.rng.below(6) {
                    let n = v.len();
                    let (a, b) = (cx.rng.below(n.max(1)), cx.rng.below(n.max(1)));
                    match cx.rng.below(6) {
                        0..=2 if n < size => {
                            let k = format!("k{}", cx.rng.below(size * 2));
                            if !v.iter().any(|o| o.0 == k) {
                                let t = match cx.rng.below(8) {
                                    0 => String::new(),
                                    1 => "same".into(),
                                    _ => format!("text {k}"),
                                };
                                v.insert(cx.rng.below(n + 1), (k, t));
                            }
                        }
                        3 if n > 0 => {
                            v.remove(a);
                        }
                        4 if n > 0 => {
                            let x = v.remove(a);
                            v.insert(b, x);
                        }
                        5 if n > 0 => {
                            v[a].1 = format!("new {}", cx.rng.below(100));
                        }
                        _ => {}
                    }
                }
                tr!("update_options {v:?}");
                if cx.rng.chance(1, 6) && !v.is_empty() {
                    // options named by the program, not by a String that lives on
                    d.update_options(v.iter().map(|(k, t)| (k.clone(), t.as_str())).collect::<Vec<_>>());
                } else {
                    d.update_options(v.iter().map(|(k, t)| (k.clone(), t.as_str())));
                }
                cov(|c| c.hit("updates"));
                m.opts = v;
                if let Some(s) = m.sel.clone() {
                    if !m.opts.iter().any(|o| o.0 == s) {
                        m.sel = None;
                        m.ghost = Some(s);
                    } else {
                        cov(|c| c.hit("selection_kept"));
                    }
                }
                check(&d, &sel, &mut m, "update_options")?;
            }
            6 | 7 if n > 0 => {
                let i = cx.rng.below(n);
                let k = m.opts[i].0.clone();
                tr!("the user selects {k}");
                cov(|c| c.hit("user_selections"));
                heard.borrow_mut().clear();
                native::user_select(&sel, i);
                m.sel = Some(k.clone());
                m.ghost = None;
                check(&d, &sel, &mut m, "the user's selection")?;
                if mounted {
                    let h = heard.borrow().clone();
                    check!(h == vec![Some(k.clone())], "the app waiting for changes read {h:?} when the user selected {k}");
                }
            }
            8 if n > 0 => {
                let k = m.opts[cx.rng.below(n)].0.clone();
                tr!("set_value {k}");
                cov(|c| c.hit("set_value"));
                d.set_value(Some(k.clone()));
                m.sel = Some(k);
                m.ghost = None;
                check(&d, &sel, &mut m, "set_value")?;
            }
            9 => {
                let v = if cx.rng.chance(1, 2) { None } else { Some("absent".to_string()) };
                tr!("set_value {v:?}: deselect");
                cov(|c| c.hit("deselect"));
                d.set_value(v);
                m.sel = None;
                m.ghost = None;
                check(&d, &sel, &mut m, "deselecting")?;
            }
            _ => {}
        }
        sig.push((roll, native::selected_index(&sel), m.opts.len()));
        native::run_timers(100);
    }
    cov(|c| c.sig(sig));
    let u = native::page().uncaught.borrow().clone();
    check!(u.is_empty(), "an exception escaped: {u:?}");
    drop(task);
    native::run_timers(100);
    if mounted {
        check!(native::parent_of(&sel).is_none(), "the dropdown is still on the page after unmounting");
        check!(native::listeners_of(&sel).is_empty(), "the dropdown keeps event listeners after unmounting");
    }
    Ok(())
}
