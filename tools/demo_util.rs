//! helpers shared by the demonstrations
#![allow(dead_code)]
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::rc::Rc;
use std::task::{Poll, Waker};
use wasm_bindgen::native;

/// a future that finishes when told to
#[derive(Clone, Default)]
pub struct Sig(Rc<(Cell<bool>, RefCell<Vec<Waker>>)>);
impl Sig {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set(&self) {
        self.0 .0.set(true);
        for w in self.0 .1.take() {
            w.wake();
        }
    }
    pub async fn wait(&self) {
        std::future::poll_fn(|cx| {
            if self.0 .0.get() {
                Poll::Ready(())
            } else {
                self.0 .1.borrow_mut().push(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
}
/// let the browser's queued callbacks run
pub fn tick() {
    native::run_timers(10_000);
}
/// the document's body, for `mount_at`
pub fn body() -> web_sys::Node {
    use wasm_bindgen::JsCast;
    wasm_bindgen::JsValue::from_obj(native::body()).unchecked_into()
}
/// text content of the elements and texts (not comments) in the body, one by one
pub fn shown() -> Vec<String> {
    native::children_of(&native::body()).iter().map(native::text_content).filter(|t| !t.is_empty()).collect()
}
