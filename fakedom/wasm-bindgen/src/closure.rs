//! Rust closures as JS functions, with the real crate's lifetime rules: calling one
//! after its `Closure` was dropped throws, and a recursive call of an `FnMut` throws.
use crate::native::{self, FnBody, FromJs, Obj, ToJs};
use crate::{JsCast, JsValue};
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;

pub struct ScopedClosure<'a, T: ?Sized> {
    js: JsValue,
    forgotten: bool,
    _p: PhantomData<(&'a (), Box<T>)>,
}
pub type Closure<T> = ScopedClosure<'static, T>;
impl<T: ?Sized> Unpin for ScopedClosure<'_, T> {}

pub trait IntoWasmClosure<T: ?Sized> {
    fn into_body(self) -> FnBody;
}
pub trait WasmClosure {
    fn boxed_into_body(b: Box<Self>) -> FnBody;
}
macro_rules! arity {
    ($($A:ident $i:tt),*) => {
        impl<Fun, R: ToJs, $($A: FromJs),*> IntoWasmClosure<dyn Fn($($A),*) -> R> for Fun
        where Fun: Fn($($A),*) -> R + 'static {
            fn into_body(self) -> FnBody {
                FnBody::Shared(Rc::new(move |_args: &[JsValue]| (self)($($A::from_js(_args.get($i).cloned().unwrap_or_default())),*).to_js()))
            }
        }
        impl<Fun, R: ToJs, $($A: FromJs),*> IntoWasmClosure<dyn FnMut($($A),*) -> R> for Fun
        where Fun: FnMut($($A),*) -> R + 'static {
            fn into_body(mut self) -> FnBody {
                FnBody::Exclusive(Rc::new(RefCell::new(move |_args: &[JsValue]| (self)($($A::from_js(_args.get($i).cloned().unwrap_or_default())),*).to_js())))
            }
        }
        impl<R: ToJs + 'static, $($A: FromJs + 'static),*> WasmClosure for dyn Fn($($A),*) -> R {
            fn boxed_into_body(b: Box<Self>) -> FnBody {
                FnBody::Shared(Rc::new(move |_args: &[JsValue]| (b)($($A::from_js(_args.get($i).cloned().unwrap_or_default())),*).to_js()))
            }
        }
        impl<R: ToJs + 'static, $($A: FromJs + 'static),*> WasmClosure for dyn FnMut($($A),*) -> R {
            fn boxed_into_body(mut b: Box<Self>) -> FnBody {
                FnBody::Exclusive(Rc::new(RefCell::new(move |_args: &[JsValue]| (b)($($A::from_js(_args.get($i).cloned().unwrap_or_default())),*).to_js())))
            }
        }
    };
}
arity!();
arity!(A 0);
arity!(A 0, B 1);
arity!(A 0, B 1, C 2);

impl<T: ?Sized> ScopedClosure<'static, T> {
    pub fn new<F: IntoWasmClosure<T> + 'static>(f: F) -> Self {
        Self::from_body(f.into_body())
    }
    pub fn own<F: IntoWasmClosure<T> + 'static>(f: F) -> Self {
        Self::new(f)
    }
    pub fn wrap(data: Box<T>) -> Self
    where
        T: WasmClosure,
    {
        Self::from_body(T::boxed_into_body(data))
    }
    fn from_body(body: FnBody) -> Self {
        native::stats(|s| s.closures_created += 1);
        Self {
            js: JsValue::from_obj(Obj::new_function(body)),
            forgotten: false,
            _p: PhantomData,
        }
    }
    pub fn once<F, A, R>(f: F) -> Self
    where
        F: OnceClosure<T, A, R>,
    {
        Self::from_body(f.once_body())
    }
    pub fn once_into_js<F, A, R>(f: F) -> JsValue
    where
        F: OnceClosure<T, A, R>,
    {
        Self::once(f).into_js_value()
    }
    pub fn into_js_value(mut self) -> JsValue {
        self.forgotten = true;
        self.js.clone()
    }
    pub fn forget(mut self) {
        self.forgotten = true;
        // real `forget` leaks; keep it reachable for the life of the page
        native::keep_forever(self.js.clone());
    }
    pub fn as_js_value(&self) -> &JsValue {
        &self.js
    }
}
pub trait OnceClosure<T: ?Sized, A, R>: 'static {
    fn once_body(self) -> FnBody;
}
impl<F: FnOnce() -> R + 'static, R: ToJs> OnceClosure<dyn FnMut() -> R, (), R> for F {
    fn once_body(self) -> FnBody {
        let mut f = Some(self);
        FnBody::Exclusive(Rc::new(RefCell::new(move |_: &[JsValue]| {
            (f.take().expect("FnOnce called more than once"))().to_js()
        })))
    }
}
impl<F: FnOnce(A) -> R + 'static, A: FromJs, R: ToJs> OnceClosure<dyn FnMut(A) -> R, (A,), R> for F {
    fn once_body(self) -> FnBody {
        let mut f = Some(self);
        FnBody::Exclusive(Rc::new(RefCell::new(move |a: &[JsValue]| {
            (f.take().expect("FnOnce called more than once"))(A::from_js(
                a.first().cloned().unwrap_or_default(),
            ))
            .to_js()
        })))
    }
}
impl<T: ?Sized> AsRef<JsValue> for ScopedClosure<'_, T> {
    fn as_ref(&self) -> &JsValue {
        &self.js
    }
}
impl<T: ?Sized> Drop for ScopedClosure<'_, T> {
    fn drop(&mut self) {
        if !self.forgotten {
            if let Some(o) = self.js.obj() {
                native::invalidate_function(o);
            }
        }
    }
}
impl<T: ?Sized> std::fmt::Debug for ScopedClosure<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Closure { .. }")
    }
}
impl<'a, 'b, T: ?Sized> ToJs for &'b ScopedClosure<'a, T> {
    fn to_js(self) -> JsValue {
        self.js.clone()
    }
}
#[allow(dead_code)]
fn _assert<T: JsCast>() {}
