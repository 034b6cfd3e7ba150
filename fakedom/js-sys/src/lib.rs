//! Native stand-in for `js-sys` (what web-sys needs plus a little).
#![allow(clippy::all)]
use wasm_bindgen::native;
pub use wasm_bindgen::JsCast;
use wasm_bindgen::JsValue;

macro_rules! js_type {
    ($name:ident, $js:literal, $parent:ty $(, $ext:ty)*) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        #[repr(transparent)]
        pub struct $name { obj: JsValue }
        impl std::ops::Deref for $name {
            type Target = $parent;
            fn deref(&self) -> &$parent { <$parent as JsCast>::unchecked_from_js_ref(&self.obj) }
        }
        impl JsCast for $name {
            fn instanceof(v: &JsValue) -> bool { native::instance_of(v, $js) }
            fn unchecked_from_js(obj: JsValue) -> Self { Self { obj } }
            fn unchecked_from_js_ref(v: &JsValue) -> &Self { unsafe { &*(v as *const JsValue as *const Self) } }
        }
        impl AsRef<JsValue> for $name { fn as_ref(&self) -> &JsValue { &self.obj } }
        impl AsRef<$name> for $name { fn as_ref(&self) -> &$name { self } }
        impl From<$name> for JsValue { fn from(v: $name) -> JsValue { v.obj } }
        impl From<JsValue> for $name { fn from(obj: JsValue) -> Self { Self { obj } } }
        impl native::ToJs for $name { fn to_js(self) -> JsValue { self.obj } }
        impl<'a> native::ToJs for &'a $name { fn to_js(self) -> JsValue { self.obj.clone() } }
        impl native::FromJs for $name { fn from_js(obj: JsValue) -> Self { Self { obj } } }
        $(
            impl From<$name> for $ext { fn from(v: $name) -> $ext { <$ext as JsCast>::unchecked_from_js(v.obj) } }
            impl AsRef<$ext> for $name { fn as_ref(&self) -> &$ext { <$ext as JsCast>::unchecked_from_js_ref(&self.obj) } }
        )*
    };
}
js_type!(Object, "Object", JsValue);
js_type!(Array, "Array", Object, Object);
js_type!(Function, "Function", Object, Object);
js_type!(Promise, "Promise", Object, Object);
js_type!(Date, "Date", Object, Object);
js_type!(Map, "Map", Object, Object);
js_type!(Set, "Set", Object, Object);
js_type!(Iterator, "Iterator", Object, Object);
js_type!(AsyncIterator, "AsyncIterator", Object, Object);
js_type!(ArrayBuffer, "ArrayBuffer", Object, Object);
js_type!(DataView, "DataView", Object, Object);
js_type!(Uint8Array, "Uint8Array", Object, Object);
js_type!(Int8Array, "Int8Array", Object, Object);
js_type!(Uint8ClampedArray, "Uint8ClampedArray", Object, Object);
js_type!(Float32Array, "Float32Array", Object, Object);
js_type!(Float64Array, "Float64Array", Object, Object);
js_type!(Int32Array, "Int32Array", Object, Object);
js_type!(Uint32Array, "Uint32Array", Object, Object);
js_type!(Undefined, "Undefined", JsValue);
js_type!(JsString, "String", Object, Object);
js_type!(Error, "Error", Object, Object);

impl Object {
    pub fn new() -> Object {
        JsValue::from_obj(native::Obj::new("Object", native::Data::Plain)).into()
    }
}
impl Array {
    pub fn new() -> Array {
        native::array(vec![]).into()
    }
    pub fn length(&self) -> u32 {
        native::spread(&self.obj).len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        native::spread(&self.obj).get(i as usize).cloned().unwrap_or_default()
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        if let Some(o) = self.obj.obj() {
            if let native::Data::Array(a) = &o.data {
                a.borrow_mut().push(v.clone());
            }
        }
        self.length()
    }
    pub fn of1(a: &JsValue) -> Array {
        native::array(vec![a.clone()]).into()
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        native::array(vec![a.clone(), b.clone()]).into()
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        native::spread(&self.obj).into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        native::spread(&self.obj)
    }
}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<I: IntoIterator<Item = A>>(it: I) -> Array {
        native::array(it.into_iter().map(|a| a.as_ref().clone()).collect()).into()
    }
}
impl Function {
    pub fn call0(&self, _this: &JsValue) -> Result<JsValue, JsValue> {
        native::call_function(&self.obj, &[])
    }
    pub fn call1(&self, _this: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> {
        native::call_function(&self.obj, &[a.clone()])
    }
}
pub fn global() -> Object {
    JsValue::from_obj(native::page().window.clone()).into()
}
pub mod Reflect {
    #![allow(non_snake_case)]
    use wasm_bindgen::native::{dispatch, to_string, Kind};
    use wasm_bindgen::JsValue;
    pub fn get(o: &JsValue, k: &JsValue) -> Result<JsValue, JsValue> {
        dispatch(Kind::Get, &to_string(k), o, vec![])
    }
    pub fn set(o: &JsValue, k: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        dispatch(Kind::Set, &to_string(k), o, vec![v.clone()]).map(|_| true)
    }
}
