//! Native stand-in for `wasm-bindgen`: same API surface as far as async_ui uses it
//! (and some more), with a simulated browser (see `native`) behind it.
//! Everything is per-thread: each OS thread is its own browser page.
#![allow(clippy::all)]
use std::fmt;
use std::rc::Rc;

pub use fake_wasm_bindgen_macro::wasm_bindgen;
pub mod closure;
pub mod native;
pub mod prelude {
    pub use crate::closure::{Closure, ScopedClosure};
    pub use crate::wasm_bindgen;
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt};
}
pub mod convert {
    pub use crate::native::{FromJs, ToJs};
}
use native::Obj;

#[derive(Clone)]
pub(crate) enum V {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    Obj(Rc<Obj>),
}

#[derive(Clone)]
pub struct JsValue {
    pub(crate) v: V,
}

// As in the real crate (single-threaded wasm). The harness never moves one across threads.
unsafe impl Send for JsValue {}
unsafe impl Sync for JsValue {}
impl std::panic::UnwindSafe for JsValue {}
impl std::panic::RefUnwindSafe for JsValue {}

impl JsValue {
    pub const NULL: JsValue = JsValue { v: V::Null };
    pub const UNDEFINED: JsValue = JsValue { v: V::Undefined };
    pub const TRUE: JsValue = JsValue { v: V::Bool(true) };
    pub const FALSE: JsValue = JsValue { v: V::Bool(false) };
    pub const fn null() -> Self {
        Self::NULL
    }
    pub const fn undefined() -> Self {
        Self::UNDEFINED
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self {
        Self { v: V::Str(s.into()) }
    }
    pub fn from_f64(n: f64) -> Self {
        Self { v: V::Num(n) }
    }
    pub fn from_bool(b: bool) -> Self {
        Self { v: V::Bool(b) }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self.v {
            V::Num(n) => Some(n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self.v {
            V::Bool(b) => Some(b),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.v {
            V::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn is_string(&self) -> bool {
        matches!(self.v, V::Str(_))
    }
    pub fn is_null(&self) -> bool {
        matches!(self.v, V::Null)
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.v, V::Undefined)
    }
    pub fn is_null_or_undefined(&self) -> bool {
        self.is_null() || self.is_undefined()
    }
    pub fn is_object(&self) -> bool {
        matches!(self.v, V::Obj(_)) && !self.is_function()
    }
    pub fn is_function(&self) -> bool {
        self.obj().is_some_and(|o| native::is_function(o))
    }
    pub fn is_array(&self) -> bool {
        self.obj().is_some_and(|o| o.class == "Array")
    }
    pub fn is_truthy(&self) -> bool {
        match &self.v {
            V::Undefined | V::Null => false,
            V::Bool(b) => *b,
            V::Num(n) => *n != 0.0 && !n.is_nan(),
            V::Str(s) => !s.is_empty(),
            V::Obj(_) => true,
        }
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
    pub fn loose_eq(&self, o: &Self) -> bool {
        self == o || (self.is_null_or_undefined() && o.is_null_or_undefined())
    }
    #[doc(hidden)]
    pub fn obj(&self) -> Option<&Rc<Obj>> {
        match &self.v {
            V::Obj(o) => Some(o),
            _ => None,
        }
    }
    #[doc(hidden)]
    pub fn from_obj(o: Rc<Obj>) -> Self {
        Self { v: V::Obj(o) }
    }
}
impl Default for JsValue {
    fn default() -> Self {
        Self::UNDEFINED
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &Self) -> bool {
        match (&self.v, &o.v) {
            (V::Undefined, V::Undefined) | (V::Null, V::Null) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Num(a), V::Num(b)) => a == b,
            (V::Str(a), V::Str(b)) => a == b,
            (V::Obj(a), V::Obj(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}
impl Eq for JsValue {}
impl PartialEq<bool> for JsValue {
    fn eq(&self, o: &bool) -> bool {
        self.as_bool() == Some(*o)
    }
}
impl PartialEq<str> for JsValue {
    fn eq(&self, o: &str) -> bool {
        self.as_string().as_deref() == Some(o)
    }
}
impl<'a> PartialEq<&'a str> for JsValue {
    fn eq(&self, o: &&'a str) -> bool {
        self.as_string().as_deref() == Some(*o)
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.v {
            V::Undefined => f.write_str("undefined"),
            V::Null => f.write_str("null"),
            V::Bool(b) => write!(f, "{b}"),
            V::Num(n) => write!(f, "{n}"),
            V::Str(s) => write!(f, "{s:?}"),
            V::Obj(o) => native::debug_obj(o, f),
        }
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl<'a> From<&'a str> for JsValue {
    fn from(s: &'a str) -> Self {
        Self::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Self::from_str(&s)
    }
}
impl<'a> From<&'a String> for JsValue {
    fn from(s: &'a String) -> Self {
        Self::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        Self { v: V::Bool(b) }
    }
}
impl<T> From<Option<T>> for JsValue
where
    JsValue: From<T>,
{
    fn from(o: Option<T>) -> Self {
        o.map(JsValue::from).unwrap_or(JsValue::UNDEFINED)
    }
}
impl<'a, T: JsCast> From<&'a T> for JsValue {
    fn from(t: &'a T) -> Self {
        t.as_ref().clone()
    }
}
macro_rules! nums {
    ($($t:ty)*) => {$(
        impl From<$t> for JsValue { fn from(n: $t) -> Self { Self { v: V::Num(n as f64) } } }
        impl PartialEq<$t> for JsValue { fn eq(&self, o: &$t) -> bool { self.as_f64() == Some(*o as f64) } }
    )*}
}
nums!(i8 u8 i16 u16 i32 u32 f32 f64 i64 u64 usize isize);

pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn has_type<T: JsCast>(&self) -> bool {
        T::is_type_of(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() {
            Some(self.unchecked_ref())
        } else {
            None
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn instanceof(val: &JsValue) -> bool;
    fn is_type_of(val: &JsValue) -> bool {
        Self::instanceof(val)
    }
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}

#[derive(Clone, Debug)]
pub struct JsError {
    value: JsValue,
}
impl JsError {
    pub fn new(s: &str) -> Self {
        Self { value: native::make_error("Error", s) }
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        e.value
    }
}

#[cold]
#[track_caller]
pub fn throw_str(s: &str) -> ! {
    panic!("{s}")
}
#[cold]
#[track_caller]
pub fn throw_val(v: JsValue) -> ! {
    panic!("{v:?}")
}

pub trait UnwrapThrowExt<T>: Sized {
    #[track_caller]
    fn unwrap_throw(self) -> T;
    #[track_caller]
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    #[track_caller]
    fn unwrap_throw(self) -> T {
        match self {
            Some(t) => t,
            None => panic!("called `Option::unwrap_throw()` on a `None` value"),
        }
    }
    #[track_caller]
    fn expect_throw(self, message: &str) -> T {
        match self {
            Some(t) => t,
            None => panic!("{message}"),
        }
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    #[track_caller]
    fn unwrap_throw(self) -> T {
        match self {
            Ok(t) => t,
            Err(e) => panic!("called `Result::unwrap_throw()` on an `Err` value: {e:?}"),
        }
    }
    #[track_caller]
    fn expect_throw(self, message: &str) -> T {
        match self {
            Ok(t) => t,
            Err(e) => panic!("{message}: {e:?}"),
        }
    }
}
pub fn intern(s: &str) -> &str {
    s
}
