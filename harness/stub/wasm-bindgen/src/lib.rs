//! Stand-in for the bindings to the page: values of the page and functions that it can call.
use std::any::Any;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;
pub use wasm_bindgen_macro::wasm_bindgen;

type Fun = Rc<RefCell<Option<Box<dyn FnMut(JsValue)>>>>;
#[derive(Clone)]
pub enum JsValue { Null, Undefined, Bool(bool), Num(f64), Str(String), Obj(Rc<dyn Any>), Fun(Fun) }
impl std::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self { JsValue::Str(s) => write!(f, "JsValue({:?})", s), JsValue::Num(n) => write!(f, "JsValue({})", n), _ => f.write_str("JsValue") }
    }
}
impl JsValue {
    pub const NULL: JsValue = JsValue::Null;
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    pub fn from_str(s: &str) -> Self { JsValue::Str(s.to_owned()) }
    pub fn from_f64(n: f64) -> Self { JsValue::Num(n) }
    pub fn as_string(&self) -> Option<String> { match self { JsValue::Str(s) => Some(s.clone()), _ => None } }
    pub fn as_f64(&self) -> Option<f64> { match self { JsValue::Num(s) => Some(*s), _ => None } }
    pub fn is_null(&self) -> bool { matches!(self, JsValue::Null) }
    pub fn is_undefined(&self) -> bool { matches!(self, JsValue::Undefined) }
    /// For the stand-ins: the object inside.
    pub fn object<T: 'static>(&self) -> Rc<T> { match self { JsValue::Obj(o) => o.clone().downcast::<T>().expect("object of another type"), _ => panic!("not an object") } }
    /// For the stand-ins: calls the function if it still exists.
    pub fn call(&self, v: JsValue) { if let JsValue::Fun(f) = self { let g = f.borrow_mut().take(); if let Some(mut g) = g { g(v); let mut b = f.borrow_mut(); if b.is_none() { *b = Some(g); } } else { page_error("closure invoked after being dropped") } } else { panic!("not a function") } }
}
impl From<&str> for JsValue { fn from(s: &str) -> Self { JsValue::Str(s.to_owned()) } }
impl From<String> for JsValue { fn from(s: String) -> Self { JsValue::Str(s) } }
impl From<f64> for JsValue { fn from(s: f64) -> Self { JsValue::Num(s) } }
impl From<bool> for JsValue { fn from(s: bool) -> Self { JsValue::Bool(s) } }
impl From<JsValue> for f64 { fn from(s: JsValue) -> f64 { s.as_f64().unwrap_or(f64::NAN) } }
impl From<JsValue> for bool { fn from(s: JsValue) -> bool { matches!(s, JsValue::Bool(true)) } }
impl AsRef<JsValue> for JsValue { fn as_ref(&self) -> &JsValue { self } }

/// Types that are values of the page; all of them are transparent wrappers of values.
pub trait JsCast: AsRef<JsValue> + Into<JsValue> + From<JsValue> + Sized {
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> { Ok(T::from(self.into())) }
    fn unchecked_into<T: JsCast>(self) -> T { T::from(self.into()) }
    fn unchecked_ref<T: JsCast>(&self) -> &T { unsafe { &*(self.as_ref() as *const JsValue as *const T) } }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> { Some(self.unchecked_ref()) }
}
impl JsCast for JsValue {}

/// Functions that the page can call until they are dropped.
pub struct Closure<T: ?Sized>(JsValue, PhantomData<Box<T>>);
pub trait WasmClosure { fn erase(b: Box<Self>) -> Box<dyn FnMut(JsValue)>; }
impl WasmClosure for dyn FnMut() { fn erase(mut b: Box<Self>) -> Box<dyn FnMut(JsValue)> { Box::new(move |_| b()) } }
impl<A: From<JsValue> + 'static> WasmClosure for dyn FnMut(A) { fn erase(mut b: Box<Self>) -> Box<dyn FnMut(JsValue)> { Box::new(move |v| b(v.into())) } }
impl WasmClosure for dyn Fn() { fn erase(b: Box<Self>) -> Box<dyn FnMut(JsValue)> { Box::new(move |_| b()) } }
impl<A: From<JsValue> + 'static> WasmClosure for dyn Fn(A) { fn erase(b: Box<Self>) -> Box<dyn FnMut(JsValue)> { Box::new(move |v| b(v.into())) } }
impl<T: ?Sized + WasmClosure> Closure<T> {
    pub fn wrap(b: Box<T>) -> Self { Closure(JsValue::Fun(Rc::new(RefCell::new(Some(T::erase(b))))), PhantomData) }
    pub fn forget(self) { std::mem::forget(self) }
}
impl<T: ?Sized> AsRef<JsValue> for Closure<T> { fn as_ref(&self) -> &JsValue { &self.0 } }
impl<T: ?Sized> Drop for Closure<T> { fn drop(&mut self) { if let JsValue::Fun(f) = &self.0 { if let Ok(mut f) = f.try_borrow_mut() { *f = None; } } } }
#[derive(Clone, Debug, PartialEq)]
pub struct Clamped<T>(pub T);
impl<T> std::ops::Deref for Clamped<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }

/// What the page was told.
pub struct Console { pub log: Vec<String>, pub errors: Vec<String> }
struct Cell(std::cell::UnsafeCell<Console>);
unsafe impl Sync for Cell {}
static CONSOLE: Cell = Cell(std::cell::UnsafeCell::new(Console { log: vec![], errors: vec![] }));
#[allow(clippy::mut_from_ref)]
pub fn page_console() -> &'static mut Console { unsafe { &mut *CONSOLE.0.get() } }
pub fn page_log(s: &str) { page_console().log.push(s.to_owned()) }
pub fn page_error(s: &str) { page_console().errors.push(s.to_owned()) }
pub trait UnwrapThrowExt<T> { fn unwrap_throw(self) -> T; }
impl<T> UnwrapThrowExt<T> for Option<T> { fn unwrap_throw(self) -> T { self.unwrap() } }
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> { fn unwrap_throw(self) -> T { self.unwrap() } }
pub mod closure { pub use super::{Closure, WasmClosure}; }
pub mod prelude { pub use super::{closure::Closure, wasm_bindgen, JsCast as _, JsValue, UnwrapThrowExt}; }
/// Declares wrappers of values of the page.
#[macro_export]
macro_rules! page_types {
    ($($t:ident),* $(,)?) => { $(
        #[repr(transparent)]
        #[derive(Clone, Debug)]
        pub struct $t(pub $crate::JsValue);
        impl From<$crate::JsValue> for $t { fn from(v: $crate::JsValue) -> Self { $t(v) } }
        impl From<$t> for $crate::JsValue { fn from(v: $t) -> Self { v.0 } }
        impl AsRef<$crate::JsValue> for $t { fn as_ref(&self) -> &$crate::JsValue { &self.0 } }
        impl std::ops::Deref for $t { type Target = $crate::JsValue; fn deref(&self) -> &$crate::JsValue { &self.0 } }
        impl $crate::JsCast for $t {}
    )* };
}
