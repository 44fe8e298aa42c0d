//! Native stand-in for wasm-bindgen. Values are reference counted Rust objects with JS-like
//! identity; closures become callable function objects that notice calls after drop.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::fmt::{self, Debug};
use std::rc::Rc;

extern crate wasm_bindgen_macro;

pub mod prelude {
    pub use crate::closure::Closure;
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt};
    pub use wasm_bindgen_macro::wasm_bindgen;
}

/// A JS object. Identity is the address of the `Rc`.
pub trait JsObject: Any {
    fn class(&self) -> &'static str;
    fn as_any(&self) -> &dyn Any;
    fn debug(&self) -> String {
        format!("[object {}]", self.class())
    }
}

#[derive(Clone)]
enum Val {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    Obj(Rc<dyn JsObject>),
}

#[repr(transparent)]
#[derive(Clone)]
pub struct JsValue(Val);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Val::Undefined);
    pub const NULL: JsValue = JsValue(Val::Null);
    pub const TRUE: JsValue = JsValue(Val::Bool(true));
    pub const FALSE: JsValue = JsValue(Val::Bool(false));
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue(Val::Str(s.into()))
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue(Val::Num(n))
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue(Val::Bool(b))
    }
    pub fn undefined() -> JsValue {
        Self::UNDEFINED
    }
    pub fn null() -> JsValue {
        Self::NULL
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Val::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.0, Val::Null)
    }
    pub fn is_null_or_undefined(&self) -> bool {
        self.is_null() || self.is_undefined()
    }
    pub fn is_object(&self) -> bool {
        matches!(self.0, Val::Obj(_))
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, Val::Str(_))
    }
    pub fn is_function(&self) -> bool {
        self.__class() == Some("Function")
    }
    pub fn is_truthy(&self) -> bool {
        match &self.0 {
            Val::Undefined | Val::Null => false,
            Val::Bool(b) => *b,
            Val::Num(n) => *n != 0.0 && !n.is_nan(),
            Val::Str(s) => !s.is_empty(),
            Val::Obj(_) => true,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Val::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match &self.0 {
            Val::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match &self.0 {
            Val::Bool(n) => Some(*n),
            _ => None,
        }
    }
    #[doc(hidden)]
    pub fn __from_obj(o: Rc<dyn JsObject>) -> JsValue {
        JsValue(Val::Obj(o))
    }
    #[doc(hidden)]
    pub fn __obj(&self) -> Option<&Rc<dyn JsObject>> {
        match &self.0 {
            Val::Obj(o) => Some(o),
            _ => None,
        }
    }
    #[doc(hidden)]
    pub fn __downcast<T: 'static>(&self) -> Option<&T> {
        self.__obj().and_then(|o| o.as_any().downcast_ref())
    }
    #[doc(hidden)]
    pub fn __class(&self) -> Option<&'static str> {
        self.__obj().map(|o| o.class())
    }
    #[doc(hidden)]
    pub fn __call(&self, args: &[JsValue]) -> Result<JsValue, JsValue> {
        match self.__downcast::<__fake::FnObj>() {
            Some(f) => f.call(args),
            None => Err(JsValue::from_str("not a function")),
        }
    }
}

impl PartialEq for JsValue {
    fn eq(&self, other: &Self) -> bool {
        match (&self.0, &other.0) {
            (Val::Undefined, Val::Undefined) | (Val::Null, Val::Null) => true,
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::Num(a), Val::Num(b)) => a == b,
            (Val::Str(a), Val::Str(b)) => a == b,
            (Val::Obj(a), Val::Obj(b)) => {
                std::ptr::eq(Rc::as_ptr(a) as *const u8, Rc::as_ptr(b) as *const u8)
            }
            _ => false,
        }
    }
}
impl Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            Val::Undefined => write!(f, "JsValue(undefined)"),
            Val::Null => write!(f, "JsValue(null)"),
            Val::Bool(b) => write!(f, "JsValue({b})"),
            Val::Num(b) => write!(f, "JsValue({b})"),
            Val::Str(b) => write!(f, "JsValue({b:?})"),
            Val::Obj(b) => write!(f, "JsValue({})", b.debug()),
        }
    }
}
impl Default for JsValue {
    fn default() -> Self {
        Self::UNDEFINED
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::from_str(&s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        JsValue::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(s: bool) -> Self {
        JsValue::from_bool(s)
    }
}
macro_rules! nums { ($($t:ty)*) => {$(impl From<$t> for JsValue { fn from(s: $t) -> Self { JsValue::from_f64(s as f64) } })*} }
nums!(f64 f32 i32 u32 i16 u16 i8 u8 usize isize);
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(s: Option<T>) -> Self {
        match s {
            Some(v) => v.into(),
            None => JsValue::UNDEFINED,
        }
    }
}

pub struct JsError(String);
impl JsError {
    pub fn new(s: &str) -> Self {
        JsError(s.into())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        JsValue::from_str(&e.0)
    }
}

pub fn intern(s: &str) -> &str {
    s
}

#[cold]
#[track_caller]
pub fn throw_str(s: &str) -> ! {
    panic!("JS exception: {s}")
}
#[cold]
#[track_caller]
pub fn throw_val(s: JsValue) -> ! {
    panic!("JS exception: {s:?}")
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    #[track_caller]
    fn unwrap_throw(self) -> T {
        match self {
            Some(v) => v,
            None => panic!("called `Option::unwrap_throw()` on a `None` value"),
        }
    }
    #[track_caller]
    fn expect_throw(self, message: &str) -> T {
        match self {
            Some(v) => v,
            None => panic!("{message}"),
        }
    }
}
impl<T, E: Debug> UnwrapThrowExt<T> for Result<T, E> {
    #[track_caller]
    fn unwrap_throw(self) -> T {
        match self {
            Ok(v) => v,
            Err(e) => panic!("called `Result::unwrap_throw()` on an `Err`: {e:?}"),
        }
    }
    #[track_caller]
    fn expect_throw(self, message: &str) -> T {
        match self {
            Ok(v) => v,
            Err(e) => panic!("{message}: {e:?}"),
        }
    }
}

/// Types that wrap a [JsValue] transparently (same layout).
pub trait JsCast
where
    Self: AsRef<JsValue> + Into<JsValue>,
{
    fn instanceof(val: &JsValue) -> bool;
    fn is_type_of(val: &JsValue) -> bool {
        Self::instanceof(val)
    }
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;

    fn has_type<T: JsCast>(&self) -> bool {
        T::is_type_of(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() {
            Some(self.unchecked_ref())
        } else {
            None
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}
impl JsCast for JsValue {
    fn instanceof(_val: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}

pub mod closure {
    use super::__fake::FnObj;
    use super::*;
    use std::marker::PhantomData;

    pub struct Closure<T: ?Sized> {
        js: JsValue,
        _t: PhantomData<Box<T>>,
        forgotten: bool,
    }
    /// Signatures a closure may have.
    pub trait WasmClosure: 'static {
        #[doc(hidden)]
        fn into_caller(b: Box<Self>) -> Rc<dyn Fn(&[JsValue]) -> JsValue>;
    }
    pub trait IntoWasmClosure<T: ?Sized> {
        #[doc(hidden)]
        fn boxed(self) -> Box<T>;
    }
    pub trait FnRet {
        #[doc(hidden)]
        fn to_js(self) -> JsValue;
    }
    impl FnRet for () {
        fn to_js(self) -> JsValue {
            JsValue::UNDEFINED
        }
    }
    impl FnRet for JsValue {
        fn to_js(self) -> JsValue {
            self
        }
    }
    fn arg<A: JsCast>(args: &[JsValue], i: usize) -> A {
        A::unchecked_from_js(args.get(i).cloned().unwrap_or(JsValue::UNDEFINED))
    }
    macro_rules! sig {
        ($($A:ident $i:tt)*) => {
            impl<$($A: JsCast + 'static,)* R: FnRet + 'static> WasmClosure for dyn Fn($($A),*) -> R {
                fn into_caller(b: Box<Self>) -> Rc<dyn Fn(&[JsValue]) -> JsValue> {
                    #[allow(unused_variables)]
                    Rc::new(move |args: &[JsValue]| b($(arg::<$A>(args, $i)),*).to_js())
                }
            }
            impl<$($A: JsCast + 'static,)* R: FnRet + 'static, F: Fn($($A),*) -> R + 'static> IntoWasmClosure<dyn Fn($($A),*) -> R> for F {
                fn boxed(self) -> Box<dyn Fn($($A),*) -> R> { Box::new(self) }
            }
            impl<$($A: JsCast + 'static,)* R: FnRet + 'static> WasmClosure for dyn FnMut($($A),*) -> R {
                fn into_caller(b: Box<Self>) -> Rc<dyn Fn(&[JsValue]) -> JsValue> {
                    let b = RefCell::new(b);
                    #[allow(unused_variables)]
                    Rc::new(move |args: &[JsValue]| {
                        match b.try_borrow_mut() {
                            Ok(mut f) => f($(arg::<$A>(args, $i)),*).to_js(),
                            Err(_) => {
                                __fake::fault("FnMut closure invoked recursively");
                                JsValue::UNDEFINED
                            }
                        }
                    })
                }
            }
            impl<$($A: JsCast + 'static,)* R: FnRet + 'static, F: FnMut($($A),*) -> R + 'static> IntoWasmClosure<dyn FnMut($($A),*) -> R> for F {
                fn boxed(self) -> Box<dyn FnMut($($A),*) -> R> { Box::new(self) }
            }
        };
    }
    /// Functions that can be called once.
    pub trait WasmClosureFnOnce<T: ?Sized, A, R>: 'static {
        #[doc(hidden)]
        fn into_mut(self) -> Box<T>;
    }
    impl<R: FnRet + 'static, F: FnOnce() -> R + 'static> WasmClosureFnOnce<dyn FnMut() -> R, (), R> for F {
        fn into_mut(self) -> Box<dyn FnMut() -> R> {
            let mut f = Some(self);
            Box::new(move || (f.take().expect("FnOnce called more than once"))())
        }
    }
    impl<A: JsCast + 'static, R: FnRet + 'static, F: FnOnce(A) -> R + 'static> WasmClosureFnOnce<dyn FnMut(A) -> R, (A,), R> for F {
        fn into_mut(self) -> Box<dyn FnMut(A) -> R> {
            let mut f = Some(self);
            Box::new(move |a| (f.take().expect("FnOnce called more than once"))(a))
        }
    }

    sig!();
    sig!(A 0);
    sig!(A 0 B 1);

    impl<T: ?Sized + WasmClosure> Closure<T> {
        pub fn new<F: IntoWasmClosure<T> + 'static>(f: F) -> Closure<T> {
            Self::wrap(f.boxed())
        }
        pub fn wrap(b: Box<T>) -> Closure<T> {
            Closure {
                js: JsValue::__from_obj(Rc::new(FnObj::new(T::into_caller(b)))),
                _t: PhantomData,
                forgotten: false,
            }
        }
        pub fn once<F: WasmClosureFnOnce<T, A, R>, A, R>(f: F) -> Closure<T> {
            Self::wrap(f.into_mut())
        }
        pub fn once_into_js<F: WasmClosureFnOnce<T, A, R>, A, R>(f: F) -> JsValue {
            Self::once(f).into_js_value()
        }
        pub fn into_js_value(mut self) -> JsValue {
            self.forgotten = true;
            self.js.clone()
        }
        pub fn forget(mut self) {
            self.forgotten = true;
        }
    }
    impl<T: ?Sized> AsRef<JsValue> for Closure<T> {
        fn as_ref(&self) -> &JsValue {
            &self.js
        }
    }
    impl<T: ?Sized> Drop for Closure<T> {
        fn drop(&mut self) {
            if !self.forgotten {
                if let Some(f) = self.js.__downcast::<FnObj>() {
                    f.kill();
                }
            }
        }
    }
}

#[doc(hidden)]
pub mod __fake {
    use super::*;
    pub struct FnObj {
        f: RefCell<Option<Rc<dyn Fn(&[JsValue]) -> JsValue>>>,
        live: Cell<bool>,
    }
    impl FnObj {
        pub fn new(f: Rc<dyn Fn(&[JsValue]) -> JsValue>) -> Self {
            FnObj { f: RefCell::new(Some(f)), live: Cell::new(true) }
        }
        pub fn kill(&self) {
            self.live.set(false);
            let f = self.f.borrow_mut().take();
            drop(f);
        }
        pub fn is_live(&self) -> bool {
            self.live.get()
        }
        pub fn call(&self, args: &[JsValue]) -> Result<JsValue, JsValue> {
            let f = self.f.borrow().clone();
            match f {
                Some(f) => Ok(f(args)),
                None => {
                    fault("closure invoked after being dropped");
                    Err(JsValue::from_str("closure invoked recursively or after being dropped"))
                }
            }
        }
    }
    impl JsObject for FnObj {
        fn class(&self) -> &'static str {
            "Function"
        }
        fn as_any(&self) -> &dyn Any {
            self
        }
    }

    thread_local!(static FAULTS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) });
    /// Something that on a real page would be an error in the JS console.
    pub fn fault(s: &str) {
        let _ = FAULTS.try_with(|f| f.borrow_mut().push(s.to_string()));
    }
    pub fn take_faults() -> Vec<String> {
        FAULTS.with(|f| std::mem::take(&mut *f.borrow_mut()))
    }

    /// A script given with `inline_js`: module that declares it, text.
    #[repr(C)]
    pub struct InlineJs(pub &'static str, pub &'static str);

    /// An imported static; carries the JS snippet it was declared with.
    pub struct JsStatic(pub &'static str);
    unsafe impl Sync for JsStatic {}
    impl std::ops::Deref for JsStatic {
        type Target = JsValue;
        fn deref(&self) -> &JsValue {
            const U: &JsValue = &JsValue::UNDEFINED;
            U
        }
    }

    /// Implements a transparent JS class wrapper.
    #[macro_export]
    macro_rules! __js_class {
        ($T:ident < $P:ty $(, $A:ty)*; $inst:expr) => {
            #[repr(transparent)]
            #[derive(Clone, PartialEq, Debug)]
            pub struct $T { obj: $P }
            impl Eq for $T {}
            impl ::std::ops::Deref for $T { type Target = $P; fn deref(&self) -> &$P { &self.obj } }
            impl AsRef<$T> for $T { fn as_ref(&self) -> &$T { self } }
            $crate::__js_class!(@anc $T $P);
            $($crate::__js_class!(@anc $T $A);)*
            impl $crate::JsCast for $T {
                fn instanceof(val: &$crate::JsValue) -> bool { ($inst)(val) }
                fn unchecked_from_js(val: $crate::JsValue) -> Self { $T { obj: <$P as $crate::JsCast>::unchecked_from_js(val) } }
                fn unchecked_from_js_ref(val: &$crate::JsValue) -> &Self { unsafe { &*(val as *const $crate::JsValue as *const Self) } }
            }
        };
        (@anc $T:ident $A:ty) => {
            impl AsRef<$A> for $T { fn as_ref(&self) -> &$A { unsafe { &*(self as *const $T as *const $A) } } }
            impl From<$T> for $A { fn from(v: $T) -> $A { unsafe { ::std::mem::transmute::<$T, $A>(v) } } }
        };
    }
}
