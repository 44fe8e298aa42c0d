//! Native stand-in for js-sys (the parts a DOM library touches).
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::{JsObject, JsValue, __js_class};

fn is_obj(v: &JsValue) -> bool {
    v.is_object()
}
__js_class!(Object < JsValue; is_obj);

struct ArrayObj(RefCell<Vec<JsValue>>);
impl JsObject for ArrayObj {
    fn class(&self) -> &'static str {
        "Array"
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
struct PlainObj;
impl JsObject for PlainObj {
    fn class(&self) -> &'static str {
        "Object"
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Object {
        wasm_bindgen::JsCast::unchecked_from_js(JsValue::__from_obj(Rc::new(PlainObj)))
    }
    pub fn is(a: &JsValue, b: &JsValue) -> bool {
        a == b
    }
}

__js_class!(Array < Object, JsValue; |v: &JsValue| v.__class() == Some("Array"));
impl Array {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Array {
        wasm_bindgen::JsCast::unchecked_from_js(JsValue::__from_obj(Rc::new(ArrayObj(RefCell::new(vec![])))))
    }
    fn inner(&self) -> &RefCell<Vec<JsValue>> {
        &AsRef::<JsValue>::as_ref(self).__downcast::<ArrayObj>().expect("not an array").0
    }
    pub fn of1(a: &JsValue) -> Array {
        [a.clone()].into_iter().collect()
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        [a.clone(), b.clone()].into_iter().collect()
    }
    pub fn pop(&self) -> JsValue {
        self.inner().borrow_mut().pop().unwrap_or(JsValue::UNDEFINED)
    }
    pub fn set(&self, i: u32, v: JsValue) {
        let mut a = self.inner().borrow_mut();
        let i = i as usize;
        if a.len() <= i {
            a.resize(i + 1, JsValue::UNDEFINED);
        }
        a[i] = v;
    }
    pub fn new_with_length(n: u32) -> Array {
        (0..n).map(|_| JsValue::UNDEFINED).collect()
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        let mut i = self.inner().borrow_mut();
        i.push(v.clone());
        i.len() as u32
    }
    pub fn length(&self) -> u32 {
        self.inner().borrow().len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.inner().borrow().get(i as usize).cloned().unwrap_or(JsValue::UNDEFINED)
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.inner().borrow().clone()
    }
}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<T: IntoIterator<Item = A>>(iter: T) -> Self {
        let a = Array::new();
        for v in iter {
            a.push(v.as_ref());
        }
        a
    }
}

__js_class!(Function < Object, JsValue; |v: &JsValue| v.is_function());
impl Function {
    pub fn call0(&self, _ctx: &JsValue) -> Result<JsValue, JsValue> {
        AsRef::<JsValue>::as_ref(self).__call(&[])
    }
    pub fn call1(&self, _ctx: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> {
        AsRef::<JsValue>::as_ref(self).__call(&[a.clone()])
    }
}
