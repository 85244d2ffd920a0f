//! Stands in for wasm-bindgen where there is no JavaScript.
pub type JsValue = serde_json::Value;
/// The constants of the real type.
pub trait Constants {
    const NULL: JsValue = serde_json::Value::Null;
    const UNDEFINED: JsValue = serde_json::Value::Null;
    const TRUE: JsValue = serde_json::Value::Bool(true);
    const FALSE: JsValue = serde_json::Value::Bool(false);
    fn from_str(s: &str) -> JsValue { serde_json::Value::String(s.to_string()) }
    fn from_bool(b: bool) -> JsValue { serde_json::Value::Bool(b) }
    fn null() -> JsValue { serde_json::Value::Null }
}
impl Constants for JsValue {}
pub mod prelude {
    pub use crate::{Constants, JsValue};
    pub use wasm_bindgen_macro_stub::wasm_bindgen;
}
