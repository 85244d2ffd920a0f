//! Conformance harness for reading documents into Rust types: one JSON record
//! per line in, what the real code did out.  It decides nothing.
use facet::Facet;
use facet_styx::{Documented, RawStyx};
use serde_json::{json, Map, Value as J};
use styx_format::FormatOptions;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod shapes;
mod types;
use types::*;

pub fn cps(s: &str) -> J {
    J::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn text(v: &J) -> String {
    v.as_array()
        .map(|a| a.iter().filter_map(|c| char::from_u32(c.as_u64().unwrap_or(0) as u32)).collect())
        .unwrap_or_default()
}

/// A value, as the specification writes values down
pub trait Dump {
    fn d(&self) -> J;
    /// as a field of a record, where what is documented has its documentation
    fn field(&self) -> J {
        self.d()
    }
}
macro_rules! ints { ($($t:ty),*) => { $(impl Dump for $t { fn d(&self) -> J { json!(["n", cps(&self.to_string())]) } })* } }
ints!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128, usize, isize);
impl Dump for bool {
    fn d(&self) -> J {
        json!(["b", [*self as u8]])
    }
}
impl Dump for char {
    fn d(&self) -> J {
        json!(["c", [*self as u32]])
    }
}
/// The shortest digits: 0.DIGITS * 10^X
fn float(shortest: String, nan: bool, inf: bool, neg: bool) -> J {
    if nan {
        return json!(["f", ["nan", 0, [], 0]]);
    }
    if inf {
        return json!(["f", ["inf", neg as u8, [], 0]]);
    }
    let s = shortest.trim_start_matches('-');
    let (m, e) = s.split_once('e').unwrap();
    let d: String = m.chars().filter(|c| *c != '.').collect();
    let d = d.trim_end_matches('0');
    let x = if d.is_empty() { 0 } else { e.parse::<i32>().unwrap() + 1 };
    json!(["f", ["fin", (neg && !d.is_empty()) as u8, cps(d), x]])
}
impl Dump for f64 {
    fn d(&self) -> J {
        float(format!("{self:e}"), self.is_nan(), self.is_infinite(), *self < 0.0)
    }
}
impl Dump for f32 {
    fn d(&self) -> J {
        float(format!("{self:e}"), self.is_nan(), self.is_infinite(), *self < 0.0)
    }
}
impl Dump for String {
    fn d(&self) -> J {
        json!(["s", cps(self)])
    }
}
impl Dump for &str {
    fn d(&self) -> J {
        json!(["s", cps(self)])
    }
}
impl Dump for Cow<'_, str> {
    fn d(&self) -> J {
        json!(["s", cps(self)])
    }
}
impl Dump for RawStyx {
    fn d(&self) -> J {
        json!(["s", cps(self.as_str())])
    }
}
impl<T: Dump> Dump for Option<T> {
    fn d(&self) -> J {
        json!(["o", self.iter().map(|x| x.d()).collect::<Vec<_>>()])
    }
}
impl<T: Dump> Dump for Vec<T> {
    fn d(&self) -> J {
        json!(["l", self.iter().map(|x| x.d()).collect::<Vec<_>>()])
    }
}
impl<T: Dump> Dump for BTreeSet<T> {
    fn d(&self) -> J {
        json!(["l", self.iter().map(|x| x.d()).collect::<Vec<_>>()])
    }
}
impl<T: Dump, const N: usize> Dump for [T; N] {
    fn d(&self) -> J {
        json!(["t", self.iter().map(|x| x.d()).collect::<Vec<_>>()])
    }
}
impl<T: Dump> Dump for Box<T> {
    fn d(&self) -> J {
        (**self).d()
    }
}
impl<A: Dump> Dump for (A,) {
    fn d(&self) -> J {
        json!(["t", [self.0.d()]])
    }
}
impl<A: Dump, B: Dump> Dump for (A, B) {
    fn d(&self) -> J {
        json!(["t", [self.0.d(), self.1.d()]])
    }
}
impl<A: Dump, B: Dump, C: Dump> Dump for (A, B, C) {
    fn d(&self) -> J {
        json!(["t", [self.0.d(), self.1.d(), self.2.d()]])
    }
}
impl<K: Dump, T: Dump> Dump for BTreeMap<K, T> {
    fn d(&self) -> J {
        json!(["m", self.iter().map(|(k, v)| json!([k.d()[1], v.d()])).collect::<Vec<_>>()])
    }
}
/// What is documented is a key or a field; elsewhere a documented value is its value
impl<T: Dump> Dump for Documented<T> {
    fn d(&self) -> J {
        self.value.d()
    }
    fn field(&self) -> J {
        json!(["d", [self.value.d(), self.doc.iter().flatten().map(|l| cps(l)).collect::<Vec<_>>()]])
    }
}
impl<T: Dump> Dump for HashMap<Documented<String>, T> {
    fn d(&self) -> J {
        let mut ks: Vec<_> = self.iter().collect();
        ks.sort_by(|a, b| a.0.value.cmp(&b.0.value));
        let doc = |k: &Documented<String>| k.doc.iter().flatten().map(|l| cps(l)).collect::<Vec<_>>();
        json!(["m", ks.iter().map(|(k, v)| json!([cps(&k.value), ["d", [v.d(), doc(k)]]])).collect::<Vec<_>>()])
    }
}

fn answer<T: Dump, E: std::fmt::Display>(r: Result<T, E>) -> J {
    match r {
        Ok(v) => json!({"ok": true, "v": v.d(), "why": ""}),
        Err(e) => {
            let why: String = e.to_string().chars().filter(|c| c.is_ascii() && *c != '\u{1b}').take(160).collect();
            json!({"ok": false, "v": [], "why": why})
        }
    }
}

/// How to read: as a document or as an expression, with facet or with serde
pub fn facet_doc<T: Facet<'static> + Dump>(s: &str) -> J {
    answer(facet_styx::from_str::<T>(s))
}
pub fn facet_expr<T: Facet<'static> + Dump>(s: &str) -> J {
    answer(facet_styx::from_str_expr::<T>(s))
}
pub fn serde_doc<T: serde::de::DeserializeOwned + Dump>(s: &str) -> J {
    answer(serde_styx::from_str::<T>(s))
}

/// What writers make of the value a document is read as, and how that is
/// read: [writer, written, text, read]
fn wrote<T: Dump>(value: Result<T, String>, texts: Vec<(&str, Result<String, String>)>, read: fn(&str) -> J) -> J {
    let mut a = answer(value);
    let list: Vec<J> = texts
        .into_iter()
        .map(|(n, t)| match t {
            Ok(t) => json!([n, true, cps(&t), read(&t)]),
            Err(e) => json!([n, false, cps(&e), {"ok": false, "v": [], "why": ""}]),
        })
        .collect();
    a["wrote"] = J::Array(list);
    a
}
thread_local! { static OPTIONS: std::cell::RefCell<FormatOptions> = Default::default(); }
pub fn options() -> FormatOptions {
    OPTIONS.with(|o| o.borrow().clone())
}
pub fn wrote_facet<T: Facet<'static> + Dump>(s: &str) -> J {
    match facet_styx::from_str::<T>(s) {
        Err(e) => wrote::<T>(Err(e.to_string()), vec![], facet_doc::<T>),
        Ok(v) => {
            let texts = vec![
                ("pretty", facet_styx::to_string(&v).map_err(|e| e.to_string())),
                ("compact", facet_styx::to_string_compact(&v).map_err(|e| e.to_string())),
                ("options", facet_styx::to_string_with_options(&v, &options()).map_err(|e| e.to_string())),
            ];
            wrote(Ok(v), texts, facet_doc::<T>)
        }
    }
}
pub fn wrote_expr<T: Facet<'static> + Dump>(s: &str) -> J {
    match facet_styx::from_str_expr::<T>(s) {
        Err(e) => wrote::<T>(Err(e.to_string()), vec![], facet_expr::<T>),
        Ok(v) => {
            let texts = vec![("expr", facet_styx::peek_to_string_expr(facet_reflect::Peek::new(&v)).map_err(|e| e.to_string()))];
            wrote(Ok(v), texts, facet_expr::<T>)
        }
    }
}
pub fn wrote_serde<T: serde::de::DeserializeOwned + serde::Serialize + Dump>(s: &str) -> J {
    match serde_styx::from_str::<T>(s) {
        Err(e) => wrote::<T>(Err(e.to_string()), vec![], serde_doc::<T>),
        Ok(v) => {
            let texts = vec![
                ("pretty", serde_styx::to_string(&v).map_err(|e| e.to_string())),
                ("compact", serde_styx::to_string_compact(&v).map_err(|e| e.to_string())),
                ("options", serde_styx::to_string_with_options(&v, &options()).map_err(|e| e.to_string())),
            ];
            wrote(Ok(v), texts, serde_doc::<T>)
        }
    }
}

/// The borrowing variant, with text fields that may borrow
fn borrowed(s: &str) -> J {
    let s: &'static str = Box::leak(s.to_string().into_boxed_str());
    answer(facet_styx::from_str_borrowed::<BTreeMap<String, Cow<str>>>(s))
}

fn main() {
    if std::env::var_os("SHOWPANIC").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    let body = move || {
        let stdin = std::io::stdin();
        let mut out = std::io::BufWriter::new(std::io::stdout().lock());
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let rec: J = serde_json::from_str(&line).unwrap();
            let mut m: Map<String, J> = rec.as_object().unwrap().clone();
            let mut panics = vec![];
            let src = text(&rec["cs"]);
            let how = rec["how"].as_str().unwrap();
            let (how, ty) = (if how == "unit" { "facet" } else { how }, rec["tn"].as_str().unwrap());
            let mut f = FormatOptions::default();
            if let Some(w) = rec.get("width").and_then(|x| x.as_u64()) {
                f = f.max_width(w as usize);
            }
            f = match rec.get("style").and_then(|x| x.as_str()) {
                Some("multiline") => f.multiline(),
                Some("inline") => f.inline(),
                _ => f,
            };
            f = match rec.get("indent").and_then(|x| x.as_str()) {
                Some("tab") => f.indent("\t"),
                Some("4") => f.indent("    "),
                _ => f,
            };
            OPTIONS.with(|o| *o.borrow_mut() = f);
            let got = catch_unwind(AssertUnwindSafe(|| {
                if how == "borrow" {
                    borrowed(&src)
                } else if how == "shape" {
                    shapes::shape(ty, &src)
                } else {
                    read(how, ty, &src)
                }
            }));
            match got {
                Ok(v) => {
                    m.insert("read".into(), v);
                }
                Err(_) => {
                    panics.push(json!(how));
                    m.insert("read".into(), json!({"ok": false, "v": [], "why": "panic"}));
                }
            }
            m.insert("panics".into(), J::Array(panics));
            serde_json::to_writer(&mut out, &J::Object(m)).unwrap();
            out.write_all(b"\n").unwrap();
            out.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(512 << 20).spawn(body).unwrap().join().unwrap();
}
