//! Conformance harness for reading and changing documents, in Rust and
//! through the C interface: one JSON record per line in, what the real code
//! did out.  It decides nothing.
//!   tree: cs (document), ops -> answers of the Rust API, then the document and how it is written
//!   capi: ops                -> answers of the C API (slots that are not valid are skipped)
use serde_json::{json, Map, Value as J};
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use styx_format::{format_value, FormatOptions};
use styx_tree::{Document, Payload, Value};

#[allow(dead_code)]
#[path = "/repo/crates/styx-ffi/src/lib.rs"]
mod ffi;
use ffi::*;

fn cps(s: &str) -> J {
    J::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn text(v: &J) -> String {
    v.as_array()
        .map(|a| a.iter().filter_map(|c| char::from_u32(c.as_u64().unwrap_or(0) as u32)).collect())
        .unwrap_or_default()
}
fn opt(s: Option<&str>) -> J {
    match s {
        None => json!([]),
        Some(s) => {
            let mut v = vec![json!(0)];
            v.extend(s.chars().map(|c| json!(c as u32)));
            J::Array(v)
        }
    }
}

/// a value without its spans and scalar notations
fn meaning(v: &Value) -> J {
    let g = opt(v.tag_name());
    match &v.payload {
        None => json!([g, "none", [], [], []]),
        Some(Payload::Scalar(s)) => json!([g, "scalar", cps(&s.text), [], []]),
        Some(Payload::Sequence(s)) => json!([g, "seq", [], s.items.iter().map(meaning).collect::<Vec<_>>(), []]),
        Some(Payload::Object(o)) => json!([g, "obj", [], [], o.entries.iter().map(|e| json!([meaning(&e.key), meaning(&e.value), opt(e.doc_comment.as_deref())])).collect::<Vec<_>>()]),
    }
}
fn found(v: Option<&Value>) -> J {
    match v {
        None => json!([]),
        Some(v) => json!([meaning(v)]),
    }
}

/// the values that operations put into documents
fn build(v: &J) -> Value {
    match v[0].as_str().unwrap() {
        "unit" => Value::unit(),
        "scalar" => Value::scalar(text(&v[1])),
        "tag" => Value::tag(text(&v[1])),
        "seq" => Value::seq(v[1].as_array().unwrap().iter().map(build).collect()),
        "obj" => Value::object(),
        "tagged" => Value::tagged(text(&v[1]), build(&v[2])),
        o => panic!("value {o}"),
    }
}

fn tree(src: &str, ops: &[J]) -> J {
    let mut doc = match Document::parse(src) {
        Ok(d) => d,
        Err(_) => return json!({"ok": false, "answers": [], "end": [], "written": []}),
    };
    let mut answers = vec![];
    for op in ops {
        let a = |i: usize| text(&op[i]);
        answers.push(match op[0].as_str().unwrap() {
            "get" => found(doc.get(&a(1))),
            "vget" => found(doc.get(&a(1)).and_then(|v| v.get(&a(2)))),
            "set" => match doc.root.get_mut(&a(1)).and_then(|v| v.get_mut(&a(2))) {
                Some(v) => {
                    *v = build(&op[3]);
                    json!(true)
                }
                None => json!(false),
            },
            "insert" => {
                doc.root.insert(a(1), build(&op[2]));
                json!(true)
            }
            "insertin" => match doc.root.get_mut(&a(1)).and_then(|v| v.get_mut(&a(2))).and_then(|v| v.as_object_mut()) {
                Some(o) => {
                    o.insert(a(3), build(&op[4]));
                    json!(true)
                }
                None => json!(false),
            },
            "insertunit" => {
                doc.root.insert_unit(build(&op[1]));
                json!(true)
            }
            "push" => match doc.root.get_mut(&a(1)).and_then(|v| v.get_mut(&a(2))).and_then(|v| v.as_sequence_mut()) {
                Some(s) => {
                    s.push(build(&op[3]));
                    json!(true)
                }
                None => json!(false),
            },
            "has" => json!(doc.root.contains_key(&a(1))),
            "len" => json!(doc.root.len()),
            "unit" => {
                assert_eq!(doc.root.contains_unit_key(), doc.root.get_unit().is_some());
                found(doc.root.get_unit())
            }
            o => panic!("op {o}"),
        });
    }
    let root = Value { tag: None, payload: Some(Payload::Object(doc.root)), span: None };
    json!({"ok": true, "answers": answers, "end": meaning(&root), "written": cps(&format_value(&root, FormatOptions::default()))})
}

#[derive(Default)]
struct C {
    docs: HashMap<u64, *mut StyxDocument>,
    values: HashMap<u64, (u64, *const StyxValue)>,
    objects: HashMap<u64, (u64, *const StyxObject)>,
    seqs: HashMap<u64, (u64, *const StyxSequence)>,
    strings: Vec<*mut std::os::raw::c_char>,
}
impl C {
    unsafe fn take(&mut self, s: *mut std::os::raw::c_char) -> J {
        if s.is_null() {
            return json!([]);
        }
        let r = opt(Some(&CStr::from_ptr(s).to_string_lossy()));
        self.strings.push(s);
        if self.strings.len() > 3 {
            styx_free_string(self.strings.remove(1));
        }
        r
    }
    fn value(&mut self, slot: &J, d: u64, v: *const StyxValue) -> J {
        let slot = slot.as_u64().unwrap();
        if v.is_null() {
            self.values.remove(&slot);
        } else {
            self.values.insert(slot, (d, v));
        }
        json!(!v.is_null())
    }
    unsafe fn op(&mut self, op: &J) -> J {
        let n = |i: usize| op[i].as_u64().unwrap();
        let c = |i: usize| CString::new(text(&op[i])).unwrap();
        let name = op[0].as_str().unwrap();
        match name {
            "parse" => {
                if self.docs.contains_key(&n(1)) {
                    return json!("skip");
                }
                let s = c(2);
                let r = styx_parse(s.as_ptr());
                drop(s);
                let ok = !r.document.is_null();
                let e = self.take(r.error);
                if ok {
                    self.docs.insert(n(1), r.document);
                }
                return json!([ok, e != json!([])]);
            }
            "null" => {
                use std::ptr::null;
                let k = CString::new("a").unwrap();
                styx_free_document(std::ptr::null_mut());
                styx_free_string(std::ptr::null_mut());
                let r = styx_parse(null());
                let d = self.docs.values().next().copied().unwrap_or(std::ptr::null_mut());
                let e = self.take(r.error);
                // text that is not UTF-8
                let b = CString::new(vec![b'a', b' ', 0xff]).unwrap();
                let bad = styx_parse(b.as_ptr());
                let be = self.take(bad.error);
                let v = self.values.values().next().map(|v| v.1).unwrap_or(null());
                let o = self.objects.values().next().map(|v| v.1).unwrap_or(null());
                let odd = bad.document.is_null() && be != json!([]) && styx_document_get(d, b.as_ptr()).is_null() && styx_value_get(v, b.as_ptr()).is_null()
                    && styx_object_get(o, b.as_ptr()).is_null() && styx_value_get(v, null()).is_null() && styx_object_get(o, null()).is_null();
                return json!([
                    r.document.is_null() && e != json!([]),
                    styx_document_root(null()).is_null() && styx_document_get(null(), k.as_ptr()).is_null() && styx_document_get(d, null()).is_null(),
                    matches!(styx_value_payload_kind(null()), StyxPayloadKind::None) && !styx_value_is_unit(null()) && styx_value_tag(null()).is_null() && styx_value_scalar(null()).is_null(),
                    styx_value_as_object(null()).is_null() && styx_value_as_sequence(null()).is_null() && styx_value_get(null(), k.as_ptr()).is_null(),
                    styx_object_len(null()) == 0 && styx_object_get(null(), k.as_ptr()).is_null() && styx_object_key_at(null(), 0).is_null() && styx_object_value_at(null(), 0).is_null(),
                    styx_sequence_len(null()) == 0 && styx_sequence_get(null(), 0).is_null(),
                    odd
                ]);
            }
            _ => {}
        }
        match name {
            "free" | "root" | "dget" => {
                let (d, p) = match self.docs.get(&n(1)) {
                    Some(p) => (n(1), *p),
                    None => return json!("skip"),
                };
                match name {
                    "free" => {
                        self.docs.remove(&d);
                        self.values.retain(|_, v| v.0 != d);
                        self.objects.retain(|_, v| v.0 != d);
                        self.seqs.retain(|_, v| v.0 != d);
                        styx_free_document(p);
                        json!(true)
                    }
                    "root" => {
                        let o = styx_document_root(p);
                        self.objects.insert(n(2), (d, o));
                        json!(!o.is_null())
                    }
                    _ => {
                        let v = styx_document_get(p, c(2).as_ptr());
                        self.value(&op[3], d, v)
                    }
                }
            }
            "read" | "asobj" | "asseq" | "vget" => {
                let (d, v) = match self.values.get(&n(1)) {
                    Some(x) => *x,
                    None => return json!("skip"),
                };
                match name {
                    "read" => {
                        let k = match styx_value_payload_kind(v) {
                            StyxPayloadKind::None => "none",
                            StyxPayloadKind::Scalar => "scalar",
                            StyxPayloadKind::Sequence => "seq",
                            StyxPayloadKind::Object => "obj",
                        };
                        let (t, s) = (styx_value_tag(v), styx_value_scalar(v));
                        json!([k, styx_value_is_unit(v), self.take(t), self.take(s)])
                    }
                    "asobj" => {
                        let o = styx_value_as_object(v);
                        if o.is_null() {
                            self.objects.remove(&n(2));
                        } else {
                            self.objects.insert(n(2), (d, o));
                        }
                        json!(!o.is_null())
                    }
                    "asseq" => {
                        let o = styx_value_as_sequence(v);
                        if o.is_null() {
                            self.seqs.remove(&n(2));
                        } else {
                            self.seqs.insert(n(2), (d, o));
                        }
                        json!(!o.is_null())
                    }
                    _ => {
                        let w = styx_value_get(v, c(2).as_ptr());
                        self.value(&op[3], d, w)
                    }
                }
            }
            "olen" | "oget" | "okey" | "oval" => {
                let (d, o) = match self.objects.get(&n(1)) {
                    Some(x) => *x,
                    None => return json!("skip"),
                };
                match name {
                    "olen" => json!(styx_object_len(o)),
                    "oget" => {
                        let v = styx_object_get(o, c(2).as_ptr());
                        self.value(&op[3], d, v)
                    }
                    "okey" => {
                        let v = styx_object_key_at(o, n(2) as usize);
                        self.value(&op[3], d, v)
                    }
                    _ => {
                        let v = styx_object_value_at(o, n(2) as usize);
                        self.value(&op[3], d, v)
                    }
                }
            }
            "slen" | "sget" => {
                let (d, s) = match self.seqs.get(&n(1)) {
                    Some(x) => *x,
                    None => return json!("skip"),
                };
                if name == "slen" {
                    json!(styx_sequence_len(s))
                } else {
                    let v = styx_sequence_get(s, n(2) as usize);
                    self.value(&op[3], d, v)
                }
            }
            o => panic!("op {o}"),
        }
    }
}

fn capi(ops: &[J]) -> J {
    let mut c = C::default();
    let r = ops.iter().map(|o| unsafe { c.op(o) }).collect::<Vec<_>>();
    unsafe {
        for s in std::mem::take(&mut c.strings) {
            styx_free_string(s);
        }
        for (_, d) in std::mem::take(&mut c.docs) {
            styx_free_document(d);
        }
    }
    J::Array(r)
}

fn main() {
    let wants: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let rec: J = serde_json::from_str(&line.unwrap()).unwrap();
        let mut m: Map<String, J> = rec.as_object().unwrap().clone();
        let mut panics = vec![];
        for w in &wants {
            let ops = rec["ops"].as_array().unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| match w.as_str() {
                "tree" => tree(&text(&rec["cs"]), ops),
                "capi" => capi(ops),
                other => panic!("unknown request {other}"),
            }));
            match r {
                Ok(v) => m.insert(w.clone(), v),
                Err(_) => {
                    panics.push(json!(w));
                    m.insert(w.clone(), json!([]))
                }
            };
        }
        m.insert("panics".into(), J::Array(panics));
        serde_json::to_writer(&mut out, &J::Object(m)).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
