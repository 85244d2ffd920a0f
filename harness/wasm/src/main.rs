//! Conformance harness for the browser bindings: one JSON record per line in,
//! what the bindings gave out.  It decides nothing.
//!   wasm: cs, js (JSON text as code points) ->
//!     told: [success, [[start, end, severity]...], validate]
//!     made: [success, json, the JSON of jsonString] or [success]
//!     from: [success, text] or [success], back: to_json of that text
use serde_json::{json, Map, Value as J};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn text(v: &J) -> String { v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect() }
fn cps(s: &str) -> J { json!(s.chars().map(|c| c as u32).collect::<Vec<_>>()) }
/// JSON as tuples: ["null"], ["bool", 0 or 1], ["num", text], ["str", text], ["arr", items], ["obj", [[name, value]...]]
fn tup(v: &J) -> J {
    match v {
        J::Null => json!(["null"]),
        J::Bool(b) => json!(["bool", *b as u8]),
        J::Number(n) => json!(["num", cps(&n.to_string())]),
        J::String(s) => json!(["str", cps(s)]),
        J::Array(a) => json!(["arr", a.iter().map(tup).collect::<Vec<_>>()]),
        J::Object(o) => json!(["obj", o.iter().map(|(k, v)| json!([cps(k), tup(v)])).collect::<Vec<_>>()]),
    }
}
fn made(v: &J) -> J {
    if v["success"] != true { return json!([if v["error"].is_string() { "refused" } else { "nothing" }]) }
    let s = v["jsonString"].as_str().and_then(|s| serde_json::from_str::<J>(s).ok());
    json!(["ok", tup(&v["json"]), s.map(|s| tup(&s)).unwrap_or(json!(["none"]))])
}
fn wasm(rec: &J) -> J {
    let t = text(&rec["cs"]);
    let mut at = vec![0usize; t.len() + 2];
    for (i, (b, c)) in t.char_indices().enumerate() { for k in 0..c.len_utf8() { at[b + k] = i } }
    at[t.len()] = t.chars().count();
    let pos = |v: &J| v.as_u64().map(|b| if (b as usize) <= t.len() { at[b as usize] as i64 } else { -1 }).unwrap_or(-1);
    let p = styx_wasm::parse(&t);
    let ds: Vec<J> = p["diagnostics"].as_array().map(|a| a.iter().map(|d| json!([pos(&d["start"]), pos(&d["end"]), d["severity"]])).collect()).unwrap_or_default();
    let told = json!([if p["success"] == true { "ok" } else { "refused" }, ds, if styx_wasm::validate(&t) { "ok" } else { "refused" }]);
    let from = styx_wasm::from_json(&text(&rec["js"]));
    let (from, back) = match from["styxString"].as_str() {
        Some(s) if from["success"] == true => (json!(["ok", cps(s)]), made(&styx_wasm::to_json(s))),
        _ => (json!([if from["error"].is_string() { "refused" } else { "nothing" }, []]), json!(["none"])),
    };
    json!([told, made(&styx_wasm::to_json(&t)), from, back])
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let rec: J = serde_json::from_str(&line.unwrap()).unwrap();
        let mut m: Map<String, J> = rec.as_object().unwrap().clone();
        let mut panics = vec![];
        m.insert("wasm".into(), match catch_unwind(AssertUnwindSafe(|| wasm(&rec))) {
            Ok(v) => v,
            Err(e) => { panics.push(json!(["wasm", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()])); J::Null }
        });
        m.insert("panics".into(), json!(panics));
        serde_json::to_writer(&mut out, &J::Object(m)).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
