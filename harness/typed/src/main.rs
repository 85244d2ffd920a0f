//! Conformance harness for schemas and typed reading: one JSON record per
//! line in, what the real code did out.  It decides nothing.
use facet_styx::{SchemaFile, ValidationErrorKind, Validator};
use serde_json::{json, Map, Value as J};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use styx_parse::Span;

fn cps(s: &str) -> J {
    J::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn text(v: &J) -> String {
    v.as_array()
        .map(|a| a.iter().filter_map(|c| char::from_u32(c.as_u64().unwrap_or(0) as u32)).collect())
        .unwrap_or_default()
}

/// byte offset -> character index; -1 when not on a character boundary
struct Pos(Vec<i64>);
impl Pos {
    fn new(s: &str) -> Pos {
        let mut v = vec![-1i64; s.len() + 1];
        let mut n = 0;
        for (i, (b, _)) in s.char_indices().enumerate() {
            v[b] = i as i64;
            n = i as i64 + 1;
        }
        v[s.len()] = n;
        Pos(v)
    }
    fn at(&self, b: u32) -> i64 {
        self.0.get(b as usize).copied().unwrap_or(-2)
    }
    fn span(&self, s: Option<Span>) -> J {
        match s {
            None => json!([]),
            Some(s) => json!([self.at(s.start), self.at(s.end)]),
        }
    }
}

fn validate(schema: &str, doc: &str) -> J {
    let file = match facet_styx::from_str::<SchemaFile>(schema) {
        Ok(f) => f,
        Err(e) => return json!({"reads": false, "why": e.to_string(), "parses": false, "errors": [], "warnings": []}),
    };
    let value = match styx_tree::parse(doc) {
        Ok(v) => v,
        Err(_) => return json!({"reads": true, "why": "", "parses": false, "errors": [], "warnings": []}),
    };
    let p = Pos::new(doc);
    let res = Validator::new(&file).validate_document(&value);
    let errors: Vec<J> = res
        .errors
        .iter()
        .map(|e| {
            let dbg = format!("{:?}", e.kind);
            let name: String = dbg.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
            let detail = match &e.kind {
                ValidationErrorKind::MissingField { field } => cps(field),
                ValidationErrorKind::UnknownType { name } => cps(name),
                ValidationErrorKind::InvalidVariant { got, .. } => cps(got),
                ValidationErrorKind::UnknownField { field, suggestion, .. } => {
                    let s = match suggestion {
                        None => json!([]),
                        Some(s) => {
                            let mut v = vec![json!(0)];
                            v.extend(s.chars().map(|c| json!(c as u32)));
                            J::Array(v)
                        }
                    };
                    json!([cps(field), s])
                }
                _ => json!([]),
            };
            json!([name, cps(&e.path), p.span(e.span), detail])
        })
        .collect();
    let warnings: Vec<J> = res.warnings.iter().map(|w| json!([cps(&w.path), p.span(w.span)])).collect();
    json!({"reads": true, "why": "", "parses": true, "errors": errors, "warnings": warnings})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let want: Vec<String> = std::env::args().skip(1).collect();
    let body = move || {
        let stdin = std::io::stdin();
        let mut out = std::io::BufWriter::new(std::io::stdout().lock());
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let rec: J = serde_json::from_str(&line).unwrap();
            let mut m: Map<String, J> = rec.as_object().unwrap().clone();
            let mut panics = vec![];
            for w in &want {
                let got = catch_unwind(AssertUnwindSafe(|| match w.as_str() {
                    "validate" => validate(&text(&rec["ss"]), &text(&rec["cs"])),
                    other => panic!("unknown request {other}"),
                }));
                match got {
                    Ok(v) => {
                        m.insert(w.clone(), v);
                    }
                    Err(_) => {
                        panics.push(json!(w));
                        m.insert(w.clone(), json!([]));
                    }
                }
            }
            m.insert("panics".into(), J::Array(panics));
            serde_json::to_writer(&mut out, &J::Object(m)).unwrap();
            out.write_all(b"\n").unwrap();
            out.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(512 << 20).spawn(body).unwrap().join().unwrap();
}
