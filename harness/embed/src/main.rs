//! Conformance harness for embedded schemas: one JSON record per line in,
//! what the real code did out.  It decides nothing.
//!   blob:    ts (texts as code points)  -> the blobs, in hexadecimal
//!   pack:    raws (hexadecimal)         -> headers and payloads as LZ4 and BLAKE3 make them
//!   extract: data (bytes), at           -> [ok, texts] of the scan, the object reader and the file reader
//!            ([start, length])             and the facts: what LZ4 and BLAKE3 say of those slices,
//!                                          and whether goblin can read the object file
use serde_json::{json, Map, Value as J};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use styx_embed::ExtractError;

fn cps(s: &str) -> J {
    J::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn text(v: &J) -> String {
    v.as_array()
        .map(|a| a.iter().filter_map(|c| char::from_u32(c.as_u64().unwrap_or(0) as u32)).collect())
        .unwrap_or_default()
}
fn hex(b: &[u8]) -> J {
    J::String(b.iter().map(|x| format!("{x:02x}")).collect())
}
fn unhex(v: &J) -> Vec<u8> {
    let s = v.as_str().unwrap_or("").as_bytes();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
fn answer(r: Result<Vec<String>, ExtractError>) -> J {
    match r {
        Ok(v) => json!([true, v.iter().map(|s| cps(s)).collect::<Vec<_>>()]),
        Err(_) => json!([false, []]),
    }
}

fn fact(d: &[u8], start: usize, len: usize) -> J {
    let body = &d[start..start + len];
    let size = body.get(..4).map(|b| u32::from_le_bytes(b.try_into().unwrap()) as usize).unwrap_or(usize::MAX);
    // no payload gives more than 255 bytes for each of its own
    let raw = if size > 255 * len { None } else { lz4_flex::decompress_size_prepended(body).ok() };
    match raw {
        None => json!([start, len, false, 0, [], false, []]),
        Some(r) => {
            let s = String::from_utf8(r.clone());
            json!([start, len, true, r.len(), blake3::hash(&r).as_bytes().to_vec(), s.is_ok(), cps(&s.unwrap_or_default())])
        }
    }
}

fn main() {
    let wants: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let rec: J = serde_json::from_str(&line.unwrap()).unwrap();
        let mut m: Map<String, J> = rec.as_object().unwrap().clone();
        let mut panics = vec![];
        let mut facts: Vec<J> = vec![];
        let mut parses = false;
        for w in &wants {
            let r = catch_unwind(AssertUnwindSafe(|| match w.as_str() {
                "blob" => J::Array(rec["ts"].as_array().unwrap().iter().map(|t| hex(&styx_embed::build_embedded_blob(&text(t)))).collect()),
                "pack" => J::Array(
                    rec["raws"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|t| {
                            let raw = unhex(t);
                            let body = lz4_flex::compress_prepend_size(&raw);
                            let mut b = (raw.len() as u32).to_le_bytes().to_vec();
                            b.extend((body.len() as u32).to_le_bytes());
                            b.extend(blake3::hash(&raw).as_bytes());
                            b.extend(body);
                            hex(&b)
                        })
                        .collect(),
                ),
                "extract" => {
                    let d: Vec<u8> = rec["data"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
                    facts = rec["at"].as_array().unwrap().iter().map(|a| fact(&d, a[0].as_u64().unwrap() as usize, a[1].as_u64().unwrap() as usize)).collect();
                    parses = !matches!(goblin::Object::parse(&d), Err(_) | Ok(goblin::Object::Unknown(_)));
                    let p = std::env::temp_dir().join(format!("styxe.{}", std::process::id()));
                    std::fs::write(&p, &d).unwrap();
                    let f = match styx_embed::extract_schemas_from_file(&p) {
                        Ok(v) => answer(Ok(v)),
                        Err(_) => json!([false, []]),
                    };
                    let _ = std::fs::remove_file(&p);
                    json!([answer(styx_embed::extract_schemas(&d)), answer(styx_embed::extract_schemas_from_object(&d)), f])
                }
                "file" => {
                    // a real binary
                    let p = text(&rec["path"]);
                    answer(styx_embed::extract_schemas_from_file(std::path::Path::new(&p)).map_err(|_| ExtractError::NotFound))
                }
                other => panic!("unknown request {other}"),
            }));
            match r {
                Ok(v) => m.insert(w.clone(), v),
                Err(_) => {
                    panics.push(json!(w));
                    m.insert(w.clone(), json!([]))
                }
            };
        }
        if !facts.is_empty() {
            m.insert("facts".into(), J::Array(facts));
        }
        if wants.iter().any(|w| w == "extract") {
            m.insert("parses".into(), json!(parses));
        }
        m.insert("panics".into(), J::Array(panics));
        serde_json::to_writer(&mut out, &J::Object(m)).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
