//! Conformance harness: reads documents (one JSON object per line, code points
//! under "cs"), runs the real crates on them and writes what was observed as
//! one JSON object per line.  It decides nothing: the TLA+ modules do.
use serde_json::{json, Map, Value as J};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use styx_format::{format_source, format_value, FormatOptions};
use styx_parse::{EventKind, Lexeme, Lexer, ParseErrorKind, Parser, ScalarKind, Span, TokenKind, Tokenizer};
use styx_tree::{Payload, Value};

fn cps(s: &str) -> J {
    J::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn text(v: &J) -> String {
    v.as_array()
        .map(|a| a.iter().filter_map(|c| char::from_u32(c.as_u64().unwrap_or(0) as u32)).collect())
        .unwrap_or_default()
}

/// byte offset -> character index; -1 when not on a character boundary
struct Pos(Vec<i64>);
impl Pos {
    fn new(s: &str) -> Pos {
        let mut v = vec![-1i64; s.len() + 1];
        let mut n = 0;
        for (i, (b, _)) in s.char_indices().enumerate() {
            v[b] = i as i64;
            n = i as i64 + 1;
        }
        v[s.len()] = n;
        Pos(v)
    }
    fn at(&self, b: u32) -> i64 {
        self.0.get(b as usize).copied().unwrap_or(-2)
    }
}

fn kind_name(k: ScalarKind) -> &'static str {
    match k {
        ScalarKind::Bare => "Bare",
        ScalarKind::Quoted => "Quoted",
        ScalarKind::Raw => "Raw",
        ScalarKind::Heredoc => "Heredoc",
    }
}

fn opt(s: Option<&str>) -> J {
    match s {
        None => json!([]),
        Some(s) => {
            let mut v = vec![json!(0)];
            v.extend(s.chars().map(|c| json!(c as u32)));
            J::Array(v)
        }
    }
}

fn err_parts(k: &ParseErrorKind, p: &Pos) -> (String, J) {
    let dbg = format!("{k:?}");
    let name: String = dbg.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    let t = match k {
        ParseErrorKind::InvalidEscape(s) => cps(s),
        ParseErrorKind::DuplicateKey { original } => json!([p.at(original.start), p.at(original.end)]),
        ParseErrorKind::ReopenedPath { closed_path } => cps(&closed_path.join(".")),
        ParseErrorKind::NestIntoTerminal { terminal_path } => cps(&terminal_path.join(".")),
        _ => json!([]),
    };
    (name, t)
}

fn events(src: &str, expr: bool) -> J {
    let p = Pos::new(src);
    let mut parser = if expr { Parser::new_expr(src) } else { Parser::new(src) };
    let mut out = vec![];
    let limit = 50 * src.len() + 1000;
    while let Some(ev) = parser.next_event() {
        if out.len() > limit {
            out.push(json!(["Endless", "", 0, 0, [], []]));
            break;
        }
        let (s, e) = (p.at(ev.span.start), p.at(ev.span.end));
        let simple = |k: &str| json!([k, "", s, e, [], []]);
        out.push(match &ev.kind {
            EventKind::DocumentStart => simple("DocumentStart"),
            EventKind::DocumentEnd => simple("DocumentEnd"),
            EventKind::ObjectStart => simple("ObjectStart"),
            EventKind::ObjectEnd => simple("ObjectEnd"),
            EventKind::SequenceStart => simple("SequenceStart"),
            EventKind::SequenceEnd => simple("SequenceEnd"),
            EventKind::EntryStart => simple("EntryStart"),
            EventKind::EntryEnd => simple("EntryEnd"),
            EventKind::Unit => simple("Unit"),
            EventKind::TagEnd => simple("TagEnd"),
            EventKind::TagStart { name } => json!(["TagStart", "", s, e, cps(name), []]),
            EventKind::Key { tag, payload, kind } => {
                json!(["Key", kind_name(*kind), s, e, opt(*tag), opt(payload.as_deref())])
            }
            EventKind::Scalar { value, kind } => json!(["Scalar", kind_name(*kind), s, e, [], cps(value)]),
            EventKind::Comment { text } => json!(["Comment", "", s, e, [], cps(text)]),
            EventKind::DocComment { lines } => json!(["DocComment", "", s, e, [], cps(&lines.join("\n"))]),
            EventKind::Error { kind } => {
                let (n, t) = err_parts(kind, &p);
                json!(["Error", n, s, e, [], t])
            }
        });
    }
    J::Array(out)
}

fn tokens(src: &str) -> J {
    let p = Pos::new(src);
    let mut t = Tokenizer::new(src);
    let mut out = vec![];
    loop {
        let k = t.next_token();
        if k.kind == TokenKind::Eof {
            break;
        }
        if out.len() > src.len() + 10 {
            out.push(json!(["Endless", 0, 0, []]));
            break;
        }
        out.push(json!([format!("{:?}", k.kind), p.at(k.span.start), p.at(k.span.end), cps(k.text)]));
    }
    J::Array(out)
}

fn lexemes(src: &str) -> J {
    let p = Pos::new(src);
    let mut l = Lexer::new(src);
    let mut out = vec![];
    for _ in 0..src.len() + 10 {
        let x = l.next_lexeme();
        let sp = x.span();
        let (s, e) = (p.at(sp.start), p.at(sp.end));
        let (k, n, t, pl) = match &x {
            Lexeme::Scalar { value, kind, .. } => ("Scalar", kind_name(*kind), cps(value), false),
            Lexeme::Unit { .. } => ("Unit", "", json!([]), false),
            Lexeme::Tag { name, has_payload, .. } => ("Tag", "", cps(name), *has_payload),
            Lexeme::ObjectStart { .. } => ("{", "", json!([]), false),
            Lexeme::ObjectEnd { .. } => ("}", "", json!([]), false),
            Lexeme::SeqStart { .. } => ("(", "", json!([]), false),
            Lexeme::SeqEnd { .. } => (")", "", json!([]), false),
            Lexeme::AttrKey { key, .. } => ("AttrKey", "", cps(key), false),
            Lexeme::Comma { .. } => ("Comma", "", json!([]), false),
            Lexeme::Newline { .. } => ("Newline", "", json!([]), false),
            Lexeme::Comment { text, .. } => ("Comment", "", cps(text), false),
            Lexeme::DocComment { text, .. } => ("DocComment", "", cps(text), false),
            Lexeme::Error { .. } => ("Error", "", json!([]), false),
            Lexeme::Eof => {
                out.push(json!(["Eof", "", 0, 0, [], false]));
                break;
            }
        };
        out.push(json!([k, n, s, e, t, pl]));
    }
    J::Array(out)
}

fn span(p: &Pos, s: Option<Span>) -> J {
    match s {
        None => json!([]),
        Some(s) => json!([p.at(s.start), p.at(s.end)]),
    }
}

/// Value -> [tag, payload kind, scalar kind, text, items, entries, span]
fn tree(v: &Value, p: &Pos) -> J {
    let g = opt(v.tag.as_ref().map(|t| t.name.as_str()));
    let sp = span(p, v.span);
    match &v.payload {
        None => json!([g, "none", "", [], [], [], sp]),
        Some(Payload::Scalar(s)) => json!([g, "scalar", kind_name(s.kind), cps(&s.text), [], [], sp]),
        Some(Payload::Sequence(s)) => {
            let i: Vec<J> = s.items.iter().map(|x| tree(x, p)).collect();
            json!([g, "seq", "", [], i, [], sp])
        }
        Some(Payload::Object(o)) => {
            let e: Vec<J> = o
                .entries
                .iter()
                .map(|x| json!([tree(&x.key, p), tree(&x.value, p), opt(x.doc_comment.as_deref())]))
                .collect();
            json!([g, "obj", "", [], [], e, sp])
        }
    }
}

fn tree_of(src: &str) -> J {
    let p = Pos::new(src);
    match styx_tree::parse(src) {
        Ok(v) => json!([true, tree(&v, &p), []]),
        Err(styx_tree::BuildError::Parse(k, s)) => {
            let (n, t) = err_parts(&k, &p);
            json!([false, [], ["Error", n, p.at(s.start), p.at(s.end), [], t]])
        }
        Err(e) => json!([false, [], [format!("{e:?}")]]),
    }
}

/// the classes of the messages, as the crate's own tests tell them apart
fn cst_error(m: &str) -> (String, String) {
    let one = |s: &str| (s.to_string(), String::new());
    if let Some(k) = m.strip_prefix("unexpected token: ") {
        ("unexpected token".into(), k.into())
    } else if m.starts_with("unclosed object") {
        one("unclosed object")
    } else if m.starts_with("unclosed sequence") {
        one("unclosed sequence")
    } else if m.contains("too many atoms") {
        one("too many atoms")
    } else if m.starts_with("expected `>`") {
        one("expected >")
    } else if m.starts_with("no whitespace") {
        one("whitespace after >")
    } else {
        one(m)
    }
}

fn cst(src: &str) -> J {
    let r = styx_cst::parse(src);
    let node = r.syntax();
    let p = Pos::new(src);
    let mut out = vec![];
    for ev in node.preorder_with_tokens() {
        use rowan::{NodeOrToken, WalkEvent};
        match ev {
            WalkEvent::Enter(NodeOrToken::Node(n)) => {
                let r = n.text_range();
                out.push(json!([format!("{:?}", n.kind()), p.at(r.start().into()), p.at(r.end().into())]))
            }
            WalkEvent::Enter(NodeOrToken::Token(t)) => {
                let r = t.text_range();
                out.push(json!([format!("{:?}", t.kind()), p.at(r.start().into()), p.at(r.end().into())]))
            }
            WalkEvent::Leave(NodeOrToken::Node(_)) => out.push(json!(["/", 0, 0])),
            _ => {}
        }
    }
    let errs: Vec<J> = r.errors().iter().map(|e| {
        let (what, kind) = cst_error(&e.message);
        json!([p.at(e.offset), what, kind])
    }).collect();
    json!({"ok": r.is_ok(), "text": cps(&node.to_string()), "pre": out, "errs": errs})
}

fn options(o: &J) -> FormatOptions {
    let mut f = FormatOptions::default();
    if let Some(w) = o.get("width").and_then(|x| x.as_u64()) {
        f = f.max_width(w as usize);
    }
    match o.get("style").and_then(|x| x.as_str()) {
        Some("multiline") => f = f.multiline(),
        Some("inline") => f = f.inline(),
        _ => {}
    }
    match o.get("indent").and_then(|x| x.as_str()) {
        Some("tab") => f = f.indent("\t"),
        Some("4") => f = f.indent("    "),
        _ => {}
    }
    f
}

fn guard(f: impl FnOnce() -> J) -> J {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(j) => j,
        Err(_) => J::Null,
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let what: Vec<String> = std::env::args().skip(1).collect();
    let body = move || {
        let stdin = std::io::stdin();
        let out = std::io::stdout();
        let mut out = std::io::BufWriter::new(out.lock());
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            if line.trim().is_empty() {
                continue;
            }
            let rec: J = serde_json::from_str(&line).expect("json");
            let mut m: Map<String, J> = rec.as_object().cloned().unwrap_or_default();
            let src = text(&rec["cs"]);
            let mut panics = vec![];
            for w in &what {
                let v = guard(|| match w.as_str() {
                    "events" => events(&src, false),
                    "expr" => events(&src, true),
                    "tokens" => tokens(&src),
                    "lexemes" => lexemes(&src),
                    "tree" => tree_of(&src),
                    "cst" => cst(&src),
                    "fmt" => cps(&format_source(&src, options(&rec))),
                    "fmt2" => {
                        let a = format_source(&src, options(&rec));
                        cps(&format_source(&a, options(&rec)))
                    }
                    "vfmt" => match styx_tree::parse(&src) {
                        Ok(v) => cps(&format_value(&v, options(&rec))),
                        Err(_) => json!([]),
                    },
                    other => panic!("unknown request {other}"),
                });
                if v.is_null() {
                    panics.push(json!(w));
                    m.insert(w.clone(), json!([]));
                } else {
                    m.insert(w.clone(), v);
                }
            }
            m.insert("panics".into(), J::Array(panics));
            serde_json::to_writer(&mut out, &J::Object(m)).unwrap();
            out.write_all(b"\n").unwrap();
            out.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(512 << 20).spawn(body).unwrap().join().unwrap();
}
