//! Conformance harness for the language server: one JSON record per line in,
//! what the real server did out.  It decides nothing.
//!   session: uris, texts, msgs, sched -> log of what was received, answered and published
//!            under the schedule, and the same of fresh servers that see one text only
//!   view: cs, ss (the file s.styx, [-1] when there is none) -> diagnostics, symbols,
//!         tokens, links and highlighting of the text
//!   edits: cs, ss, pos -> what is offered to change in the text at the position
use futures::{FutureExt, Sink, Stream};
use serde_json::{json, Map, Value as J};
use std::collections::{HashMap, VecDeque};
use std::future::Future;
use std::io::{BufRead, Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::task::{Context, Poll};
use styx_lsp::StyxLanguageServer;
use tower::Service;
use tower_lsp::jsonrpc::{Id, Request, Response};
use tower_lsp::{ClientSocket, LspService};

fn text(v: &J) -> String {
    v.as_array()
        .map(|a| a.iter().filter_map(|c| char::from_u32(c.as_u64().unwrap_or(0) as u32)).collect())
        .unwrap_or_default()
}

type Handler = Pin<Box<dyn Future<Output = Option<Response>>>>;

/// A server whose handlers are polled by hand.
struct Server {
    service: LspService<StyxLanguageServer>,
    socket: ClientSocket,
    tasks: Vec<(usize, Handler)>,
    next: i64,
    types: Vec<J>,
    modifiers: Vec<J>,
}

enum Saw {
    Publish(J),
    Other,
    Nothing,
}

impl Server {
    /// with a configuration directory of its own
    fn new(dir: &str) -> Server {
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        let home = format!("{dir}/home{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed));
        for v in ["HOME", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "XDG_DATA_HOME"] {
            unsafe { std::env::set_var(v, &home) };
        }
        let (service, socket) = LspService::new(StyxLanguageServer::new);
        let mut s = Server { service, socket, tasks: vec![], next: 0, types: vec![], modifiers: vec![] };
        let (r, _) = s.whole("initialize", json!({"processId": null, "capabilities": {}, "rootUri": null}), true);
        let legend = &r["capabilities"]["semanticTokensProvider"]["legend"];
        let names = |k: &str| legend[k].as_array().cloned().unwrap_or_default();
        (s.types, s.modifiers) = (names("tokenTypes"), names("tokenModifiers"));
        s.whole("initialized", json!({}), false);
        s
    }
    fn request(&mut self, method: &str, params: J, wants_answer: bool) -> Request {
        let b = Request::build(method.to_string()).params(params);
        self.next += 1;
        if wants_answer { b.id(self.next).finish() } else { b.finish() }
    }
    /// start handling a message: the handler is polled once, as on arrival
    fn start(&mut self, k: usize, method: &str, params: J, wants_answer: bool) -> Option<(usize, Option<Response>)> {
        let r = self.request(method, params, wants_answer);
        let f = self.service.call(r).map(|r| r.unwrap_or(None));
        self.tasks.push((k, Box::pin(f)));
        self.poll(self.tasks.len() - 1)
    }
    fn poll(&mut self, j: usize) -> Option<(usize, Option<Response>)> {
        let w = futures::task::noop_waker();
        let mut cx = Context::from_waker(&w);
        match self.tasks[j].1.as_mut().poll(&mut cx) {
            Poll::Ready(r) => Some((self.tasks.remove(j).0, r)),
            Poll::Pending => None,
        }
    }
    /// take one message of the server
    fn drain(&mut self) -> Saw {
        let w = futures::task::noop_waker();
        let mut cx = Context::from_waker(&w);
        match Pin::new(&mut self.socket).poll_next(&mut cx) {
            Poll::Ready(Some(m)) => {
                if let Some(id) = m.id() {
                    let id: Id = id.clone();
                    let _ = Pin::new(&mut self.socket).poll_ready(&mut cx);
                    let _ = Pin::new(&mut self.socket).start_send(Response::from_ok(id, J::Null));
                    let _ = Pin::new(&mut self.socket).poll_flush(&mut cx);
                }
                if m.method() == "textDocument/publishDiagnostics" {
                    Saw::Publish(m.params().cloned().unwrap_or(J::Null))
                } else {
                    Saw::Other
                }
            }
            _ => Saw::Nothing,
        }
    }
    /// handle a message to its end; what was published on the way
    fn whole(&mut self, method: &str, params: J, wants_answer: bool) -> (J, Vec<J>) {
        let mut pubs = vec![];
        let mut done = self.start(0, method, params, wants_answer);
        for _ in 0..10000 {
            let mut quiet = true;
            match self.drain() {
                Saw::Publish(p) => { pubs.push(p); quiet = false }
                Saw::Other => quiet = false,
                Saw::Nothing => {}
            }
            if done.is_none() { done = self.poll(0); quiet = false }
            if quiet && done.is_some() { break }
        }
        (done.map(|(_, r)| answer(r)).unwrap_or(json!("no answer")), pubs)
    }
}

fn answer(r: Option<Response>) -> J {
    match r {
        None => J::Null,
        Some(r) => {
            let (_, r) = r.into_parts();
            match r { Ok(v) => v, Err(e) => json!(["error", e.code.code()]) }
        }
    }
}

/// ids for values
#[derive(Default)]
struct Ids(HashMap<String, i64>, Vec<J>);
impl Ids {
    fn id(&mut self, v: &J) -> i64 {
        let k = v.to_string();
        if let Some(i) = self.0.get(&k) { return *i }
        let i = self.1.len() as i64;
        self.0.insert(k, i);
        self.1.push(v.clone());
        i
    }
}

fn allow(command: &J) -> J {
    json!({"command": "styx.allowExtension", "arguments": [{"command": command}]})
}

fn message(m: &J, uris: &[String], texts: &[String], asks: &[J]) -> (&'static str, J, bool) {
    let u = &uris[m[1].as_u64().unwrap() as usize];
    match m[0].as_str().unwrap() {
        "open" => ("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "styx", "version": m[2], "text": texts[m[3].as_u64().unwrap() as usize]}}), false),
        "change" => {
            let cs: Vec<J> = m[3].as_array().unwrap().iter().map(|t| json!({"text": texts[t.as_u64().unwrap() as usize]})).collect();
            ("textDocument/didChange", json!({"textDocument": {"uri": u, "version": m[2]}, "contentChanges": cs}), false)
        }
        "close" => ("textDocument/didClose", json!({"textDocument": {"uri": u}}), false),
        "allow" => ("workspace/executeCommand", allow(&m[2]), true),
        "ask" => {
            let (method, p) = ask(&asks[m[2].as_u64().unwrap() as usize], u);
            (method, p, true)
        }
        other => panic!("unknown message {other}"),
    }
}

/// fields are offered in the order of a hash map: leave the order out
fn unordered(v: J) -> J {
    match v {
        J::Array(a) => {
            let mut a: Vec<J> = a.into_iter().map(unordered).collect();
            a.sort_by_key(|x| x.to_string());
            J::Array(a)
        }
        J::Object(m) => J::Object(m.into_iter().map(|(k, v)| (k, unordered(v))).collect()),
        J::String(s) if s.contains('\n') => {
            let mut l: Vec<&str> = s.split('\n').collect();
            l.sort();
            json!(l.join("\n"))
        }
        v => v,
    }
}
fn settle(method: &J, v: J) -> J {
    if method == "actions" || method == "complete" { unordered(v) } else { v }
}

/// a request: [method, line, character]
fn ask(q: &J, u: &str) -> (&'static str, J) {
    let doc = json!({"uri": u});
    let pos = json!({"line": q[1], "character": q[2]});
    let opts = json!({"tabSize": 2, "insertSpaces": true});
    let all = json!({"start": {"line": 0, "character": 0}, "end": {"line": 100000, "character": 0}});
    match q[0].as_str().unwrap() {
        "symbols" => ("textDocument/documentSymbol", json!({"textDocument": doc})),
        "tokens" => ("textDocument/semanticTokens/full", json!({"textDocument": doc})),
        "format" => ("textDocument/formatting", json!({"textDocument": doc, "options": opts})),
        "links" => ("textDocument/documentLink", json!({"textDocument": doc})),
        "hints" => ("textDocument/inlayHint", json!({"textDocument": doc, "range": all})),
        "hover" => ("textDocument/hover", json!({"textDocument": doc, "position": pos})),
        "definition" => ("textDocument/definition", json!({"textDocument": doc, "position": pos})),
        "complete" => ("textDocument/completion", json!({"textDocument": doc, "position": pos})),
        "newline" => ("textDocument/onTypeFormatting", json!({"textDocument": doc, "position": pos, "ch": "\n", "options": opts})),
        "actions" => ("textDocument/codeAction", json!({"textDocument": doc, "range": {"start": pos, "end": pos}, "context": {"diagnostics": []}})),
        other => panic!("unknown request {other}"),
    }
}

/// What `f` gives in a process of its own, where nothing is left of before.
fn alone(f: impl FnOnce() -> J) -> J {
    let mut fds = [0; 2];
    unsafe { assert_eq!(libc::pipe(fds.as_mut_ptr()), 0) };
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0);
    if pid == 0 {
        unsafe { libc::close(fds[0]) };
        let r = catch_unwind(AssertUnwindSafe(|| {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let _in = rt.enter();
            f()
        }));
        let mut out = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let _ = out.write_all(&serde_json::to_vec(&r.unwrap_or(json!(["panic"]))).unwrap());
        drop(out);
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(fds[1]) };
    let mut s = vec![];
    let mut from = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    from.read_to_end(&mut s).unwrap();
    unsafe { libc::waitpid(pid, std::ptr::null_mut(), 0) };
    serde_json::from_slice(&s).unwrap_or(json!(["died"]))
}

fn session(rec: &J) -> J {
    let list = |n: &str| rec[n].as_array().unwrap().clone();
    let uris: Vec<String> = list("uris").iter().map(|u| u.as_str().unwrap().to_string()).collect();
    let texts: Vec<String> = list("texts").iter().map(text).collect();
    let msgs = list("msgs");
    let mut ids = Ids::default();
    ids.id(&J::Null);
    ids.id(&json!([]));
    let dir = rec["dir"].as_str().unwrap();
    let slot = |u: &J| uris.iter().position(|x| Some(x.as_str()) == u.as_str()).map(|i| i as i64).unwrap_or(-1);

    // what fresh servers say about each text:
    // [uri, text, diagnostics, diagnostics where the command is allowed, answers to the requests]
    let asks: Vec<J> = list("asks");
    let mut facts = vec![];
    for (ui, u) in uris.iter().enumerate() {
        for (ti, t) in texts.iter().enumerate() {
            let open = || json!({"textDocument": {"uri": u, "languageId": "styx", "version": 1, "text": t}});
            let last = |pubs: Vec<J>| pubs.last().map(|p| p["diagnostics"].clone()).unwrap_or(json!("none"));
            let allowed = alone(|| {
                let mut s = Server::new(dir);
                s.whole("workspace/executeCommand", allow(&rec["command"]), true);
                last(s.whole("textDocument/didOpen", open(), false).1)
            });
            let fresh = alone(|| {
                let mut s = Server::new(dir);
                let mut v = vec![last(s.whole("textDocument/didOpen", open(), false).1)];
                for q in &asks {
                    let (m, p) = ask(q, u);
                    v.push(settle(&q[0], s.whole(m, p, true).0));
                }
                json!(v)
            });
            let d = ids.id(&fresh[0]);
            let allowed = ids.id(&allowed);
            let a: Vec<i64> = (0..asks.len()).map(|k| ids.id(&fresh[k + 1])).collect();
            facts.push(json!([ui, ti, d, allowed, a]));
        }
    }

    let mut log = vec![];
    let mut s = Server::new(dir);
    let mut queue: VecDeque<usize> = (0..msgs.len()).collect();
    let sched = list("sched");
    let mut k = 0;
    let mut idle = 0;
    while idle < 2000 {
        // what can happen next: a message arrives, a handler goes on, the client reads
        let room = !queue.is_empty() && s.tasks.len() < 4;
        let n = s.tasks.len() + 1 + room as usize;
        let c = sched[k % sched.len()].as_u64().unwrap() as usize % n;
        k += 1;
        let mut done = None;
        idle += 1;
        if c < s.tasks.len() {
            done = s.poll(c);
        } else if c == s.tasks.len() {
            match s.drain() {
                Saw::Publish(p) => {
                    idle = 0;
                    let v = p["version"].as_i64().unwrap_or(-1);
                    log.push(json!(["pub", slot(&p["uri"]), v, ids.id(&p["diagnostics"])]));
                }
                Saw::Other => idle = 0,
                Saw::Nothing => {}
            }
        } else {
            let i = queue.pop_front().unwrap();
            let (m, p, w) = message(&msgs[i], &uris, &texts, &asks);
            log.push(json!(["recv", i, 0, 0]));
            done = s.start(i, m, p, w);
            idle = 0;
        }
        if let Some((i, r)) = done {
            idle = 0;
            let a = answer(r);
            let a = if msgs[i][0] == "ask" { settle(&asks[msgs[i][2].as_u64().unwrap() as usize][0], a) } else { a };
            log.push(json!(["done", i, 0, ids.id(&a)]));
        }
        if s.tasks.is_empty() && queue.is_empty() && idle > 50 { break }
    }
    json!([facts, log, s.tasks.len() + queue.len(), ids.1])
}

fn cps(s: &str) -> J {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn range(r: &J) -> J {
    json!([r["start"]["line"], r["start"]["character"], r["end"]["line"], r["end"]["character"]])
}
fn symbols(v: &J) -> J {
    let kind = |k: &J| match k.as_i64() {
        Some(19) => "object".into(),
        Some(18) => "array".into(),
        Some(15) => "string".into(),
        Some(21) => "null".into(),
        Some(13) => "variable".into(),
        k => format!("{k:?}"),
    };
    let one = |x: &J| {
        let detail = match x["detail"].as_str() {
            Some(d) => cps(&format!("\0{d}")),
            None => json!([]),
        };
        json!([cps(x["name"].as_str().unwrap()), kind(&x["kind"]), detail, range(&x["range"]), range(&x["selectionRange"]), symbols(&x["children"])])
    };
    json!(v.as_array().map(|a| a.iter().map(one).collect::<Vec<_>>()).unwrap_or_default())
}

/// What a client is told about a text: [diagnostics, symbols, tokens, links, spans]
fn view(rec: &J) -> J {
    let dir = rec["dir"].as_str().unwrap();
    let home = format!("{dir}/v{}", unsafe { libc::getppid() });
    std::fs::create_dir_all(&home).unwrap();
    let file = format!("{home}/s.styx");
    let _ = std::fs::remove_file(&file);
    if let Some([first, ..]) = rec["ss"].as_array().map(|a| &a[..]) {
        if first.as_i64() != Some(-1) { std::fs::write(&file, text(&rec["ss"])).unwrap() }
    }
    let u = format!("file://{home}/d.styx");
    let src = text(&rec["cs"]);
    let mut s = Server::new(dir);
    let open = json!({"textDocument": {"uri": u, "languageId": "styx", "version": 1, "text": src}});
    let pubs = s.whole("textDocument/didOpen", open, false).1;
    let last = pubs.last().map(|p| p["diagnostics"].clone()).unwrap_or(json!([]));
    let diags: Vec<J> = last.as_array().unwrap().iter().map(|d| {
        let mut v = vec![d["severity"].clone(), d["source"].clone()];
        v.extend(range(&d["range"]).as_array().unwrap().clone());
        json!(v)
    }).collect();
    let mut get = |name: &str| {
        let (m, p) = ask(&json!([name, 0, 0]), &u);
        s.whole(m, p, true).0
    };
    let (sy, to, li) = (get("symbols"), get("tokens"), get("links"));
    let tokens: Vec<J> = match to["data"].as_array() {
        None => vec![json!([-1])],
        Some(a) => {
            let (mut line, mut col) = (0, 0);
            a.chunks(5).map(|c| {
                let n = |k: usize| c[k].as_u64().unwrap();
                if n(0) > 0 { col = 0 }
                (line, col) = (line + n(0), col + n(1));
                let doc = (0..s.modifiers.len()).any(|m| n(4) >> m & 1 == 1 && s.modifiers[m] == "documentation");
                json!([line, col, n(2), s.types.get(n(3) as usize), doc])
            }).collect()
        }
    };
    let links: Vec<J> = match li.as_array() {
        None => vec![json!([-1])],
        Some(a) => a.iter().map(|l| range(&l["range"])).collect(),
    };
    let at = |b: usize| src.char_indices().take_while(|(i, _)| *i < b).count();
    let spans: Vec<J> = styx_lsp::compute_highlight_spans(&styx_cst::parse(&src)).iter()
        .map(|h| json!([at(h.start), at(h.end), h.token_type.as_str(), h.is_doc_comment])).collect();
    let symbols = if sy.is_null() { json!([]) } else { symbols(&sy) };
    json!([diags, symbols, tokens, links, spans])
}

/// What a client is offered to change in a text at a position:
/// [edits on enter, [[title, edits] of each action], edits of formatting]
fn edits(rec: &J) -> J {
    let dir = rec["dir"].as_str().unwrap();
    let home = format!("{dir}/e{}", unsafe { libc::getppid() });
    std::fs::create_dir_all(&home).unwrap();
    let file = format!("{home}/s.styx");
    let _ = std::fs::remove_file(&file);
    if rec["ss"][0].as_i64() != Some(-1) { std::fs::write(&file, text(&rec["ss"])).unwrap() }
    let u = format!("file://{home}/{}", rec["name"].as_str().unwrap_or("d.styx"));
    let mut s = Server::new(dir);
    let open = json!({"textDocument": {"uri": u, "languageId": "styx", "version": 1, "text": text(&rec["cs"])}});
    let pubs = s.whole("textDocument/didOpen", open, false).1;
    let diags = pubs.last().map(|p| p["diagnostics"].clone()).unwrap_or(json!([]));
    let changes = |v: &J| -> J {
        match v.as_array() {
            None => json!([]),
            Some(a) => json!(a.iter().map(|e| {
                let mut x = range(&e["range"]).as_array().unwrap().clone();
                x.push(cps(e["newText"].as_str().unwrap()));
                J::Array(x)
            }).collect::<Vec<_>>()),
        }
    };
    let mut get = |name: &str, with: J| {
        let (m, mut p) = ask(&json!([name, rec["pos"][0], rec["pos"][1]]), &u);
        if name == "actions" { p["context"]["diagnostics"] = with } else {
            let n = rec["tab"].as_i64().unwrap_or(2);
            p["options"] = json!({"tabSize": if n == 0 { 4 } else { n }, "insertSpaces": n != 0});
        }
        s.whole(m, p, true).0
    };
    let (nl, ac, fo) = (get("newline", J::Null), get("actions", diags), get("format", J::Null));
    let actions: Vec<J> = ac.as_array().map(|a| a.iter().filter(|x| !x["edit"].is_null()).map(|x| {
        let c = x["edit"]["changes"].as_object().unwrap();
        let own = c.get(&u).cloned().unwrap_or(J::Null);
        json!([x["title"], cps(x["title"].as_str().unwrap()), changes(&own), c.len() == 1])
    }).collect()).unwrap_or_default();
    json!([changes(&nl), actions, changes(&fo)])
}

/// What an editor is told at a place: completions [label, sort key, range, text], hover, definition [file, range].
fn place(rec: &J) -> J {
    let dir = rec["dir"].as_str().unwrap();
    let home = format!("{dir}/e{}", unsafe { libc::getppid() });
    std::fs::create_dir_all(&home).unwrap();
    let file = format!("{home}/s.styx");
    let _ = std::fs::remove_file(&file);
    if rec["ss"][0].as_i64() != Some(-1) { std::fs::write(&file, text(&rec["ss"])).unwrap() }
    let u = format!("file://{home}/d.styx");
    let mut s = Server::new(dir);
    s.whole("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "styx", "version": 1, "text": text(&rec["cs"])}}), false);
    let mut get = |name: &str| {
        let (m, p) = ask(&json!([name, rec["pos"][0], rec["pos"][1]]), &u);
        s.whole(m, p, true).0
    };
    let (co, ho, de) = (get("complete"), get("hover"), get("definition"));
    let items: Vec<J> = co.as_array().map(|a| a.iter().map(|x| {
        let e = &x["textEdit"];
        json!([cps(x["label"].as_str().unwrap()), cps(x["sortText"].as_str().unwrap_or("")), range(&e["range"]), cps(e["newText"].as_str().unwrap_or(""))])
    }).collect()).unwrap_or_default();
    let at = &de["uri"];
    json!([items, if ho.is_null() { json!([]) } else { json!([cps(ho["contents"]["value"].as_str().unwrap())]) },
        if at.is_null() { json!([]) } else { json!([if *at == J::from(format!("file://{file}")) { "schema" } else { "other" }, range(&de["range"])]) }])
}

fn main() {
    let wants: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let rec: J = serde_json::from_str(&line.unwrap()).unwrap();
        let mut m: Map<String, J> = rec.as_object().unwrap().clone();
        let mut panics = vec![];
        for w in &wants {
            let r = catch_unwind(AssertUnwindSafe(|| match w.as_str() {
                "session" => alone(|| session(&rec)),
                "view" => alone(|| view(&rec)),
                "edits" => alone(|| edits(&rec)),
                "place" => alone(|| place(&rec)),
                other => panic!("unknown request {other}"),
            }));
            let failed = |v: &J| v.as_array().is_some_and(|a| a.len() == 1 && (a[0] == "panic" || a[0] == "died"));
            match r {
                Ok(v) if !failed(&v) => m.insert(w.clone(), v),
                _ => {
                    panics.push(json!(w));
                    m.insert(w.clone(), json!([]))
                }
            };
        }
        m.insert("panics".into(), J::Array(panics));
        serde_json::to_writer(&mut out, &J::Object(m)).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
