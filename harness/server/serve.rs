//! The whole server: messages in, messages out.
use crossbeam_channel::{unbounded, Receiver};
use lsp_server::{Message, Notification};
use move_language_server::config::Config;
use move_language_server::verif as srv;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use sxrt::*;
use vfs::AbsPathBuf;

/// A document as its client knows it.
struct Doc {
    open: bool,
    text: String,
    version: i32,
    /// the diagnostics last published for it
    shown: Option<Value>,
}
struct Client {
    server: srv::Server,
    out: Receiver<Message>,
    docs: BTreeMap<String, Doc>,
    utf8: bool,
}

fn columns(s: &str, utf8: bool) -> u64 {
    s.chars().map(|c| if utf8 { c.len_utf8() } else { c.len_utf16() } as u64).sum()
}
/// What the client offers, and whether UTF-8 is among it.
fn offer() -> (Option<Vec<String>>, bool) {
    let list = |l: &[&str]| Some(l.iter().map(|s| s.to_string()).collect());
    match pick(7) {
        0 => (None, false),
        1 => (list(&[]), false),
        2 => (list(&["utf-8"]), true),
        3 => (list(&["utf-16"]), false),
        4 => (list(&["utf-16", "utf-8"]), true),
        5 => (list(&["utf-8", "utf-32"]), true),
        _ => {
            // another name, or that one
            let mut s = String::from("utf-");
            push_char_of(&mut s, 1);
            let utf8 = s == "utf-8";
            (Some(vec![s]), utf8)
        }
    }
}
/// What is to be reported for a text, from the parser's errors and positions counted here.
fn want(text: &str, utf8: bool) -> Vec<(u64, u64, u64, u64, String)> {
    // lines end the same way for the parser, which moves no position
    let text = &text.replace("\r\n", "\n");
    let at = |o: usize| {
        let before = &text[..o];
        let line = before.bytes().filter(|b| *b == b'\n').count() as u64;
        let from = before.rfind('\n').map_or(0, |i| i + 1);
        (line, columns(&text[from..o], utf8))
    };
    let parse = syntax::SourceFile::parse(text);
    let mut r = vec![];
    for e in parse.errors().iter().take(128) {
        let (a, b) = (at(e.range().start().into()), at(e.range().end().into()));
        r.push((a.0, a.1, b.0, b.1, format!("Syntax Error: {}", e)));
    }
    r
}
/// Whether what was published is what is to be reported.
fn agrees(shown: &Value, text: &str, utf8: bool) -> bool {
    let want = want(text, utf8);
    let shown = shown["diagnostics"].as_array().unwrap();
    if shown.len() != want.len() {
        return false;
    }
    let mut ok = true;
    for (d, w) in shown.iter().zip(&want) {
        let r = &d["range"];
        let at = |p: &Value| (p["line"].as_u64().unwrap(), p["character"].as_u64().unwrap());
        let (a, b) = (at(&r["start"]), at(&r["end"]));
        ok &= (a.0 == w.0) & (a.1 == w.1) & (b.0 == w.2) & (b.1 == w.3);
        ok &= d["message"].as_str().unwrap() == w.4;
        ok &= d["severity"] == 1;
        ok &= d["code"] == "syntax-error" && d["source"] == "move-language-server";
    }
    ok
}

impl Client {
    fn new(offers: bool) -> Client {
        let (tx, out) = unbounded();
        let mut caps = lsp_types::ClientCapabilities::default();
        let mut utf8 = false;
        if offers {
            (caps.offset_encoding, utf8) = offer();
        }
        let config = Config::new(AbsPathBuf::assert(PathBuf::from("/w")), caps);
        let c = Client { server: srv::Server::new(tx, config), out, docs: BTreeMap::new(), utf8 };
        // the workers start and wait
        yield_now();
        c
    }
    /// One turn of the server for a message.
    fn notify(&mut self, method: &str, params: Value) {
        let r = self.server.message(Message::Notification(Notification { method: method.into(), params }));
        check(r.is_ok(), 210);
        self.read();
    }
    /// One turn of the server for what the workers have ready.
    fn task(&mut self) -> bool {
        let r = self.server.task();
        check(r.is_ok(), 210);
        self.read();
        r.unwrap_or(false)
    }
    /// Look at what the server sent in its turn.
    fn read(&mut self) {
        while let Ok(m) = self.out.try_recv() {
            let Message::Notification(n) = m else {
                check(false, 211);
                continue;
            };
            check(n.method == "textDocument/publishDiagnostics", 211);
            let doc = self.docs.get_mut(n.params["uri"].as_str().unwrap());
            check(doc.is_some(), 212);
            let doc = doc.unwrap();
            // what is published under a version is about that version
            if doc.open {
                check(n.params["version"] == doc.version, 213);
                check(agrees(&n.params, &doc.text, self.utf8), 214);
            } else {
                check(n.params.get("version").map_or(true, |v| v.is_null()), 215);
            }
            doc.shown = Some(n.params);
        }
    }
    /// Let the workers finish and the server take all they have.
    fn settle(&mut self) {
        sched(0, 0);
        loop {
            for _ in 0..4 {
                yield_now();
            }
            if !self.task() {
                break;
            }
        }
    }
    fn open(&mut self, uri: &str, text: String) {
        let d = self.docs.entry(uri.to_string()).or_insert(Doc { open: false, text: String::new(), version: 0, shown: None });
        d.open = true;
        d.text = text.clone();
        d.version += 1;
        let version = d.version;
        self.notify(
            "textDocument/didOpen",
            json!({"textDocument": {"uri": uri, "languageId": "move", "version": version, "text": text}}),
        );
    }
}

const URIS: [&str; 2] = ["file:///w/a.move", "file:///w/b.move"];

/// A text: some fixed ones, or one with an arbitrary ASCII character in it.
fn text(kinds: usize) -> String {
    match pick(kinds) {
        0 => "(".into(),
        1 => "module 0x1::M {}".into(),
        2 => "".into(),
        3 => "script {\n fun é( {} }\n".into(),
        4 => "script {\r\n fun f() {\r\n  \u{10400}é } }\r\n$".into(),
        _ => {
            let mut s = String::from("script { fun f() { é");
            push_char_of(&mut s, 1);
            assume(s.as_bytes()[s.len() - 1] != b'\r');
            s.push_str(" } }");
            s
        }
    }
}

/// Documents are opened, changed and closed while the workers run; in the end the client has been
/// told the diagnostics of every open document's text.
/// params: messages, documents, kinds of texts, choices of the scheduler, preemptions, whether the
/// client offers encodings, other documents that are open
pub fn serve() {
    let (n, docs, kinds) = (param(0), param(1), param(2));
    let mut c = Client::new(param(5) == 1);
    for i in 0..param(6) {
        c.open(&format!("file:///w/other{}.move", i), ["(", "module 0x1::M {}", "script { fun é( {} }"][i % 3].into());
    }
    c.open(URIS[0], text(kinds));
    sched(param(3) as u32, param(4) as u32);
    for _ in 0..n {
        match pick(3) {
            // the workers get nowhere in between
            0 => {}
            // they finish, but the server is not done with what they found
            1 => yield_now(),
            // it is
            _ => {
                yield_now();
                while c.task() {}
            }
        }
        let uri = URIS[pick(docs)];
        let open = c.docs.get(uri).map_or(false, |d| d.open);
        if !open {
            c.open(uri, text(kinds));
            continue;
        }
        match pick(4) {
            // the whole text, the beginning, the end
            k @ 0..=2 => {
                let utf8 = c.utf8;
                let d = c.docs.get_mut(uri).unwrap();
                d.version += 1;
                let changes = if k == 0 {
                    d.text = text(kinds);
                    json!([{"text": d.text.clone()}])
                } else if k == 1 {
                    // no change at all but the version, or two
                    if pick(2) == 0 {
                        json!([])
                    } else {
                        d.text.insert_str(0, ")\n");
                        let (p, q) = (json!({"line": 0, "character": 0}), json!({"line": 0, "character": 1}));
                        json!([{"range": {"start": p, "end": p}, "text": ")"}, {"range": {"start": q, "end": q}, "text": "\n"}])
                    }
                } else {
                    let last = d.text.rsplit('\n').next().unwrap();
                    let p = json!({"line": d.text.matches('\n').count(), "character": columns(last, utf8)});
                    d.text.push_str("\u{20ac}(");
                    d.version += 4;
                    json!([{"range": {"start": p, "end": p}, "text": "\u{20ac}("}])
                };
                let version = d.version;
                c.notify(
                    "textDocument/didChange",
                    json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": changes}),
                );
            }
            _ if pick(2) == 0 => {
                c.docs.get_mut(uri).unwrap().open = false;
                c.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
            }
            // opened again although it is
            _ => c.open(uri, text(kinds)),
        }
    }
    c.settle();
    for (_, d) in &c.docs {
        if d.open {
            check(d.shown.is_some(), 220);
            check(agrees(d.shown.as_ref().unwrap(), &d.text, c.utf8), 221);
            observe(d.shown.as_ref().unwrap()["diagnostics"].as_array().unwrap().len() as u64);
            reach(220);
        }
    }
    end();
}

/// Messages that make no sense where they are change nothing and do not stop the server.
/// params: messages, characters of an unknown method
pub fn robust() {
    let (n, chars) = (param(0), param(1));
    let mut c = Client::new(false);
    c.open(URIS[0], "(".into());
    c.open(URIS[1], ")".into());
    c.docs.get_mut(URIS[1]).unwrap().open = false;
    c.notify("textDocument/didClose", json!({"textDocument": {"uri": URIS[1]}}));
    let path = |uri: &str| srv::path(&lsp_types::Url::parse(uri).unwrap()).unwrap();
    let (a, b, other) = (path(URIS[0]), path(URIS[1]), path("file:///w/c.move"));
    for _ in 0..n {
        let text = json!([{"text": "x"}]);
        match pick(6) {
            // not opened, not open any more, no file
            0 => {
                let uri = [URIS[1], "file:///w/c.move", "untitled:Untitled-1", "file://host/w/a.move"][pick(4)];
                let doc = json!({"uri": uri, "version": 7});
                match pick(2) {
                    0 => c.notify("textDocument/didChange", json!({"textDocument": doc, "contentChanges": text})),
                    _ => c.notify("textDocument/didClose", json!({"textDocument": doc})),
                }
            }
            1 => {
                let uri = ["untitled:Untitled-1", "http://w/a.move", "file://host/w/a.move"][pick(3)];
                let doc = json!({"uri": uri, "languageId": "move", "version": 7, "text": "x"});
                c.notify("textDocument/didOpen", json!({ "textDocument": doc }));
            }
            // something that is not what the method takes
            2 => {
                let method = ["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "$/cancelRequest"][pick(4)];
                let params = match pick(8) {
                    0 => Value::Null,
                    1 => json!({}),
                    2 => json!([]),
                    3 => json!("x"),
                    4 => json!({"textDocument": {"uri": "no uri"}, "id": [1]}),
                    5 => json!({"textDocument": {"uri": 1}, "contentChanges": text, "id": 1.5}),
                    6 => json!({"textDocument": {"uri": "w/a.move", "version": "1", "languageId": "move", "text": "x"}, "contentChanges": text, "id": null}),
                    _ => json!({"textDocument": {"uri": "/w/a.move", "version": 1.5, "languageId": 1}, "contentChanges": [{"range": {"start": {"line": -1, "character": 0}, "end": {"line": 0, "character": 0}}, "text": "x"}], "id": {}}),
                };
                c.notify(method, params);
            }
            3 => c.notify("$/cancelRequest", [json!({"id": 1}), json!({"id": "1"}), json!({"id": 0})][pick(3)].clone()),
            // a method nobody knows
            4 => {
                let mut method = String::new();
                for _ in 0..chars {
                    push_char_of(&mut method, 1);
                }
                c.notify(&method, [Value::Null, json!({"textDocument": {"uri": URIS[0]}})][pick(2)].clone());
            }
            _ => {
                yield_now();
                while c.task() {}
            }
        }
        check(c.server.text(&a).as_deref() == Some("("), 260);
        check(c.server.text(&b).as_deref() == Some(")"), 261);
        check(c.server.text(&other).is_none(), 262);
        check(c.server.version(&a) == Some(c.docs[URIS[0]].version), 263);
        check(c.server.version(&b).is_none() && c.server.version(&other).is_none(), 264);
    }
    c.settle();
    let d = &c.docs[URIS[0]];
    check(d.shown.as_ref().map_or(false, |s| agrees(s, &d.text, false)), 265);
    reach(265);
    end();
}

/// A path, its address and back.
/// params: bytes
pub fn urls() {
    let mut p = b"/w/".to_vec();
    let n = p.len();
    p.resize(n + param(0), 0);
    fill(&mut p[n..]);
    for b in &p[n..] {
        assume(*b != 0);
    }
    use std::os::unix::ffi::OsStringExt;
    let p = AbsPathBuf::assert(PathBuf::from(std::ffi::OsString::from_vec(p)));
    let u = srv::url(&p);
    check(u.scheme() == "file", 270);
    check(u.as_str().bytes().all(|b| b > 0x20 && b < 0x7f), 271);
    let back = srv::path(&u);
    check(back.is_ok(), 272);
    let back = back.unwrap();
    check(back == vfs::VfsPath::from(p), 273);
    // and what the client sends back is the same address
    let again = lsp_types::Url::parse(u.as_str());
    let same = again.map_or(false, |a| srv::path(&a).map_or(false, |q| q == back));
    // url leaves these as they are, but reads the one as a separator and takes a letter and the
    // other for a drive
    check(same, if u.as_str().contains('\\') || u.as_str().contains('|') { 275 } else { 274 });
    observe_str(u.as_str());
    reach(270);
}
