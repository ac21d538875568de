//! Requests and their responses.
use crossbeam_channel::{unbounded, Receiver};
use lsp_server::{ErrorCode, Message, Notification, Request, RequestId, Response};
use move_language_server::config::Config;
use move_language_server::verif as srv;
use serde_json::{json, Value};
use std::path::PathBuf;
use sxrt::*;
use vfs::AbsPathBuf;

/// What a request is to be answered with: its result or the error's code.
#[derive(Clone, Copy, PartialEq)]
enum Want {
    Null,
    Echo,
    Code(i32),
    /// done, or cancelled by a change
    Either,
}
struct Pending {
    id: RequestId,
    want: Want,
    cancelled: bool,
    /// answered this often
    answers: u32,
    params: &'static str,
}
struct Client {
    server: srv::Server,
    out: Receiver<Message>,
    asked: Vec<Pending>,
    version: i32,
}

impl Client {
    fn read(&mut self) {
        while let Ok(m) = self.out.try_recv() {
            let Message::Response(r) = m else { continue };
            let p = self.asked.iter_mut().find(|p| p.id == r.id);
            check(p.is_some(), 230);
            let p = p.unwrap();
            p.answers += 1;
            check(p.answers == 1, 231);
            check(r.result.is_some() != r.error.is_some(), 232);
            let code = r.error.as_ref().map(|e| e.code);
            if p.cancelled && code == Some(ErrorCode::RequestCanceled as i32) {
                continue;
            }
            check(!p.cancelled, 233);
            check(
                match p.want {
                    Want::Null => r.result == Some(Value::Null),
                    Want::Echo => r.result == Some(Value::String(p.params.into())),
                    Want::Code(c) => code == Some(c),
                    Want::Either => {
                        r.result == Some(Value::String(p.params.into())) || code == Some(ErrorCode::ContentModified as i32)
                    }
                },
                234,
            );
        }
    }
    fn answered(&self) -> bool {
        self.asked.last().unwrap().answers == 1
    }
    fn task(&mut self) -> bool {
        let r = self.server.task();
        check(r.is_ok(), 235);
        self.read();
        r.unwrap_or(false)
    }
    fn notify(&mut self, method: &str, params: Value) {
        let before: u32 = self.asked.iter().map(|p| p.answers).sum();
        let r = self.server.message(Message::Notification(Notification { method: method.into(), params }));
        check(r.is_ok(), 235);
        self.read();
        let after: u32 = self.asked.iter().map(|p| p.answers).sum();
        check(after == before || method == "$/cancelRequest", 236);
    }
    fn ask(&mut self, want: Want, params: &'static str) -> RequestId {
        let n = self.asked.len();
        // numbers and strings are different identifiers
        let id = match n % 3 {
            0 => RequestId::from(n as i32),
            1 => RequestId::from((n - 1).to_string()),
            _ => RequestId::from(n as i32),
        };
        self.asked.push(Pending { id: id.clone(), want, cancelled: false, answers: 0, params });
        id
    }
}

/// Every request is answered once, with what it asked for or with the error that says why not,
/// whatever runs on the workers in the meantime.
/// params: messages, characters of an unknown method, choices of the scheduler, preemptions, kinds,
/// requests under way to begin with
pub fn requests() {
    let (n, chars, kinds) = (param(0), param(1), param(4));
    let (tx, out) = unbounded();
    let config = Config::new(AbsPathBuf::assert(PathBuf::from("/w")), Default::default());
    let mut c = Client { server: srv::Server::new(tx, config), out, asked: vec![], version: 1 };
    yield_now();
    let mut down = false;
    c.notify(
        "textDocument/didOpen",
        json!({"textDocument": {"uri": "file:///w/a.move", "languageId": "move", "version": 1, "text": "("}}),
    );
    for i in 0..param(5) {
        let (params, want) =
            [("value", Want::Echo), ("lsp error", Want::Code(7)), ("error", Want::Code(ErrorCode::InternalError as i32))][i % 3];
        let id = c.ask(want, params);
        let r = c.server.request(Request { id, method: "verif/probe".into(), params: params.into() }, srv::Dispatch::Pool);
        check(r.is_ok(), 235);
        c.read();
    }
    sched(param(2) as u32, param(3) as u32);
    for _ in 0..n {
        match pick(kinds) {
            // a request with any method
            0 => {
                let mut method = String::new();
                for _ in 0..chars {
                    push_char_of(&mut method, 1);
                }
                let known = method == "shutdown";
                let want = if down {
                    Want::Code(ErrorCode::InvalidRequest as i32)
                } else if known {
                    Want::Null
                } else {
                    Want::Code(ErrorCode::MethodNotFound as i32)
                };
                let id = c.ask(want, "");
                let r = c.server.message(Message::Request(Request { id, method, params: Value::Null }));
                check(r.is_ok(), 235);
                c.read();
                check(c.answered(), 237);
                down |= known;
                check(c.server.shutdown_requested() == down, 238);
            }
            // parameters that are none
            1 => {
                let want = if down { ErrorCode::InvalidRequest } else { ErrorCode::InvalidParams };
                let id = c.ask(Want::Code(want as i32), "");
                let r = c.server.message(Message::Request(Request { id, method: "shutdown".into(), params: json!({"a": 1}) }));
                check(r.is_ok(), 235);
                c.read();
                check(c.answered(), 237);
                check(c.server.shutdown_requested() == down, 238);
            }
            // requests with a handler
            2 => {
                let how = pick(3);
                let (params, want) = [
                    ("value", Want::Echo),
                    ("lsp error", Want::Code(7)),
                    ("error", Want::Code(ErrorCode::InternalError as i32)),
                    ("panic", Want::Code(ErrorCode::InternalError as i32)),
                    ("diagnostics", Want::Either),
                ][pick(if how == 2 { 3 } else { 5 })];
                let id = c.ask(want, params);
                let how = [srv::Dispatch::Pool, srv::Dispatch::Snapshot, srv::Dispatch::Mut][how];
                let method = "verif/probe".to_string();
                let r = c.server.request(Request { id, method, params: params.into() }, how);
                check(r.is_ok(), 235);
                c.read();
                check(matches!(how, srv::Dispatch::Pool) || c.answered(), 237);
            }
            // one of the requests is cancelled
            3 => {
                // (one of the last few, where there are many)
                let few = c.asked.len().min(4);
                let k = c.asked.len() - few + pick(few + 1);
                let id = c.asked.get(k).map_or(RequestId::from(100_077), |p| p.id.clone());
                let before = c.asked.get(k).map_or(1, |p| p.answers);
                if before == 0 {
                    c.asked[k].cancelled = true;
                }
                c.notify("$/cancelRequest", json!({ "id": id }));
                if before == 0 {
                    check(c.asked[k].answers == 1, 239);
                    reach(239);
                }
            }
            // the document changes
            4 => {
                c.version += 1;
                let version = c.version;
                c.notify(
                    "textDocument/didChange",
                    json!({"textDocument": {"uri": "file:///w/a.move", "version": version}, "contentChanges": [{"text": ")".repeat(version as usize)}]}),
                );
            }
            // workers run
            5 => yield_now(),
            // and the server takes what they have
            6 => {
                yield_now();
                while c.task() {}
            }
            // what it does not know it leaves alone
            _ => c.notify(["$/setTrace", "workspace/didChangeConfiguration"][pick(2)], json!({"value": "off"})),
        }
    }
    sched(0, 0);
    if pick(2) == 0 {
        loop {
            for _ in 0..4 {
                yield_now();
            }
            if !c.task() {
                break;
            }
        }
        for p in &c.asked {
            check(p.answers == 1, 240);
            reach(240);
        }
        observe(c.asked.len() as u64);
    } else {
        // the end, in the middle of it
        drop(c);
        reach(241);
    }
    end();
}

/// The server as it is started: messages up to `exit`, or up to the end of the input.
/// params: messages, characters of a method
pub fn main_loop() {
    let (n, chars) = (param(0), param(1));
    let (server, client) = lsp_server::Connection::memory();
    let mut caps = lsp_types::ClientCapabilities::default();
    let register = pick(2) == 1;
    if register {
        caps.text_document = Some(lsp_types::TextDocumentClientCapabilities {
            synchronization: Some(lsp_types::TextDocumentSyncClientCapabilities {
                dynamic_registration: Some(true),
                did_save: Some(true),
                ..Default::default()
            }),
            ..Default::default()
        });
    }
    let config = Config::new(AbsPathBuf::assert(PathBuf::from("/w")), caps);
    let mut asked = vec![];
    let mut down = false;
    let send = |m: Message| client.sender.send(m).unwrap();
    if register {
        send(Message::Response(Response::new_ok(RequestId::from(0), Value::Null)));
    }
    for i in 0..n {
        if pick(3) == 0 {
            send(Message::Notification(Notification {
                method: "textDocument/didOpen".into(),
                params: json!({"textDocument": {"uri": format!("file:///w/{}.move", i), "languageId": "move", "version": 1, "text": "("}}),
            }));
        } else {
            let mut method = String::new();
            for _ in 0..chars {
                push_char_of(&mut method, 1);
            }
            let known = method == "shutdown";
            asked.push(if down {
                Some(ErrorCode::InvalidRequest as i32)
            } else if known {
                None
            } else {
                Some(ErrorCode::MethodNotFound as i32)
            });
            down |= known;
            send(Message::Request(Request { id: (asked.len() as i32).into(), method, params: Value::Null }));
        }
    }
    let exit = pick(2) == 1;
    if exit {
        send(Message::Notification(Notification { method: "exit".into(), params: Value::Null }));
        // not seen any more
        send(Message::Request(Request { id: 99.into(), method: "shutdown".into(), params: Value::Null }));
    }
    let lsp_server::Connection { sender, receiver } = client;
    drop(sender);
    let r = move_language_server::main_loop(config, server);
    check(r.is_ok() == exit, 250);
    let (mut answers, mut requests) = (vec![], 0);
    while let Ok(m) = receiver.try_recv() {
        match m {
            Message::Response(r) => answers.push(r),
            Message::Request(r) => {
                check(r.method == "client/registerCapability", 251);
                requests += 1;
            }
            Message::Notification(n) => check(n.method == "textDocument/publishDiagnostics", 252),
        }
    }
    check(requests == register as usize, 253);
    check(answers.len() == asked.len(), 254);
    for (i, (a, want)) in answers.iter().zip(&asked).enumerate() {
        check(a.id == RequestId::from(i as i32 + 1), 255);
        check(a.error.as_ref().map(|e| e.code) == *want, 256);
    }
    observe(answers.len() as u64);
    reach(if exit { 250 } else { 251 });
    end();
}
