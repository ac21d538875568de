import subprocess, sys
def seed(id, prop, edits, deps, needs, what, main, notest=False):
    W="/tmp/seedwt"
    subprocess.run(["git","-C",W,"checkout","-q","--","."],check=True)
    for f,old,new in edits:
        p=f"{W}/crates/{f}"; s=open(p).read(); assert s.count(old)==1,(id,f,s.count(old)); open(p,"w").write(s.replace(old,new))
    open("/tmp/seed_main.rs","w").write(main)
    r=subprocess.run(["python3","/verif/tools/mkseed.py",id,prop,deps,needs,what]+(["--notest"] if notest else []),capture_output=True,text=True)
    print("==",id,[l for l in (r.stdout+r.stderr).split("\n") if l.startswith(("unchanged","changed","build:","tests","SEED","Assert","error"))],flush=True)
    subprocess.run(["git","-C",W,"checkout","-q","--","."],check=True)
PRE='''use syntax::{SourceFile, AstNode}; use syntax::syntax_node::{SyntaxNode, SyntaxElement};
#[allow(dead_code)]
fn shape(n: &SyntaxNode) -> String {
    let mut s = format!("{:?}(", n.kind());
    for c in n.children_with_tokens() {
        match c {
            SyntaxElement::Node(n) => s += &shape(&n),
            SyntaxElement::Token(t) => if !t.kind().is_trivia() { s += t.text(); s += " " },
        }
    }
    s + ")"
}
'''
LSPDEPS="move_language_server,vfs,lsp_server=@\"0.5.2\",lsp_types=@\"0.90.0\",serde_json=@\"1\""
LSPDEPS=LSPDEPS.replace("lsp_server=@\"0.5.2\"",'lsp-server=@"0.5.2"').replace("lsp_types=",'lsp-types=')
LSP='''#![allow(dead_code)]
use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
use serde_json::{json, Value};
use std::time::Duration;
use vfs::AbsPathBuf;
fn start(caps: Value) -> Connection {
    let (server, client) = Connection::memory();
    let caps = serde_json::from_value(caps).unwrap();
    std::thread::spawn(move || {
        let config = move_language_server::config::Config::new(AbsPathBuf::assert("/nonexistent-demo".into()), caps);
        let _ = move_language_server::main_loop(config, server);
    });
    client
}
fn note(c: &Connection, method: &str, params: Value) {
    c.sender.send(Message::Notification(Notification { method: method.to_string(), params })).unwrap()
}
fn open(c: &Connection, uri: &str, version: i32, text: &str) {
    note(c, "textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "move", "version": version, "text": text}}))
}
fn change(c: &Connection, uri: &str, version: i32, changes: Value) {
    note(c, "textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": changes}))
}
fn close(c: &Connection, uri: &str) {
    note(c, "textDocument/didClose", json!({"textDocument": {"uri": uri}}))
}
fn ask(c: &Connection, id: i32, method: &str, params: Value) {
    c.sender.send(Message::Request(Request { id: id.into(), method: method.to_string(), params })).unwrap()
}
fn edit(sl: u32, sc: u32, el: u32, ec: u32, text: &str) -> Value {
    json!({"range": {"start": {"line": sl, "character": sc}, "end": {"line": el, "character": ec}}, "text": text})
}
/// The diagnostics published for this version of the file, as (line, column) of their start.
fn diags(c: &Connection, uri: &str, version: i32) -> Option<Vec<(u64, u64)>> {
    loop {
        match c.receiver.recv_timeout(Duration::from_secs(4)) {
            Ok(Message::Notification(n)) if n.method == "textDocument/publishDiagnostics" && n.params["uri"] == uri && n.params["version"] == version => {
                return Some(n.params["diagnostics"].as_array().unwrap().iter().map(|d| {
                    let p = &d["range"]["start"];
                    (p["line"].as_u64().unwrap(), p["character"].as_u64().unwrap())
                }).collect())
            }
            Ok(_) => continue,
            Err(_) => return None,
        }
    }
}
fn response(c: &Connection, id: i32) -> Option<Response> {
    loop {
        match c.receiver.recv_timeout(Duration::from_secs(4)) {
            Ok(Message::Response(r)) if r.id == RequestId::from(id) => return Some(r),
            Ok(_) => continue,
            Err(_) => return None,
        }
    }
}
const F: &str = "file:///tmp/a.move";
'''
