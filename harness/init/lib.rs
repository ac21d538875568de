//! The whole program, from its standard input to its standard output.
use serde_json::{json, Value};
use sxrt::*;

mod pipe;

mod server {
    include!(concat!(env!("VP_REPO"), "/crates/move_language_server/src/bin/move_language_server.rs"));
    pub fn run() {
        main()
    }
}

sxrt::harnesses! { h_init }

/// what the client offers: the value of `offsetEncoding`, whether UTF-8 is among it
fn offer() -> (Option<Value>, bool) {
    match pick(8) {
        0 => (None, false),
        1 => (Some(Value::Null), false),
        2 => (Some(json!([])), false),
        3 => (Some(json!(["utf-8"])), true),
        4 => (Some(json!(["utf-16"])), false),
        5 => (Some(json!(["utf-16", "utf-8"])), true),
        6 => (Some(json!(["utf-8", "utf-32"])), true),
        _ => {
            // another name, or that one
            let mut s = String::from("utf-");
            let c = u8();
            assume((c > b' ') & (c < 0x7f) & (c != b'"') & (c != b'\\'));
            s.push(c as char);
            let utf8 = c == b'8';
            (Some(json!([s])), utf8)
        }
    }
}
/// where an offset is, for the client
fn position(t: &str, at: usize, utf8: bool) -> Value {
    let line = t[..at].matches('\n').count();
    let start = t[..at].rfind('\n').map_or(0, |k| k + 1);
    let s = &t[start..at];
    json!({"line": line, "character": if utf8 { s.len() } else { s.encode_utf16().count() }})
}

/// Initialisation, one document, shutdown. params: 0: what is offered, 1: further parameters,
/// 2: senseless beginnings; choices of the scheduler
#[no_mangle]
pub extern "C" fn h_init() {
    let mode = param(0);
    sched(param(1) as u32, 0);
    let mut params = json!({"processId": null, "capabilities": {}});
    let id = if mode == 1 && pick(2) == 1 { json!("a") } else { json!(1) };
    let (mut utf8, mut registers, mut bad) = (false, false, false);
    if mode != 1 {
        let (o, u) = offer();
        utf8 = u;
        if let Some(o) = o {
            params["capabilities"]["offsetEncoding"] = o;
        }
    }
    if mode == 1 {
        match pick(4) {
            0 => {}
            1 => params["rootUri"] = Value::Null,
            2 => params["rootUri"] = json!("file:///p/q"),
            _ => params["rootUri"] = json!("http://p/q"),
        }
        match pick(6) {
            0 => {}
            1 => params["workspaceFolders"] = Value::Null,
            2 => params["workspaceFolders"] = json!([]),
            3 => params["workspaceFolders"] = json!([{"uri": "file:///p", "name": "p"}]),
            4 => params["workspaceFolders"] = json!([{"uri": "http://p/q", "name": "p"}]),
            _ => params["workspaceFolders"] = json!([{"uri": "file:///p", "name": "p"}, {"uri": "file:///q", "name": "q"}]),
        }
        let k = pick(5);
        if k > 0 {
            registers = k == 4;
            params["capabilities"]["textDocument"] =
                json!({"synchronization": {"didSave": k % 2 == 0, "dynamicRegistration": k > 2}});
        }
        if pick(2) == 1 {
            params["clientInfo"] = json!({"name": "c"});
        }
    }
    let mut texts = vec![];
    let method = "initialize";
    if mode == 2 {
        bad = true;
        match pick(4) {
            0 => params = json!({"processId": null}),
            1 => params = Value::Null,
            2 => params["capabilities"]["offsetEncoding"] = json!(1),
            // the handshake is not completed
            _ => {}
        }
    }
    texts.push(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}));
    if !bad {
        texts.push(json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}));
    }
    let text = ["x\u{e9}\u{10400} $ b\n", "", "script {}\n\u{20ac} \u{10400}$"][if bad { 0 } else { pick(3) }];
    let version = 7;
    let uri = "file:///d/e.move";
    if !bad {
        texts.push(json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument":
            {"uri": uri, "languageId": "move", "version": version, "text": text}}}));
    }
    let last = vec![
        json!({"jsonrpc": "2.0", "id": 2, "method": "shutdown"}),
        json!({"jsonrpc": "2.0", "method": "exit"}),
    ];
    let frame = |v: &[Value]| -> Vec<u8> {
        let mut r = vec![];
        for m in v {
            let s = m.to_string();
            r.extend_from_slice(format!("Content-Length: {}\r\n\r\n", s.len()).as_bytes());
            r.extend_from_slice(s.as_bytes());
        }
        r
    };
    pipe::start(frame(&texts), if bad { b"".as_slice() } else { b"publishDiagnostics".as_slice() }, frame(&last), bad);
    server::run();
    let out = pipe::finish();
    check(!bad, 360);

    // the messages of the server
    let mut msgs: Vec<Value> = vec![];
    let mut rest = &out[..];
    while !rest.is_empty() {
        let head = rest.windows(4).position(|w| w == b"\r\n\r\n");
        let head = match head {
            Some(h) => h,
            None => return check(false, 361),
        };
        let h = std::str::from_utf8(&rest[..head]).unwrap();
        let n: usize = match h.strip_prefix("Content-Length: ").and_then(|n| n.parse().ok()) {
            Some(n) => n,
            None => return check(false, 361),
        };
        match rest.get(head + 4..head + 4 + n).and_then(|b| serde_json::from_slice(b).ok()) {
            Some(m) => msgs.push(m),
            None => return check(false, 361),
        }
        rest = &rest[head + 4 + n..];
    }
    // the answer to `initialize` comes first
    let first = match msgs.first() {
        Some(m) => m,
        None => return check(false, 362),
    };
    check(first["id"] == id && first.get("error").is_none(), 362);
    let enc = first["result"].get("offsetEncoding").cloned().unwrap_or(Value::Null);
    check(enc == if utf8 { json!("utf-8") } else { Value::Null }, 363);
    let sync = &first["result"]["capabilities"]["textDocumentSync"];
    check(sync["openClose"] == json!(true), 364);
    check(sync["change"] == json!(1) || sync["change"] == json!(2), 364);
    check(first["result"]["serverInfo"]["name"] == json!("move-language-server"), 365);
    if utf8 {
        reach(363)
    } else {
        reach(364)
    }
    // registrations, exactly if the client takes them
    let regs: Vec<&Value> = msgs.iter().filter(|m| m["method"] == json!("client/registerCapability")).collect();
    check(regs.len() == registers as usize, 366);
    if registers {
        check(regs[0]["params"]["registrations"][0]["method"] == json!("textDocument/didSave"), 367);
        check(regs[0].get("id").is_some(), 367);
        reach(367);
    }
    // the diagnostics, in the encoding agreed
    let parse = syntax::SourceFile::parse(text);
    let want: Vec<Value> = parse
        .errors()
        .iter()
        .map(|e| {
            let r = e.range();
            json!({"start": position(text, u32::from(r.start()) as usize, utf8), "end": position(text, u32::from(r.end()) as usize, utf8)})
        })
        .collect();
    let pubs: Vec<&Value> = msgs.iter().filter(|m| m["method"] == json!("textDocument/publishDiagnostics")).collect();
    check(!pubs.is_empty(), 368);
    for p in pubs {
        check(p["params"]["uri"] == json!(uri) && p["params"]["version"] == json!(version), 369);
        let got: Vec<Value> = p["params"]["diagnostics"].as_array().unwrap().iter().map(|d| d["range"].clone()).collect();
        check(got == want, 370);
    }
    // each request is answered once
    let answers = msgs.iter().filter(|m| m.get("method").is_none()).count();
    check(answers == 2, 371);
    check(msgs.iter().filter(|m| m["id"] == json!(2) && m.get("method").is_none() && m.get("error").is_none()).count() == 1, 372);
    reach(372);
}
