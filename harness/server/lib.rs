//! Harnesses over the language server.
use lsp_types::{Position, Range, TextDocumentContentChangeEvent as Edit};
use move_language_server::verif as srv;
use sxrt::*;

mod analysis;
mod requests;
mod serve;
mod state;

sxrt::harnesses! { h_edits, h_convert, h_disjoint, h_endings, h_collect, h_docs, h_serve, h_requests, h_loop, h_robust, h_urls, h_diag }

/// A character of a class: line break, then any of 1 to 4 bytes.
fn push(s: &mut String, classes: usize) {
    let k = pick(classes);
    if k == 0 {
        s.push('\n');
    } else {
        push_char_of(s, [1, 4, 2, 3][k - 1]);
        let b = s.as_bytes();
        // a lone \r is no line break here; see DESIGN
        let last = b[b.len() - 1];
        assume((last != b'\n') & (last != b'\r'));
    }
}
/// The units a character takes in a position.
fn units(first: u8, utf8: bool) -> u32 {
    let n = if first < 0x80 {
        1
    } else if first < 0xe0 {
        2
    } else if first < 0xf0 {
        3
    } else {
        4
    };
    match (utf8, n) {
        (true, n) => n,
        (false, 4) => 2,
        _ => 1,
    }
}
fn starts(t: &[u8], i: usize) -> bool {
    i >= t.len() || (t[i] & 0xc0) != 0x80
}
/// Where a position is, by the protocol: walk to the line, then over its characters. None in the
/// middle of a character. `over`: columns past the end of a line include its line break (not the
/// protocol, but what the code and one of its tests do, see DESIGN).
fn locate(t: &[u8], p: Position, utf8: bool, over: bool) -> Option<usize> {
    let mut i = 0;
    let mut line = 0;
    while line < p.line {
        match t[i..].iter().position(|b| *b == b'\n') {
            Some(k) => i += k + 1,
            None => return Some(t.len()),
        }
        line += 1;
    }
    let mut left = p.character;
    while left > 0 && i < t.len() && t[i] != b'\n' {
        let u = units(t[i], utf8);
        if u > left {
            return None;
        }
        left -= u;
        i += 1;
        while !starts(t, i) {
            i += 1;
        }
    }
    Some(if over && left > 0 && i < t.len() { i + 1 } else { i })
}

/// What comes in front: a long line, or many short ones.
fn front(kind: usize) -> String {
    match kind {
        0 => String::new(),
        1 => "a".repeat(300),
        2 => "a".repeat(66_000),
        3 => "\n".repeat(300),
        _ => "\n".repeat(66_000),
    }
}

/// A document after its edits is what the protocol says it is.
/// params: characters, edits, characters inserted, classes, utf-8, 1: characters beyond the line too,
/// 1: no changes of the whole text, what is in front (edits are at the beginning or behind it)
#[no_mangle]
pub extern "C" fn h_edits() {
    let (n, k, m, classes, utf8, beyond) = (param(0), param(1), param(2), param(3), param(4) == 1, param(5));
    let mut t = front(param(7));
    let (lines0, units0) = match param(7) {
        0 => (0, 0),
        1 | 2 => (0, t.len()),
        _ => (t.len(), 0),
    };
    for _ in 0..n {
        push(&mut t, classes);
    }
    let mut edits = vec![];
    let mut want = t.clone();
    // the same with the other reading of columns past the end of a line
    let mut over = t.clone();
    for _ in 0..k {
        let mut text = String::new();
        for _ in 0..pick(m + 1) {
            push(&mut text, classes);
        }
        let range = if param(6) == 0 && pick(2) == 1 {
            want = text.clone();
            over = text.clone();
            None
        } else {
            let lines = want.bytes().filter(|b| *b == b'\n').count();
            let mut at = |begin: bool| {
                let first = if begin { 0 } else { lines0 };
                let line = first + pick(if begin { 1 } else { lines.saturating_sub(first) + 1 + beyond });
                let from = want.split('\n').nth(line).unwrap_or("");
                let len: u32 = from.bytes().filter(|b| (*b & 0xc0) != 0x80).map(|b| units(b, utf8)).sum();
                let skip = if begin || line > lines0 { 0 } else { units0.min(len as usize) };
                let character = if beyond == 1 { u32() } else { (skip + pick(if begin { 1 } else { len as usize + 1 - skip })) as u32 };
                Position { line: line as u32, character }
            };
            let begin = param(7) != 0 && pick(2) == 1;
            let (start, end) = (at(begin), at(begin && pick(2) == 1));
            assume(start <= end);
            for (want, over) in [(&mut want, false), (&mut over, true)] {
                let (a, b) = match (locate(want.as_bytes(), start, utf8, over), locate(want.as_bytes(), end, utf8, over)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => cut(),
                };
                want.replace_range(a..b, &text);
            }
            Some(Range { start, end })
        };
        edits.push(Edit { range, range_length: None, text });
    }
    srv::apply_changes(&mut t, edits, utf8);
    check(t == want || t == over, 130);
    check(t == want, 131);
    observe_str(&t);
    reach(130);
}

/// Offsets become the positions of the protocol and back, and every position is some offset.
/// params: characters, classes, utf-8, what is in front
#[no_mangle]
pub extern "C" fn h_convert() {
    let (n, classes, utf8) = (param(0), param(1), param(2) == 1);
    let mut t = front(param(3));
    let f = t.len();
    let lines0 = if param(3) > 2 { f } else { 0 };
    for _ in 0..n {
        push(&mut t, classes);
    }
    let at = f + pick(t.len() - f + 1);
    assume(starts(t.as_bytes(), at));
    let p = srv::position(&t, utf8, at as u32);
    check(locate(t.as_bytes(), p, utf8, false) == Some(at), 140);
    check(srv::offset(&t, utf8, p) == at as u32, 141);
    let to = at + pick(t.len() + 1 - at);
    assume(starts(t.as_bytes(), to));
    let r = srv::range(&t, utf8, at as u32, to as u32);
    check(r.start == p && locate(t.as_bytes(), r.end, utf8, false) == Some(to), 142);
    check(r.start <= r.end, 143);
    let p = Position { line: (lines0 + pick(n + 2)) as u32, character: if f == 0 || lines0 > 0 { u32() } else { (f - 1) as u32 + u8() as u32 } };
    if let Some(i) = locate(t.as_bytes(), p, utf8, false) {
        let got = srv::offset(&t, utf8, p);
        check(got == i as u32 || Some(got as usize) == locate(t.as_bytes(), p, utf8, true), 144);
        check(got == i as u32, 145);
        observe(i as u64);
    }
    reach(140);
}

#[no_mangle]
pub extern "C" fn h_disjoint() {
    state::disjoint()
}
/// Line endings are normalised: every "\r\n" becomes "\n", nothing else changes.
/// params: characters, classes, what is in front
#[no_mangle]
pub extern "C" fn h_endings() {
    let n = pick(param(0) + 1);
    let mut t = match param(2) {
        0 => String::new(),
        1 => "\r\n".repeat(300),
        2 => "a\n".repeat(300),
        3 => "ab\r\n".repeat(20_000),
        _ => "a".repeat(66_000),
    };
    for _ in 0..n {
        push_char_of(&mut t, if param(1) > 0 { pick(param(1)) + 1 } else { 1 });
    }
    let mut want = String::new();
    let mut dos = false;
    let b = t.as_bytes();
    for i in 0..b.len() {
        if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') {
            dos = true;
        } else {
            unsafe { want.as_mut_vec().push(b[i]) };
        }
    }
    let had = b.contains(&b'\r');
    let (got, crlf) = srv::normalize_line_endings(t);
    check(got == want, 120);
    check(crlf | !dos, 121);
    check(!crlf | had, 122);
    observe_str(&got);
    reach(120);
}
#[no_mangle]
pub extern "C" fn h_collect() {
    state::collect()
}
#[no_mangle]
pub extern "C" fn h_docs() {
    state::docs()
}
#[no_mangle]
pub extern "C" fn h_serve() {
    serve::serve()
}
#[no_mangle]
pub extern "C" fn h_requests() {
    requests::requests()
}
#[no_mangle]
pub extern "C" fn h_loop() {
    requests::main_loop()
}
#[no_mangle]
pub extern "C" fn h_robust() {
    serve::robust()
}
#[no_mangle]
pub extern "C" fn h_urls() {
    serve::urls()
}
#[no_mangle]
pub extern "C" fn h_diag() {
    analysis::diag()
}
