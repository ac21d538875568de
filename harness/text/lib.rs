//! Harnesses over positions and files: ide_db::LineIndex, vfs, paths, stdx.
use ide_db::{LineCol, LineColUtf16, LineIndex};
use sxrt::*;
use syntax::{TextRange, TextSize};

mod files;
mod helpers;

sxrt::harnesses! { h_line, h_utf16, h_lines, h_vfs, h_sets, h_resolve, h_norm, h_virtual, h_entries, h_case, h_indent, h_ranges }

/// `n` arbitrary characters; one path per sequence of encoded lengths.
fn text(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        push_char(&mut s);
    }
    s
}
/// Up to `n` characters.
fn upto(n: usize) -> String {
    let k = pick(n + 1);
    text(k)
}
/// What comes in front: a long line of characters of one to four bytes, or many short lines.
fn front(kind: usize) -> String {
    match kind {
        0 => String::new(),
        1 => "a".repeat(300),
        2 => "a".repeat(66_000),
        3 => "\n".repeat(300),
        4 => "\n".repeat(66_000),
        5 => "\u{e9}".repeat(20),
        6 => "\u{20ac}a".repeat(20),
        _ => "a\u{1f600}\n".repeat(260) + &"\u{1f600}".repeat(20),
    }
}
/// Beginning of the line that `at` is in, and the number of that line.
fn line_start(t: &[u8], at: usize) -> (usize, u32) {
    let (mut s, mut l) = (0, 0);
    for (i, b) in t[..at].iter().enumerate() {
        if *b == b'\n' {
            s = i + 1;
            l += 1;
        }
    }
    (s, l)
}
fn utf16_len(s: &[u8]) -> u32 {
    let mut n = 0;
    for b in s {
        // one unit per character, two for those of four bytes
        n += ((*b & 0xc0) != 0x80) as u32 + (*b >= 0xf0) as u32;
    }
    n
}
fn boundary(t: &[u8], at: usize) -> bool {
    at == t.len() || (t[at] & 0xc0) != 0x80
}

/// Every offset of a text converts to its line and column, and back.
/// params: longest text (characters), what is in front of it
#[no_mangle]
pub extern "C" fn h_line() {
    let f = front(param(1));
    let t = f.clone() + &upto(param(0));
    let ix = LineIndex::new(&t);
    let at = f.len() + pick(t.len() - f.len() + 1);
    let (start, line) = line_start(t.as_bytes(), at);
    let lc = ix.line_col(TextSize::from(at as u32));
    check(lc.line == line, 90);
    check(lc.col as usize == at - start, 91);
    check(u32::from(ix.offset(lc)) as usize == at, 92);
    observe(lc.line as u64);
    observe(lc.col as u64);
    reach(90);
}

/// Columns in UTF-16 units count the units before the position, and convert back.
/// params: longest text (characters), what is in front of it
#[no_mangle]
pub extern "C" fn h_utf16() {
    let f = front(param(1));
    let t = f.clone() + &upto(param(0));
    let ix = LineIndex::new(&t);
    let at = f.len() + pick(t.len() - f.len() + 1);
    assume(boundary(t.as_bytes(), at));
    let (start, line) = line_start(t.as_bytes(), at);
    let lc = LineCol { line, col: (at - start) as u32 };
    let w = ix.to_utf16(lc);
    check(w.line == line, 100);
    check(w.col == utf16_len(&t.as_bytes()[start..at]), 101);
    let b = ix.to_utf8(LineColUtf16 { line: w.line, col: w.col });
    check(b == lc, 102);
    observe(w.col as u64);
    reach(100);
}

/// The pieces of a range, line by line: in order, without gaps, none empty, each but the last ends
/// with the only line break in it.
/// params: longest text (characters), what is in front of it
#[no_mangle]
pub extern "C" fn h_lines() {
    let f = front(param(1));
    let t = f.clone() + &upto(param(0));
    let ix = LineIndex::new(&t);
    let from = f.len().saturating_sub(1);
    let a = from + pick(t.len() + 1 - from);
    let b = a + pick(t.len() + 1 - a);
    let (s, e) = (TextSize::from(a as u32), TextSize::from(b as u32));
    let mut pos = a;
    let mut n = 0u64;
    for r in ix.lines(TextRange::new(s, e)) {
        let (x, y) = (u32::from(r.start()) as usize, u32::from(r.end()) as usize);
        check(x == pos && y > x && y <= b, 110);
        for i in x..y {
            check((t.as_bytes()[i] != b'\n') | (i + 1 == y), 111);
        }
        check((y == b) | (t.as_bytes()[y - 1] == b'\n'), 112);
        pos = y;
        n += 1;
    }
    check(pos == b, 113);
    observe(n);
    reach(110);
}

#[no_mangle]
pub extern "C" fn h_vfs() {
    files::vfs()
}
#[no_mangle]
pub extern "C" fn h_sets() {
    files::sets()
}
#[no_mangle]
pub extern "C" fn h_resolve() {
    files::resolve()
}
#[no_mangle]
pub extern "C" fn h_norm() {
    files::norm()
}
#[no_mangle]
pub extern "C" fn h_virtual() {
    files::virt()
}
#[no_mangle]
pub extern "C" fn h_entries() {
    files::entries()
}
#[no_mangle]
pub extern "C" fn h_case() {
    helpers::case()
}
#[no_mangle]
pub extern "C" fn h_indent() {
    helpers::indent()
}
#[no_mangle]
pub extern "C" fn h_ranges() {
    helpers::ranges()
}
