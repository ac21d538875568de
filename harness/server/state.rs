//! The server's collections against models.
use lsp_types::{
    CompletionItem, CompletionTextEdit, Diagnostic, DiagnosticSeverity, InsertReplaceEdit, Position, Range, TextEdit,
};
use move_language_server::verif as srv;
use sxrt::*;
use vfs::VfsPath;

fn pos() -> Position {
    Position { line: u8() as u32, character: u8() as u32 }
}
fn range() -> Range {
    let r = Range { start: pos(), end: pos() };
    assume((r.start.line < r.end.line) | ((r.start.line == r.end.line) & (r.start.character <= r.end.character)));
    r
}
fn before(a: Position, b: Position) -> bool {
    (a.line < b.line) | ((a.line == b.line) & (a.character < b.character))
}

/// Edits overlap iff one begins before the other ends, both ways.
/// params: additional edits of the item, further edits
pub fn disjoint() {
    let (n, m) = (param(0), param(1));
    let edit = |range| TextEdit { range, new_text: String::new() };
    let mut all = vec![];
    let mut item = CompletionItem::default();
    let mut prefix = true;
    match pick(3) {
        0 => {}
        1 => {
            let r = range();
            all.push(r);
            item.text_edit = Some(CompletionTextEdit::Edit(edit(r)));
        }
        _ => {
            let (insert, replace) = (range(), range());
            prefix = (insert.start == replace.start) & !before(replace.end, insert.end);
            all.push(replace);
            item.text_edit =
                Some(CompletionTextEdit::InsertAndReplace(InsertReplaceEdit { insert, replace, new_text: String::new() }));
        }
    }
    let own: Vec<Range> = (0..pick(n + 1)).map(|_| range()).collect();
    let more: Vec<Range> = (0..pick(m + 1)).map(|_| range()).collect();
    if !own.is_empty() || flag() {
        item.additional_text_edits = Some(own.iter().map(|r| edit(*r)).collect());
    }
    all.extend(own);
    all.extend(more.iter().copied());
    let mut want = prefix;
    for i in 0..all.len() {
        for j in 0..i {
            want &= !(before(all[i].start, all[j].end) & before(all[j].start, all[i].end));
        }
    }
    let more: Vec<TextEdit> = more.into_iter().map(edit).collect();
    let got = srv::edits_are_disjoint(&item, &more);
    check(got == want, 148);
    observe(got as u64);
    reach(148);
}

/// What a client sees of a diagnostic.
fn same(a: &Diagnostic, b: &Diagnostic) -> bool {
    (a.range == b.range) & (a.severity == b.severity) & (a.message == b.message) & (a.source == b.source)
}
fn same_all(a: &[Diagnostic], b: &[Diagnostic]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b))
}
fn diagnostic(vary: usize) -> Diagnostic {
    let mut d = Diagnostic::default();
    let p = |v: bool| Position { line: 0, character: v as u32 };
    // every part of it may differ
    d.range = Range { start: p(vary & 1 != 0 && flag()), end: Position { line: if vary & 1 != 0 { u32() } else { 3 }, character: 4 } };
    d.severity = if vary & 2 != 0 && flag() { Some(DiagnosticSeverity::Hint) } else { Some(DiagnosticSeverity::Error) };
    d.message = if vary & 4 != 0 { (b'a' + choose(3) as u8) as char } else { 'm' }.to_string();
    d.source = if vary & 8 != 0 && flag() { None } else { Some("s".into()) };
    d
}

/// A client that asks again for what has changed knows everything.
/// params: steps, files, longest list, bits: parts of a diagnostic that vary, diagnostics each file
/// has to begin with
pub fn collect() {
    let (steps, files, most, vary) = (param(0), param(1), param(2), param(3));
    let mut c = srv::Diagnostics::default();
    let mut native: Vec<Vec<Diagnostic>> = vec![vec![]; files];
    let mut checks: Vec<Vec<Diagnostic>> = vec![vec![]; files];
    let mut fixes: Vec<Vec<Range>> = vec![vec![]; files];
    let mut client: Vec<Vec<Diagnostic>> = vec![vec![]; files];
    // nothing changes without a reason
    let mut touched = vec![false; files];
    for f in 0..files {
        for i in 0..param(4) {
            let mut d = diagnostic(0);
            d.message = format!("{}", i);
            c.add_check(f as u32, d.clone(), vec![]);
            checks[f].push(d.clone());
            native[f].push(d);
            touched[f] = true;
        }
        if param(4) > 0 {
            c.set_native(f as u32, native[f].clone());
        }
    }
    for _ in 0..steps {
        match pick(4) {
            0 => {
                let f = pick(files);
                let mut list: Vec<Diagnostic> = (0..pick(most + 1)).map(|_| diagnostic(vary)).collect();
                if param(4) > 0 && flag() {
                    // all but the last, or what differs only at the end
                    let mut all = native[f].clone();
                    all.pop();
                    all.append(&mut list);
                    list = all;
                }
                c.set_native(f as u32, list.clone());
                native[f] = list;
                touched[f] = true;
            }
            1 => {
                let f = pick(files);
                let mut d = diagnostic(vary);
                if param(4) > 0 && flag() {
                    d = checks[f].last().cloned().unwrap_or(d);
                }
                c.add_check(f as u32, d.clone(), vec![]);
                if !checks[f].iter().any(|x| same(x, &d)) {
                    checks[f].push(d);
                }
                touched[f] = true;
            }
            2 => {
                c.clear_check();
                for f in 0..files {
                    touched[f] |= !checks[f].is_empty();
                    checks[f].clear();
                    fixes[f].clear();
                }
            }
            _ => {
                match c.take_changes() {
                    None => {}
                    Some(list) => {
                        check(!list.is_empty(), 150);
                        for (i, f) in list.iter().enumerate() {
                            check(!list[..i].contains(f), 151);
                            check(touched[*f as usize], 152);
                            client[*f as usize] = c.of(*f);
                        }
                    }
                }
                for f in 0..files {
                    let mut want = native[f].clone();
                    want.extend(checks[f].iter().cloned());
                    check(same_all(&client[f], &want), 153);
                    touched[f] = false;
                }
                check(c.take_changes().is_none(), 154);
            }
        }
        for f in 0..files {
            let mut want = native[f].clone();
            want.extend(checks[f].iter().cloned());
            let got = c.of(f as u32);
            observe(got.len() as u64);
            check(same_all(&got, &want), 155);
            check(c.fixes(f as u32).is_empty(), 156);
        }
    }
    reach(150);
}

/// Open documents are those opened and not closed since, with their last version.
/// params: steps, letters in a name, other documents
pub fn docs() {
    let (steps, w) = (param(0), param(1));
    let mut d = srv::Docs::default();
    let mut m: Vec<(String, i32)> = vec![];
    let mut changed = false;
    let path = |s: &str| VfsPath::new_virtual_path(s.into());
    for i in 0..param(2) {
        let s = format!("/{}", i);
        check(d.insert(path(&s), i as i32), 162);
        m.push((s, i as i32));
        changed = true;
    }
    for _ in 0..steps {
        let mut s = String::from("/");
        for _ in 0..w {
            s.push((b'a' + choose(16) as u8) as char);
        }
        let p = path(&s);
        let i = m.iter().position(|x| x.0 == s);
        check(d.contains(&p) == i.is_some(), 160);
        check(d.version(&p) == i.map(|i| m[i].1), 161);
        let v = u32() as i32;
        match pick(4) {
            0 => {
                check(d.insert(p, v) == i.is_none(), 162);
                match i {
                    Some(i) => m[i].1 = v,
                    None => m.push((s, v)),
                }
                changed = true;
            }
            1 => {
                check(d.remove(&p) == i.is_some(), 163);
                if let Some(i) = i {
                    m.remove(i);
                }
                changed = true;
            }
            2 => {
                check(d.set_version(&p, v) == i.is_some(), 164);
                if let Some(i) = i {
                    m[i].1 = v;
                }
            }
            _ => {
                check(d.take_changes() == changed, 165);
                changed = false;
            }
        }
        let all = d.paths();
        check(all.len() == m.len(), 166);
        for (s, v) in &m {
            check(all.iter().any(|p| *p == path(s)), 167);
            check(d.version(&path(s)) == Some(*v), 168);
        }
        observe(m.len() as u64);
    }
    reach(160);
}
