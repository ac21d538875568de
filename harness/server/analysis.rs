//! The analysis database: what it says after changes is what it would say from scratch.
use ide::AnalysisHost;
use ide_db::base_db::{Change, FileId, SourceDatabase, SourceRoot};
use std::sync::Arc;
use sxrt::*;

/// A text: something with a few errors and arbitrary characters in it.
fn text(chars: usize, heads: usize) -> String {
    let mut s = String::from(["", "module 0x1::M {\n", "(\u{e9}\n", "script { fun f() { x"][pick(heads)]);
    for _ in 0..pick(chars + 1) {
        push_char_of(&mut s, 1);
    }
    s
}

/// params: files, changes, characters, beginnings of texts, copies of an error in front
pub fn diag() {
    let (files, n, chars, heads, copies) = (param(0), param(1), param(2), param(3), param(4));
    let mut host = AnalysisHost::new();
    let mut texts: Vec<Option<String>> = vec![None; files];
    for i in 0..n {
        let mut change = Change::new();
        let mut any = false;
        for f in 0..files {
            // everything exists to begin with; later on a file is left alone, changed, changed
            // twice at once, or removed
            let how = if i == 0 { 1 } else { pick(4) };
            if how == 0 {
                continue;
            }
            let mut t = format!("{}{}", "(".repeat(copies), text(chars, heads));
            if how == 2 {
                change.change_file(FileId(f as u32), Some(Arc::new(t.clone())));
                t = ")".into();
            }
            if how == 3 {
                t.clear();
            }
            change.change_file(FileId(f as u32), if how == 3 { None } else { Some(Arc::new(t.clone())) });
            texts[f] = Some(t);
            any = true;
        }
        if i == 0 || (any && pick(2) == 1) {
            let mut set = vfs::file_set::FileSet::default();
            for f in 0..files {
                set.insert(FileId(f as u32), vfs::VfsPath::new_virtual_path(format!("/{}.move", f)));
            }
            change.set_roots(vec![SourceRoot::new_local(set)]);
        }
        host.apply_change(change);
        // ask in between, so that there is something to be stale
        if i + 1 < n && pick(2) == 0 {
            let analysis = host.analysis();
            check(analysis.diagnostics(FileId(0)).is_ok(), 280);
            check(analysis.file_line_index(FileId(0)).is_ok(), 280);
        }
    }
    let analysis = host.analysis();
    for f in 0..files {
        let text = texts[f].as_ref().unwrap();
        let got = analysis.diagnostics(FileId(f as u32));
        check(got.is_ok(), 280);
        let got = got.unwrap();
        let parse = syntax::SourceFile::parse(text);
        let errors = parse.errors();
        check(got.len() == errors.len().min(128), 281);
        for (d, e) in got.iter().zip(errors) {
            check(d.range == e.range(), 282);
            check(d.message == format!("Syntax Error: {}", e), 283);
            check(d.code.as_str() == "syntax-error", 284);
            check(matches!(d.severity, ide_diagnostics::Severity::Error) && !d.unused, 285);
            check(usize::from(d.range.end()) <= text.len(), 286);
        }
        let index = analysis.file_line_index(FileId(f as u32));
        check(index.is_ok(), 280);
        let fresh = ide_db::LineIndex::new(text);
        let index = index.unwrap();
        for o in 0..=text.len() {
            if text.is_char_boundary(o) {
                let o = syntax::TextSize::from(o as u32);
                check(index.line_col(o) == fresh.line_col(o), 287);
            }
        }
        check(*host.raw_database().file_text(FileId(f as u32)) == *text, 288);
        observe(got.len() as u64);
        if errors.len() > 128 {
            reach(281);
        }
    }
    reach(280);
}
