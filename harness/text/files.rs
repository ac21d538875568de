//! vfs and paths against a model of files as text paths.
use paths::{AbsPath, AbsPathBuf, RelPathBuf};
use std::convert::TryFrom;
use std::path::PathBuf;
use sxrt::*;
use vfs::file_set::{FileSet, FileSetConfig};
use vfs::{AnchoredPath, ChangeKind, FileId, Vfs, VfsPath};

/// A character of `abc`, any.
fn letter(s: &mut String, abc: &[u8]) {
    s.push(abc[choose(abc.len())] as char);
}
/// "/" and up to `n` more characters of `abc`.
fn rooted(n: usize, abc: &[u8]) -> String {
    let mut s = String::from("/");
    for _ in 0..pick(n + 1) {
        letter(&mut s, abc);
    }
    s
}
fn abs(p: &str) -> AbsPathBuf {
    AbsPathBuf::assert(PathBuf::from(p))
}
fn text(p: &VfsPath) -> &str {
    p.as_path().unwrap().as_os_str().to_str().unwrap()
}
/// Many names.
fn front(n: usize) -> String {
    "/name.x".repeat(n)
}
/// The names in a path once `.`, `..` and repeated separators are resolved.
fn parts(p: &str) -> Vec<&str> {
    let mut v = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v
}
fn joined(v: &[&str]) -> String {
    let mut s = String::new();
    for c in v {
        s.push('/');
        s.push_str(c);
    }
    if s.is_empty() {
        s.push('/');
    }
    s
}

/// params: writes, files on disk (0) or virtual (1), letters in a name, longest content, files that
/// are there already
pub fn vfs() {
    let (n, virt, w, len) = (param(0), param(1) == 1, param(2), param(3));
    let mut v = Vfs::default();
    let mut now: Vec<(String, Option<Vec<u8>>, Option<FileId>)> = vec![];
    // what someone who only follows the changes knows
    let mut seen: Vec<(FileId, bool)> = vec![];
    let mut pending = 0;
    for k in 0..param(4) {
        let p = format!("/x/{}", k);
        let vp = if virt { VfsPath::new_virtual_path(p.clone()) } else { VfsPath::from(abs(&p)) };
        check(v.set_file_contents(vp.clone(), Some(vec![k as u8])), 170);
        now.push((p, Some(vec![k as u8]), v.file_id(&vp)));
        pending += 1;
    }
    for _ in 0..n {
        let mut p = String::from("/");
        for _ in 0..w {
            letter(&mut p, b"abcdefgh");
        }
        let vp = if virt { VfsPath::new_virtual_path(p.clone()) } else { VfsPath::from(abs(&p)) };
        let k = pick(len + 2);
        let new = (k > 0).then(|| (1..k).map(|_| u8()).collect::<Vec<_>>());
        let i = now.iter().position(|f| f.0 == p).unwrap_or_else(|| {
            now.push((p.clone(), None, None));
            now.len() - 1
        });
        let changed = now[i].1 != new;
        check(v.set_file_contents(vp.clone(), new.clone()) == changed, 170);
        observe(changed as u64);
        pending += changed as usize;
        now[i].1 = new;
        // the id of a file never changes
        let id = v.file_id(&vp);
        check(id.is_some() == now[i].1.is_some(), 171);
        if let Some(id) = id {
            check(now[i].2.map_or(true, |k| k == id), 172);
            now[i].2 = Some(id);
            check(now.iter().enumerate().all(|(j, f)| j == i || f.2 != Some(id)), 173);
        }
        check(v.has_changes() == (pending > 0), 174);
        if flag() {
            let log = v.take_changes();
            check(log.len() == pending, 175);
            pending = 0;
            check(!v.has_changes(), 176);
            for c in log {
                let k = seen.iter().position(|x| x.0 == c.file_id);
                let was = k.map_or(false, |k| seen[k].1);
                check(was == (c.change_kind != ChangeKind::Create), 177);
                check(c.exists() == (c.change_kind != ChangeKind::Delete), 178);
                check(c.is_created_or_deleted() == (c.change_kind != ChangeKind::Modify), 178);
                match k {
                    Some(k) => seen[k].1 = c.exists(),
                    None => seen.push((c.file_id, c.exists())),
                }
            }
            for f in &now {
                let known = f.2.map_or(false, |id| seen.iter().any(|x| x.0 == id && x.1));
                check(known == f.1.is_some(), 179);
            }
        }
    }
    let mut count = 0;
    for (j, f) in now.iter().enumerate() {
        // of the files that were there, a few are enough
        if j > 2 && j < param(4) {
            count += 1;
            continue;
        }
        if let Some(id) = f.2 {
            let p = v.file_path(id);
            check(p == if virt { VfsPath::new_virtual_path(f.0.clone()) } else { VfsPath::from(abs(&f.0)) }, 180);
            if let Some(c) = &f.1 {
                check(v.file_contents(id) == &c[..], 181);
                check(v.iter().filter(|x| x.0 == id && *x.1 == p).count() == 1, 182);
                count += 1;
            }
        }
    }
    check(v.iter().count() == count, 183);
    reach(170);
}

const ROOTS: [&str; 8] = ["/", "/a", "/a/b", "/ab", "/b", "/a/a", "/a-b", "/a/b/a"];

/// Every file is in the set of the innermost root that contains it, or else in the last.
/// params: sets, roots per set, files, letters per file, virtual, further sets and files
pub fn sets() {
    let (ns, nr, nf, w, virt) = (param(0), param(1), param(2), param(3), param(4) == 1);
    let mk = |p: &str| if virt { VfsPath::new_virtual_path(p.into()) } else { VfsPath::from(abs(p)) };
    let mut b = FileSetConfig::builder();
    let mut roots: Vec<(usize, &str)> = vec![];
    let (more, ns) = (param(5), ns + param(5));
    for i in 0..more {
        b.add_file_set(vec![mk(&format!("/more{}", i))]);
    }
    for i in more..ns {
        let mut of = vec![];
        for _ in 0..nr {
            let r = ROOTS[pick(ROOTS.len())];
            if roots.iter().any(|x| x.1 == r) {
                // one root in two sets: neither is wrong
                cut();
            }
            of.push(mk(r));
            roots.push((i, r));
        }
        b.add_file_set(of);
        check(b.len() == i + 1, 184);
    }
    let cfg = b.build();
    let mut v = Vfs::default();
    let mut files: Vec<(String, Option<FileId>)> = vec![];
    for _ in 0..nf {
        let mut p = String::from("/");
        for _ in 0..w {
            letter(&mut p, b"ab/-");
        }
        // as `From<AbsPathBuf>` would store it
        assume(!p.ends_with('/'));
        for k in 1..p.len() {
            assume((p.as_bytes()[k - 1] != b'/') | (p.as_bytes()[k] != b'/'));
        }
        if files.iter().any(|f| f.0 == p) {
            cut();
        }
        let vp = mk(&p);
        v.set_file_contents(vp.clone(), Some(vec![]));
        let id = v.file_id(&vp);
        if nf > 1 && flag() {
            v.set_file_contents(vp.clone(), None);
            files.push((p, None));
        } else {
            files.push((p, id));
        }
    }
    for i in 0..more {
        let p = mk(&format!("/more{}/x.move", i));
        v.set_file_contents(p, Some(vec![]));
    }
    let sets = cfg.partition(&v);
    check(sets.len() == ns + 1, 185);
    for (p, id) in &files {
        let mut best = (0, ns);
        for (i, r) in &roots {
            let inside = *r == "/" || *p == *r || (p.starts_with(r) && p.as_bytes().get(r.len()) == Some(&b'/'));
            if inside && r.len() > best.0 {
                best = (r.len(), *i);
            }
        }
        for (k, s) in sets.iter().enumerate() {
            let here = id.is_some() && k == best.1;
            check(s.file_for_path(&mk(p)).is_some() == here, 186);
            if let Some(id) = id {
                check(s.path_for_file(id).is_some() == here, 187);
                check(s.iter().any(|x| x == *id) == here, 188);
            }
        }
        observe(best.1 as u64);
    }
    let total: usize = sets.iter().map(|s| s.len()).sum();
    check(total == files.iter().filter(|f| f.1.is_some()).count() + more, 189);
    for i in 0..more {
        check(sets[i].file_for_path(&mk(&format!("/more{}/x.move", i))).is_some(), 189);
    }
    reach(184);
}

/// Names in a file set, and paths relative to a file of it.
/// params: files, letters per file, letters in the relative path, virtual
pub fn resolve() {
    let (nf, w, l, virt) = (param(0), param(1), param(2), param(3) == 1);
    let mk = |p: &str| if virt { VfsPath::new_virtual_path(p.into()) } else { VfsPath::from(abs(p)) };
    let mut set = FileSet::default();
    let mut files: Vec<String> = vec![];
    for i in 0..nf {
        let mut p = String::from("/");
        for k in 0..w {
            if k == 1 && w == 3 {
                p.push('/');
            } else {
                letter(&mut p, b"ab");
            }
        }
        if files.contains(&p) {
            cut();
        }
        set.insert(FileId(i as u32), mk(&p));
        files.push(p);
    }
    check(set.len() == nf, 190);
    let anchor = pick(nf + 1);
    let mut rel = String::new();
    for _ in 0..l {
        letter(&mut rel, b"ab/.");
    }
    let ok = set.resolve_path(AnchoredPath { anchor: FileId(anchor as u32), path: &rel });
    let want = if anchor == nf {
        None
    } else {
        // virtual paths only resolve what leads
        if virt {
            let r = rel.trim_start_matches("../").trim_start_matches("./");
            assume(!r.contains('.') && !r.contains("//") && !r.starts_with('/'));
        }
        let dir = &files[anchor][..files[anchor].rfind('/').unwrap()];
        let full = if rel.starts_with('/') && !virt { rel.clone() } else { format!("{}/{}", dir, rel) };
        let up = rel.matches("../").count();
        let p = joined(&parts(&full));
        if virt && (up > parts(dir).len() || rel.ends_with('/')) {
            None
        } else {
            files.iter().position(|f| *f == p).map(|i| FileId(i as u32))
        }
    };
    check(ok == want, 191);
    for (i, f) in files.iter().enumerate() {
        check(set.file_for_path(&mk(f)) == Some(&FileId(i as u32)), 192);
        check(set.path_for_file(&FileId(i as u32)) == Some(&mk(f)), 193);
    }
    observe(want.map_or(99, |x| x.0) as u64);
    reach(190);
}

/// Paths on disk are stored without repeated separators, `.` and `..`.
/// params: letters, letters of a second path, 0 normalise | 1 join | 2 prefix, names in front,
/// steps up in front of the second
pub fn norm() {
    let (n, m, what) = (param(0), param(1), param(2));
    match what {
        0 => {
            let k = pick(n + 1);
            let mut s = front(param(3));
            for _ in 0..k {
                letter(&mut s, b"/.ab");
            }
            let a = AbsPathBuf::try_from(&s[..]);
            check(a.is_ok() == s.starts_with('/'), 194);
            let rel = RelPathBuf::try_from(PathBuf::from(&s[..]));
            check(rel.is_ok() != s.starts_with('/'), 194);
            if let Ok(a) = a {
                let want = joined(&parts(&s));
                let b = a.normalize();
                check(b.as_os_str().to_str() == Some(&want[..]), 195);
                check(b.normalize().as_os_str() == b.as_os_str(), 196);
                let v = VfsPath::from(a);
                check(text(&v) == want, 197);
                let p = parts(&s);
                match v.parent() {
                    None => check(p.is_empty(), 198),
                    Some(up) => check(!p.is_empty() && text(&up) == joined(&p[..p.len() - 1]), 198),
                }
                let mut q = v.clone();
                check(q.pop() == !p.is_empty(), 199);
                check(text(&q) == joined(&p[..p.len().saturating_sub(1)]), 199);
                match v.name_and_extension() {
                    None => check(p.is_empty(), 200),
                    Some((name, ext)) => {
                        let last = p[p.len() - 1];
                        match last[1..].rfind('.') {
                            Some(k) => check(name == &last[..k + 1] && ext == Some(&last[k + 2..]), 201),
                            None => check(name == last && ext == None, 202),
                        }
                    }
                }
                observe_str(&want);
            }
        }
        1 => {
            let s = front(param(3)) + &rooted(n, b"/.a");
            let mut r = "../".repeat(param(4));
            for _ in 0..pick(m + 1) {
                letter(&mut r, b"/.b");
            }
            let v = VfsPath::from(abs(&s)).join(&r);
            let full = if r.starts_with('/') { r.clone() } else { format!("{}/{}", joined(&parts(&s)), r) };
            match v {
                None => check(false, 203),
                Some(v) => {
                    check(text(&v) == joined(&parts(&full)), 204);
                    observe_str(text(&v));
                }
            }
        }
        _ => {
            let s = front(param(3)) + &rooted(n, b"/.a");
            let t = front(param(3)) + &rooted(m, b"/.a");
            let (a, b) = (VfsPath::from(abs(&s)), VfsPath::from(abs(&t)));
            let (p, q) = (parts(&s), parts(&t));
            let pre = p.len() >= q.len() && p[..q.len()] == q[..];
            check(a.starts_with(&b) == pre, 205);
            check((a == b) == (p == q), 206);
            let (x, y): (&AbsPath, &AbsPath) = (a.as_path().unwrap(), b.as_path().unwrap());
            check(x.starts_with(y) == pre, 207);
            check(x.strip_prefix(y).is_some() == pre, 208);
            observe(pre as u64);
        }
    }
    reach(194);
}

/// Virtual paths: what they say about themselves.
/// params: letters, letters of a second path, 0 names | 1 join | 2 prefix, names in front,
/// steps up in front of the second
pub fn virt() {
    let (n, m, what) = (param(0), param(1), param(2));
    let s = front(param(3)) + &rooted(n, b"/.ab");
    let v = VfsPath::new_virtual_path(s.clone());
    let is = |p: &VfsPath, want: &str| {
        if want.is_empty() {
            // no text stands for the virtual path that is left when its root is gone
            let mut root = VfsPath::new_virtual_path("/".into());
            root.pop() && *p == root
        } else {
            *p == VfsPath::new_virtual_path(want.into())
        }
    };
    match what {
        0 => {
            check(v.as_path().is_none(), 210);
            let cut = s.rfind('/').unwrap();
            let mut q = v.clone();
            check(q.pop(), 211);
            check(is(&q, &s[..cut]), 212);
            check(v.parent().map_or(false, |p| p == q), 213);
            let base = s.strip_suffix('/').unwrap_or(&s);
            let file = &base[base.rfind('/').map_or(0, |k| k + 1)..];
            match v.name_and_extension() {
                None => check(file.is_empty(), 214),
                Some((name, ext)) => {
                    check(!file.is_empty(), 214);
                    match file.rfind('.') {
                        Some(k) if k > 0 => check(name == &file[..k] && ext == Some(&file[k + 1..]), 215),
                        _ => check(name == file && ext == None, 216),
                    }
                    observe_str(name);
                }
            }
        }
        1 => {
            let mut r = "../".repeat(param(4));
            for _ in 0..pick(m + 1) {
                letter(&mut r, b"/.b");
            }
            let got = v.join(&r);
            let mut rest = &r[..];
            let mut dir = Some(&s[..]);
            while let Some(x) = rest.strip_prefix("../") {
                rest = x;
                dir = dir.and_then(|d| d.rfind('/').map(|k| &d[..k]));
            }
            while let Some(x) = rest.strip_prefix("./") {
                rest = x;
            }
            match (got, dir) {
                (None, None) => {}
                (Some(g), Some(d)) => check(is(&g, &format!("{}/{}", d, rest)), 217),
                _ => check(false, 218),
            }
        }
        _ => {
            let t = front(param(3)) + &rooted(m, b"/.ab");
            let o = VfsPath::new_virtual_path(t.clone());
            check(v.starts_with(&o) == s.starts_with(&t[..]), 219);
            check((v == o) == (s == t), 220);
            check(!v.starts_with(&VfsPath::from(abs("/"))), 221);
            check(!VfsPath::from(abs("/a")).starts_with(&o), 221);
            check(v != VfsPath::from(abs("/a")), 221);
        }
    }
    observe_str(&s);
    reach(210);
}

/// What a set of files to load contains. params: included, excluded, characters of a path, letters,
/// whether the sets for packages are looked at, more directories
pub fn entries() {
    use vfs::loader::{Directories, Entry};
    let (ni, ne, len) = (param(0), param(1), param(2));
    let abc = &b"/ab."[..param(3)];
    let dirs = |n: usize, len: usize| -> Vec<String> { (0..n).map(|_| rooted(len, abc)).collect() };
    let (mut inc, mut exc) = (dirs(ni, len), dirs(ne, len));
    for i in 0..param(5) {
        inc.insert(0, format!("/more{}", i));
        exc.insert(0, format!("/more{}/x", i));
    }
    let mut file = if param(5) > 0 { ["", "/more0", "/more0/x", "/more9"][pick(4)].to_string() } else { String::new() };
    file += &rooted(len + 1, abc);
    file += ["", ".a", ".b", ".ab"][pick(4)];
    let p = abs(&file);
    // the names of a path; `..` is a name like any other here
    let names = |p: &str| -> Vec<String> { p.split('/').filter(|c| !c.is_empty() && *c != ".").map(|c| c.to_string()).collect() };
    let f = names(&file);
    let best = |dirs: &[String]| {
        dirs.iter()
            .map(|d| names(d))
            .filter(|d| d.len() <= f.len() && f[..d.len()] == d[..])
            .map(|d| d.len() + 1)
            .max()
            .unwrap_or(0)
    };
    let inside = best(&inc) > best(&exc);
    let d = Directories {
        extensions: vec!["a".to_string(), "b".to_string()],
        include: inc.iter().map(|p| abs(p)).collect(),
        exclude: exc.iter().map(|p| abs(p)).collect(),
    };
    check(d.contains_dir(&p) == inside, 310);
    // the extension of the last name
    let ext = match f.last() {
        Some(n) if n != ".." => n.rfind('.').filter(|k| *k > 0).map(|k| n[k + 1..].to_string()),
        _ => None,
    };
    let known = matches!(ext.as_deref(), Some("a") | Some("b"));
    check(d.contains_file(&p) == (inside && known), 311);
    let e = Entry::Directories(d);
    check(e.contains_dir(&p) == inside, 312);
    check(e.contains_file(&p) == (inside && known), 313);
    let e = Entry::Files(inc.iter().map(|p| abs(p)).collect());
    check(e.contains_file(&p) == inc.iter().any(|i| names(i) == f), 314);
    check(!e.contains_dir(&p), 315);
    if inside && known {
        reach(310);
    }
    if param(4) == 0 {
        return;
    }
    // the sets made for a package
    let base = rooted(1, b"ab");
    for (k, (e, ex)) in [
        (Entry::rs_files_recursively(abs(&base)), &[".git"][..]),
        (Entry::local_cargo_package(abs(&base)), &[".git", "target"][..]),
    ]
    .iter()
    .enumerate()
    {
        for name in ["x.rs", "x.ab", "target/x.rs", ".git/x.rs", "targets/x.rs", "y/target/x.rs", "y/.git/x.rs"] {
            let q = format!("{}{}{}", base, if base == "/" { "" } else { "/" }, name);
            let out = ex.iter().any(|x| name.split('/').next() == Some(x));
            check(e.contains_file(&abs(&q)) == (!out && name.ends_with(".rs")), 316 + k as u32);
        }
        check(!e.contains_file(&abs("/c/x.rs")) || base == "/", 318);
    }
}
