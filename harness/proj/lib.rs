//! Harnesses over the discovery and loading of projects. The file system is a tree of directories
//! made up by the harness: under the executor the system calls below answer for it, natively it is
//! made in a scratch directory.
use paths::AbsPathBuf;
use project_model::{ProjectManifest, ProjectWorkspace};
use std::convert::TryFrom;
use std::path::{Path, PathBuf};
use sxrt::*;

mod fs;
use fs::Tree;

sxrt::harnesses! { h_discover, h_load }

fn abs(p: PathBuf) -> AbsPathBuf {
    AbsPathBuf::try_from(p).unwrap()
}
fn path_of(m: &ProjectManifest) -> PathBuf {
    let ProjectManifest::DoveToml(m) = m;
    let p: &Path = m.as_ref();
    check(p.parent() == Some(m.parent().as_ref()), 290);
    p.to_path_buf()
}
/// the manifests of a folder, by the description
fn want(t: &Tree, q: &Query) -> Option<Vec<PathBuf>> {
    let own = |i: usize| t.path(i).join("Dove.toml");
    if q.manifest {
        return Some(vec![q.path.clone()]);
    }
    let mut i = Some(q.node);
    while let Some(k) = i {
        if t.dove(k) {
            return Some(vec![own(k)]);
        }
        i = t.parent(k);
    }
    if q.missing {
        return None;
    }
    Some((1..t.len()).filter(|k| t.parent(*k) == Some(q.node) && t.dove(*k)).map(own).collect())
}
struct Query {
    node: usize,
    /// the path is that of a manifest in the directory
    manifest: bool,
    /// the path is that of something in the directory that does not exist
    missing: bool,
    path: PathBuf,
}
/// Discovery finds what it should. params: further directories, folders asked for, whether one
/// has another name, how many more with manifests are in the first, how many more in each other are
/// in the last
#[no_mangle]
pub extern "C" fn h_discover() {
    let (n, k) = (param(0), param(1));
    let t = Tree::new(n, param(2) == 1, param(3), param(4));
    let mut qs = vec![];
    for _ in 0..k {
        // or the innermost
        let node = pick(n + 1 + (param(4) > 0) as usize);
        let node = if node > n { t.len() - 1 } else { node };
        let mut q = Query { node, manifest: false, missing: false, path: t.path(node) };
        match pick(3) {
            1 => {
                q.manifest = true;
                q.path.push("Dove.toml");
            }
            2 => {
                q.missing = true;
                q.path.push("missing");
            }
            _ => {}
        }
        qs.push(q);
    }
    t.make();
    let mut all = vec![];
    for q in &qs {
        let p = abs(q.path.clone());
        let want = want(&t, q).map(|mut w| {
            w.sort();
            w
        });
        let got = ProjectManifest::discover(&p).map(|g| {
            let mut g: Vec<_> = g.iter().map(path_of).collect();
            g.sort();
            g
        });
        match (&want, &got) {
            (None, Err(_)) => reach(290),
            (Some(w), Ok(g)) => {
                check(w == g, 292);
                reach(292)
            }
            _ => check(false, 291),
        }
        let single = ProjectManifest::discover_single(&p);
        match &want {
            Some(w) if w.len() == 1 => check(matches!(&single, Ok(m) if path_of(m) == w[0]), 293),
            _ => check(single.is_err(), 294),
        }
        let of = ProjectManifest::from_manifest_file(p);
        check(of.is_ok() == q.manifest, 295);
        if let Ok(m) = of {
            check(path_of(&m) == q.path, 296);
        }
        all.extend(want.unwrap_or_default());
    }
    all.sort();
    all.dedup();
    let ps: Vec<_> = qs.iter().map(|q| abs(q.path.clone())).collect();
    let got: Vec<_> = ProjectManifest::discover_all(&ps).iter().map(path_of).collect();
    check(got == all, 297);
    if got.len() > 1 {
        reach(297);
    }
    t.unmake();
}

/// A manifest is read as it is written. params: characters of a value, and how many
/// more in front
#[no_mangle]
pub extern "C" fn h_load() {
    let n = param(0);
    let t = Tree::new(0, false, 0, 0);
    let mut text = String::new();
    // something before the table
    let kind = pick(6);
    let mut values = [None, None, None, None];
    let names = ["name", "account_address", "dove_version", "dialect"];
    let mut ok = true;
    match kind {
        0 => ok = false, // no table
        1 => {
            text += "[package]\nname = 1\n";
            ok = false;
        }
        2 => {
            text += "[package\n";
            ok = false;
        }
        _ => {
            if kind == 3 {
                text += "[other]\nname = \"q\"\n";
            }
            text += "[package]\n";
            if kind == 4 {
                text += "unknown = [1, 2]\n";
            }
            for (i, name) in names.iter().enumerate() {
                if pick(2) == 1 {
                    let mut v = vec![0; n];
                    fill(&mut v);
                    for b in &v {
                        assume((*b >= b' ') & (*b < 0x7f) & (*b != b'"') & (*b != b'\\'));
                    }
                    let v = "q".repeat(param(1)) + &String::from_utf8(v).unwrap();
                    text += name;
                    text += " = \"";
                    text += &v;
                    text += "\"\n";
                    values[i] = Some(v);
                }
            }
            if kind == 5 {
                text += "[dependencies]\n";
            }
        }
    }
    let missing = flag();
    t.make();
    let p = t.path(0).join("Dove.toml");
    if !missing {
        t.write(&p, text.as_bytes());
    }
    let got = ProjectWorkspace::load(ProjectManifest::from_manifest_file(abs(p)).unwrap());
    t.unmake();
    check(got.is_ok() == (ok && !missing), 300);
    match got {
        Ok(ProjectWorkspace::Dove { dove_toml }) => {
            let p = dove_toml.package;
            check(p.name == values[0], 301);
            check(p.account_address == values[1], 302);
            check(p.dove_version == values[2], 303);
            check(p.dialect == values[3], 304);
            reach(301);
        }
        Ok(_) => check(false, 305),
        Err(_) => reach(300),
    }
    let files = vec![abs(t.path(0))];
    match ProjectWorkspace::load_detached_files(files.clone()) {
        Ok(ProjectWorkspace::DetachedFiles { files: f }) => check(f == files, 306),
        _ => check(false, 306),
    }
}
