//! A tree of directories, each with a name and possibly a manifest.
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use sxrt::*;

#[derive(Clone, Default)]
pub struct Tree {
    root: PathBuf,
    parent: Vec<usize>,
    name: Vec<Vec<u8>>,
    dove: Vec<bool>,
    content: Option<Vec<u8>>,
}
static TREE: Mutex<Option<Tree>> = Mutex::new(None);

impl Tree {
    /// `n` directories with names of one character (or one with another), then `many` with manifests
    /// in the first, then `deep` in each other
    pub fn new(n: usize, special: bool, many: usize, deep: usize) -> Tree {
        let root = if is_sym() { "/s".into() } else { std::env::temp_dir().join(format!("vp_proj_{}", std::process::id())) };
        let mut t = Tree { root, parent: vec![0], name: vec![vec![0]], ..Tree::default() };
        for i in 1..n + 1 {
            let p = pick(i);
            let c = u8();
            assume((c > b' ') & (c < 127) & (c != b'/') & (c != b'.'));
            for k in 1..i {
                if t.parent[k] == p {
                    assume(t.name[k][0] != c);
                }
            }
            t.parent.push(p);
            t.name.push(vec![c]);
        }
        if special {
            let i = 1 + pick(n);
            t.name[i] = [&b".a"[..], b".git", b"target", b"tests"][pick(4)].to_vec();
        }
        for _ in 0..n + 1 {
            t.dove.push(flag());
        }
        for i in 0..many {
            t.parent.push(0);
            t.name.push(format!("many{}", i).into_bytes());
            t.dove.push(true);
        }
        for i in 0..deep {
            t.parent.push(if i == 0 { n } else { t.len() - 1 });
            t.name.push(b"deep".to_vec());
            t.dove.push(false);
        }
        t
    }
    pub fn len(&self) -> usize {
        self.parent.len()
    }
    pub fn dove(&self, i: usize) -> bool {
        self.dove[i]
    }
    pub fn parent(&self, i: usize) -> Option<usize> {
        (i > 0).then(|| self.parent[i])
    }
    pub fn path(&self, i: usize) -> PathBuf {
        if i == 0 {
            return self.root.clone();
        }
        let mut p = self.path(self.parent[i]);
        p.push(std::str::from_utf8(&self.name[i]).unwrap());
        p
    }
    pub fn make(&self) {
        *TREE.lock().unwrap() = Some(self.clone());
        if !is_sym() {
            for i in 0..self.len() {
                std::fs::create_dir_all(self.path(i)).unwrap();
                std::fs::write(self.path(i).join("Move.toml"), "").unwrap();
                if self.dove[i] {
                    std::fs::write(self.path(i).join("Dove.toml"), "").unwrap();
                }
            }
        }
    }
    pub fn unmake(&self) {
        if !is_sym() {
            std::fs::remove_dir_all(&self.root).unwrap();
        }
    }
    /// the manifest of the root
    pub fn write(&self, p: &Path, text: &[u8]) {
        if is_sym() {
            TREE.lock().unwrap().as_mut().unwrap().content = Some(text.to_vec());
        } else {
            std::fs::write(p, text).unwrap();
        }
    }
}

#[cfg(target_arch = "riscv64")]
mod calls {
    use super::*;
    use std::ffi::{c_char, c_int, c_long, c_void, CStr};
    extern "C" {
        fn __errno_location() -> *mut c_int;
    }
    unsafe fn fail(e: c_int) -> c_int {
        *__errno_location() = e;
        -1
    }
    enum At {
        Dir(usize),
        Manifest(usize),
        Other,
        None,
    }
    fn find(t: &Tree, p: &[u8]) -> At {
        let root: &[u8] = b"/s";
        if p.len() < root.len() || &p[..root.len()] != root {
            return At::None;
        }
        let mut at = 0;
        let mut rest = &p[root.len()..];
        while let Some(b'/') = rest.first() {
            rest = &rest[1..];
            let end = rest.iter().position(|b| *b == b'/').unwrap_or(rest.len());
            let (name, r) = rest.split_at(end);
            rest = r;
            if name == b"Dove.toml" && r.is_empty() {
                return if t.dove[at] || (at == 0 && t.content.is_some()) { At::Manifest(at) } else { At::None };
            }
            if name == b"Move.toml" && r.is_empty() {
                return At::Other;
            }
            match (1..t.len()).find(|i| t.parent[*i] == at && t.name[*i] == name) {
                Some(i) => at = i,
                None => return At::None,
            }
        }
        if rest.is_empty() {
            At::Dir(at)
        } else {
            At::None
        }
    }
    unsafe fn at(p: *const c_char) -> At {
        let g = TREE.lock().unwrap();
        match &*g {
            Some(t) => find(t, CStr::from_ptr(p).to_bytes()),
            None => At::None,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn statx(_: c_int, p: *const c_char, _: c_int, _: u32, buf: *mut u8) -> c_int {
        if p.is_null() || buf.is_null() {
            return fail(14);
        }
        if *p == 0 {
            // an open file: its size
            let g = TREE.lock().unwrap();
            let n = g.as_ref().and_then(|t| t.content.as_ref()).map_or(0, |c| c.len());
            *(buf.add(28) as *mut u16) = 0o100644;
            *(buf.add(40) as *mut u64) = n as u64;
            return 0;
        }
        match at(p) {
            At::None => fail(2),
            a => {
                *(buf.add(28) as *mut u16) = if let At::Dir(_) = a { 0o40755 } else { 0o100644 };
                0
            }
        }
    }
    /// an open directory: what is left to list
    struct Open {
        left: Vec<Vec<u8>>,
        entry: [u8; 64],
    }
    #[no_mangle]
    pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
        let d = match at(p) {
            At::Dir(d) => d,
            At::None => {
                fail(2);
                return std::ptr::null_mut();
            }
            _ => {
                fail(20);
                return std::ptr::null_mut();
            }
        };
        let g = TREE.lock().unwrap();
        let t = g.as_ref().unwrap();
        let mut left: Vec<Vec<u8>> = vec![b".".to_vec(), b"..".to_vec(), b"Move.toml".to_vec()];
        if t.dove[d] {
            left.push(b"Dove.toml".to_vec());
        }
        left.extend((1..t.len()).filter(|i| t.parent[*i] == d).map(|i| t.name[i].clone()));
        Box::into_raw(Box::new(Open { left, entry: [0; 64] })) as *mut c_void
    }
    #[no_mangle]
    pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
        let d = &mut *(d as *mut Open);
        match d.left.pop() {
            None => std::ptr::null_mut(),
            Some(name) => {
                d.entry = [0; 64];
                d.entry[0] = 1;
                d.entry[16] = 32;
                d.entry[19..19 + name.len()].copy_from_slice(&name);
                d.entry.as_mut_ptr() as *mut c_void
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
        drop(Box::from_raw(d as *mut Open));
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn dirfd(_: *mut c_void) -> c_int {
        3
    }
    static POS: Mutex<usize> = Mutex::new(0);
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const c_char, _: c_int, _: c_int) -> c_int {
        match at(p) {
            At::None => fail(2),
            _ => {
                *POS.lock().unwrap() = 0;
                3
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn lseek64(_: c_int, _: c_long, _: c_int) -> c_long {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(_: c_int, buf: *mut u8, n: usize) -> isize {
        let g = TREE.lock().unwrap();
        let none = vec![];
        let c = g.as_ref().unwrap().content.as_ref().unwrap_or(&none);
        let mut pos = POS.lock().unwrap();
        let n = n.min(c.len() - *pos);
        std::ptr::copy_nonoverlapping(c[*pos..].as_ptr(), buf, n);
        *pos += n;
        n as isize
    }
}
