//! Textual LLVM IR: indexing of modules, lazy translation of function bodies to a compact register
//! bytecode (aggregates are flattened into scalar registers), lazy materialisation of globals.
use crate::expr::{konst, Op, V};
use crate::mem::{Page, GLOBAL_BASE, PS};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock, RwLock};

pub const FADDR: u64 = 0x7f00_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u8),
    Ptr,
    F(u8),
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Opaque,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 1,
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::F(w) => *w as u64 / 8,
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(n, t) => (n * t.size()).next_power_of_two(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                let a = self.align();
                b.div_ceil(a) * a
            }
            Ty::Ptr => 8,
            Ty::F(w) => *w as u64 / 8,
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for t in f {
                    if !p {
                        o = o.next_multiple_of(t.align());
                    }
                    o += t.size();
                }
                if !p {
                    o = o.next_multiple_of(self.align());
                }
                o
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => n * t.size(),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !p {
                        o = o.next_multiple_of(t.align());
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!()
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => t.size() * i as u64,
            _ => panic!("field_off {:?}", self),
        }
    }
    fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!(),
        }
    }
    /// scalar leaves: (offset, bit width)
    pub fn leaves(&self, off: u64, out: &mut Vec<(u64, u8)>) {
        match self {
            Ty::Void | Ty::Opaque => {}
            Ty::Int(w) => out.push((off, *w)),
            Ty::Ptr => out.push((off, 64)),
            Ty::F(w) => out.push((off, *w)),
            Ty::Struct(f, _) => {
                for (i, t) in f.iter().enumerate() {
                    t.leaves(off + self.field_off(i), out)
                }
            }
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                for i in 0..*n {
                    t.leaves(off + i * t.size(), out)
                }
            }
        }
    }
    pub fn nleaves(&self) -> u32 {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Int(_) | Ty::Ptr | Ty::F(_) => 1,
            Ty::Struct(f, _) => f.iter().map(|t| t.nleaves()).sum(),
            Ty::Array(n, t) | Ty::Vector(n, t) => *n as u32 * t.nleaves(),
        }
    }
    fn width(&self) -> u8 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F(w) => *w,
            _ => 0,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Opnd {
    R(u32),
    C(u64),
    K(u32),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}
pub struct Edge {
    pub pc: u32,
    pub copies: Box<[(u32, Opnd)]>,
    /// width of each copy
    pub cw: Box<[u8]>,
}
pub enum Callee {
    Fn(u32),
    Ind(Opnd),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Memcpy,
    Memset,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UMin,
    UMax,
    SMin,
    SMax,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Abs,
    UCmp,
    SCmp,
    Tls,
    Trap,
    FAbs,
    CopySign,
    FSqrt,
    FCeil,
    FFloor,
    Fma,
    FpToUiSat,
    FpToSiSat,
    FMaxNum,
    FMinNum,
    IsFpClass,
    LoadRel,
    PtrMask,
}
pub enum I {
    Bin { op: Op, w: u8, dst: u32, a: Opnd, b: Opnd },
    Cmp { op: Op, w: u8, neg: bool, dst: u32, a: Opnd, b: Opnd },
    Cast { k: CastK, from: u8, to: u8, dst: u32, a: Opnd },
    FBin { op: FOp, w: u8, dst: u32, a: Opnd, b: Opnd },
    FCmp { pred: u8, w: u8, dst: u32, a: Opnd, b: Opnd },
    Load1 { dst: u32, p: Opnd, w: u8 },
    LoadN { dst: u32, p: Opnd, parts: Box<[(u64, u8)]> },
    Store { p: Opnd, vals: Box<[(u64, u8, Opnd)]> },
    Gep { dst: u32, base: Opnd, off: i64, terms: Box<[(Opnd, u8, i64)]> },
    Select { c: Opnd, dst: u32, n: Box<[(Opnd, Opnd, u8)]> },
    Mov { dst: u32, src: Box<[Opnd]> },
    Br(Edge),
    CondBr { c: Opnd, t: Edge, f: Edge },
    Switch { v: Opnd, w: u8, cases: Box<[(u128, Edge)]>, def: Edge },
    Call { f: Callee, args: Box<[Opnd]>, aw: Box<[u8]>, dst: u32, nret: u32 },
    Intr { k: Intr, w: u8, w2: u8, args: Box<[Opnd]>, dst: u32 },
    Ret(Box<[Opnd]>),
    Alloca { dst: u32, size: u64, align: u64 },
    Rmw { op: RmwOp, w: u8, dst: u32, p: Opnd, v: Opnd },
    CmpXchg { w: u8, dst: u32, p: Opnd, old: Opnd, new: Opnd },
    /// the exception that is being thrown
    Pad { dst: u32 },
    Resume(Opnd),
    Unreachable,
    Unsupported(Box<str>),
}

pub struct Code {
    pub insts: Vec<I>,
    pub nregs: u32,
    pub nargs: u32,
    pub argw: Vec<u8>,
    pub consts: Vec<V>,
    pub fid: u32,
    pub retw: Vec<u8>,
    pub dom: OnceLock<Dom>,
    /// where calls that unwind go on, by the index of the call
    pub pads: Vec<(u32, Edge)>,
}
impl Code {
    pub fn pad(&self, call: u32) -> Option<&Edge> {
        self.pads.binary_search_by_key(&call, |p| p.0).ok().map(|k| &self.pads[k].1)
    }
}
/// Dominator tree over basic blocks.
pub struct Dom {
    block: Vec<u32>, // of an instruction
    idom: Vec<u32>,  // of a block, u32::MAX: entry or unreachable
}
impl Dom {
    fn new(c: &Code) -> Dom {
        let n = c.insts.len();
        let mut lead = vec![false; n + 1];
        lead[0] = true;
        let succ = |i: usize| -> Vec<u32> {
            match &c.insts[i] {
                I::Br(e) => vec![e.pc],
                I::CondBr { t, f, .. } => vec![t.pc, f.pc],
                I::Switch { cases, def, .. } => cases.iter().map(|x| x.1.pc).chain([def.pc]).collect(),
                I::Call { .. } => c.pad(i as u32).map_or(vec![], |e| vec![i as u32 + 1, e.pc]),
                _ => vec![],
            }
        };
        for i in 0..n {
            for s in succ(i) {
                lead[s as usize] = true;
            }
            if matches!(c.insts[i], I::Br(_) | I::CondBr { .. } | I::Switch { .. } | I::Ret(_) | I::Resume(_) | I::Unreachable) {
                lead[i + 1] = true;
            }
        }
        let mut block = vec![0u32; n];
        let mut last = vec![];
        let mut b = 0u32;
        for i in 0..n {
            if i > 0 && lead[i] {
                b += 1;
            }
            block[i] = b;
            if last.len() <= b as usize {
                last.push(i);
            }
            last[b as usize] = i;
        }
        let nb = last.len();
        let succs: Vec<Vec<u32>> = (0..nb).map(|b| succ(last[b]).into_iter().map(|p| block[p as usize]).collect()).collect();
        // reverse post order
        let mut order = vec![];
        let mut state = vec![0u8; nb];
        let mut stack = vec![(0usize, 0usize)];
        state[0] = 1;
        while let Some((x, k)) = stack.pop() {
            if k < succs[x].len() {
                stack.push((x, k + 1));
                let y = succs[x][k] as usize;
                if state[y] == 0 {
                    state[y] = 1;
                    stack.push((y, 0));
                }
            } else {
                order.push(x);
            }
        }
        order.reverse();
        let mut num = vec![u32::MAX; nb];
        for (i, b) in order.iter().enumerate() {
            num[*b] = i as u32;
        }
        let mut preds = vec![vec![]; nb];
        for &x in &order {
            for &y in &succs[x] {
                preds[y as usize].push(x as u32);
            }
        }
        let mut idom = vec![u32::MAX; nb];
        idom[0] = 0;
        loop {
            let mut ch = false;
            for &x in order.iter().skip(1) {
                let mut new = u32::MAX;
                for &p in &preds[x] {
                    if idom[p as usize] == u32::MAX {
                        continue;
                    }
                    if new == u32::MAX {
                        new = p;
                    } else {
                        let (mut a, mut b) = (p, new);
                        while a != b {
                            while num[a as usize] > num[b as usize] {
                                a = idom[a as usize];
                            }
                            while num[b as usize] > num[a as usize] {
                                b = idom[b as usize];
                            }
                        }
                        new = a;
                    }
                }
                if idom[x] != new {
                    idom[x] = new;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        idom[0] = u32::MAX;
        Dom { block, idom }
    }
    /// does the block of instruction `a` dominate that of `b`
    pub fn dominates(&self, a: usize, b: usize) -> bool {
        let (a, mut b) = (self.block[a], self.block[b]);
        loop {
            if a == b {
                return true;
            }
            b = self.idom[b as usize];
            if b == u32::MAX {
                return false;
            }
        }
    }
}
impl Code {
    pub fn dom(&self) -> &Dom {
        self.dom.get_or_init(|| Dom::new(self))
    }
}
pub struct FuncDef {
    pub name: String,
    pub module: u32,
    pub span: Option<(usize, usize)>,
    pub code: OnceLock<&'static Code>,
    pub special: crate::models::Sp,
    pub entered: std::sync::atomic::AtomicBool,
}
pub struct GlobDef {
    pub name: String,
    pub module: u32,
    pub span: Option<(usize, usize)>,
    pub tls: bool,
    pub alias: bool,
    pub addr: OnceLock<u64>,
    pub size: OnceLock<u64>,
    pub inited: Mutex<bool>,
}
#[derive(Clone, Copy, Debug)]
pub enum Sym {
    F(u32),
    G(u32),
}
pub struct Module {
    pub text: &'static [u8],
    pub local: HashMap<&'static str, Sym>,
}
pub struct Program {
    pub modules: Vec<Module>,
    pub funcs: RwLock<Vec<&'static FuncDef>>,
    pub globs: Vec<GlobDef>,
    pub ext: HashMap<&'static str, Sym>,
    pub extra: Mutex<HashMap<String, u32>>,
    pub base: RwLock<HashMap<u64, Arc<Page>>>,
    pub next_glob: AtomicU64,
    pub translated: AtomicU64,
    pub lock: Mutex<()>,
    pub tls: RwLock<HashMap<u64, u64>>,
}

fn name_of(s: &str) -> &str {
    // s begins right after '@' or '%'
    let b = s.as_bytes();
    if b[0] == b'"' {
        let e = s[1..].find('"').unwrap();
        &s[1..1 + e]
    } else {
        let e = b
            .iter()
            .position(|c| !(c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')))
            .unwrap_or(b.len());
        &s[..e]
    }
}

impl Program {
    pub fn load(files: &[String]) -> Program {
        let mut p = Program {
            modules: vec![],
            funcs: RwLock::new(vec![]),
            globs: vec![],
            ext: HashMap::new(),
            extra: Mutex::new(HashMap::new()),
            base: RwLock::new(HashMap::new()),
            next_glob: AtomicU64::new(GLOBAL_BASE),
            translated: AtomicU64::new(0),
            lock: Mutex::new(()),
            tls: RwLock::new(HashMap::new()),
        };
        let mut funcs: Vec<&'static FuncDef> = vec![];
        for f in files {
            let data = std::fs::read(f).unwrap_or_else(|e| panic!("cannot read {f}: {e}"));
            let text: &'static [u8] = Box::leak(data.into_boxed_slice());
            let mi = p.modules.len() as u32;
            let mut local = HashMap::new();
            let mut pos = 0;
            while pos < text.len() {
                let eol = memchr(b'\n', &text[pos..]).map(|x| pos + x).unwrap_or(text.len());
                let line = &text[pos..eol];
                if line.starts_with(b"define") {
                    let s = std::str::from_utf8(line).unwrap();
                    let at = s.find('@').unwrap();
                    let name = name_of(&s[at + 1..]);
                    // find end
                    let mut q = eol + 1;
                    let end;
                    loop {
                        let e2 = memchr(b'\n', &text[q..]).map(|x| q + x).unwrap_or(text.len());
                        if &text[q..e2] == b"}" {
                            end = q;
                            break;
                        }
                        q = e2 + 1;
                    }
                    let is_local = s[..at].contains(" internal ") || s[..at].contains(" private ");
                    let id = funcs.len() as u32;
                    funcs.push(Box::leak(Box::new(FuncDef {
                        name: name.to_string(),
                        module: mi,
                        span: Some((pos, end)),
                        code: OnceLock::new(),
                        special: crate::models::classify_defined(name),
                        entered: Default::default(),
                    })));
                    let sym = Sym::F(id);
                    if is_local {
                        local.insert(name, sym);
                    } else {
                        p.ext.entry(name).or_insert(sym);
                    }
                    pos = end + 1;
                    continue;
                }
                if line.starts_with(b"@") {
                    let s = std::str::from_utf8(line).unwrap();
                    let name = name_of(&s[1..]);
                    let eq = 1 + name.len() + if s.as_bytes()[1] == b'"' { 2 } else { 0 };
                    let rest = &s[eq..];
                    let head_end = rest.find(" global ").or(rest.find(" constant ")).unwrap_or(rest.len());
                    let head = &rest[..head_end];
                    let alias = rest.contains(" alias ") && head_end == rest.len();
                    let external = head.contains(" external ") || head.contains(" extern_weak ");
                    let is_local = head.contains(" private ") || head.contains(" internal ");
                    let tls = head.contains(" thread_local");
                    let id = p.globs.len() as u32;
                    if !external {
                        p.globs.push(GlobDef {
                            name: name.to_string(),
                            module: mi,
                            span: Some((pos, eol)),
                            tls,
                            alias,
                            addr: OnceLock::new(),
                            size: OnceLock::new(),
                            inited: Mutex::new(false),
                        });
                        if is_local {
                            local.insert(name, Sym::G(id));
                        } else {
                            p.ext.entry(name).or_insert(Sym::G(id));
                        }
                    }
                }
                pos = eol + 1;
            }
            p.modules.push(Module { text, local });
        }
        *p.funcs.get_mut().unwrap() = funcs;
        p
    }
    pub fn func(&self, id: u32) -> &'static FuncDef {
        self.funcs.read().unwrap()[id as usize]
    }
    pub fn lookup(&self, module: u32, name: &str) -> Option<Sym> {
        self.modules[module as usize]
            .local
            .get(name)
            .or_else(|| self.ext.get(name))
            .copied()
            .or_else(|| self.extra.lock().unwrap().get(name).map(|f| Sym::F(*f)))
    }
    /// function symbol, creating an undefined external on demand
    pub fn func_sym(&self, module: u32, name: &str) -> u32 {
        match self.lookup(module, name) {
            Some(Sym::F(f)) => f,
            Some(Sym::G(g)) if self.globs[g as usize].alias => {
                let gd = &self.globs[g as usize];
                let (s, e) = gd.span.unwrap();
                let line =
                    std::str::from_utf8(&self.modules[gd.module as usize].text[s..e]).unwrap();
                let at = line.rfind('@').unwrap();
                self.func_sym(gd.module, name_of(&line[at + 1..]))
            }
            _ => {
                let mut ex = self.extra.lock().unwrap();
                if let Some(f) = ex.get(name) {
                    return *f;
                }
                let mut fs = self.funcs.write().unwrap();
                let id = fs.len() as u32;
                fs.push(Box::leak(Box::new(FuncDef {
                    name: name.to_string(),
                    module,
                    span: None,
                    code: OnceLock::new(),
                    special: crate::models::classify(name),
                    entered: Default::default(),
                })));
                ex.insert(name.to_string(), id);
                id
            }
        }
    }
    pub fn code(&self, id: u32) -> &'static Code {
        let f = self.func(id);
        if let Some(c) = f.code.get() {
            return c;
        }
        // one translation at a time: globals are laid out and initialised under this lock
        let _g = self.lock.lock().unwrap();
        f.code.get_or_init(|| {
            self.translated.fetch_add(1, Ordering::Relaxed);
            Box::leak(Box::new(Tr::new(self, f.module).function(id)))
        })
    }
    pub fn sym_addr(&self, module: u32, name: &str) -> u64 {
        match self.lookup(module, name) {
            Some(Sym::G(g)) if !self.globs[g as usize].alias => self.glob_addr(g),
            Some(Sym::G(g)) => {
                let gd = &self.globs[g as usize];
                let (s, e) = gd.span.unwrap();
                let line =
                    std::str::from_utf8(&self.modules[gd.module as usize].text[s..e]).unwrap();
                let at = line.rfind('@').unwrap();
                self.sym_addr(gd.module, name_of(&line[at + 1..]))
            }
            _ => FADDR + 16 * self.func_sym(module, name) as u64,
        }
    }
    pub fn glob_addr(&self, g: u32) -> u64 {
        let gd = &self.globs[g as usize];
        if let Some(a) = gd.addr.get() {
            return *a;
        }
        // assign the address first (globals may be cyclic), then initialise
        let (ty, is_zero) = self.glob_ty(g);
        let size = ty.size();
        let _ = gd.size.set(size);
        let mut fresh = false;
        let addr = *gd.addr.get_or_init(|| {
            fresh = true;
            let n = (size.max(1)).div_ceil(PS as u64) * PS as u64;
            self.next_glob.fetch_add(n, Ordering::SeqCst)
        });
        if gd.tls {
            self.tls.write().unwrap().insert(addr, size);
        }
        if fresh && !is_zero {
            let mut buf = vec![0u8; size as usize];
            self.glob_init(g, &mut buf);
            let mut base = self.base.write().unwrap();
            for (i, c) in buf.chunks(PS).enumerate() {
                let mut pg = Page::zero(0);
                pg.bytes[..c.len()].copy_from_slice(c);
                base.insert(addr / PS as u64 + i as u64, Arc::new(pg));
            }
            *gd.inited.lock().unwrap() = true;
        } else if !fresh && !is_zero {
            // another thread may still be initialising it, unless it is this very thread
            // (cyclic reference); the address alone is enough for both.
        }
        addr
    }
    fn glob_ty(&self, g: u32) -> (Ty, bool) {
        let gd = &self.globs[g as usize];
        let (s, e) = gd.span.unwrap();
        let line = std::str::from_utf8(&self.modules[gd.module as usize].text[s..e]).unwrap();
        let toks = lex(line);
        let mut i = glob_kw(&toks);
        let tr = Tr::new(self, gd.module);
        let ty = tr.ty(&toks, &mut i);
        let z = matches!(toks.get(i), Some(T::W("zeroinitializer")));
        (ty, z)
    }
    pub fn tls_size(&self, addr: u64) -> u64 {
        *self.tls.read().unwrap().get(&addr).expect("thread-local template")
    }
    pub fn glob_size(&self, g: u32) -> u64 {
        self.glob_ty(g).0.size()
    }
    pub fn glob_init(&self, g: u32, buf: &mut [u8]) {
        let gd = &self.globs[g as usize];
        let (s, e) = gd.span.unwrap();
        let line = std::str::from_utf8(&self.modules[gd.module as usize].text[s..e]).unwrap();
        let toks = lex(line);
        let mut i = glob_kw(&toks);
        let tr = Tr::new(self, gd.module);
        let ty = tr.ty(&toks, &mut i);
        // nobody defines it (`environ`)
        if i >= toks.len() || toks.iter().any(|t| matches!(t, T::W("external" | "extern_weak"))) {
            return;
        }
        tr.init(&ty, &toks, &mut i, buf, 0);
    }
}
fn glob_kw(toks: &[T]) -> usize {
    toks.iter().position(|t| matches!(t, T::W("global") | T::W("constant"))).unwrap() + 1
}
fn memchr(b: u8, s: &[u8]) -> Option<usize> {
    // simple word-at-a-time is not needed; the std iterator is vectorised well enough
    s.iter().position(|x| *x == b)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T<'a> {
    W(&'a str),
    L(&'a str),
    G(&'a str),
    S(&'a str),
    P(u8),
    M(&'a str),
}
pub fn lex(s: &str) -> Vec<T<'_>> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(16);
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let q = b.get(i + 1) == Some(&b'"');
                let n = name_of(&s[i + 1..]);
                i += 1 + n.len() + if q { 2 } else { 0 };
                v.push(if c == b'%' { T::L(n) } else { T::G(n) });
            }
            b'"' => {
                let e = s[i + 1..].find('"').unwrap();
                v.push(T::S(&s[i + 1..i + 1 + e]));
                i += e + 2;
            }
            b'!' | b'#' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.')) {
                    i += 1;
                }
                v.push(T::M(&s[st..i]));
            }
            _ if c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-' | b'+') => {
                let st = i;
                while i < b.len()
                    && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-' | b'+'))
                {
                    i += 1;
                }
                v.push(T::W(&s[st..i]));
            }
            _ => {
                v.push(T::P(c));
                i += 1;
            }
        }
    }
    v
}
fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
fn parse_int(w: &str) -> Option<u128> {
    if let Some(x) = w.strip_prefix('-') {
        x.parse::<u128>().ok().map(|v| (v as i128).wrapping_neg() as u128)
    } else {
        w.parse::<u128>().ok()
    }
}
fn parse_float(s: &str, w: u8) -> Option<u128> {
    let d: f64 = if let Some(h) = s.strip_prefix("0x") {
        if let Some(h) = h.strip_prefix(|c| matches!(c, 'K' | 'L' | 'M' | 'H' | 'R')) {
            return u128::from_str_radix(h, 16).ok();
        }
        f64::from_bits(u64::from_str_radix(h, 16).ok()?)
    } else if let Some(h) = s.strip_prefix("f0x") {
        return u128::from_str_radix(h, 16).ok();
    } else {
        match s {
            "+inf" | "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            "+qnan" | "+nan" | "nan" | "qnan" => f64::NAN,
            "-qnan" | "-nan" => -f64::NAN,
            _ => s.parse().ok()?,
        }
    };
    Some(if w == 32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 })
}

struct Tr<'p> {
    p: &'p Program,
    m: u32,
    names: HashMap<&'static str, (u32, Ty)>,
    nregs: u32,
    consts: Vec<V>,
    insts: Vec<I>,
    pads: Vec<(u32, Edge)>,
}
type Toks<'a> = [T<'a>];

const VALW: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint",
    "bitcast", "trunc", "sub", "add", "c", "splat", "xor", "addrspacecast", "none",
];

impl<'p> Tr<'p> {
    fn new(p: &'p Program, m: u32) -> Self {
        Tr { p, m, names: HashMap::new(), nregs: 0, consts: vec![], insts: vec![], pads: vec![] }
    }
    fn is_ty(&self, t: &T) -> bool {
        match t {
            T::W(w) => {
                matches!(*w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "metadata" | "token" | "label")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P(b'{') | T::P(b'[') | T::P(b'<') => true,
            _ => false,
        }
    }
    fn ty(&self, t: &Toks, i: &mut usize) -> Ty {
        let r = match t[*i] {
            T::W(w) => {
                *i += 1;
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F(32),
                    "double" => Ty::F(64),
                    "half" | "bfloat" => Ty::F(16),
                    "fp128" => Ty::F(128),
                    "metadata" | "token" | "label" => Ty::Opaque,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
                    _ => panic!("type {w} in {:?}", t),
                }
            }
            T::P(b'{') => {
                *i += 1;
                let f = self.ty_list(t, i, b'}');
                Ty::Struct(f, false)
            }
            T::P(b'[') => {
                *i += 1;
                let n = match t[*i] {
                    T::W(w) => w.parse().unwrap(),
                    _ => panic!(),
                };
                *i += 2; // n x
                let e = self.ty(t, i);
                *i += 1;
                Ty::Array(n, Box::new(e))
            }
            T::P(b'<') => {
                *i += 1;
                if t[*i] == T::P(b'{') {
                    *i += 1;
                    let f = self.ty_list(t, i, b'}');
                    *i += 1; // >
                    Ty::Struct(f, true)
                } else {
                    let n = match t[*i] {
                        T::W(w) => w.parse().unwrap(),
                        _ => panic!(),
                    };
                    *i += 2;
                    let e = self.ty(t, i);
                    *i += 1;
                    Ty::Vector(n, Box::new(e))
                }
            }
            x => panic!("type {:?} in {:?}", x, t),
        };
        if t.get(*i) == Some(&T::W("addrspace")) {
            *i += 4;
        }
        r
    }
    fn ty_list(&self, t: &Toks, i: &mut usize, end: u8) -> Vec<Ty> {
        let mut f = vec![];
        while t[*i] != T::P(end) {
            f.push(self.ty(t, i));
            if t[*i] == T::P(b',') {
                *i += 1;
            }
        }
        *i += 1;
        f
    }
    /// skip a balanced parenthesis group if present
    fn skip_paren(&self, t: &Toks, i: &mut usize) {
        if t.get(*i) == Some(&T::P(b'(')) {
            let mut d = 0;
            loop {
                match t[*i] {
                    T::P(b'(') => d += 1,
                    T::P(b')') => d -= 1,
                    _ => {}
                }
                *i += 1;
                if d == 0 {
                    break;
                }
            }
        }
    }
    fn skip_attrs(&self, t: &Toks, i: &mut usize) {
        loop {
            match t.get(*i) {
                Some(T::W("align")) => {
                    *i += 1;
                    if t.get(*i) == Some(&T::P(b'(')) {
                        self.skip_paren(t, i)
                    } else {
                        *i += 1
                    }
                }
                Some(T::W(w))
                    if !VALW.contains(w)
                        && !self.is_ty(&t[*i])
                        && parse_int(w).is_none()
                        && !w.starts_with("0x")
                        && !w.starts_with("f0x")
                        && !w.starts_with('+')
                        && !w.starts_with('-')
                        && !w.as_bytes()[0].is_ascii_digit() =>
                {
                    *i += 1;
                    self.skip_paren(t, i);
                }
                Some(T::S(_)) => {
                    *i += 1;
                    if t.get(*i) == Some(&T::P(b'=')) {
                        *i += 2;
                    }
                }
                _ => break,
            }
        }
    }
    // ----- constants -----
    fn const_addr(&self, t: &Toks, i: &mut usize) -> u64 {
        // pointer/integer constant expression evaluated to an address
        match t[*i] {
            T::G(n) => {
                *i += 1;
                self.p.sym_addr(self.m, n)
            }
            T::W("null") | T::W("undef") | T::W("poison") | T::W("zeroinitializer") | T::W("none") => {
                *i += 1;
                0
            }
            T::W("getelementptr") => {
                *i += 1;
                while !matches!(t[*i], T::P(b'(')) {
                    *i += 1;
                    if t[*i - 1] == T::W("inrange") {
                        self.skip_paren(t, i);
                    }
                }
                *i += 1;
                let ty = self.ty(t, i);
                *i += 1; // ,
                let _pt = self.ty(t, i);
                let mut a = self.const_addr(t, i);
                let mut cur = ty.clone();
                let mut first = true;
                while t[*i] == T::P(b',') {
                    *i += 1;
                    let it = self.ty(t, i);
                    let idx = self.const_int(&it, t, i) as i64;
                    if first {
                        a = a.wrapping_add((idx * ty.size() as i64) as u64);
                        first = false;
                    } else {
                        a = a.wrapping_add(match cur {
                            Ty::Struct(..) => cur.field_off(idx as usize),
                            _ => (cur.field(0).size() as i64 * idx) as u64,
                        });
                        cur = cur.field(if matches!(cur, Ty::Struct(..)) { idx as usize } else { 0 }).clone();
                    }
                }
                *i += 1; // )
                a
            }
            T::W("inttoptr") | T::W("ptrtoint") | T::W("bitcast") | T::W("trunc") | T::W("addrspacecast") => {
                let w = t[*i];
                *i += 2;
                let ty = self.ty(t, i);
                let v = self.const_int(&ty, t, i);
                *i += 1; // to
                let to = self.ty(t, i);
                *i += 1;
                let _ = w;
                if to.width() < 64 {
                    (v as u64) & crate::expr::mask(to.width())
                } else {
                    v as u64
                }
            }
            T::W(op @ ("sub" | "add" | "xor")) => {
                *i += 1;
                while !matches!(t[*i], T::P(b'(')) {
                    *i += 1;
                }
                *i += 1;
                let ty = self.ty(t, i);
                let a = self.const_int(&ty, t, i) as u64;
                *i += 1;
                let ty = self.ty(t, i);
                let b = self.const_int(&ty, t, i) as u64;
                *i += 1;
                match op {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    _ => a ^ b,
                }
            }
            x => panic!("const {:?} in {:?}", x, t),
        }
    }
    fn const_int(&self, ty: &Ty, t: &Toks, i: &mut usize) -> u128 {
        if let T::W(w) = t[*i] {
            if let Ty::F(fw) = ty {
                if let Some(v) = parse_float(w, *fw) {
                    *i += 1;
                    return v;
                }
            }
            if let Some(v) = parse_int(w) {
                *i += 1;
                return v & crate::expr::mask128(ty.width());
            }
            match w {
                "true" => {
                    *i += 1;
                    return 1;
                }
                "false" => {
                    *i += 1;
                    return 0;
                }
                _ => {}
            }
        }
        self.const_addr(t, i) as u128
    }
    /// global initialiser
    fn init(&self, ty: &Ty, t: &Toks, i: &mut usize, buf: &mut [u8], off: usize) {
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => match t[*i] {
                T::W("zeroinitializer") | T::W("undef") | T::W("poison") => *i += 1,
                T::W("c") => {
                    let T::S(s) = t[*i + 1] else { panic!() };
                    let b = unescape(s);
                    buf[off..off + b.len()].copy_from_slice(&b);
                    *i += 2;
                }
                T::W("splat") => {
                    *i += 2;
                    let st = *i;
                    let et = self.ty(t, i);
                    let vs = *i;
                    let (Ty::Vector(n, _) | Ty::Array(n, _)) = ty else { panic!() };
                    for k in 0..*n {
                        *i = vs;
                        self.init(&et, t, i, buf, off + (k * et.size()) as usize);
                    }
                    *i += 1;
                    let _ = st;
                }
                T::P(b'<') | T::P(b'{') | T::P(b'[') => {
                    let packed = t[*i] == T::P(b'<');
                    *i += 1;
                    if packed && t[*i] == T::P(b'{') {
                        *i += 1;
                    }
                    let mut k = 0;
                    while !matches!(t[*i], T::P(b'}') | T::P(b']') | T::P(b'>')) {
                        let et = self.ty(t, i);
                        self.init(&et, t, i, buf, off + ty.field_off(k) as usize);
                        k += 1;
                        if t[*i] == T::P(b',') {
                            *i += 1;
                        }
                    }
                    *i += 1;
                    if packed && matches!(ty, Ty::Struct(..)) {
                        *i += 1;
                    }
                }
                x => panic!("init {:?} in {}", x, t.len()),
            },
            _ => {
                let v = self.const_int(ty, t, i);
                let n = ty.size() as usize;
                buf[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
    fn kconst(&mut self, w: u8, v: u128) -> Opnd {
        if w <= 64 {
            Opnd::C((v & crate::expr::mask128(w)) as u64)
        } else {
            self.consts.push(konst(w, v));
            Opnd::K(self.consts.len() as u32 - 1)
        }
    }
    /// operand of a given type, flattened
    fn val(&mut self, ty: &Ty, t: &Toks, i: &mut usize) -> Vec<Opnd> {
        match t[*i] {
            T::L(n) => {
                *i += 1;
                let (r, rt) = self.names.get(n).unwrap_or_else(|| panic!("undefined %{n}")).clone();
                let k = rt.nleaves();
                (0..k).map(|j| Opnd::R(r + j)).collect()
            }
            _ => match ty {
                Ty::Opaque => {
                    // metadata: skip until , or ) at depth 0
                    let mut d = 0;
                    loop {
                        match t[*i] {
                            T::P(b'(') | T::P(b'{') => d += 1,
                            T::P(b')') | T::P(b'}') if d > 0 => d -= 1,
                            T::P(b')') | T::P(b',') if d == 0 => break,
                            _ => {}
                        }
                        *i += 1;
                    }
                    vec![]
                }
                Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => match t[*i] {
                    T::W("zeroinitializer") | T::W("undef") | T::W("poison") => {
                        *i += 1;
                        let mut l = vec![];
                        ty.leaves(0, &mut l);
                        l.iter().map(|(_, w)| *w).collect::<Vec<_>>().iter().map(|w| self.kconst(*w, 0)).collect()
                    }
                    T::W("splat") => {
                        *i += 2;
                        let et = self.ty(t, i);
                        let v = self.val(&et, t, i);
                        *i += 1;
                        let Ty::Vector(n, _) = ty else { panic!() };
                        (0..*n).flat_map(|_| v.clone()).collect()
                    }
                    T::W("c") => {
                        let T::S(s) = t[*i + 1] else { panic!() };
                        *i += 2;
                        unescape(s).iter().map(|b| Opnd::C(*b as u64)).collect()
                    }
                    T::P(b'<') | T::P(b'{') | T::P(b'[') => {
                        let packed = t[*i] == T::P(b'<');
                        *i += 1;
                        if packed && t[*i] == T::P(b'{') {
                            *i += 1;
                        }
                        let mut o = vec![];
                        while !matches!(t[*i], T::P(b'}') | T::P(b']') | T::P(b'>')) {
                            let et = self.ty(t, i);
                            o.extend(self.val(&et, t, i));
                            if t[*i] == T::P(b',') {
                                *i += 1;
                            }
                        }
                        *i += 1;
                        if packed && matches!(ty, Ty::Struct(..)) {
                            *i += 1;
                        }
                        o
                    }
                    x => panic!("val {:?}", x),
                },
                _ => {
                    let v = self.const_int(ty, t, i);
                    vec![self.kconst(ty.width(), v)]
                }
            },
        }
    }
    fn val1(&mut self, ty: &Ty, t: &Toks, i: &mut usize) -> Opnd {
        let v = self.val(ty, t, i);
        assert!(v.len() == 1, "val1 {:?} {:?}", ty, t);
        v[0]
    }
    fn tv(&mut self, t: &Toks, i: &mut usize) -> (Ty, Vec<Opnd>) {
        let ty = self.ty(t, i);
        self.skip_attrs(t, i);
        let v = self.val(&ty, t, i);
        (ty, v)
    }
    fn comma(&self, t: &Toks, i: &mut usize) {
        assert!(t[*i] == T::P(b','), "expected , at {} in {:?}", i, t);
        *i += 1;
    }
    fn function(mut self, fid: u32) -> Code {
        let f = self.p.func(fid);
        let (s, e) = f.span.unwrap();
        let text: &'static str =
            std::str::from_utf8(&self.p.modules[f.module as usize].text[s..e]).unwrap();
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        // --- header ---
        let ht = lex(head);
        let at = ht.iter().position(|t| matches!(t, T::G(_))).unwrap();
        let mut argw = vec![];
        let mut nargs = 0;
        let mut retw = vec![];
        {
            // return type is the last type before the name
            let mut j = 1;
            let mut rt = Ty::Void;
            while j < at {
                if self.is_ty(&ht[j]) {
                    rt = self.ty(&ht, &mut j);
                } else {
                    j += 1;
                    self.skip_paren(&ht, &mut j);
                }
            }
            let mut l = vec![];
            rt.leaves(0, &mut l);
            retw.extend(l.iter().map(|x| x.1));
        }
        let mut j = at + 2;
        let mut argno = 0;
        while ht[j] != T::P(b')') {
            if ht[j] == T::P(b'.') || ht[j] == T::W("...") {
                j += 1;
                continue;
            }
            let ty = self.ty(&ht, &mut j);
            self.skip_attrs(&ht, &mut j);
            let nm: &'static str = match ht[j] {
                T::L(n) => {
                    j += 1;
                    n
                }
                _ => Box::leak(format!("{argno}").into_boxed_str()),
            };
            argno += 1;
            let mut l = vec![];
            ty.leaves(0, &mut l);
            argw.extend(l.iter().map(|x| x.1));
            let n = ty.nleaves();
            self.names.insert(nm, (self.nregs, ty));
            self.nregs += n;
            nargs += n;
            if ht[j] == T::P(b',') {
                j += 1;
            }
        }
        // --- pass 1: join lines into statements, split in blocks ---
        struct Blk<'a> {
            name: &'a str,
            stmts: Vec<std::borrow::Cow<'a, str>>,
        }
        let mut blocks: Vec<Blk> = vec![];
        let mut acc: Option<String> = None;
        for line in lines {
            if let Some(a) = &mut acc {
                a.push(' ');
                a.push_str(line.trim());
                if line.trim_start().starts_with(']') {
                    let a = acc.take().unwrap();
                    blocks.last_mut().unwrap().stmts.push(a.into());
                }
                continue;
            }
            if line.is_empty() || line.starts_with(';') {
                continue;
            }
            if !line.starts_with(' ') {
                // label
                let l = line.split(" ;").next().unwrap().trim();
                let l = &l[..l.rfind(':').unwrap()];
                let l = l.trim_matches('"');
                blocks.push(Blk { name: l, stmts: vec![] });
                continue;
            }
            if blocks.is_empty() {
                blocks.push(Blk { name: "", stmts: vec![] });
            }
            let t = line.trim();
            if t.starts_with(';') {
                continue;
            }
            if t.starts_with("switch") && !t.contains(']') {
                acc = Some(t.to_string());
                continue;
            }
            if t.starts_with("to label") || t.starts_with("cleanup") || t.starts_with("catch") || t.starts_with("filter") {
                let last = blocks.last_mut().unwrap().stmts.last_mut().unwrap();
                let s = format!("{} {}", last, t);
                *last = s.into();
                continue;
            }
            blocks.last_mut().unwrap().stmts.push(t.into());
        }
        let bidx: HashMap<&str, usize> = blocks.iter().enumerate().map(|(i, b)| (b.name, i)).collect();
        let entry_unnamed = argno;
        let _ = entry_unnamed;
        // --- pass 2: result types, register numbers ---
        // parse all statements to tokens
        let toks: Vec<Vec<Vec<T>>> =
            blocks.iter().map(|b| b.stmts.iter().map(|s| lex(unsafe { &*(s.as_ref() as *const str) })).collect()).collect();
        // names must be 'static for the map: leak slices that come from the module text, copy others
        for b in &toks {
            for t in b {
                if let (T::L(n), Some(T::P(b'='))) = (t[0], t.get(1)) {
                    let ty = self.result_ty(&t[2..]);
                    let k = ty.nleaves();
                    let n: &'static str = unsafe { &*(n as *const str) };
                    self.names.insert(n, (self.nregs, ty));
                    self.nregs += k;
                }
            }
        }
        // --- pass 3: phis per block ---
        // phi: block -> Vec<(dst, ty, Vec<(pred, opnds)>)>
        let mut phis: Vec<Vec<(u32, Vec<u8>, Vec<(usize, Vec<Opnd>)>)>> = vec![];
        for b in &toks {
            let mut v = vec![];
            for t in b {
                if t.get(2) == Some(&T::W("phi")) {
                    let T::L(n) = t[0] else { panic!() };
                    let dst = self.names[n].0;
                    let mut i = 3;
                    while !self.is_ty(&t[i]) {
                        i += 1;
                    }
                    let ty = self.ty(t, &mut i);
                    let mut inc = vec![];
                    while i < t.len() && t[i] == T::P(b'[') {
                        i += 1;
                        let o = self.val(&ty, t, &mut i);
                        i += 1;
                        let T::L(pn) = t[i] else { panic!() };
                        i += 2;
                        let pi = match bidx.get(pn) {
                            Some(x) => *x,
                            None => 0, // unnamed entry block
                        };
                        inc.push((pi, o));
                        if i < t.len() && t[i] == T::P(b',') {
                            i += 1;
                        }
                    }
                    let mut lv = vec![];
                    ty.leaves(0, &mut lv);
                    v.push((dst, lv.into_iter().map(|x| x.1).collect(), inc));
                }
            }
            phis.push(v);
        }
        // --- pass 4: emit ---
        let mut starts = vec![0u32; blocks.len()];
        for (bi, b) in toks.iter().enumerate() {
            starts[bi] = self.insts.len() as u32;
            for t in b {
                let (dst, body): (u32, &Toks) = match (t[0], t.get(1)) {
                    (T::L(n), Some(T::P(b'='))) => (self.names[n].0, &t[2..]),
                    _ => (u32::MAX, &t[..]),
                };
                if body[0] == T::W("phi") {
                    continue;
                }
                let mk = |me: &mut Self, lbl: &str| -> Edge {
                    let _ = &me;
                    let ti = bidx.get(lbl).copied().unwrap_or(0);
                    let mut copies = vec![];
                    let mut cw = vec![];
                    for (dst, ws, inc) in &phis[ti] {
                        if let Some((_, o)) = inc.iter().find(|(p, _)| *p == bi) {
                            for (k, x) in o.iter().enumerate() {
                                copies.push((*dst + k as u32, *x));
                                cw.push(ws[k]);
                            }
                        }
                    }
                    Edge { pc: ti as u32, copies: copies.into(), cw: cw.into() }
                };
                self.stmt(dst, body, &mk);
            }
        }
        // fix up edges
        for i in self.insts.iter_mut() {
            match i {
                I::Br(e) => e.pc = starts[e.pc as usize],
                I::CondBr { t, f, .. } => {
                    t.pc = starts[t.pc as usize];
                    f.pc = starts[f.pc as usize];
                }
                I::Switch { cases, def, .. } => {
                    def.pc = starts[def.pc as usize];
                    for c in cases.iter_mut() {
                        c.1.pc = starts[c.1.pc as usize];
                    }
                }
                _ => {}
            }
        }
        for (_, e) in self.pads.iter_mut() {
            e.pc = starts[e.pc as usize];
        }
        Code { insts: self.insts, nregs: self.nregs, nargs, argw, consts: self.consts, fid, retw, dom: OnceLock::new(), pads: self.pads }
    }
    fn result_ty(&self, t: &Toks) -> Ty {
        let T::W(op) = t[0] else { panic!("{:?}", t) };
        let mut i = 1;
        let first_ty = |i: &mut usize| {
            while !self.is_ty(&t[*i]) {
                *i += 1;
                self.skip_paren(t, i);
            }
            self.ty(t, i)
        };
        match op {
            "alloca" | "getelementptr" | "inttoptr" => Ty::Ptr,
            "icmp" | "fcmp" => {
                let ty = first_ty(&mut i);
                match ty {
                    Ty::Vector(n, _) => Ty::Vector(n, Box::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                }
            }
            "load" => {
                while !self.is_ty(&t[i]) {
                    i += 1;
                }
                self.ty(t, &mut i)
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp"
            | "ptrtoint" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                let p = t.iter().rposition(|x| *x == T::W("to")).unwrap();
                i = p + 1;
                self.ty(t, &mut i)
            }
            "select" => {
                // select [fmf] ty c, ty a, ty b : type of the second operand
                let _ = first_ty(&mut i);
                // skip value
                let mut d = 0;
                loop {
                    match t[i] {
                        T::P(b'(') | T::P(b'{') | T::P(b'[') | T::P(b'<') => d += 1,
                        T::P(b')') | T::P(b'}') | T::P(b']') | T::P(b'>') => d -= 1,
                        T::P(b',') if d == 0 => break,
                        _ => {}
                    }
                    i += 1;
                }
                i += 1;
                self.ty(t, &mut i)
            }
            "extractvalue" => {
                let mut ty = first_ty(&mut i);
                // indices are trailing words
                let mut idx = vec![];
                let mut j = t.len();
                // strip metadata
                while j >= 2 && (matches!(t[j - 1], T::M(_)) || (t[j - 1] == T::P(b',') )) {
                    j -= 1;
                }
                while j > 1 {
                    if let T::W(w) = t[j - 1] {
                        if let (Ok(n), Some(T::P(b','))) = (w.parse::<usize>(), t.get(j - 2)) {
                            idx.push(n);
                            j -= 2;
                            continue;
                        }
                    }
                    break;
                }
                for k in idx.iter().rev() {
                    ty = ty.field(*k).clone();
                }
                ty
            }
            "cmpxchg" => {
                // find type of the new value: after 'ptr X,'
                let c = t.iter().position(|x| *x == T::P(b',')).unwrap();
                i = c + 1;
                let ty = self.ty(t, &mut i);
                Ty::Struct(vec![ty, Ty::Int(1)], false)
            }
            "atomicrmw" => {
                let c = t.iter().position(|x| *x == T::P(b',')).unwrap();
                i = c + 1;
                self.ty(t, &mut i)
            }
            "extractelement" => {
                let ty = first_ty(&mut i);
                ty.field(0).clone()
            }
            "landingpad" => self.ty(t, &mut i),
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                while t[i] == T::W("call") {
                    i += 1;
                }
                first_ty_call(self, t, &mut i)
            }
            _ => first_ty(&mut i),
        }
    }
    fn stmt(&mut self, dst: u32, t: &Toks, mk: &dyn Fn(&mut Self, &str) -> Edge) {
        let T::W(op) = t[0] else { panic!("{:?}", t) };
        let mut i = 1;
        let bop = |s: &str| {
            Some(match s {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "urem" => Op::URem,
                "sdiv" => Op::SDiv,
                "srem" => Op::SRem,
                "and" => Op::And,
                "or" => Op::Or,
                "xor" => Op::Xor,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                "ashr" => Op::AShr,
                _ => return None,
            })
        };
        if let Some(o) = bop(op) {
            while !self.is_ty(&t[i]) {
                i += 1;
            }
            let ty = self.ty(t, &mut i);
            let a = self.val(&ty, t, &mut i);
            self.comma(t, &mut i);
            let b = self.val(&ty, t, &mut i);
            let w = match &ty {
                Ty::Vector(_, e) => e.width(),
                x => x.width(),
            };
            for k in 0..a.len() {
                self.insts.push(I::Bin { op: o, w, dst: dst + k as u32, a: a[k], b: b[k] });
            }
            return;
        }
        match op {
            "icmp" => {
                while !matches!(t[i], T::W("eq" | "ne" | "ult" | "ule" | "ugt" | "uge" | "slt" | "sle" | "sgt" | "sge")) {
                    i += 1;
                }
                let T::W(p) = t[i] else { panic!() };
                i += 1;
                let ty = self.ty(t, &mut i);
                let a = self.val(&ty, t, &mut i);
                self.comma(t, &mut i);
                let b = self.val(&ty, t, &mut i);
                let w = match &ty {
                    Ty::Vector(_, e) => e.width(),
                    x => x.width(),
                };
                let (o, sw, neg) = match p {
                    "eq" => (Op::Eq, false, false),
                    "ne" => (Op::Eq, false, true),
                    "ult" => (Op::Ult, false, false),
                    "ule" => (Op::Ule, false, false),
                    "ugt" => (Op::Ult, true, false),
                    "uge" => (Op::Ule, true, false),
                    "slt" => (Op::Slt, false, false),
                    "sle" => (Op::Sle, false, false),
                    "sgt" => (Op::Slt, true, false),
                    "sge" => (Op::Sle, true, false),
                    _ => panic!(),
                };
                for k in 0..a.len() {
                    let (x, y) = if sw { (b[k], a[k]) } else { (a[k], b[k]) };
                    self.insts.push(I::Cmp { op: o, w, neg, dst: dst + k as u32, a: x, b: y });
                }
            }
            "fcmp" => {
                const P: [&str; 16] = [
                    "false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule",
                    "une", "true",
                ];
                let mut pred = 0;
                while !self.is_ty(&t[i]) {
                    if let T::W(w) = t[i] {
                        if let Some(x) = P.iter().position(|q| *q == w) {
                            pred = x as u8;
                        }
                    }
                    i += 1;
                }
                let ty = self.ty(t, &mut i);
                let a = self.val1(&ty, t, &mut i);
                self.comma(t, &mut i);
                let b = self.val1(&ty, t, &mut i);
                self.insts.push(I::FCmp { pred, w: ty.width(), dst, a, b });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                while !self.is_ty(&t[i]) {
                    i += 1;
                }
                let ty = self.ty(t, &mut i);
                let a = self.val1(&ty, t, &mut i);
                let b = if op == "fneg" {
                    a
                } else {
                    self.comma(t, &mut i);
                    self.val1(&ty, t, &mut i)
                };
                let o = match op {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    "frem" => FOp::Rem,
                    _ => FOp::Neg,
                };
                self.insts.push(I::FBin { op: o, w: ty.width(), dst, a, b });
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" => {
                while !self.is_ty(&t[i]) {
                    i += 1;
                }
                let (ty, a) = self.tv(t, &mut i);
                i += 1; // to
                let to = self.ty(t, &mut i);
                let k = match op {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "fptrunc" => CastK::FpTrunc,
                    "fpext" => CastK::FpExt,
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "uitofp" => CastK::UiToFp,
                    _ => CastK::SiToFp,
                };
                let ew = |t: &Ty| match t {
                    Ty::Vector(_, e) => e.width(),
                    x => x.width(),
                };
                for (j, x) in a.iter().enumerate() {
                    self.insts.push(I::Cast { k, from: ew(&ty), to: ew(&to), dst: dst + j as u32, a: *x });
                }
            }
            "bitcast" | "addrspacecast" | "freeze" => {
                let (_, a) = self.tv(t, &mut i);
                self.insts.push(I::Mov { dst, src: a.into() });
            }
            "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                let (ty, a) = self.tv(t, &mut i);
                i += 1;
                let to = self.ty(t, &mut i);
                let (f, tw) = (ty.width(), to.width());
                if f == tw {
                    self.insts.push(I::Mov { dst, src: a.into() });
                } else if f < tw {
                    self.insts.push(I::Cast { k: CastK::ZExt, from: f, to: tw, dst, a: a[0] });
                } else {
                    self.insts.push(I::Cast { k: CastK::Trunc, from: f, to: tw, dst, a: a[0] });
                }
            }
            "alloca" => {
                let ty = self.ty(t, &mut i);
                let mut align = ty.align();
                let mut n = 1u64;
                while i < t.len() {
                    if t[i] == T::W("align") {
                        if let T::W(w) = t[i + 1] {
                            align = w.parse().unwrap();
                        }
                        i += 2;
                    } else if self.is_ty(&t[i]) {
                        let ity = self.ty(t, &mut i);
                        n = self.const_int(&ity, t, &mut i) as u64;
                    } else {
                        i += 1;
                    }
                }
                self.insts.push(I::Alloca { dst, size: ty.size() * n, align });
            }
            "load" => {
                while !self.is_ty(&t[i]) {
                    i += 1;
                }
                let ty = self.ty(t, &mut i);
                self.comma(t, &mut i);
                let (_, p) = self.tv(t, &mut i);
                let mut l = vec![];
                ty.leaves(0, &mut l);
                if l.len() == 1 && l[0].0 == 0 {
                    self.insts.push(I::Load1 { dst, p: p[0], w: l[0].1 });
                } else {
                    self.insts.push(I::LoadN { dst, p: p[0], parts: l.into() });
                }
            }
            "store" => {
                while !self.is_ty(&t[i]) {
                    i += 1;
                }
                let (ty, v) = self.tv(t, &mut i);
                self.comma(t, &mut i);
                let (_, p) = self.tv(t, &mut i);
                let mut l = vec![];
                ty.leaves(0, &mut l);
                let vals: Vec<_> = l.iter().zip(v.iter()).map(|((o, w), v)| (*o, *w, *v)).collect();
                self.insts.push(I::Store { p: p[0], vals: vals.into() });
            }
            "getelementptr" => {
                while !self.is_ty(&t[i]) {
                    i += 1;
                    self.skip_paren(t, &mut i);
                }
                let ty = self.ty(t, &mut i);
                self.comma(t, &mut i);
                let (_, b) = self.tv(t, &mut i);
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = ty.clone();
                let mut first = true;
                while i < t.len() && t[i] == T::P(b',') && !matches!(t.get(i + 1), Some(T::M(_))) {
                    i += 1;
                    let (it, iv) = self.tv(t, &mut i);
                    let scale;
                    if first {
                        scale = ty.size() as i64;
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let Opnd::C(k) = iv[0] else { panic!() };
                                off += cur.field_off(k as usize) as i64;
                                cur = cur.field(k as usize).clone();
                                continue;
                            }
                            _ => {
                                scale = cur.field(0).size() as i64;
                                cur = cur.field(0).clone();
                            }
                        }
                    }
                    match iv[0] {
                        Opnd::C(k) => {
                            off = off.wrapping_add(crate::expr::sext64(k, it.width()).wrapping_mul(scale))
                        }
                        o => terms.push((o, it.width(), scale)),
                    }
                }
                self.insts.push(I::Gep { dst, base: b[0], off, terms: terms.into() });
            }
            "select" => {
                while !self.is_ty(&t[i]) {
                    i += 1;
                }
                let (ct, c) = self.tv(t, &mut i);
                self.comma(t, &mut i);
                let (ty, a) = self.tv(t, &mut i);
                self.comma(t, &mut i);
                let (_, b) = self.tv(t, &mut i);
                let mut l = vec![];
                ty.leaves(0, &mut l);
                if matches!(ct, Ty::Vector(..)) {
                    for k in 0..a.len() {
                        self.insts.push(I::Select {
                            c: c[k],
                            dst: dst + k as u32,
                            n: vec![(a[k], b[k], l[k].1)].into(),
                        });
                    }
                } else {
                    let n: Vec<_> = (0..a.len()).map(|k| (a[k], b[k], l[k].1)).collect();
                    self.insts.push(I::Select { c: c[0], dst, n: n.into() });
                }
            }
            "extractvalue" => {
                let (ty, v) = self.tv(t, &mut i);
                let mut o = 0u32;
                let mut cur = ty;
                while i < t.len() && t[i] == T::P(b',') {
                    let Some(T::W(w)) = t.get(i + 1) else { break };
                    let k: usize = w.parse().unwrap();
                    i += 2;
                    for j in 0..k {
                        o += cur.field(j).nleaves();
                    }
                    cur = cur.field(k).clone();
                }
                let n = cur.nleaves() as usize;
                self.insts.push(I::Mov { dst, src: v[o as usize..o as usize + n].into() });
            }
            "insertvalue" => {
                let (ty, mut v) = self.tv(t, &mut i);
                self.comma(t, &mut i);
                let (_, x) = self.tv(t, &mut i);
                let mut o = 0u32;
                let mut cur = ty;
                while i < t.len() && t[i] == T::P(b',') {
                    let Some(T::W(w)) = t.get(i + 1) else { break };
                    let k: usize = w.parse().unwrap();
                    i += 2;
                    for j in 0..k {
                        o += cur.field(j).nleaves();
                    }
                    cur = cur.field(k).clone();
                }
                for (j, y) in x.iter().enumerate() {
                    v[o as usize + j] = *y;
                }
                self.insts.push(I::Mov { dst, src: v.into() });
            }
            "extractelement" => {
                let (_, v) = self.tv(t, &mut i);
                self.comma(t, &mut i);
                let (_, x) = self.tv(t, &mut i);
                match x[0] {
                    Opnd::C(k) => self.insts.push(I::Mov { dst, src: vec![v[k as usize]].into() }),
                    _ => self.insts.push(I::Unsupported("extractelement dyn".into())),
                }
            }
            "insertelement" => {
                let (_, mut v) = self.tv(t, &mut i);
                self.comma(t, &mut i);
                let (_, e) = self.tv(t, &mut i);
                self.comma(t, &mut i);
                let (_, x) = self.tv(t, &mut i);
                match x[0] {
                    Opnd::C(k) => {
                        v[k as usize] = e[0];
                        self.insts.push(I::Mov { dst, src: v.into() })
                    }
                    _ => self.insts.push(I::Unsupported("insertelement dyn".into())),
                }
            }
            "br" => {
                if t[1] == T::W("label") {
                    let T::L(l) = t[2] else { panic!() };
                    let e = mk(self, l);
                    self.insts.push(I::Br(e));
                } else {
                    i = 2;
                    let c = self.val1(&Ty::Int(1), t, &mut i);
                    let T::L(a) = t[i + 2] else { panic!("{:?}", t) };
                    let T::L(b) = t[i + 5] else { panic!() };
                    let te = mk(self, a);
                    let fe = mk(self, b);
                    self.insts.push(I::CondBr { c, t: te, f: fe });
                }
            }
            "switch" => {
                let (ty, v) = self.tv(t, &mut i);
                self.comma(t, &mut i);
                i += 1;
                let T::L(d) = t[i] else { panic!() };
                let def = mk(self, d);
                i += 2; // label [
                let mut cases = vec![];
                while t[i] != T::P(b']') {
                    let cty = self.ty(t, &mut i);
                    let k = self.const_int(&cty, t, &mut i);
                    self.comma(t, &mut i);
                    i += 1;
                    let T::L(l) = t[i] else { panic!() };
                    i += 1;
                    let e = mk(self, l);
                    cases.push((k, e));
                }
                self.insts.push(I::Switch { v: v[0], w: ty.width(), cases: cases.into(), def });
            }
            "ret" => {
                if t[1] == T::W("void") {
                    self.insts.push(I::Ret(Box::new([])));
                } else {
                    let (_, v) = self.tv(t, &mut i);
                    self.insts.push(I::Ret(v.into()));
                }
            }
            "unreachable" => self.insts.push(I::Unreachable),
            "fence" => {}
            "atomicrmw" => {
                while t[i] == T::W("volatile") {
                    i += 1;
                }
                let T::W(o) = t[i] else { panic!() };
                i += 1;
                let (_, p) = self.tv(t, &mut i);
                self.comma(t, &mut i);
                let (ty, v) = self.tv(t, &mut i);
                let o = match o {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "nand" => RmwOp::Nand,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    x => panic!("rmw {x}"),
                };
                // a result register may be absent
                let d = if dst == u32::MAX {
                    let r = self.nregs;
                    self.nregs += 1;
                    r
                } else {
                    dst
                };
                self.insts.push(I::Rmw { op: o, w: ty.width(), dst: d, p: p[0], v: v[0] });
            }
            "cmpxchg" => {
                while !self.is_ty(&t[i]) {
                    i += 1;
                }
                let (_, p) = self.tv(t, &mut i);
                self.comma(t, &mut i);
                let (ty, a) = self.tv(t, &mut i);
                self.comma(t, &mut i);
                let (_, b) = self.tv(t, &mut i);
                let d = if dst == u32::MAX {
                    let r = self.nregs;
                    self.nregs += 2;
                    r
                } else {
                    dst
                };
                self.insts.push(I::CmpXchg { w: ty.width(), dst: d, p: p[0], old: a[0], new: b[0] });
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                while t[i] == T::W("call") {
                    i += 1;
                }
                let rt = first_ty_call(self, t, &mut i);
                if t[i] == T::P(b'(') {
                    self.skip_paren(t, &mut i);
                }
                // callee
                enum Ce<'a> {
                    N(&'a str),
                    O(Opnd),
                }
                let ce = match t[i] {
                    T::G(n) => {
                        i += 1;
                        Ce::N(n)
                    }
                    T::W("asm") => {
                        if rt == Ty::Void {
                            return;
                        }
                        self.insts.push(I::Unsupported("asm".into()));
                        return;
                    }
                    _ => {
                        let o = self.val1(&Ty::Ptr, t, &mut i);
                        Ce::O(o)
                    }
                };
                if let Ce::N(n) = ce {
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.prefetch")
                        || n.starts_with("llvm.invariant")
                        || n.starts_with("llvm.donothing")
                    {
                        return;
                    }
                }
                i += 1; // (
                let mut args = vec![];
                let mut aw = vec![];
                let mut tys = vec![];
                while t[i] != T::P(b')') {
                    let ty = self.ty(t, &mut i);
                    self.skip_attrs(t, &mut i);
                    let v = self.val(&ty, t, &mut i);
                    let mut l = vec![];
                    ty.leaves(0, &mut l);
                    args.extend(v);
                    aw.extend(l.iter().map(|x| x.1));
                    tys.push(ty);
                    if t[i] == T::P(b',') {
                        i += 1;
                    }
                }
                let nret = rt.nleaves();
                if let Ce::N(n) = ce {
                    if let Some(rest) = n.strip_prefix("llvm.") {
                        self.intrinsic(rest, dst, &rt, &tys, args);
                        if op == "invoke" {
                            let p = t.iter().rposition(|x| *x == T::W("to")).unwrap();
                            let T::L(l) = t[p + 2] else { panic!() };
                            let e = mk(self, l);
                            self.insts.push(I::Br(e));
                        }
                        return;
                    }
                }
                let f = match ce {
                    Ce::N(n) => Callee::Fn(self.p.func_sym(self.m, n)),
                    Ce::O(o) => Callee::Ind(o),
                };
                let d = if dst == u32::MAX && nret > 0 {
                    let r = self.nregs;
                    self.nregs += nret;
                    r
                } else {
                    dst
                };
                self.insts.push(I::Call { f, args: args.into(), aw: aw.into(), dst: d, nret });
                if op == "invoke" {
                    let p = t.iter().rposition(|x| *x == T::W("to")).unwrap();
                    let T::L(l) = t[p + 2] else { panic!() };
                    let e = mk(self, l);
                    // to label %a unwind label %b
                    let T::L(u) = t[p + 5] else { panic!() };
                    let u = mk(self, u);
                    self.pads.push((self.insts.len() as u32 - 1, u));
                    self.insts.push(I::Br(e));
                }
            }
            "landingpad" => self.insts.push(I::Pad { dst }),
            "resume" => {
                let ty = self.ty(t, &mut i);
                let v = self.val(&ty, t, &mut i);
                self.insts.push(I::Resume(v[0]));
            }
            _ => self.insts.push(I::Unsupported(op.into())),
        }
    }
    fn intrinsic(&mut self, n: &str, dst: u32, rt: &Ty, tys: &[Ty], args: Vec<Opnd>) {
        let w = tys.first().map(|t| t.width()).unwrap_or(0);
        let rw = match rt {
            Ty::Struct(f, _) => f[0].width(),
            x => x.width(),
        };
        let k = if n.starts_with("memcpy") || n.starts_with("memmove") {
            Intr::Memcpy
        } else if n.starts_with("memset") {
            Intr::Memset
        } else if n.starts_with("threadlocal.address") {
            Intr::Tls
        } else if n.starts_with("uadd.with") {
            Intr::UAddO
        } else if n.starts_with("usub.with") {
            Intr::USubO
        } else if n.starts_with("umul.with") {
            Intr::UMulO
        } else if n.starts_with("sadd.with") {
            Intr::SAddO
        } else if n.starts_with("ssub.with") {
            Intr::SSubO
        } else if n.starts_with("smul.with") {
            Intr::SMulO
        } else if n.starts_with("uadd.sat") {
            Intr::UAddSat
        } else if n.starts_with("usub.sat") {
            Intr::USubSat
        } else if n.starts_with("sadd.sat") {
            Intr::SAddSat
        } else if n.starts_with("ssub.sat") {
            Intr::SSubSat
        } else if n.starts_with("umin") {
            Intr::UMin
        } else if n.starts_with("umax") {
            Intr::UMax
        } else if n.starts_with("smin") {
            Intr::SMin
        } else if n.starts_with("smax") {
            Intr::SMax
        } else if n.starts_with("ctlz") {
            Intr::Ctlz
        } else if n.starts_with("cttz") {
            Intr::Cttz
        } else if n.starts_with("ctpop") {
            Intr::Ctpop
        } else if n.starts_with("bswap") {
            Intr::Bswap
        } else if n.starts_with("bitreverse") {
            Intr::Bitrev
        } else if n.starts_with("fshl") {
            Intr::Fshl
        } else if n.starts_with("fshr") {
            Intr::Fshr
        } else if n.starts_with("abs") {
            Intr::Abs
        } else if n.starts_with("ucmp") {
            Intr::UCmp
        } else if n.starts_with("scmp") {
            Intr::SCmp
        } else if n.starts_with("trap") || n.starts_with("debugtrap") {
            Intr::Trap
        } else if n.starts_with("fabs") {
            Intr::FAbs
        } else if n.starts_with("copysign") {
            Intr::CopySign
        } else if n.starts_with("sqrt") {
            Intr::FSqrt
        } else if n.starts_with("ceil") {
            Intr::FCeil
        } else if n.starts_with("floor") {
            Intr::FFloor
        } else if n.starts_with("fma") || n.starts_with("fmuladd") {
            Intr::Fma
        } else if n.starts_with("fptoui.sat") {
            Intr::FpToUiSat
        } else if n.starts_with("fptosi.sat") {
            Intr::FpToSiSat
        } else if n.starts_with("maximumnum") || n.starts_with("maxnum") {
            Intr::FMaxNum
        } else if n.starts_with("minimumnum") || n.starts_with("minnum") {
            Intr::FMinNum
        } else if n.starts_with("is.fpclass") {
            Intr::IsFpClass
        } else if n.starts_with("load.relative") {
            Intr::LoadRel
        } else if n.starts_with("ptrmask") {
            Intr::PtrMask
        } else if n.starts_with("expect") {
            self.insts.push(I::Mov { dst, src: vec![args[0]].into() });
            return;
        } else {
            self.insts.push(I::Unsupported(format!("llvm.{n}").into()));
            return;
        };
        if k == Intr::Tls {
            // the argument is the address of a thread_local global
            self.insts.push(I::Intr { k, w: 64, w2: 64, args: args.into(), dst });
            return;
        }
        if let Ty::Vector(..) = rt {
            self.insts.push(I::Unsupported(format!("vector llvm.{n}").into()));
            return;
        }
        self.insts.push(I::Intr { k, w, w2: rw, args: args.into(), dst });
    }
}
fn first_ty_call(tr: &Tr, t: &Toks, i: &mut usize) -> Ty {
    // fast-math flags, calling convention, return attributes
    loop {
        if tr.is_ty(&t[*i]) {
            return tr.ty(t, i);
        }
        if t[*i] == T::W("align") {
            *i += 2;
            continue;
        }
        *i += 1;
        tr.skip_paren(t, i);
    }
}
