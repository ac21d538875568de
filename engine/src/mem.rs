//! Flat byte-addressed memory with copy-on-write pages.
//!
//! A page (or chunk of pages) may be written in place only by the state whose current id equals
//! its `owner`; forking gives both halves fresh ids, so everything older becomes shared.
use crate::expr::{self, concat, extract, E, V};
use crate::ll::Program;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub const PS: usize = 512;
const CP: usize = 128;
const CHUNK: u64 = (PS * CP) as u64;
pub const GLOBAL_BASE: u64 = 0x0010_0000;
pub const GLOBAL_END: u64 = 0x0400_0000;
pub const HEAP_BASE: u64 = 0x0400_0000;
pub const HEAP_END: u64 = 0x1000_0000;
pub const STACK_BASE: u64 = 0x1000_0000;
pub const STACK_SIZE: u64 = 0x0080_0000;
pub const MAX_THREADS: u64 = 24;
pub const TOP: u64 = STACK_BASE + STACK_SIZE * MAX_THREADS;

static NEXT_ID: AtomicU64 = AtomicU64::new(1);

pub struct Page {
    pub owner: u64,
    pub bytes: [u8; PS],
    pub mask: [u64; PS / 64],
    pub sym: Option<Box<BTreeMap<u16, (E, u8)>>>,
}
impl Page {
    pub fn zero(owner: u64) -> Page {
        Page { owner, bytes: [0; PS], mask: [0; PS / 64], sym: None }
    }
}
struct Chunk {
    owner: u64,
    pages: [Option<Arc<Page>>; CP],
}
#[derive(Debug)]
pub enum MemErr {
    Bad(u64),
}
pub struct Mem {
    id: u64,
    top: Vec<Option<Arc<Chunk>>>,
    pub heap: u64,
    free: [u64; 128],
    pub limit: u64,
}

fn class(n: u64) -> (usize, u64) {
    // size classes: multiples of 16 up to 512, then powers of two with 4 steps
    if n <= 512 {
        let c = n.max(1).div_ceil(16);
        (c as usize, c * 16)
    } else {
        let p = 64 - (n - 1).leading_zeros() as u64; // n <= 2^p
        let base = 1u64 << (p - 1);
        let step = base / 4;
        let k = (n - base).div_ceil(step); // 1..=4
        ((33 + (p - 10) * 4 + k) as usize, base + k * step)
    }
}

impl Clone for Mem {
    fn clone(&self) -> Mem {
        panic!("use fork")
    }
}
impl Mem {
    pub fn new() -> Mem {
        Mem {
            id: NEXT_ID.fetch_add(1, Ordering::Relaxed),
            top: vec![],
            heap: HEAP_BASE,
            free: [0; 128],
            limit: HEAP_END,
        }
    }
    pub fn fork(&mut self) -> Mem {
        let a = NEXT_ID.fetch_add(2, Ordering::Relaxed);
        self.id = a;
        Mem { id: a + 1, top: self.top.clone(), heap: self.heap, free: self.free, limit: self.limit }
    }
    #[inline]
    fn page(&mut self, p: &Program, pn: u64) -> Option<&Page> {
        let ci = (pn / CP as u64) as usize;
        if let Some(Some(c)) = self.top.get(ci) {
            if let Some(pg) = &c.pages[pn as usize % CP] {
                // the reference stays valid: pages are only replaced through &mut self
                return Some(unsafe { &*(Arc::as_ptr(pg)) });
            }
        }
        let addr = pn * PS as u64;
        if (GLOBAL_BASE..GLOBAL_END).contains(&addr) {
            let pg = p.base.read().unwrap().get(&pn).cloned();
            if let Some(pg) = pg {
                let r = Arc::as_ptr(&pg);
                self.install(pn, pg);
                return Some(unsafe { &*r });
            }
        }
        None
    }
    fn install(&mut self, pn: u64, pg: Arc<Page>) {
        let ci = (pn / CP as u64) as usize;
        if self.top.len() <= ci {
            self.top.resize(ci + 1, None);
        }
        let id = self.id;
        let slot = &mut self.top[ci];
        let c = match slot {
            None => {
                *slot = Some(Arc::new(Chunk { owner: id, pages: [const { None }; CP] }));
                slot.as_ref().unwrap()
            }
            Some(c) => {
                if c.owner != id {
                    let n = Chunk { owner: id, pages: c.pages.clone() };
                    *c = Arc::new(n);
                }
                c
            }
        };
        let cm = Arc::as_ptr(c) as *mut Chunk;
        unsafe { (*cm).pages[pn as usize % CP] = Some(pg) };
    }
    #[inline]
    fn page_mut(&mut self, p: &Program, pn: u64) -> &mut Page {
        let ci = (pn / CP as u64) as usize;
        if let Some(Some(c)) = self.top.get(ci) {
            if c.owner == self.id {
                if let Some(pg) = &c.pages[pn as usize % CP] {
                    if pg.owner == self.id {
                        return unsafe { &mut *(Arc::as_ptr(pg) as *mut Page) };
                    }
                }
            }
        }
        let id = self.id;
        let np = match self.page(p, pn) {
            Some(o) => Page { owner: id, bytes: o.bytes, mask: o.mask, sym: o.sym.clone() },
            None => Page::zero(id),
        };
        let a = Arc::new(np);
        let r = Arc::as_ptr(&a) as *mut Page;
        self.install(pn, a);
        unsafe { &mut *r }
    }
    #[inline]
    pub fn valid(&self, a: u64, n: u64) -> bool {
        a >= GLOBAL_BASE && n <= TOP && a + n <= TOP
    }
    /// read up to 16 bytes
    #[inline]
    pub fn read(&mut self, p: &Program, a: u64, n: usize) -> Result<V, MemErr> {
        if !self.valid(a, n as u64) {
            return Err(MemErr::Bad(a));
        }
        let off = a as usize % PS;
        if off + n <= PS && n <= 8 {
            let pg = match self.page(p, a / PS as u64) {
                Some(x) => x,
                None => return Ok(V::C(0)),
            };
            let m = pg.mask[off / 64] >> (off % 64);
            let nb = (1u64 << n) - 1;
            let cross = off % 64 + n > 64;
            if m & nb == 0 && !cross {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&pg.bytes[off..off + n]);
                return Ok(V::C(u64::from_le_bytes(b)));
            }
        }
        // slow path, byte by byte
        let mut bytes: Vec<V> = Vec::with_capacity(n);
        let mut whole: Option<(E, u8)> = None; // consecutive bytes of the same expression
        let mut all_c = true;
        let mut run = true;
        let mut cv = 0u128;
        for i in 0..n {
            let (c, s) = self.byte(p, a + i as u64);
            match s {
                None => {
                    cv |= (c as u128) << (8 * i);
                    run = false;
                    bytes.push(V::C(c as u64));
                }
                Some((e, k)) => {
                    all_c = false;
                    if i == 0 {
                        whole = Some((e.clone(), k));
                    } else if let Some((f, j)) = &whole {
                        if f.hash != e.hash || *j as usize + i != k as usize {
                            run = false;
                        }
                    } else {
                        run = false;
                    }
                    bytes.push(V::S(e)); // patched below
                    let last = bytes.len() - 1;
                    if let V::S(e) = bytes[last].clone() {
                        bytes[last] = byte_of(&e, k);
                    }
                }
            }
        }
        if all_c {
            return Ok(expr::konst((8 * n) as u8, cv));
        }
        if run {
            let (e, k) = whole.unwrap();
            let w = (8 * n) as u8;
            let ew = e.w;
            if (k as usize + n) * 8 <= ew as usize {
                return Ok(extract(&V::S(e), ew, 8 * k, w));
            } else {
                let have = ew - 8 * k;
                let x = extract(&V::S(e.clone()), ew, 8 * k, have);
                return Ok(expr::zext(&x, have, w));
            }
        }
        let mut r = bytes[0].clone();
        for (i, b) in bytes.iter().enumerate().skip(1) {
            r = concat(b, 8, &r, (8 * i) as u8);
        }
        Ok(r)
    }
    #[inline]
    fn byte(&mut self, p: &Program, a: u64) -> (u8, Option<(E, u8)>) {
        let off = a as usize % PS;
        match self.page(p, a / PS as u64) {
            None => (0, None),
            Some(pg) => {
                if (pg.mask[off / 64] >> (off % 64)) & 1 == 0 {
                    (pg.bytes[off], None)
                } else {
                    (0, pg.sym.as_ref().unwrap().get(&(off as u16)).cloned())
                }
            }
        }
    }
    #[inline]
    pub fn write(&mut self, p: &Program, a: u64, n: usize, v: &V) -> Result<(), MemErr> {
        if !self.valid(a, n as u64) {
            return Err(MemErr::Bad(a));
        }
        let off = a as usize % PS;
        if let V::C(x) = v {
            if off + n <= PS && n <= 8 {
                let pg = self.page_mut(p, a / PS as u64);
                pg.bytes[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if pg.sym.is_some() {
                    clear_sym(pg, off, n);
                }
                return Ok(());
            }
            for i in 0..n {
                let b = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
                self.set_byte(p, a + i as u64, b);
            }
            return Ok(());
        }
        let V::S(e) = v else { unreachable!() };
        if e.op == expr::Op::Const {
            for i in 0..n {
                self.set_byte(p, a + i as u64, (e.k >> (8 * i)) as u8);
            }
            return Ok(());
        }
        for i in 0..n {
            // constant bytes inside a symbolic value are stored as constants
            if 8 * i >= e.w as usize {
                self.set_byte(p, a + i as u64, 0);
                continue;
            }
            if let V::C(b) = byte_of(e, i as u8) {
                self.set_byte(p, a + i as u64, b as u8);
                continue;
            }
            self.set_sym(p, a + i as u64, e.clone(), i as u8);
        }
        Ok(())
    }
    #[inline]
    pub fn set_byte(&mut self, p: &Program, a: u64, b: u8) {
        let off = a as usize % PS;
        let pg = self.page_mut(p, a / PS as u64);
        pg.bytes[off] = b;
        if pg.sym.is_some() {
            clear_sym(pg, off, 1);
        }
    }
    fn set_sym(&mut self, p: &Program, a: u64, e: E, k: u8) {
        let off = a as usize % PS;
        let pg = self.page_mut(p, a / PS as u64);
        pg.mask[off / 64] |= 1 << (off % 64);
        pg.sym.get_or_insert_with(Default::default).insert(off as u16, (e, k));
    }
    pub fn copy(&mut self, p: &Program, d: u64, s: u64, n: u64) -> Result<(), MemErr> {
        if n == 0 {
            return Ok(());
        }
        if !self.valid(d, n) {
            return Err(MemErr::Bad(d));
        }
        if !self.valid(s, n) {
            return Err(MemErr::Bad(s));
        }
        if d == s {
            return Ok(());
        }
        // gather
        let mut buf = vec![0u8; n as usize];
        let mut syms: Vec<(u64, E, u8)> = vec![];
        let mut i = 0u64;
        while i < n {
            let a = s + i;
            let off = a as usize % PS;
            let m = (PS - off).min((n - i) as usize);
            if let Some(pg) = self.page(p, a / PS as u64) {
                buf[i as usize..i as usize + m].copy_from_slice(&pg.bytes[off..off + m]);
                if let Some(sy) = &pg.sym {
                    for (o, (e, k)) in sy.range(off as u16..(off + m) as u16) {
                        syms.push((i + *o as u64 - off as u64, e.clone(), *k));
                    }
                }
            }
            i += m as u64;
        }
        self.write_bytes(p, d, &buf)?;
        for (o, e, k) in syms {
            self.set_sym(p, d + o, e, k);
        }
        Ok(())
    }
    pub fn write_bytes(&mut self, p: &Program, d: u64, buf: &[u8]) -> Result<(), MemErr> {
        if !self.valid(d, buf.len() as u64) {
            return Err(MemErr::Bad(d));
        }
        let n = buf.len() as u64;
        let mut i = 0u64;
        while i < n {
            let a = d + i;
            let off = a as usize % PS;
            let m = (PS - off).min((n - i) as usize);
            let pg = self.page_mut(p, a / PS as u64);
            pg.bytes[off..off + m].copy_from_slice(&buf[i as usize..i as usize + m]);
            if pg.sym.is_some() {
                clear_sym(pg, off, m);
            }
            i += m as u64;
        }
        Ok(())
    }
    pub fn fill(&mut self, p: &Program, d: u64, v: &V, n: u64) -> Result<(), MemErr> {
        if n == 0 {
            return Ok(());
        }
        match v {
            V::C(b) => {
                let buf = vec![*b as u8; n as usize];
                self.write_bytes(p, d, &buf)
            }
            V::S(_) => {
                for i in 0..n {
                    self.write(p, d + i, 1, v)?;
                }
                Ok(())
            }
        }
    }
    /// concrete bytes (symbolic ones read as None)
    pub fn get_byte(&mut self, p: &Program, a: u64) -> V {
        let (c, s) = self.byte(p, a);
        match s {
            None => V::C(c as u64),
            Some((e, k)) => byte_of(&e, k),
        }
    }
    pub fn str_lossy(&mut self, p: &Program, a: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n.min(400) {
            if !self.valid(a + i, 1) {
                break;
            }
            match self.get_byte(p, a + i) {
                V::C(b) => v.push(b as u8),
                _ => v.push(b'?'),
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }
    // ---- heap ----
    pub fn malloc(&mut self, p: &Program, n: u64, align: u64) -> Option<u64> {
        if n > (HEAP_END - HEAP_BASE) {
            return None;
        }
        if align > 16 {
            let sz = n.max(1);
            let a = self.heap.next_multiple_of(align);
            let e = a + sz.next_multiple_of(16);
            if e > self.limit {
                return None;
            }
            self.heap = e;
            return Some(a);
        }
        let (c, sz) = class(n);
        if c < self.free.len() && self.free[c] != 0 {
            let a = self.free[c];
            if let Ok(V::C(nx)) = self.read(p, a, 8) {
                self.free[c] = nx;
            } else {
                self.free[c] = 0;
            }
            return Some(a);
        }
        let a = self.heap;
        if a + sz > self.limit {
            return None;
        }
        self.heap += sz;
        Some(a)
    }
    pub fn mfree(&mut self, p: &Program, a: u64, n: u64, align: u64) {
        if a == 0 || align > 16 {
            return;
        }
        let (c, _) = class(n);
        if c < self.free.len() {
            let nx = self.free[c];
            let _ = self.write(p, a, 8, &V::C(nx));
            self.free[c] = a;
        }
    }
    pub fn fits(old: u64, new: u64) -> bool {
        class(old).0 == class(new).0
    }
    pub fn pages(&self) -> usize {
        self.top.iter().flatten().map(|c| c.pages.iter().flatten().count()).sum()
    }
}
fn byte_of(e: &E, k: u8) -> V {
    let lo = 8 * k;
    if lo >= e.w {
        return V::C(0);
    }
    let n = (e.w - lo).min(8);
    let x = extract(&V::S(e.clone()), e.w, lo, n);
    expr::zext(&x, n, 8)
}
fn clear_sym(pg: &mut Page, off: usize, n: usize) {
    let mut any = false;
    for o in off..off + n {
        if (pg.mask[o / 64] >> (o % 64)) & 1 != 0 {
            pg.mask[o / 64] &= !(1 << (o % 64));
            pg.sym.as_mut().unwrap().remove(&(o as u16));
            any = true;
        }
    }
    if any && pg.sym.as_ref().unwrap().is_empty() {
        pg.sym = None;
    }
}
