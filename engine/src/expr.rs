//! Bit-vector expressions.
//!
//! Every expression over a single input variable of at most 8 bits is kept in a canonical tabular
//! form (`Tab`/`Bits`), which makes structural equality semantic for those; everything else is a
//! conventional term DAG.  Nodes carry a 128-bit structural hash which is used as identity.
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Const,
    Var,
    Tab,
    Bits,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
}
use Op::*;

pub type H = u128;
pub type E = Arc<Node>;
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub hash: H,
    pub vars: u128,
    pub k: u128, // Const value, Var id, Extract low bit
    pub ch: [Option<E>; 3],
    pub tab: Option<Box<[u64; 256]>>,
    pub bits: [u64; 4],
    pub depth: u32,
}

/// A machine value: concrete (at most 64 bits) or symbolic (any width, or concrete > 64 bits).
#[derive(Clone)]
pub enum V {
    C(u64),
    S(E),
}
use V::{C, S};

#[inline]
pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn mask128(w: u8) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext64(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
#[inline]
pub fn sext128(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

#[inline]
fn mix(a: u64, b: u64) -> u64 {
    let r = (a as u128).wrapping_mul(b as u128);
    (r as u64) ^ ((r >> 64) as u64)
}
pub struct Hs(u64, u64);
impl Hs {
    pub fn new() -> Hs {
        Hs(0x243f_6a88_85a3_08d3, 0x1319_8a2e_0370_7344)
    }
    #[inline]
    pub fn u(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x, 0xa076_1d64_78bd_642f ^ self.1.rotate_left(17));
        self.1 = mix(self.1.wrapping_add(x), 0xe703_7ed1_a0b4_28db ^ self.0.rotate_left(29));
    }
    #[inline]
    pub fn h(&mut self, x: H) {
        self.u(x as u64);
        self.u((x >> 64) as u64);
    }
    pub fn fin(mut self) -> H {
        self.u(0x9e37_79b9_7f4a_7c15);
        self.u(0x1234_5678_9abc_def1);
        ((self.0 as u128) << 64) | self.1 as u128
    }
}

fn node(op: Op, w: u8, k: u128, ch: [Option<E>; 3]) -> E {
    let mut h = Hs::new();
    h.u(((op as u64) << 8) | w as u64);
    h.h(k);
    let mut vars = 0;
    let mut depth = 0;
    for c in ch.iter().flatten() {
        h.h(c.hash);
        vars |= c.vars;
        depth = depth.max(c.depth + 1);
    }
    Arc::new(Node { op, w, hash: h.fin(), vars, k, ch, tab: None, bits: [0; 4], depth })
}

thread_local! {
    /// widths of the symbolic variables; the width of variable i never differs between paths of
    /// the same worker unless the harness makes it so, hence it is stored in the node itself.
    static DUMMY: u8 = 0;
}

pub fn var(id: u32, w: u8) -> V {
    assert!(id < 128, "too many symbolic variables");
    if w <= 8 {
        let mut t = [0u64; 256];
        for (i, x) in t.iter_mut().enumerate() {
            *x = i as u64 & mask(w);
        }
        return tab(id, w, w, t);
    }
    let mut h = Hs::new();
    h.u(((Var as u64) << 8) | w as u64);
    h.u(id as u64);
    S(Arc::new(Node {
        op: Var,
        w,
        hash: h.fin(),
        vars: 1u128 << id,
        k: id as u128,
        ch: [None, None, None],
        tab: None,
        bits: [0; 4],
        depth: 0,
    }))
}
/// k: low 8 bits the variable id, next 8 bits the width of the variable
#[inline]
pub fn tab_var(e: &Node) -> u32 {
    (e.k & 0xff) as u32
}
#[inline]
pub fn tab_vw(e: &Node) -> u8 {
    (e.k >> 8) as u8
}
pub fn tab(id: u32, vw: u8, w: u8, mut t: [u64; 256]) -> V {
    let n = 1usize << vw;
    let first = t[0];
    if t[..n].iter().all(|x| *x == first) {
        return C(first);
    }
    let k = id as u128 | ((vw as u128) << 8);
    let mut h = Hs::new();
    if w == 1 {
        let mut b = [0u64; 4];
        for (i, x) in t[..n].iter().enumerate() {
            b[i >> 6] |= (x & 1) << (i & 63);
        }
        return bits(id, vw, b);
    }
    for x in t[n..].iter_mut() {
        *x = 0;
    }
    h.u(((Tab as u64) << 8) | w as u64);
    h.h(k);
    for x in &t[..n] {
        h.u(*x);
    }
    S(Arc::new(Node {
        op: Tab,
        w,
        hash: h.fin(),
        vars: 1u128 << id,
        k,
        ch: [None, None, None],
        tab: Some(Box::new(t)),
        bits: [0; 4],
        depth: 0,
    }))
}
pub fn full_bits(vw: u8) -> [u64; 4] {
    let n = 1usize << vw;
    let mut b = [0u64; 4];
    for i in 0..4 {
        if n >= (i + 1) * 64 {
            b[i] = !0;
        } else if n > i * 64 {
            b[i] = (1u64 << (n - i * 64)) - 1;
        }
    }
    b
}
pub fn bits(id: u32, vw: u8, b: [u64; 4]) -> V {
    let f = full_bits(vw);
    if b == [0; 4] {
        return C(0);
    }
    if b == f {
        return C(1);
    }
    let k = id as u128 | ((vw as u128) << 8);
    let mut h = Hs::new();
    h.u(((Bits as u64) << 8) | 1);
    h.h(k);
    for x in &b {
        h.u(*x);
    }
    S(Arc::new(Node {
        op: Bits,
        w: 1,
        hash: h.fin(),
        vars: 1u128 << id,
        k,
        ch: [None, None, None],
        tab: None,
        bits: b,
        depth: 0,
    }))
}
#[inline]
pub fn is_tab(e: &Node) -> bool {
    matches!(e.op, Tab | Bits)
}
#[inline]
pub fn tab_get(e: &Node, i: usize) -> u64 {
    match e.op {
        Tab => e.tab.as_ref().unwrap()[i],
        _ => (e.bits[i >> 6] >> (i & 63)) & 1,
    }
}

pub fn konst(w: u8, v: u128) -> V {
    let v = v & mask128(w);
    if w <= 64 {
        C(v as u64)
    } else {
        S(node(Const, w, v, [None, None, None]))
    }
}
/// force into a node
pub fn to_e(v: &V, w: u8) -> E {
    match v {
        C(x) => node(Const, w, *x as u128, [None, None, None]),
        S(e) => e.clone(),
    }
}
#[inline]
pub fn as_const(v: &V) -> Option<u128> {
    match v {
        C(x) => Some(*x as u128),
        S(e) if e.op == Const => Some(e.k),
        _ => None,
    }
}

fn cbin(op: Op, w: u8, a: u128, b: u128) -> u128 {
    let m = mask128(w);
    (match op {
        Add => a.wrapping_add(b),
        Sub => a.wrapping_sub(b),
        Mul => a.wrapping_mul(b),
        UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        AShr => {
            let x = sext128(a, w);
            (x >> (if b >= w as u128 { (w - 1) as u128 } else { b })) as u128
        }
        _ => unreachable!(),
    }) & m
}
fn ccmp(op: Op, w: u8, a: u128, b: u128) -> bool {
    match op {
        Eq => a == b,
        Ult => a < b,
        Ule => a <= b,
        Slt => sext128(a, w) < sext128(b, w),
        Sle => sext128(a, w) <= sext128(b, w),
        _ => unreachable!(),
    }
}
#[inline]
fn cbin64(op: Op, w: u8, a: u64, b: u64) -> u64 {
    match op {
        Add => a.wrapping_add(b) & mask(w),
        Sub => a.wrapping_sub(b) & mask(w),
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        _ => cbin(op, w, a as u128, b as u128) as u64,
    }
}

/// apply f elementwise when a and b are tables over the same variable (or one is constant)
fn tab2(a: &V, b: &V, rw: u8, f: impl Fn(u64, u64) -> u64) -> Option<V> {
    match (a, b) {
        (S(x), S(y)) if is_tab(x) && is_tab(y) && tab_var(x) == tab_var(y) => {
            let n = 1usize << tab_vw(x);
            let mut t = [0u64; 256];
            for i in 0..n {
                t[i] = f(tab_get(x, i), tab_get(y, i));
            }
            Some(tab(tab_var(x), tab_vw(x), rw, t))
        }
        (S(x), C(y)) if is_tab(x) => {
            let n = 1usize << tab_vw(x);
            let mut t = [0u64; 256];
            for i in 0..n {
                t[i] = f(tab_get(x, i), *y);
            }
            Some(tab(tab_var(x), tab_vw(x), rw, t))
        }
        (C(x), S(y)) if is_tab(y) => {
            let n = 1usize << tab_vw(y);
            let mut t = [0u64; 256];
            for i in 0..n {
                t[i] = f(*x, tab_get(y, i));
            }
            Some(tab(tab_var(y), tab_vw(y), rw, t))
        }
        _ => None,
    }
}
fn tab1(a: &E, rw: u8, f: impl Fn(u64) -> u64) -> V {
    let n = 1usize << tab_vw(a);
    let mut t = [0u64; 256];
    for i in 0..n {
        t[i] = f(tab_get(a, i));
    }
    tab(tab_var(a), tab_vw(a), rw, t)
}
fn bits2(a: &E, b: &E, f: impl Fn(u64, u64) -> u64) -> V {
    let full = full_bits(tab_vw(a));
    let mut r = [0u64; 4];
    for i in 0..4 {
        r[i] = f(a.bits[i], b.bits[i]) & full[i];
    }
    bits(tab_var(a), tab_vw(a), r)
}

#[inline]
pub fn bin(op: Op, w: u8, a: &V, b: &V) -> V {
    if let (C(x), C(y)) = (a, b) {
        return C(cbin64(op, w, *x, *y));
    }
    bin_slow(op, w, a, b)
}
fn bin_slow(op: Op, w: u8, a: &V, b: &V) -> V {
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return konst(w, cbin(op, w, x, y));
    }
    if let (S(x), S(y)) = (a, b) {
        if x.op == Bits && y.op == Bits && tab_var(x) == tab_var(y) {
            match op {
                And => return bits2(x, y, |p, q| p & q),
                Or => return bits2(x, y, |p, q| p | q),
                Xor | Add | Sub => return bits2(x, y, |p, q| p ^ q),
                _ => {}
            }
        }
        if x.hash == y.hash {
            match op {
                And | Or => return a.clone(),
                Xor | Sub => return konst(w, 0),
                _ => {}
            }
        }
    }
    if w <= 64 {
        if let Some(r) = tab2(a, b, w, |x, y| cbin64(op, w, x, y)) {
            return r;
        }
    }
    let ones = mask128(w);
    if let Some(y) = as_const(b) {
        match op {
            Add | Sub | Or | Xor | Shl | LShr | AShr if y == 0 => return a.clone(),
            And if y == 0 => return konst(w, 0),
            And if y == ones => return a.clone(),
            Or if y == ones => return konst(w, y),
            Mul if y == 0 => return konst(w, 0),
            Mul | UDiv if y == 1 => return a.clone(),
            Mul if y.is_power_of_two() => {
                return bin(Shl, w, a, &konst(w, y.trailing_zeros() as u128))
            }
            UDiv if y.is_power_of_two() => {
                return bin(LShr, w, a, &konst(w, y.trailing_zeros() as u128))
            }
            Shl | LShr if y >= w as u128 => return konst(w, 0),
            _ => {}
        }
        let e = to_e(a, w);
        // shifts/masks by constants as extract/concat, exposing byte structure
        match op {
            LShr => {
                return zext(&extract(a, w, y as u8, w - y as u8), w - y as u8, w);
            }
            Shl => {
                let hi = extract(a, w, 0, w - y as u8);
                return concat(&hi, w - y as u8, &konst(y as u8, 0), y as u8);
            }
            And => {
                // low mask
                if (y & (y + 1)) == 0 {
                    let n = y.count_ones() as u8;
                    return zext(&extract(a, w, 0, n), n, w);
                }
            }
            Add => {
                if e.op == Add {
                    if let Some(c) = as_const(&S(e.ch[1].clone().unwrap())) {
                        return bin(Add, w, &S(e.ch[0].clone().unwrap()), &konst(w, c.wrapping_add(y)));
                    }
                }
            }
            Sub => return bin(Add, w, a, &konst(w, (!y).wrapping_add(1))),
            Xor if w == 1 => {
                // not
                return not1(a);
            }
            Xor => {
                if e.op == Xor {
                    if let Some(c) = as_const(&S(e.ch[1].clone().unwrap())) {
                        return bin(Xor, w, &S(e.ch[0].clone().unwrap()), &konst(w, c ^ y));
                    }
                }
            }
            _ => {}
        }
        if e.op == Ite {
            // push constants into ites with constant arms
            let (t, f) = (S(e.ch[1].clone().unwrap()), S(e.ch[2].clone().unwrap()));
            if as_const(&t).is_some() || as_const(&f).is_some() {
                let nt = bin(op, w, &unwrapc(&t, w), b);
                let nf = bin(op, w, &unwrapc(&f, w), b);
                return ite(&S(e.ch[0].clone().unwrap()), &nt, &nf, w);
            }
        }
    }
    if as_const(a).is_some() && matches!(op, Add | Mul | And | Or | Xor) {
        return bin_slow(op, w, b, a);
    }
    if let Some(x) = as_const(a) {
        if x == 0 && matches!(op, Shl | LShr | AShr | UDiv | URem | SDiv | SRem) {
            return konst(w, 0);
        }
    }
    // or of disjoint zext / concat(…,0) parts → concat
    if matches!(op, Or | Add | Xor) && w > 1 {
        if let Some(r) = or_disjoint(a, b, w) {
            return r;
        }
    }
    if w == 1 {
        match op {
            And | Or => {
                // absorb identical / complementary
                if let (S(x), S(y)) = (a, b) {
                    if let S(nx) = not1(a) {
                        if nx.hash == y.hash {
                            return C(if op == And { 0 } else { 1 });
                        }
                    }
                    let _ = x;
                }
            }
            Add | Sub => return bin(Xor, 1, a, b),
            _ => {}
        }
    }
    let (mut x, mut y) = (to_e(a, w), to_e(b, w));
    if matches!(op, Add | Mul | And | Or | Xor) && y.op != Const && x.hash > y.hash {
        std::mem::swap(&mut x, &mut y);
    }
    S(node(op, w, 0, [Some(x), Some(y), None]))
}
#[inline]
pub fn unwrapc(v: &V, w: u8) -> V {
    match v {
        S(e) if e.op == Const && w <= 64 => C(e.k as u64),
        _ => v.clone(),
    }
}
fn child(e: &E, i: usize) -> V {
    let c = e.ch[i].as_ref().unwrap();
    if c.op == Const && c.w <= 64 {
        C(c.k as u64)
    } else {
        S(c.clone())
    }
}
/// number of known-zero low bits / high bits
fn zeros_low(v: &V, w: u8) -> u8 {
    match v {
        C(0) => w,
        C(x) => x.trailing_zeros() as u8,
        S(e) => match e.op {
            Const => {
                if e.k == 0 {
                    w
                } else {
                    e.k.trailing_zeros() as u8
                }
            }
            Concat => {
                let lo = child(e, 1);
                let lw = e.ch[1].as_ref().unwrap().w;
                let z = zeros_low(&lo, lw);
                if z == lw {
                    z + zeros_low(&child(e, 0), e.ch[0].as_ref().unwrap().w)
                } else {
                    z
                }
            }
            ZExt => {
                let c = e.ch[0].as_ref().unwrap();
                let z = zeros_low(&child(e, 0), c.w);
                if z == c.w {
                    w
                } else {
                    z
                }
            }
            Tab => e.tab.as_ref().unwrap()[..1 << tab_vw(e)]
                .iter()
                .map(|x| x.trailing_zeros() as u8)
                .min()
                .unwrap()
                .min(w),
            _ => 0,
        },
    }
}
fn zeros_high(v: &V, w: u8) -> u8 {
    match v {
        C(x) => w - (64 - x.leading_zeros() as u8),
        S(e) => match e.op {
            Const => w - (128 - e.k.leading_zeros() as u8),
            Concat => {
                let hw = e.ch[0].as_ref().unwrap().w;
                let z = zeros_high(&child(e, 0), hw);
                if z == hw {
                    z + zeros_high(&child(e, 1), e.ch[1].as_ref().unwrap().w)
                } else {
                    z
                }
            }
            ZExt => {
                let c = e.ch[0].as_ref().unwrap();
                w - c.w + zeros_high(&child(e, 0), c.w)
            }
            Tab => {
                w - e.tab.as_ref().unwrap()[..1 << tab_vw(e)]
                    .iter()
                    .map(|x| 64 - x.leading_zeros() as u8)
                    .max()
                    .unwrap()
            }
            _ => 0,
        },
    }
}
fn or_disjoint(a: &V, b: &V, w: u8) -> Option<V> {
    for (x, y) in [(a, b), (b, a)] {
        let zl = zeros_low(x, w);
        if zl == 0 {
            continue;
        }
        let used = w - zeros_high(y, w);
        if used <= zl && zl < w {
            if used == 0 {
                return Some(x.clone());
            }
            let hi = extract(x, w, zl, w - zl);
            let lo = extract(y, w, 0, zl);
            return Some(concat(&hi, w - zl, &lo, zl));
        }
    }
    None
}

pub fn not1(a: &V) -> V {
    match a {
        C(x) => C(x ^ 1),
        S(e) => match e.op {
            Bits => {
                let f = full_bits(tab_vw(e));
                let mut r = [0; 4];
                for i in 0..4 {
                    r[i] = !e.bits[i] & f[i];
                }
                bits(tab_var(e), tab_vw(e), r)
            }
            Xor if e.ch[1].as_ref().unwrap().op == Const => child(e, 0),
            Ult => S(node(Ule, 1, 0, [e.ch[1].clone(), e.ch[0].clone(), None])),
            Ule => S(node(Ult, 1, 0, [e.ch[1].clone(), e.ch[0].clone(), None])),
            Slt => S(node(Sle, 1, 0, [e.ch[1].clone(), e.ch[0].clone(), None])),
            Sle => S(node(Slt, 1, 0, [e.ch[1].clone(), e.ch[0].clone(), None])),
            // pushing a negation through a deep tree takes exponential time
            And if e.depth <= 2 => bin(Or, 1, &not1(&child(e, 0)), &not1(&child(e, 1))),
            Or if e.depth <= 2 => bin(And, 1, &not1(&child(e, 0)), &not1(&child(e, 1))),
            _ => S(node(Xor, 1, 0, [Some(e.clone()), Some(to_e(&C(1), 1)), None])),
        },
    }
}

#[inline]
pub fn cmp(op: Op, w: u8, a: &V, b: &V) -> V {
    if let (C(x), C(y)) = (a, b) {
        let r = match op {
            Eq => x == y,
            Ult => x < y,
            Ule => x <= y,
            Slt => sext64(*x, w) < sext64(*y, w),
            Sle => sext64(*x, w) <= sext64(*y, w),
            _ => unreachable!(),
        };
        return C(r as u64);
    }
    cmp_slow(op, w, a, b)
}
fn cmp_slow(op: Op, w: u8, a: &V, b: &V) -> V {
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return C(ccmp(op, w, x, y) as u64);
    }
    if let (S(x), S(y)) = (a, b) {
        if x.hash == y.hash {
            return C(matches!(op, Eq | Ule | Sle) as u64);
        }
    }
    if w <= 64 {
        if let Some(r) = tab2(a, b, 1, |x, y| ccmp(op, w, x as u128, y as u128) as u64) {
            return r;
        }
    }
    if op == Eq {
        if w == 1 {
            return not1(&bin(Xor, 1, a, b));
        }
        if as_const(a).is_some() {
            return cmp_slow(Eq, w, b, a);
        }
        if let S(e) = a {
            // concat(x,y)==k or ==concat(..) splits
            if e.op == Concat {
                let hw = e.ch[0].as_ref().unwrap().w;
                let lw = e.ch[1].as_ref().unwrap().w;
                let bconcat = as_const(b).is_some()
                    || matches!(b, S(f) if (f.op==Concat && f.ch[1].as_ref().unwrap().w==lw) || f.op==ZExt);
                if bconcat {
                    let h = cmp(Eq, hw, &child(e, 0), &extract(b, w, lw, hw));
                    if let C(0) = h {
                        return C(0);
                    }
                    let l = cmp(Eq, lw, &child(e, 1), &extract(b, w, 0, lw));
                    return bin(And, 1, &h, &l);
                }
            }
            if e.op == ZExt {
                let cw = e.ch[0].as_ref().unwrap().w;
                if as_const(b).is_some() || matches!(b, S(f) if f.op==ZExt) {
                    let hi = extract(b, w, cw, w - cw);
                    let h = cmp(Eq, w - cw, &konst(w - cw, 0), &hi);
                    if let C(0) = h {
                        return C(0);
                    }
                    let l = cmp(Eq, cw, &child(e, 0), &extract(b, w, 0, cw));
                    return bin(And, 1, &h, &l);
                }
            }
            if e.op == Add {
                if let (Some(k), Some(c)) = (as_const(b), as_const(&child(e, 1))) {
                    return cmp(Eq, w, &child(e, 0), &konst(w, k.wrapping_sub(c)));
                }
            }
        }
    }
    // push comparisons with constants into ites with constant arms
    for (p, q, sw) in [(a, b, false), (b, a, true)] {
        if let S(e) = p {
            if e.op == Ite && as_const(q).is_some() {
                let (t, f) = (child(e, 1), child(e, 2));
                if as_const(&t).is_some() || as_const(&f).is_some() {
                    let (nt, nf) = if sw {
                        (cmp(op, w, q, &t), cmp(op, w, q, &f))
                    } else {
                        (cmp(op, w, &t, q), cmp(op, w, &f, q))
                    };
                    return ite(&child(e, 0), &nt, &nf, 1);
                }
            }
        }
    }
    // comparisons of zero-extended values in the narrow width
    if matches!(op, Ult | Ule | Slt | Sle) {
        let za = zeros_high(a, w);
        let zb = zeros_high(b, w);
        let z = za.min(zb);
        if z >= 1 && (matches!(op, Ult | Ule) || z >= 1) {
            let uop = match op {
                Slt => Ult,
                Sle => Ule,
                o => o,
            };
            let nw = w - z;
            if nw == 0 {
                return C((uop == Ule) as u64);
            }
            return cmp_leaf(uop, nw, &extract(a, w, 0, nw), &extract(b, w, 0, nw));
        }
    }
    cmp_leaf(op, w, a, b)
}
fn cmp_leaf(op: Op, w: u8, a: &V, b: &V) -> V {
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return C(ccmp(op, w, x, y) as u64);
    }
    if w <= 64 {
        if let Some(r) = tab2(a, b, 1, |x, y| ccmp(op, w, x as u128, y as u128) as u64) {
            return r;
        }
    }
    // trivial bounds
    if let Some(y) = as_const(b) {
        match op {
            Ult if y == 0 => return C(0),
            Ule if y == mask128(w) => return C(1),
            Ult if y == 1 => return cmp(Eq, w, a, &konst(w, 0)),
            Ule if y == 0 => return cmp(Eq, w, a, &konst(w, 0)),
            _ => {}
        }
    }
    if let Some(x) = as_const(a) {
        match op {
            Ult if x == mask128(w) => return C(0),
            Ule if x == 0 => return C(1),
            Ult if x == 0 => return not1(&cmp(Eq, w, b, &konst(w, 0))),
            _ => {}
        }
    }
    let (mut x, mut y) = (to_e(a, w), to_e(b, w));
    if op == Eq && y.op != Const && x.hash > y.hash {
        std::mem::swap(&mut x, &mut y);
    }
    S(node(op, 1, 0, [Some(x), Some(y), None]))
}

pub fn extract(v: &V, w: u8, lo: u8, n: u8) -> V {
    debug_assert!(lo + n <= w && n > 0);
    if n == w {
        return v.clone();
    }
    match v {
        C(x) => C((x >> lo) & mask(n)),
        S(e) => match e.op {
            Const => konst(n, e.k >> lo),
            Tab => tab1(e, n, |x| (x >> lo) & mask(n)),
            Concat => {
                let lw = e.ch[1].as_ref().unwrap().w;
                let hw = e.ch[0].as_ref().unwrap().w;
                if lo >= lw {
                    extract(&child(e, 0), hw, lo - lw, n)
                } else if lo + n <= lw {
                    extract(&child(e, 1), lw, lo, n)
                } else {
                    let h = extract(&child(e, 0), hw, 0, lo + n - lw);
                    let l = extract(&child(e, 1), lw, lo, lw - lo);
                    concat(&h, lo + n - lw, &l, lw - lo)
                }
            }
            Extract => {
                let c = e.ch[0].as_ref().unwrap();
                extract(&child(e, 0), c.w, lo + e.k as u8, n)
            }
            ZExt => {
                let cw = e.ch[0].as_ref().unwrap().w;
                if lo >= cw {
                    konst(n, 0)
                } else if lo + n <= cw {
                    extract(&child(e, 0), cw, lo, n)
                } else {
                    zext(&extract(&child(e, 0), cw, lo, cw - lo), cw - lo, n)
                }
            }
            SExt => {
                let cw = e.ch[0].as_ref().unwrap().w;
                if lo + n <= cw {
                    extract(&child(e, 0), cw, lo, n)
                } else {
                    S(node(Extract, n, lo as u128, [Some(e.clone()), None, None]))
                }
            }
            And | Or | Xor => {
                let (a, b) = (child(e, 0), child(e, 1));
                bin(e.op, n, &extract(&a, w, lo, n), &extract(&b, w, lo, n))
            }
            Ite => {
                let (a, b) = (child(e, 1), child(e, 2));
                ite(&child(e, 0), &extract(&a, w, lo, n), &extract(&b, w, lo, n), n)
            }
            Add | Sub | Mul if lo == 0 => {
                let (a, b) = (child(e, 0), child(e, 1));
                bin(e.op, n, &extract(&a, w, 0, n), &extract(&b, w, 0, n))
            }
            _ => S(node(Extract, n, lo as u128, [Some(e.clone()), None, None])),
        },
    }
}
pub fn concat(hi: &V, hw: u8, lo: &V, lw: u8) -> V {
    let w = hw + lw;
    if let (Some(a), Some(b)) = (as_const(hi), as_const(lo)) {
        return konst(w, (a << lw) | b);
    }
    if w <= 64 {
        if let Some(r) = tab2(hi, lo, w, |a, b| (a << lw) | b) {
            return r;
        }
    }
    if as_const(hi) == Some(0) {
        return zext(lo, lw, w);
    }
    if let (S(h), S(l)) = (hi, lo) {
        if h.op == Extract
            && l.op == Extract
            && h.ch[0].as_ref().unwrap().hash == l.ch[0].as_ref().unwrap().hash
            && h.k == l.k + lw as u128
        {
            let c = h.ch[0].as_ref().unwrap();
            return extract(&S(c.clone()), c.w, l.k as u8, w);
        }
        // sext byte pattern is left alone
    }
    // right-assoc normal form: concat(concat(a,b),c) -> concat(a, concat(b,c))
    if let S(h) = hi {
        if h.op == Concat {
            let (a, b) = (child(h, 0), child(h, 1));
            let (aw, bw) = (h.ch[0].as_ref().unwrap().w, h.ch[1].as_ref().unwrap().w);
            let bl = concat(&b, bw, lo, lw);
            return concat(&a, aw, &bl, bw + lw);
        }
        if h.op == ZExt {
            let c = h.ch[0].as_ref().unwrap();
            let cl = concat(&child(h, 0), c.w, lo, lw);
            return zext(&cl, c.w + lw, w);
        }
    }
    // merge constants: concat(k1, concat(k2, x))
    if let (Some(a), S(l)) = (as_const(hi), lo) {
        if l.op == Concat {
            if let Some(b) = as_const(&child(l, 0)) {
                let bw = l.ch[0].as_ref().unwrap().w;
                return concat(
                    &konst(hw + bw, (a << bw) | b),
                    hw + bw,
                    &child(l, 1),
                    l.ch[1].as_ref().unwrap().w,
                );
            }
        }
    }
    // merge same-variable tables: concat(t1, concat(t2, x))
    if let (S(h), S(l)) = (hi, lo) {
        if is_tab(h) && l.op == Concat {
            let m = l.ch[0].as_ref().unwrap();
            if is_tab(m) && tab_var(h) == tab_var(m) && hw + m.w <= 64 {
                let hm = concat(hi, hw, &child(l, 0), m.w);
                return concat(&hm, hw + m.w, &child(l, 1), l.ch[1].as_ref().unwrap().w);
            }
        }
        // merge adjacent extracts inside a right-nested concat
        if h.op == Extract && l.op == Concat {
            let m = l.ch[0].as_ref().unwrap();
            if m.op == Extract
                && h.ch[0].as_ref().unwrap().hash == m.ch[0].as_ref().unwrap().hash
                && h.k == m.k + m.w as u128
            {
                let c = h.ch[0].as_ref().unwrap();
                let hm = extract(&S(c.clone()), c.w, m.k as u8, hw + m.w);
                return concat(&hm, hw + m.w, &child(l, 1), l.ch[1].as_ref().unwrap().w);
            }
        }
    }
    S(node(Concat, w, 0, [Some(to_e(hi, hw)), Some(to_e(lo, lw)), None]))
}
pub fn zext(v: &V, from: u8, to: u8) -> V {
    if from == to {
        return v.clone();
    }
    match v {
        C(x) => konst(to, *x as u128),
        S(e) => {
            if e.op == Const {
                return konst(to, e.k);
            }
            if is_tab(e) && to <= 64 {
                return tab1(e, to, |x| x);
            }
            if e.op == ZExt {
                let c = e.ch[0].as_ref().unwrap();
                return zext(&child(e, 0), c.w, to);
            }
            if e.op == Ite && as_const(&child(e, 1)).is_some() && as_const(&child(e, 2)).is_some() {
                return ite(
                    &child(e, 0),
                    &zext(&child(e, 1), from, to),
                    &zext(&child(e, 2), from, to),
                    to,
                );
            }
            S(node(ZExt, to, 0, [Some(e.clone()), None, None]))
        }
    }
}
pub fn sext(v: &V, from: u8, to: u8) -> V {
    if from == to {
        return v.clone();
    }
    match v {
        C(x) => konst(to, sext64(*x, from) as i128 as u128),
        S(e) => {
            if e.op == Const {
                return konst(to, sext128(e.k, from) as u128);
            }
            if is_tab(e) && to <= 64 {
                return tab1(e, to, |x| sext64(x, from) as u64 & mask(to));
            }
            if zeros_high(v, from) > 0 {
                return zext(v, from, to);
            }
            if e.op == Ite && as_const(&child(e, 1)).is_some() && as_const(&child(e, 2)).is_some() {
                return ite(
                    &child(e, 0),
                    &sext(&child(e, 1), from, to),
                    &sext(&child(e, 2), from, to),
                    to,
                );
            }
            S(node(SExt, to, 0, [Some(e.clone()), None, None]))
        }
    }
}
pub fn ite(c: &V, a: &V, b: &V, w: u8) -> V {
    match c {
        C(1) => return a.clone(),
        C(_) => return b.clone(),
        _ => {}
    }
    let ce = to_e(c, 1);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        if x == y {
            return a.clone();
        }
    }
    if let (S(x), S(y)) = (a, b) {
        if x.hash == y.hash {
            return a.clone();
        }
    }
    if w <= 64 && ce.op == Bits {
        let ok = |v: &V| match v {
            C(_) => true,
            S(e) => is_tab(e) && tab_var(e) == tab_var(&ce),
        };
        if ok(a) && ok(b) {
            let n = 1usize << tab_vw(&ce);
            let mut t = [0u64; 256];
            let g = |v: &V, i: usize| match v {
                C(x) => *x,
                S(e) => tab_get(e, i),
            };
            for i in 0..n {
                t[i] = if tab_get(&ce, i) != 0 { g(a, i) } else { g(b, i) };
            }
            return tab(tab_var(&ce), tab_vw(&ce), w, t);
        }
    }
    if w == 1 {
        match (a, b) {
            (C(1), C(0)) => return c.clone(),
            (C(0), C(1)) => return not1(c),
            (C(1), _) => return bin(Or, 1, c, b),
            (C(0), _) => return bin(And, 1, &not1(c), b),
            (_, C(1)) => return bin(Or, 1, &not1(c), a),
            (_, C(0)) => return bin(And, 1, c, a),
            _ => {}
        }
    }
    // ite(c, ite(c, x, _), y)
    let mut a2 = a.clone();
    let mut b2 = b.clone();
    if let S(x) = a {
        if x.op == Ite && x.ch[0].as_ref().unwrap().hash == ce.hash {
            a2 = child(x, 1);
        }
    }
    if let S(x) = b {
        if x.op == Ite && x.ch[0].as_ref().unwrap().hash == ce.hash {
            b2 = child(x, 2);
        }
    }
    S(node(Ite, w, 0, [Some(ce), Some(to_e(&a2, w)), Some(to_e(&b2, w))]))
}

/// evaluate under an assignment of all variables
pub fn eval(v: &V, m: &[u64]) -> u128 {
    match v {
        C(x) => *x as u128,
        S(e) => {
            if e.depth > 6 {
                let mut memo = std::collections::HashMap::new();
                evale(e, m, &mut Some(&mut memo))
            } else {
                evale(e, m, &mut None)
            }
        }
    }
}
fn evale(e: &E, m: &[u64], memo: &mut Option<&mut std::collections::HashMap<H, u128>>) -> u128 {
    match e.op {
        Const => return e.k,
        Var => return m.get(e.k as usize).copied().unwrap_or(0) as u128,
        Tab | Bits => {
            let i = m.get(tab_var(e) as usize).copied().unwrap_or(0) as usize & ((1 << tab_vw(e)) - 1);
            return tab_get(e, i) as u128;
        }
        _ => {}
    }
    if let Some(mm) = memo {
        if let Some(r) = mm.get(&e.hash) {
            return *r;
        }
    }
    let c = |i: usize, memo: &mut Option<&mut std::collections::HashMap<H, u128>>| {
        evale(e.ch[i].as_ref().unwrap(), m, memo)
    };
    let cw = |i: usize| e.ch[i].as_ref().unwrap().w;
    let r = match e.op {
        Eq | Ult | Ule | Slt | Sle => {
            let (a, b) = (c(0, memo), c(1, memo));
            ccmp(e.op, cw(0), a, b) as u128
        }
        Concat => (c(0, memo) << cw(1)) | c(1, memo),
        Extract => (c(0, memo) >> e.k as u32) & mask128(e.w),
        ZExt => c(0, memo),
        SExt => sext128(c(0, memo), cw(0)) as u128 & mask128(e.w),
        Ite => {
            if c(0, memo) != 0 {
                c(1, memo)
            } else {
                c(2, memo)
            }
        }
        op => {
            let (a, b) = (c(0, memo), c(1, memo));
            cbin(op, e.w, a, b)
        }
    };
    if let Some(mm) = memo {
        mm.insert(e.hash, r);
    }
    r
}

pub fn show(v: &V) -> String {
    match v {
        C(x) => format!("{x}"),
        S(e) => match e.op {
            Const => format!("{}", e.k),
            Var => format!("v{}", e.k),
            Tab => format!("T{}[v{}]", e.w, tab_var(e)),
            Bits => format!("B[v{}:{:x?}]", tab_var(e), e.bits),
            Extract => format!("(x{}+{} {})", e.k, e.w, show(&child(e, 0))),
            _ => {
                let mut s = format!("({:?}", e.op);
                for c in e.ch.iter().flatten() {
                    s.push(' ');
                    s.push_str(&show(&S(c.clone())));
                    if s.len() > 400 {
                        s.push_str("...");
                        break;
                    }
                }
                s.push(')');
                s
            }
        },
    }
}
