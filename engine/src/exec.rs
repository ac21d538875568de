//! Path-forking symbolic interpreter.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::models::Sp;
use crate::solver::{Ans, Shared, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone)]
pub struct Frame {
    pub code: &'static Code,
    pub pc: u32,
    pub base: u32,
    pub dst: u32,
    pub nret: u32,
    pub sp: u64,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Status {
    Run,
    Futex(u64, u64), // address, wake-up time (u64::MAX: none)
    Join(usize),
    Sleep(u64),
    Done,
}
#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub regs: Vec<V>,
    pub status: Status,
    pub sp: u64,
    pub tls: BTreeMap<u64, u64>,
    pub errno: u64,
    pub wake_ret: Option<u64>,
    /// the exception that is being thrown
    pub exc: u64,
    pub pick: bool,
    /// the next atomic operation has been considered for preemption
    pub seen: bool,
}
pub struct State {
    pub mem: Mem,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub vars: Vec<u8>,
    pub dom: Vec<[u64; 4]>,
    pub cs: Vec<E>,
    pub model: Vec<u64>,
    pub steps: u64,
    pub clock: u64,
    pub depth: u32,
    pub sched: u64,
    pub nsched: u64,
    pub sched_forks: u64,
    /// preemptions left
    pub preempt: u64,
    pub choices: Vec<u32>,
    /// Values the harness observed; evaluated for sampled paths and compared with a native run.
    pub obs: Vec<V>,
}
impl State {
    fn fork(&mut self) -> State {
        State {
            mem: self.mem.fork(),
            threads: self.threads.clone(),
            cur: self.cur,
            vars: self.vars.clone(),
            dom: self.dom.clone(),
            cs: self.cs.clone(),
            model: self.model.clone(),
            steps: self.steps,
            clock: self.clock,
            depth: self.depth,
            sched: self.sched,
            nsched: self.nsched,
            sched_forks: self.sched_forks,
            preempt: self.preempt,
            choices: self.choices.clone(),
            obs: self.obs.clone(),
        }
    }
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub at: String,
    pub vals: Vec<(u8, u64)>,
    pub sched: Vec<u32>,
    pub stack: Vec<String>,
}
pub enum End {
    Ok,
    Cut,
    Viol(String, String),
    Unsup(String),
}
pub struct Cfg {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub max_paths: u64,
    pub deadline: std::time::Instant,
    pub workers: usize,
    pub verbose: bool,
    pub max_viol: usize,
}
#[derive(Default)]
pub struct Stat {
    pub paths: AtomicU64,
    pub cut: AtomicU64,
    pub insts: AtomicU64,
    pub forks: AtomicU64,
    pub asserts: AtomicU64,
    pub asserts_sym: AtomicU64,
    pub branches_sym: AtomicU64,
    pub max_path_steps: AtomicU64,
    pub incomplete: AtomicBool,
    pub multi_thread_paths: AtomicU64,
    pub max_vars: AtomicU64,
    pub next_sample: AtomicU64,
}
pub struct Pool {
    pub q: Mutex<(Vec<Box<State>>, usize)>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub stop: AtomicBool,
}
/// An edge out of a merged region.
struct Group {
    pc: usize,
    guard: V,
    copies: Vec<(u32, V, u8)>,
}
/// Values up to this width that differ between merged edges become conditional expressions.
const MERGE_W: u8 = 16;
fn same_v(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::C(x), V::C(y)) => x == y,
        (V::S(x), V::S(y)) => x.hash == y.hash,
        _ => false,
    }
}
pub struct Global {
    pub p: Program,
    pub sh: Shared,
    pub cfg: Cfg,
    pub st: Stat,
    pub pool: Pool,
    pub viol: Mutex<Vec<Violation>>,
    pub unsup: Mutex<BTreeMap<String, u64>>,
    pub reach: Mutex<BTreeMap<u64, u64>>,
    pub prints: Mutex<BTreeSet<String>>,
    pub forks_at: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<Sample>>,
}
/// Values of a completed path, what it observed, number of threads.
pub type Sample = (Vec<(u8, u64)>, Vec<u64>, u32);
pub struct Worker<'g> {
    pub g: &'g Global,
    z3: Z3,
    local: Vec<Box<State>>,
    fcache: Vec<Option<&'static FuncDef>>,
    reach: HashMap<u64, u64>,
    confirmed: std::collections::HashSet<H>,
}

enum Flow {
    Next,
    Reload,
    Unwind(u64),
    Preempt,
    End(End),
}

fn fconst(v: &V) -> Option<u64> {
    match v {
        V::C(x) => Some(*x),
        _ => None,
    }
}

/// Leave calls until one that has a landing pad.
fn unwind(th: &mut Thread, x: u64) -> bool {
    th.exc = x;
    // the frame on top is at the call that throws, it may itself have a pad
    loop {
        let Some(fr) = th.frames.last_mut() else { return false };
        let code: &'static Code = fr.code;
        if let Some(e) = code.pad(fr.pc - 1) {
            let base = fr.base as usize;
            fr.pc = e.pc;
            let vals: Vec<V> = e
                .copies
                .iter()
                .map(|(_, s)| match *s {
                    Opnd::R(r) => th.regs[base + r as usize].clone(),
                    Opnd::C(c) => V::C(c),
                    Opnd::K(k) => code.consts[k as usize].clone(),
                })
                .collect();
            for ((d, _), v) in e.copies.iter().zip(vals) {
                th.regs[base + *d as usize] = v;
            }
            return true;
        }
        let f = th.frames.pop().unwrap();
        th.regs.truncate(f.base as usize);
        th.sp = f.sp;
    }
}
impl<'g> Worker<'g> {
    pub fn new(g: &'g Global) -> Self {
        Worker { g, z3: Z3::new(60_000), local: vec![], fcache: vec![], reach: HashMap::new(), confirmed: Default::default() }
    }
    fn fdef(&mut self, id: u32) -> &'static FuncDef {
        if let Some(Some(f)) = self.fcache.get(id as usize) {
            return f;
        }
        let f = self.g.p.func(id);
        if self.fcache.len() <= id as usize {
            self.fcache.resize(id as usize + 1, None);
        }
        self.fcache[id as usize] = Some(f);
        f
    }
    // ---------------------------------------------------------------- solving
    /// is `c` (together with the path condition) satisfiable?  The path condition itself is
    /// satisfiable by construction, so only constraints sharing variables with `c` matter.
    fn feasible(&mut self, st: &State, c: &E) -> Option<Vec<(u32, u64)>> {
        // the closure of constraints over shared variables
        let mut vars = c.vars;
        let mut used = vec![false; st.cs.len()];
        loop {
            let mut ch = false;
            for (i, k) in st.cs.iter().enumerate() {
                if !used[i] && k.vars & vars != 0 {
                    used[i] = true;
                    if k.vars & !vars != 0 {
                        vars |= k.vars;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let any = used.iter().any(|x| *x);
        // cheap satisfying assignments first: a model is its own certificate
        if c.op == Op::Bits {
            let id = tab_var(c) as usize;
            let d = st.dom[id];
            let mut inter = [0u64; 4];
            for i in 0..4 {
                inter[i] = d[i] & c.bits[i];
            }
            if !any {
                if inter != [0; 4] {
                    let i = inter.iter().position(|x| *x != 0).unwrap();
                    return Some(vec![(id as u32, (i * 64) as u64 + inter[i].trailing_zeros() as u64)]);
                }
            } else {
                let mut m = st.model.clone();
                let mut tried = 0;
                'o: for v in 0..256usize {
                    if (inter[v >> 6] >> (v & 63)) & 1 == 1 {
                        m[id] = v as u64;
                        tried += 1;
                        if tried > 8 {
                            break;
                        }
                        for (i, k) in st.cs.iter().enumerate() {
                            if used[i] && k.vars >> id & 1 == 1 && eval(&V::S(k.clone()), &m) == 0 {
                                continue 'o;
                            }
                        }
                        return Some(vec![(id as u32, v as u64)]);
                    }
                }
            }
        }
        let mut cs: Vec<E> = st.cs.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, e)| e.clone()).collect();
        cs.push(c.clone());
        let mut doms = vec![];
        let mut vlist = vec![];
        let mut h = Hs::new();
        let mut sum: H = 0;
        for e in &cs[..cs.len() - 1] {
            sum = sum.wrapping_add(e.hash);
        }
        h.h(sum);
        h.h(c.hash);
        for id in 0..st.vars.len() as u32 {
            if vars >> id & 1 == 1 {
                let w = st.vars[id as usize];
                vlist.push((id, w));
                h.u(id as u64);
                h.u(w as u64);
                if w <= 8 && st.dom[id as usize] != full_bits(w) {
                    doms.push((id, w, st.dom[id as usize]));
                    for x in &st.dom[id as usize] {
                        h.u(*x);
                    }
                }
            }
        }
        let key = h.fin();
        let shard = &self.g.sh.cache[(key as usize) % self.g.sh.cache.len()];
        if let Some(a) = shard.lock().unwrap().get(&key) {
            self.g.sh.st.cache_hits.fetch_add(1, Ordering::Relaxed);
            return a.as_ref().map(|v| v.as_ref().clone());
        }
        match self.z3.check(&self.g.sh, &doms, &cs, &vlist) {
            Ok(a) => {
                let r: Option<Vec<(u32, u64)>> = a.as_ref().map(|v: &Arc<Vec<(u32, u64)>>| v.as_ref().clone());
                let a: Ans = a;
                shard.lock().unwrap().insert(key, a);
                r
            }
            Err(()) => {
                self.g.st.incomplete.store(true, Ordering::Relaxed);
                *self.g.unsup.lock().unwrap().entry("solver returned unknown".into()).or_default() += 1;
                None
            }
        }
    }
    /// add a condition known to hold under the state's current model
    fn assume(&self, st: &mut State, c: &V) {
        match c {
            V::C(1) => {}
            V::C(_) => unreachable!("assume false"),
            V::S(e) => {
                if e.op == Op::Bits {
                    let d = &mut st.dom[tab_var(e) as usize];
                    for i in 0..4 {
                        d[i] &= e.bits[i];
                    }
                } else if e.op == Op::And {
                    let (a, b) = (e.ch[0].clone().unwrap(), e.ch[1].clone().unwrap());
                    self.assume(st, &V::S(a));
                    self.assume(st, &V::S(b));
                } else if !st.cs.iter().any(|k| k.hash == e.hash) {
                    st.cs.push(e.clone());
                }
            }
        }
    }
    fn set_model(st: &mut State, m: &[(u32, u64)]) {
        for (i, v) in m {
            st.model[*i as usize] = *v;
        }
    }
    /// Decide a symbolic condition: returns the side the current model takes; if the other side is
    /// feasible too, a forked state (in which the condition has that other value) is returned.
    fn split(&mut self, st: &mut State, c: &E) -> (bool, Option<Box<State>>) {
        self.g.st.branches_sym.fetch_add(1, Ordering::Relaxed);
        let cv = V::S(c.clone());
        let d = eval(&cv, &st.model) != 0;
        let neg = not1(&cv);
        let (mine, other) = if d { (cv, neg) } else { (neg, cv) };
        let V::S(oe) = &other else { unreachable!() };
        match self.feasible(st, oe) {
            None => (d, None), // implied: nothing to add
            Some(m) => {
                let mut f = st.fork();
                Self::set_model(&mut f, &m);
                debug_assert!(eval(&other, &f.model) != 0);
                self.assume(&mut f, &other);
                self.assume(st, &mine);
                st.depth += 1;
                f.depth += 1;
                self.g.st.forks.fetch_add(1, Ordering::Relaxed);
                if self.g.cfg.verbose {
                    *self.g.forks_at.lock().unwrap().entry(self.stack(st).iter().take(3).cloned().collect::<Vec<_>>().join(" < ")).or_default() += 1;
                }
                (d, Some(Box::new(f)))
            }
        }
    }
    /// make an operand concrete, forking over its other values (the fork re-executes the
    /// instruction)
    fn concretize(&mut self, st: &mut State, base: usize, o: Opnd, v: &V, w: u8) -> u64 {
        match v {
            V::C(x) => *x,
            V::S(e) => {
                if e.op == Op::Const {
                    return e.k as u64;
                }
                let k = eval(v, &st.model);
                let eq = cmp(Op::Eq, w, v, &konst(w, k));
                if let V::S(q) = &eq {
                    let q = q.clone();
                    let (_, f) = self.split(st, &q);
                    if let Some(f) = f {
                        self.local.push(f);
                        self.donate();
                    }
                }
                if let Opnd::R(r) = o {
                    let cur = st.cur;
                    st.threads[cur].regs[base + r as usize] = konst(w, k);
                }
                k as u64
            }
        }
    }
    // ---------------------------------------------------------------- running
    pub fn main_loop(&mut self) {
        loop {
            let st = match self.local.pop() {
                Some(s) => Some(s),
                None => self.steal(),
            };
            let Some(st) = st else { break };
            if self.g.pool.stop.load(Ordering::Relaxed) {
                continue;
            }
            self.run_state(st);
            self.donate();
        }
        let mut r = self.g.reach.lock().unwrap();
        for (k, v) in self.reach.drain() {
            *r.entry(k).or_default() += v;
        }
    }
    fn steal(&mut self) -> Option<Box<State>> {
        let pool = &self.g.pool;
        let mut q = pool.q.lock().unwrap();
        pool.idle.fetch_add(1, Ordering::SeqCst);
        loop {
            if let Some(s) = q.0.pop() {
                pool.idle.fetch_sub(1, Ordering::SeqCst);
                return Some(s);
            }
            if pool.idle.load(Ordering::SeqCst) == self.g.cfg.workers {
                pool.cv.notify_all();
                return None;
            }
            q = pool.cv.wait_timeout(q, std::time::Duration::from_millis(20)).unwrap().0;
        }
    }
    fn donate(&mut self) {
        let pool = &self.g.pool;
        if pool.idle.load(Ordering::Relaxed) > 0 && self.local.len() > 1 {
            let mut q = pool.q.lock().unwrap();
            let n = (self.local.len() / 2).max(1).min(16);
            for s in self.local.drain(..n) {
                q.0.push(s);
            }
            pool.cv.notify_all();
        }
    }
    fn run_state(&mut self, mut st: Box<State>) {
        let start = st.steps;
        let end = self.run(&mut st);
        let g = self.g;
        g.st.insts.fetch_add(st.steps - start, Ordering::Relaxed);
        g.st.max_path_steps.fetch_max(st.steps, Ordering::Relaxed);
        g.st.max_vars.fetch_max(st.vars.len() as u64, Ordering::Relaxed);
        // self check: the model satisfies the path condition
        for e in &st.cs {
            assert!(eval(&V::S(e.clone()), &st.model) != 0, "model does not satisfy the path condition");
        }
        for (i, d) in st.dom.iter().enumerate() {
            let v = st.model[i] as usize;
            assert!(st.vars[i] > 8 || (d[v >> 6] >> (v & 63)) & 1 == 1, "model outside domain");
        }
        match end {
            End::Ok => {
                let n = g.st.paths.fetch_add(1, Ordering::Relaxed) + 1;
                if st.threads.len() > 1 {
                    g.st.multi_thread_paths.fetch_add(1, Ordering::Relaxed);
                }
                let gap = (n / 4).max(1);
                let due = g.st.next_sample.load(Ordering::Relaxed);
                if n >= due
                    && g.st.next_sample.compare_exchange(due, n + gap, Ordering::Relaxed, Ordering::Relaxed).is_ok()
                {
                    let mut sm = g.samples.lock().unwrap();
                    if sm.len() < 60 {
                        let vals = st.vars.iter().zip(st.model.iter()).map(|(w, x)| (*w, *x)).collect();
                        let obs = st.obs.iter().map(|v| eval(v, &st.model) as u64).collect();
                        sm.push((vals, obs, st.threads.len() as u32));
                    }
                }
                if n >= g.cfg.max_paths {
                    g.st.incomplete.store(true, Ordering::Relaxed);
                    g.pool.stop.store(true, Ordering::Relaxed);
                }
            }
            End::Cut => {
                g.st.cut.fetch_add(1, Ordering::Relaxed);
            }
            End::Viol(k, at) => {
                g.st.paths.fetch_add(1, Ordering::Relaxed);
                self.report(&st, k, at);
            }
            End::Unsup(s) => {
                g.st.incomplete.store(true, Ordering::Relaxed);
                let stack = self.stack(&st);
                if g.cfg.verbose {
                    eprintln!("unsupported: {s}\n  {}", stack.join("\n  "));
                }
                *g.unsup.lock().unwrap().entry(s).or_default() += 1;
            }
        }
        if std::time::Instant::now() > g.cfg.deadline {
            if !self.local.is_empty() {
                g.st.incomplete.store(true, Ordering::Relaxed);
            }
            g.pool.stop.store(true, Ordering::Relaxed);
        }
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.threads[st.cur].frames.iter().rev().take(30).map(|f| demangle(&self.g.p.func(f.code.fid).name)).collect()
    }
    fn report(&self, st: &State, kind: String, at: String) {
        let mut v = self.g.viol.lock().unwrap();
        let same = v.iter().filter(|x| x.kind == kind && x.at == at).count();
        let classes: BTreeSet<(String, String)> = v.iter().map(|x| (x.kind.clone(), x.at.clone())).collect();
        if same < 4 && v.len() < 200 {
            let vals = st.vars.iter().zip(st.model.iter()).map(|(w, x)| (*w, *x)).collect();
            v.push(Violation { kind, at, vals, sched: st.choices.clone(), stack: self.stack(st) });
        }
        if classes.len() >= self.g.cfg.max_viol {
            self.g.st.incomplete.store(true, Ordering::Relaxed);
            self.g.pool.stop.store(true, Ordering::Relaxed);
        }
    }
    fn next_thread(&mut self, st: &mut State) -> Option<End> {
        // pick the next runnable thread, round robin
        let n = st.threads.len();
        loop {
            let mut cand = vec![];
            for k in 1..=n {
                let t = (st.cur + k) % n;
                let ok = match &st.threads[t].status {
                    Status::Run => true,
                    Status::Join(j) => st.threads[*j].status == Status::Done,
                    _ => false,
                };
                if ok {
                    cand.push(t);
                }
            }
            if !cand.is_empty() {
                let mut pick = cand[0];
                if cand.len() > 1 && st.sched_forks < st.sched {
                    st.sched_forks += 1;
                    // explore every choice
                    for (k, t) in cand.iter().enumerate().skip(1) {
                        let mut f = st.fork();
                        f.cur = *t;
                        f.choices.push(k as u32);
                        f.threads[*t].status = Status::Run;
                        self.g.st.forks.fetch_add(1, Ordering::Relaxed);
                        self.local.push(Box::new(f));
                    }
                    st.choices.push(0);
                    pick = cand[0];
                }
                st.cur = pick;
                st.threads[pick].status = Status::Run;
                return None;
            }
            // nobody can run: let time pass for the earliest sleeper
            let mut best: Option<(u64, usize)> = None;
            for (i, t) in st.threads.iter().enumerate() {
                let w = match t.status {
                    Status::Sleep(w) => w,
                    Status::Futex(_, w) if w != u64::MAX => w,
                    _ => continue,
                };
                if best.map(|b| w < b.0).unwrap_or(true) {
                    best = Some((w, i));
                }
            }
            match best {
                Some((w, i)) => {
                    st.clock = st.clock.max(w);
                    if let Status::Futex(..) = st.threads[i].status {
                        st.threads[i].wake_ret = Some(110); // ETIMEDOUT
                    }
                    st.threads[i].status = Status::Run;
                }
                None => return Some(End::Viol("deadlock".into(), "all threads blocked".into())),
            }
        }
    }
    fn run(&mut self, st: &mut Box<State>) -> End {
        let mut fast_ticks = 0u32;
        loop {
            // --- (re)load the current frame ---
            let cur = st.cur;
            if st.threads[cur].status != Status::Run {
                if let Some(e) = self.next_thread(st) {
                    return e;
                }
                continue;
            }
            if let Some(r) = st.threads[cur].wake_ret.take() {
                // a futex wait that timed out: result register becomes -1, errno is set
                let ea = self.errno_addr(st);
                let _ = st.mem.write(&self.g.p, ea, 4, &V::C(r));
                let th = &mut st.threads[cur];
                let fr = th.frames.last().unwrap();
                // the pc has already been advanced past the call
                if let I::Call { dst, nret, .. } = &fr.code.insts[fr.pc as usize - 1] {
                    if *nret > 0 {
                        let b = fr.base as usize;
                        th.regs[b + *dst as usize] = V::C(u64::MAX);
                    }
                }
            }
            let th: *mut Thread = &mut st.threads[cur];
            let fr = unsafe { (*th).frames.last_mut().unwrap() };
            let code: &'static Code = fr.code;
            let base = fr.base as usize;
            let mut pc = fr.pc as usize;
            let regs: *mut V = unsafe { (&mut (*th).regs).as_mut_ptr().add(base) };
            macro_rules! get {
                ($o:expr) => {
                    match $o {
                        Opnd::R(r) => unsafe { (*regs.add(r as usize)).clone() },
                        Opnd::C(c) => V::C(c),
                        Opnd::K(k) => code.consts[k as usize].clone(),
                    }
                };
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {
                    unsafe { *regs.add($d as usize) = $v }
                };
            }
            macro_rules! conc {
                ($o:expr, $w:expr) => {{
                    let o = $o;
                    match o {
                        Opnd::C(c) => c,
                        Opnd::R(r) if matches!(unsafe { &*regs.add(r as usize) }, V::C(_)) => {
                            if let V::C(c) = unsafe { &*regs.add(r as usize) } {
                                *c
                            } else {
                                0
                            }
                        }
                        _ => {
                            let v = get!(o);
                            fr.pc = pc as u32;
                            self.concretize(st, base, o, &v, $w)
                        }
                    }
                }};
            }
            macro_rules! memtry {
                ($e:expr) => {
                    match $e {
                        Ok(v) => v,
                        Err(MemErr::Bad(a)) => {
                            fr.pc = pc as u32;
                            let f = demangle(&self.g.p.func(code.fid).name);
                            return End::Viol("memory".into(), format!("invalid access in {f} at {a:#x}"));
                        }
                    }
                };
            }
            let flow: Flow = loop {
                st.steps += 1;
                fast_ticks += 1;
                if fast_ticks & 0xfff == 0 {
                    if st.steps > self.g.cfg.max_steps {
                        fr.pc = pc as u32;
                        break Flow::End(End::Viol("step-limit".into(), "instruction budget of one path exceeded".into()));
                    }
                    if self.g.pool.stop.load(Ordering::Relaxed) {
                        self.g.st.incomplete.store(true, Ordering::Relaxed);
                        break Flow::End(End::Cut);
                    }
                    if fast_ticks & 0xfffff == 0 && std::time::Instant::now() > self.g.cfg.deadline {
                        self.g.st.incomplete.store(true, Ordering::Relaxed);
                        self.g.pool.stop.store(true, Ordering::Relaxed);
                        break Flow::End(End::Cut);
                    }
                }
                let ins = &code.insts[pc];
                macro_rules! edge {
                    ($e:expr) => {{
                        let e: &Edge = $e;
                        match e.copies.len() {
                            0 => {}
                            1 => {
                                let (d, s) = e.copies[0];
                                let v = get!(s);
                                set!(d, v);
                            }
                            n => {
                                let mut tmp: Vec<V> = Vec::with_capacity(n);
                                for (_, s) in e.copies.iter() {
                                    tmp.push(get!(*s));
                                }
                                for ((d, _), v) in e.copies.iter().zip(tmp) {
                                    set!(*d, v);
                                }
                            }
                        }
                        pc = e.pc as usize;
                    }};
                }
                match ins {
                    I::Bin { op, w, dst, a, b } => {
                        let (x, y) = (get!(*a), get!(*b));
                        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                            if let V::C(0) = y {
                                fr.pc = pc as u32;
                                break Flow::End(End::Viol("div".into(), "division by zero".into()));
                            }
                        }
                        set!(*dst, bin(*op, *w, &x, &y));
                        pc += 1;
                    }
                    I::Cmp { op, w, neg, dst, a, b } => {
                        let (x, y) = (get!(*a), get!(*b));
                        let r = cmp(*op, *w, &x, &y);
                        set!(*dst, if *neg { not1(&r) } else { r });
                        pc += 1;
                    }
                    I::Load1 { dst, p, w } => {
                        let a = get!(*p);
                        let n = (*w as usize).div_ceil(8);
                        let v = match a {
                            V::C(a) => memtry!(st.mem.read(&self.g.p, a, n)),
                            V::S(_) => {
                                fr.pc = pc as u32;
                                match self.sym_load(st, &a, n) {
                                    Some(v) => v,
                                    None => {
                                        let a = conc!(*p, 64);
                                        memtry!(st.mem.read(&self.g.p, a, n))
                                    }
                                }
                            }
                        };
                        let v = if *w as usize != n * 8 { extract(&v, (n * 8) as u8, 0, *w) } else { v };
                        set!(*dst, v);
                        pc += 1;
                    }
                    I::LoadN { dst, p, parts } => {
                        let a = conc!(*p, 64);
                        for (k, (o, w)) in parts.iter().enumerate() {
                            let n = (*w as usize).div_ceil(8);
                            let v = memtry!(st.mem.read(&self.g.p, a + o, n));
                            let v = if *w as usize != n * 8 { extract(&v, (n * 8) as u8, 0, *w) } else { v };
                            set!(*dst + k as u32, v);
                        }
                        pc += 1;
                    }
                    I::Store { p, vals } => {
                        let a = conc!(*p, 64);
                        for (o, w, v) in vals.iter() {
                            let n = (*w as usize).div_ceil(8);
                            let x = get!(*v);
                            let x = if *w as usize != n * 8 { zext(&x, *w, (n * 8) as u8) } else { x };
                            memtry!(st.mem.write(&self.g.p, a + o, n, &x));
                        }
                        pc += 1;
                    }
                    I::Gep { dst, base: b, off, terms } => {
                        let mut r = get!(*b);
                        for (o, w, s) in terms.iter() {
                            let x = get!(*o);
                            if let (V::C(bb), V::C(xx)) = (&r, &x) {
                                r = V::C(bb.wrapping_add((sext64(*xx, *w).wrapping_mul(*s)) as u64));
                            } else {
                                let x = if *w < 64 { sext(&x, *w, 64) } else { x };
                                let t = bin(Op::Mul, 64, &x, &V::C(*s as u64));
                                r = bin(Op::Add, 64, &r, &t);
                            }
                        }
                        if *off != 0 {
                            r = bin(Op::Add, 64, &r, &V::C(*off as u64));
                        }
                        set!(*dst, r);
                        pc += 1;
                    }
                    I::Br(e) => edge!(e),
                    I::CondBr { c, t, f } => {
                        let v = get!(*c);
                        match v {
                            V::C(1) => edge!(t),
                            V::C(_) => edge!(f),
                            V::S(e) => {
                                fr.pc = pc as u32;
                                // both sides possible: merge what comes together again
                                let d = eval(&V::S(e.clone()), &st.model) != 0;
                                let neg = if d { not1(&V::S(e.clone())) } else { V::S(e.clone()) };
                                let both = match &neg {
                                    V::S(n) => self.feasible(st, n).is_some(),
                                    V::C(k) => *k != 0,
                                };
                                if both {
                                    if let Some(g) = self.region(st, code, regs, pc, &[(V::S(e.clone()), t), (not1(&V::S(e.clone())), f)]) {
                                        if let V::S(c) = &g.guard {
                                            let (d, other) = self.split(st, c);
                                            debug_assert!(d);
                                            if let Some(o) = other {
                                                self.local.push(o);
                                                self.donate();
                                            }
                                        }
                                        for (r, v, _) in g.copies {
                                            set!(r, v);
                                        }
                                        pc = g.pc;
                                        continue;
                                    }
                                }
                                let (d, other) = self.split(st, &e);
                                if let Opnd::R(r) = c {
                                    set!(*r, V::C(d as u64));
                                    if let Some(mut o) = other {
                                        let oc = o.cur;
                                        o.threads[oc].regs[base + *r as usize] = V::C(!d as u64);
                                        self.local.push(o);
                                        self.donate();
                                    }
                                }
                                if d {
                                    edge!(t)
                                } else {
                                    edge!(f)
                                }
                            }
                        }
                    }
                    I::Switch { v, w, cases, def } => {
                        let x = get!(*v);
                        match &x {
                            V::C(k) => {
                                let e = cases.iter().find(|(c, _)| *c == *k as u128).map(|(_, e)| e).unwrap_or(def);
                                edge!(e);
                            }
                            V::S(_) => {
                                // choose the edge the model takes; fork the rest as a whole
                                fr.pc = pc as u32;
                                let k = eval(&x, &st.model);
                                let edge_of = |k: u128| {
                                    cases.iter().find(|(c, _)| *c == k).map(|(_, e)| e).unwrap_or(def)
                                };
                                let mine = edge_of(k);
                                let id = |e: &Edge| e as *const Edge;
                                let is_def = !cases.iter().any(|(c, _)| *c == k);
                                // same target and same phi copies ⇒ merge
                                let same = |e: &Edge| {
                                    e.pc == mine.pc
                                        && e.copies.len() == mine.copies.len()
                                        && e.copies.iter().zip(mine.copies.iter()).all(|(p, q)| {
                                            p.0 == q.0
                                                && match (p.1, q.1) {
                                                    (Opnd::R(a), Opnd::R(b)) => a == b,
                                                    (Opnd::C(a), Opnd::C(b)) => a == b,
                                                    _ => false,
                                                }
                                        })
                                };
                                let _ = id;
                                let mut cond = V::C(0);
                                if is_def || same(def) {
                                    // not any differing case
                                    let mut any = V::C(0);
                                    for (c, e) in cases.iter() {
                                        if !same(e) {
                                            any = bin(Op::Or, 1, &any, &cmp(Op::Eq, *w, &x, &konst(*w, *c)));
                                        }
                                    }
                                    cond = not1(&any);
                                } else {
                                    for (c, e) in cases.iter() {
                                        if same(e) {
                                            cond = bin(Op::Or, 1, &cond, &cmp(Op::Eq, *w, &x, &konst(*w, *c)));
                                        }
                                    }
                                }
                                let neg = not1(&cond);
                                let both = match &neg {
                                    V::S(n) => self.feasible(st, n).is_some(),
                                    V::C(k) => *k != 0,
                                };
                                if both {
                                    let mut init: Vec<(V, &Edge)> = vec![];
                                    let mut none = V::C(1);
                                    for (c, e) in cases.iter() {
                                        let q = cmp(Op::Eq, *w, &x, &konst(*w, *c));
                                        if let V::C(0) = q {
                                            continue;
                                        }
                                        none = bin(Op::And, 1, &none, &not1(&q));
                                        init.push((q, e));
                                    }
                                    init.push((none, def));
                                    if let Some(g) = self.region(st, code, regs, pc, &init) {
                                        if let V::S(c) = &g.guard {
                                            let (d, other) = self.split(st, c);
                                            debug_assert!(d);
                                            if let Some(o) = other {
                                                self.local.push(o);
                                                self.donate();
                                            }
                                        }
                                        for (r, v, _) in g.copies {
                                            set!(r, v);
                                        }
                                        pc = g.pc;
                                        continue;
                                    }
                                }
                                if let V::S(c) = &cond {
                                    let (d, other) = self.split(st, c);
                                    debug_assert!(d);
                                    if let Some(o) = other {
                                        self.local.push(o);
                                        self.donate();
                                    }
                                }
                                edge!(mine);
                            }
                        }
                    }
                    I::Select { c, dst, n } => {
                        let v = get!(*c);
                        match v {
                            V::C(k) => {
                                // parallel semantics: operands never overlap partially in practice,
                                // but read everything first to be safe
                                if n.len() == 1 {
                                    let x = if k == 1 { get!(n[0].0) } else { get!(n[0].1) };
                                    set!(*dst, x);
                                } else {
                                    let t: Vec<V> =
                                        n.iter().map(|(a, b, _)| if k == 1 { get!(*a) } else { get!(*b) }).collect();
                                    for (i, x) in t.into_iter().enumerate() {
                                        set!(*dst + i as u32, x);
                                    }
                                }
                            }
                            V::S(_) => {
                                let t: Vec<V> = n.iter().map(|(a, b, w)| ite(&v, &get!(*a), &get!(*b), *w)).collect();
                                for (i, x) in t.into_iter().enumerate() {
                                    set!(*dst + i as u32, x);
                                }
                            }
                        }
                        pc += 1;
                    }
                    I::Mov { dst, src } => {
                        if src.len() == 1 {
                            let v = get!(src[0]);
                            set!(*dst, v);
                        } else {
                            let t: Vec<V> = src.iter().map(|s| get!(*s)).collect();
                            for (i, x) in t.into_iter().enumerate() {
                                set!(*dst + i as u32, x);
                            }
                        }
                        pc += 1;
                    }
                    I::Cast { k, from, to, dst, a } => {
                        let v = get!(*a);
                        let r = match k {
                            CastK::Trunc => extract(&v, *from, 0, *to),
                            CastK::ZExt => zext(&v, *from, *to),
                            CastK::SExt => sext(&v, *from, *to),
                            _ => match &v {
                                V::C(x) => V::C(fcast(*k, *from, *to, *x)),
                                _ => {
                                    fr.pc = pc as u32;
                                    break Flow::End(End::Unsup("symbolic float cast".into()));
                                }
                            },
                        };
                        set!(*dst, r);
                        pc += 1;
                    }
                    I::FBin { op, w, dst, a, b } => {
                        let (x, y) = (get!(*a), get!(*b));
                        match (&x, &y) {
                            (V::C(x), V::C(y)) => set!(*dst, V::C(fbin(*op, *w, *x, *y))),
                            _ => {
                                fr.pc = pc as u32;
                                break Flow::End(End::Unsup("symbolic float".into()));
                            }
                        }
                        pc += 1;
                    }
                    I::FCmp { pred, w, dst, a, b } => {
                        let (x, y) = (get!(*a), get!(*b));
                        match (&x, &y) {
                            (V::C(x), V::C(y)) => set!(*dst, V::C(fcmp(*pred, *w, *x, *y) as u64)),
                            _ => {
                                fr.pc = pc as u32;
                                break Flow::End(End::Unsup("symbolic float".into()));
                            }
                        }
                        pc += 1;
                    }
                    I::Alloca { dst, size, align } => {
                        let th = unsafe { &mut *th };
                        let a = th.sp.next_multiple_of((*align).max(8));
                        th.sp = a + *size;
                        let lim = STACK_BASE + STACK_SIZE * (cur as u64 + 1);
                        if th.sp > lim {
                            fr.pc = pc as u32;
                            break Flow::End(End::Viol("stack-overflow".into(), "stack exhausted".into()));
                        }
                        set!(*dst, V::C(a));
                        pc += 1;
                    }
                    I::Call { f, args, aw, dst, nret } => {
                        let fid = match f {
                            Callee::Fn(id) => *id,
                            Callee::Ind(o) => {
                                let a = conc!(*o, 64);
                                if a < FADDR || (a - FADDR) % 16 != 0 {
                                    fr.pc = pc as u32;
                                    break Flow::End(End::Viol("memory".into(), format!("bad indirect call {a:#x}")));
                                }
                                ((a - FADDR) / 16) as u32
                            }
                        };
                        let fd = self.fdef(fid);
                        if fd.special != Sp::Plain {
                            fr.pc = pc as u32;
                            let av: Vec<V> = args.iter().map(|a| get!(*a)).collect();
                            match self.model(st, fd, base, args, aw, av, *dst, *nret) {
                                Flow::Next => {
                                    pc += 1;
                                    continue;
                                }
                                x => break x,
                            }
                        }
                        if fd.span.is_none() {
                            fr.pc = pc as u32;
                            break Flow::End(End::Unsup(format!("extern {}", fd.name)));
                        }
                        let callee = match fd.code.get() {
                            Some(c) => *c,
                            None => self.g.p.code(fid),
                        };
                        if !fd.entered.load(Ordering::Relaxed) {
                            fd.entered.store(true, Ordering::Relaxed);
                        }
                        fr.pc = pc as u32 + 1;
                        let th = unsafe { &mut *th };
                        let nb = th.regs.len();
                        if th.frames.len() > 20_000 {
                            break Flow::End(End::Viol("stack-overflow".into(), "call depth".into()));
                        }
                        th.regs.reserve(callee.nregs as usize);
                        // `reserve` may move the registers: go through th.regs from here on
                        for a in args.iter().take(callee.nargs as usize) {
                            let v = match *a {
                                Opnd::R(r) => th.regs[base + r as usize].clone(),
                                Opnd::C(c) => V::C(c),
                                Opnd::K(k) => code.consts[k as usize].clone(),
                            };
                            th.regs.push(v);
                        }
                        th.regs.resize(nb + callee.nregs as usize, V::C(0));
                        let sp = th.sp;
                        th.frames.push(Frame { code: callee, pc: 0, base: nb as u32, dst: *dst, nret: *nret, sp });
                        break Flow::Reload;
                    }
                    I::Ret(vals) => {
                        let th = unsafe { &mut *th };
                        let rv: Vec<V> = vals.iter().map(|v| get!(*v)).collect();
                        let f = th.frames.pop().unwrap();
                        th.regs.truncate(base);
                        th.sp = f.sp;
                        match th.frames.last() {
                            None => {
                                th.status = Status::Done;
                                if cur == 0 {
                                    break Flow::End(End::Ok);
                                }
                            }
                            Some(pf) => {
                                let pb = pf.base as usize;
                                for (i, v) in rv.into_iter().enumerate().take(f.nret as usize) {
                                    th.regs[pb + f.dst as usize + i] = v;
                                }
                            }
                        }
                        break Flow::Reload;
                    }
                    I::Intr { k, w, w2, args, dst } => {
                        let av: Vec<V> = args.iter().map(|a| get!(*a)).collect();
                        match k {
                            Intr::Memcpy => {
                                let d = conc!(args[0], 64);
                                let s = conc!(args[1], 64);
                                let n = conc!(args[2], 64);
                                memtry!(st.mem.copy(&self.g.p, d, s, n));
                            }
                            Intr::Memset => {
                                let d = conc!(args[0], 64);
                                let n = conc!(args[2], 64);
                                memtry!(st.mem.fill(&self.g.p, d, &av[1], n));
                            }
                            Intr::Tls => {
                                let t = fconst(&av[0]).unwrap();
                                let a = self.tls(st, cur, t);
                                set!(*dst, V::C(a));
                            }
                            Intr::Trap => {
                                fr.pc = pc as u32;
                                break Flow::End(End::Viol("trap".into(), demangle(&self.g.p.func(code.fid).name)));
                            }
                            Intr::LoadRel => {
                                let a = conc!(args[0], 64);
                                let o = conc!(args[1], 64);
                                let v = memtry!(st.mem.read(&self.g.p, a.wrapping_add(o), 4));
                                let v = bin(Op::Add, 64, &V::C(a), &sext(&v, 32, 64));
                                set!(*dst, v);
                            }
                            _ => match self.intrinsic(*k, *w, *w2, &av) {
                                Ok(r) => {
                                    for (i, v) in r.into_iter().enumerate() {
                                        set!(*dst + i as u32, v);
                                    }
                                }
                                Err(()) => {
                                    // fall back to concrete operands
                                    let mut cv = vec![];
                                    for (i, a) in args.iter().enumerate() {
                                        let wi = if i == 0 { *w } else if matches!(av[i], V::C(_)) { 64 } else { *w };
                                        cv.push(V::C(conc!(*a, wi)));
                                    }
                                    match self.intrinsic(*k, *w, *w2, &cv) {
                                        Ok(r) => {
                                            for (i, v) in r.into_iter().enumerate() {
                                                set!(*dst + i as u32, v);
                                            }
                                        }
                                        Err(()) => {
                                            fr.pc = pc as u32;
                                            break Flow::End(End::Unsup(format!("intrinsic {k:?}")));
                                        }
                                    }
                                }
                            },
                        }
                        pc += 1;
                    }
                    I::Rmw { .. } | I::CmpXchg { .. } if st.preempt > 0 && unsafe { !(*th).seen } && st.threads.len() > 1 => {
                        fr.pc = pc as u32;
                        break Flow::Preempt;
                    }
                    I::Rmw { op, w, dst, p, v } => {
                        unsafe { (*th).seen = false };
                        let a = conc!(*p, 64);
                        let n = (*w as usize).div_ceil(8);
                        let o = memtry!(st.mem.read(&self.g.p, a, n));
                        let x = get!(*v);
                        let w = *w;
                        let nv = match op {
                            RmwOp::Xchg => x,
                            RmwOp::Add => bin(Op::Add, w, &o, &x),
                            RmwOp::Sub => bin(Op::Sub, w, &o, &x),
                            RmwOp::And => bin(Op::And, w, &o, &x),
                            RmwOp::Or => bin(Op::Or, w, &o, &x),
                            RmwOp::Xor => bin(Op::Xor, w, &o, &x),
                            RmwOp::Nand => bin(Op::Xor, w, &bin(Op::And, w, &o, &x), &V::C(mask(w))),
                            RmwOp::Max => ite(&cmp(Op::Slt, w, &o, &x), &x, &o, w),
                            RmwOp::Min => ite(&cmp(Op::Slt, w, &o, &x), &o, &x, w),
                            RmwOp::UMax => ite(&cmp(Op::Ult, w, &o, &x), &x, &o, w),
                            RmwOp::UMin => ite(&cmp(Op::Ult, w, &o, &x), &o, &x, w),
                        };
                        memtry!(st.mem.write(&self.g.p, a, n, &nv));
                        set!(*dst, o);
                        pc += 1;
                    }
                    I::CmpXchg { w, dst, p, old, new } => {
                        unsafe { (*th).seen = false };
                        let a = conc!(*p, 64);
                        let n = (*w as usize).div_ceil(8);
                        let o = memtry!(st.mem.read(&self.g.p, a, n));
                        let x = get!(*old);
                        let y = get!(*new);
                        let eq = cmp(Op::Eq, *w, &o, &x);
                        let nv = ite(&eq, &y, &o, *w);
                        memtry!(st.mem.write(&self.g.p, a, n, &nv));
                        set!(*dst, o);
                        set!(*dst + 1, eq);
                        pc += 1;
                    }
                    I::Pad { dst } => {
                        let x = unsafe { (*th).exc };
                        if *dst != u32::MAX {
                            set!(*dst, V::C(x));
                            set!(*dst + 1, V::C(1));
                        }
                        pc += 1;
                    }
                    I::Resume(v) => {
                        let x = conc!(*v, 64);
                        fr.pc = pc as u32 + 1;
                        break Flow::Unwind(x);
                    }
                    I::Unreachable => {
                        fr.pc = pc as u32;
                        break Flow::End(End::Viol("unreachable".into(), demangle(&self.g.p.func(code.fid).name)));
                    }
                    I::Unsupported(s) => {
                        fr.pc = pc as u32;
                        break Flow::End(End::Unsup(s.to_string()));
                    }
                }
            };
            match flow {
                Flow::Reload => {}
                Flow::Unwind(x) => {
                    if !unwind(&mut st.threads[cur], x) {
                        return End::Viol("panic".into(), "nothing catches it".into());
                    }
                }
                Flow::Preempt => {
                    let cur = st.cur;
                    st.threads[cur].seen = true;
                    // a worker stops and the main thread goes on
                    for t in 0..1 {
                        if t != cur && st.threads[t].status == Status::Run {
                            let mut f = st.fork();
                            f.cur = t;
                            f.preempt -= 1;
                            f.choices.push(1000 + t as u32);
                            self.g.st.forks.fetch_add(1, Ordering::Relaxed);
                            self.local.push(Box::new(f));
                        }
                    }
                }
                Flow::Next => unreachable!(),
                Flow::End(e) => return e,
            }
        }
    }
    /// Follow both sides of a symbolic branch through small blocks that only compute values, and
    /// bring together the edges that lead to the same place: the merged edge the current model
    /// takes, or None when nothing was merged.
    fn region(&mut self, st: &State, code: &'static Code, regs: *mut V, pc: usize, init: &[(V, &Edge)]) -> Option<Group> {
        let get = |o: Opnd| -> V {
            match o {
                Opnd::R(r) => unsafe { (*regs.add(r as usize)).clone() },
                Opnd::C(c) => V::C(c),
                Opnd::K(k) => code.consts[k as usize].clone(),
            }
        };
        let group = |e: &Edge, guard: V| -> Group {
            Group {
                pc: e.pc as usize,
                guard,
                copies: e.copies.iter().zip(e.cw.iter()).map(|((d, o), w)| (*d, get(*o), *w)).collect(),
            }
        };
        // a block that can be executed early: its length, if so
        let pure = |at: usize| -> bool {
            for k in at..(at + 12).min(code.insts.len()) {
                match &code.insts[k] {
                    I::Bin { op, .. } if !matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) => {}
                    I::Cmp { .. } | I::Gep { .. } | I::Mov { .. } | I::Select { .. } => {}
                    I::Cast { k: CastK::Trunc | CastK::ZExt | CastK::SExt, .. } => {}
                    I::Br(_) | I::CondBr { .. } => return true,
                    I::Switch { cases, .. } => return cases.len() <= 8,
                    _ => return false,
                }
            }
            false
        };
        let mut pend: Vec<Group> = vec![];
        let mut merged = false;
        fn add(pend: &mut Vec<Group>, g: Group, merged: &mut bool) {
            if let V::C(0) = g.guard {
                return;
            }
            'l: for p in pend.iter_mut() {
                if p.pc != g.pc {
                    continue;
                }
                for (a, b) in p.copies.iter().zip(&g.copies) {
                    if !same_v(&a.1, &b.1) && a.2 > MERGE_W {
                        continue 'l;
                    }
                }
                for (a, b) in p.copies.iter_mut().zip(g.copies) {
                    if !same_v(&a.1, &b.1) {
                        a.1 = ite(&g.guard, &b.1, &a.1, a.2);
                    }
                }
                p.guard = bin(Op::Or, 1, &p.guard, &g.guard);
                *merged = true;
                return;
            }
            pend.push(g);
        }
        for (c, e) in init {
            add(&mut pend, group(e, c.clone()), &mut merged);
        }
        let mut done: Vec<usize> = vec![];
        while done.len() < 64 && pend.len() < 80 {
            // the earliest block first, so that what leads to it has been followed
            let mut best: Option<usize> = None;
            for (i, g) in pend.iter().enumerate() {
                if !done.contains(&g.pc)
                    && pend.iter().filter(|h| h.pc == g.pc).count() == 1
                    && pure(g.pc)
                    && !code.dom().dominates(g.pc, pc)
                    && best.map_or(true, |b| g.pc < pend[b].pc)
                {
                    best = Some(i);
                }
            }
            let Some(i) = best else { break };
            let g = pend.swap_remove(i);
            done.push(g.pc);
            for (r, v, _) in &g.copies {
                unsafe { *regs.add(*r as usize) = v.clone() };
            }
            let mut k = g.pc;
            loop {
                match &code.insts[k] {
                    I::Bin { op, w, dst, a, b } => unsafe { *regs.add(*dst as usize) = bin(*op, *w, &get(*a), &get(*b)) },
                    I::Cmp { op, w, neg, dst, a, b } => {
                        let r = cmp(*op, *w, &get(*a), &get(*b));
                        unsafe { *regs.add(*dst as usize) = if *neg { not1(&r) } else { r } }
                    }
                    I::Gep { dst, base: b, off, terms } => {
                        let mut r = get(*b);
                        for (o, w, s) in terms.iter() {
                            let x = get(*o);
                            let x = if *w < 64 { sext(&x, *w, 64) } else { x };
                            let t = bin(Op::Mul, 64, &x, &V::C(*s as u64));
                            r = bin(Op::Add, 64, &r, &t);
                        }
                        if *off != 0 {
                            r = bin(Op::Add, 64, &r, &V::C(*off as u64));
                        }
                        unsafe { *regs.add(*dst as usize) = r }
                    }
                    I::Mov { dst, src } => {
                        let t: Vec<V> = src.iter().map(|s| get(*s)).collect();
                        for (i, x) in t.into_iter().enumerate() {
                            unsafe { *regs.add(*dst as usize + i) = x }
                        }
                    }
                    I::Select { c, dst, n } => {
                        let v = get(*c);
                        let t: Vec<V> = n.iter().map(|(a, b, w)| ite(&v, &get(*a), &get(*b), *w)).collect();
                        for (i, x) in t.into_iter().enumerate() {
                            unsafe { *regs.add(*dst as usize + i) = x }
                        }
                    }
                    I::Cast { k, from, to, dst, a } => {
                        let v = get(*a);
                        let r = match k {
                            CastK::Trunc => extract(&v, *from, 0, *to),
                            CastK::ZExt => zext(&v, *from, *to),
                            _ => sext(&v, *from, *to),
                        };
                        unsafe { *regs.add(*dst as usize) = r }
                    }
                    I::Br(e) => {
                        let x = group(e, g.guard.clone());
                        add(&mut pend, x, &mut merged);
                        break;
                    }
                    I::CondBr { c, t, f } => {
                        let c = get(*c);
                        let x = group(t, bin(Op::And, 1, &g.guard, &c));
                        let y = group(f, bin(Op::And, 1, &g.guard, &not1(&c)));
                        add(&mut pend, x, &mut merged);
                        add(&mut pend, y, &mut merged);
                        break;
                    }
                    I::Switch { v, w, cases, def } => {
                        let x = get(*v);
                        let mut none = g.guard.clone();
                        for (c, e) in cases.iter() {
                            let q = cmp(Op::Eq, *w, &x, &konst(*w, *c));
                            let y = group(e, bin(Op::And, 1, &g.guard, &q));
                            none = bin(Op::And, 1, &none, &not1(&q));
                            add(&mut pend, y, &mut merged);
                        }
                        let y = group(def, none);
                        add(&mut pend, y, &mut merged);
                        break;
                    }
                    _ => unreachable!(),
                }
                k += 1;
            }
        }
        if !merged {
            return None;
        }
        let i = pend.iter().position(|g| eval(&g.guard, &st.model) != 0)?;
        let g = pend.swap_remove(i);
        if let V::S(e) = &g.guard {
            if e.depth > 40 {
                return None;
            }
        }
        Some(g)
    }
    fn errno_addr(&mut self, st: &mut State) -> u64 {
        let c = st.cur;
        if st.threads[c].errno == 0 {
            let a = st.mem.malloc(&self.g.p, 16, 8).unwrap();
            let _ = st.mem.fill(&self.g.p, a, &V::C(0), 16);
            st.threads[c].errno = a;
        }
        st.threads[c].errno
    }
    fn tls(&mut self, st: &mut State, cur: usize, t: u64) -> u64 {
        if let Some(a) = st.threads[cur].tls.get(&t) {
            return *a;
        }
        let n = self.g.p.tls_size(t);
        let a = st.mem.malloc(&self.g.p, n.max(16) + 16, 64).unwrap();
        let _ = st.mem.copy(&self.g.p, a, t, n);
        st.threads[cur].tls.insert(t, a);
        a
    }
    /// a load through a symbolic address: a table when the address depends on one small variable
    /// and the bytes are concrete, otherwise None (the caller makes the address concrete)
    fn sym_load(&mut self, st: &mut State, a: &V, n: usize) -> Option<V> {
        let V::S(e) = a else { return None };
        if n > 8 || e.op != Op::Tab {
            return None;
        }
        let id = tab_var(e);
        let d = st.dom[id as usize];
        let nv = 1usize << tab_vw(e);
        let mut t = [0u64; 256];
        let mut distinct = BTreeSet::new();
        for i in 0..nv {
            if (d[i >> 6] >> (i & 63)) & 1 == 0 {
                continue; // infeasible: any value will do
            }
            let ad = tab_get(e, i);
            distinct.insert(ad);
            if !st.mem.valid(ad, n as u64) {
                return None;
            }
            match st.mem.read(&self.g.p, ad, n) {
                Ok(V::C(x)) => t[i] = x,
                _ => return None,
            }
        }
        if distinct.len() <= 1 {
            return None; // unique: make it concrete
        }
        // fill infeasible entries with a feasible neighbour to keep runs long
        let mut last = None;
        for i in 0..nv {
            if (d[i >> 6] >> (i & 63)) & 1 == 1 {
                last = Some(t[i]);
            } else if let Some(l) = last {
                t[i] = l;
            }
        }
        Some(tab(id, tab_vw(e), (8 * n) as u8, t))
    }
    fn intrinsic(&mut self, k: Intr, w: u8, w2: u8, a: &[V]) -> Result<Vec<V>, ()> {
        use Intr::*;
        let one = |v: V| Ok(vec![v]);
        match k {
            UAddO => {
                let s = bin(Op::Add, w, &a[0], &a[1]);
                let o = cmp(Op::Ult, w, &s, &a[0]);
                Ok(vec![s, o])
            }
            USubO => Ok(vec![bin(Op::Sub, w, &a[0], &a[1]), cmp(Op::Ult, w, &a[0], &a[1])]),
            SAddO | SSubO => {
                let op = if k == SAddO { Op::Add } else { Op::Sub };
                if w >= 128 {
                    return Err(());
                }
                let (x, y) = (sext(&a[0], w, w + 1), sext(&a[1], w, w + 1));
                let s = bin(op, w + 1, &x, &y);
                let r = extract(&s, w + 1, 0, w);
                let o = not1(&cmp(Op::Eq, w + 1, &sext(&r, w, w + 1), &s));
                Ok(vec![r, o])
            }
            UMulO | SMulO => {
                if w > 64 {
                    let (Some(x), Some(y)) = (as_const(&a[0]), as_const(&a[1])) else { return Err(()) };
                    let (r, o) = if k == UMulO {
                        x.overflowing_mul(y)
                    } else {
                        let (r, o) = (x as i128).overflowing_mul(y as i128);
                        (r as u128, o)
                    };
                    return Ok(vec![konst(w, r), V::C(o as u64)]);
                }
                if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
                    if k == UMulO {
                        let f = *x as u128 * *y as u128;
                        return Ok(vec![konst(w, f), V::C((f > mask128(w)) as u64)]);
                    }
                    let f = sext64(*x, w) as i128 * sext64(*y, w) as i128;
                    let r = konst(w, f as u128);
                    let V::C(rr) = r else { unreachable!() };
                    return Ok(vec![V::C(rr), V::C((sext64(rr, w) as i128 != f) as u64)]);
                }
                let x2 = 2 * w;
                let (x, y) = if k == UMulO {
                    (zext(&a[0], w, x2), zext(&a[1], w, x2))
                } else {
                    (sext(&a[0], w, x2), sext(&a[1], w, x2))
                };
                let f = bin(Op::Mul, x2, &x, &y);
                let r = extract(&f, x2, 0, w);
                let back = if k == UMulO { zext(&r, w, x2) } else { sext(&r, w, x2) };
                let o = not1(&cmp(Op::Eq, x2, &back, &f));
                Ok(vec![r, o])
            }
            UMin => one(ite(&cmp(Op::Ult, w, &a[0], &a[1]), &a[0], &a[1], w)),
            UMax => one(ite(&cmp(Op::Ult, w, &a[0], &a[1]), &a[1], &a[0], w)),
            SMin => one(ite(&cmp(Op::Slt, w, &a[0], &a[1]), &a[0], &a[1], w)),
            SMax => one(ite(&cmp(Op::Slt, w, &a[0], &a[1]), &a[1], &a[0], w)),
            UAddSat => {
                let s = bin(Op::Add, w, &a[0], &a[1]);
                let o = cmp(Op::Ult, w, &s, &a[0]);
                one(ite(&o, &konst(w, mask128(w)), &s, w))
            }
            USubSat => {
                let o = cmp(Op::Ult, w, &a[0], &a[1]);
                one(ite(&o, &konst(w, 0), &bin(Op::Sub, w, &a[0], &a[1]), w))
            }
            SAddSat | SSubSat => {
                let (V::C(x), V::C(y)) = (&a[0], &a[1]) else { return Err(()) };
                let (x, y) = (sext64(*x, w) as i128, sext64(*y, w) as i128);
                let r = if k == SAddSat { x + y } else { x - y };
                let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                one(konst(w, r.clamp(lo, hi) as u128))
            }
            Ctpop | Ctlz | Cttz => {
                let f = |x: u128| -> u128 {
                    match k {
                        Ctpop => x.count_ones() as u128,
                        Ctlz => {
                            if x == 0 {
                                w as u128
                            } else {
                                (x.leading_zeros() - (128 - w as u32)) as u128
                            }
                        }
                        _ => {
                            if x == 0 {
                                w as u128
                            } else {
                                x.trailing_zeros() as u128
                            }
                        }
                    }
                };
                if let Some(x) = as_const(&a[0]) {
                    return one(konst(w, f(x)));
                }
                if let V::S(e) = &a[0] {
                    if is_tab(e) && w <= 64 {
                        let n = 1usize << tab_vw(e);
                        let mut t = [0u64; 256];
                        for i in 0..n {
                            t[i] = f(tab_get(e, i) as u128) as u64;
                        }
                        return one(tab(tab_var(e), tab_vw(e), w, t));
                    }
                }
                // chain of ites over the bits
                match k {
                    Ctpop => {
                        let mut s = konst(w, 0);
                        for i in 0..w {
                            s = bin(Op::Add, w, &s, &zext(&extract(&a[0], w, i, 1), 1, w));
                        }
                        one(s)
                    }
                    Cttz => {
                        let mut r = konst(w, w as u128);
                        for i in (0..w).rev() {
                            r = ite(&extract(&a[0], w, i, 1), &konst(w, i as u128), &r, w);
                        }
                        one(r)
                    }
                    _ => {
                        let mut r = konst(w, w as u128);
                        for i in 0..w {
                            r = ite(&extract(&a[0], w, i, 1), &konst(w, (w - 1 - i) as u128), &r, w);
                        }
                        one(r)
                    }
                }
            }
            Bswap => {
                let n = w / 8;
                let mut r = extract(&a[0], w, 0, 8);
                for i in 1..n {
                    r = concat(&r, 8 * i, &extract(&a[0], w, 8 * i, 8), 8);
                }
                one(r)
            }
            Bitrev => {
                let Some(x) = as_const(&a[0]) else { return Err(()) };
                one(konst(w, x.reverse_bits() >> (128 - w as u32)))
            }
            Fshl | Fshr => {
                let Some(s) = as_const(&a[2]) else { return Err(()) };
                let s = (s % w as u128) as u8;
                if s == 0 {
                    return one(if k == Fshl { a[0].clone() } else { a[1].clone() });
                }
                let s = if k == Fshl { s } else { w - s };
                let hi = extract(&a[0], w, 0, w - s);
                let lo = extract(&a[1], w, w - s, s);
                one(concat(&hi, w - s, &lo, s))
            }
            Abs => {
                let neg = cmp(Op::Slt, w, &a[0], &konst(w, 0));
                one(ite(&neg, &bin(Op::Sub, w, &konst(w, 0), &a[0]), &a[0], w))
            }
            UCmp | SCmp => {
                let op = if k == UCmp { Op::Ult } else { Op::Slt };
                let lt = cmp(op, w, &a[0], &a[1]);
                let eq = cmp(Op::Eq, w, &a[0], &a[1]);
                let r = ite(&eq, &V::C(0), &V::C(1), w2);
                one(ite(&lt, &konst(w2, u128::MAX), &r, w2))
            }
            PtrMask => one(bin(Op::And, 64, &a[0], &a[1])),
            FAbs | CopySign | FSqrt | FCeil | FFloor | Fma | FpToUiSat | FpToSiSat | FMaxNum | FMinNum | IsFpClass => {
                let mut c = vec![];
                for x in a {
                    let V::C(x) = x else { return Err(()) };
                    c.push(*x);
                }
                let f = |x: u64| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let b = |v: f64| V::C(if w == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() });
                let m = 1u64 << (w - 1);
                one(match k {
                    FAbs => V::C(c[0] & !m),
                    CopySign => V::C((c[0] & !m) | (c[1] & m)),
                    FSqrt => b(f(c[0]).sqrt()),
                    FCeil => b(f(c[0]).ceil()),
                    FFloor => b(f(c[0]).floor()),
                    Fma => b(f(c[0]).mul_add(f(c[1]), f(c[2]))),
                    FMaxNum => b(f(c[0]).max(f(c[1]))),
                    FMinNum => b(f(c[0]).min(f(c[1]))),
                    FpToUiSat => {
                        let v = f(c[0]) as u64;
                        V::C(v.min(mask(w2)))
                    }
                    FpToSiSat => {
                        let v = f(c[0]) as i64;
                        let (lo, hi) = if w2 == 64 { (i64::MIN, i64::MAX) } else { (-(1i64 << (w2 - 1)), (1i64 << (w2 - 1)) - 1) };
                        V::C(v.clamp(lo, hi) as u64 & mask(w2))
                    }
                    IsFpClass => {
                        let v = f(c[0]);
                        let neg = v.is_sign_negative();
                        let bit = if v.is_nan() {
                            2
                        } else if v.is_infinite() {
                            if neg { 4 } else { 512 }
                        } else if v == 0.0 {
                            if neg { 32 } else { 64 }
                        } else if v.is_subnormal() {
                            if neg { 16 } else { 128 }
                        } else if neg {
                            8
                        } else {
                            256
                        };
                        V::C((c[1] & bit != 0) as u64)
                    }
                    _ => return Err(()),
                })
            }
            _ => Err(()),
        }
    }
    fn new_var(&mut self, st: &mut State, w: u8) -> V {
        let id = st.vars.len() as u32;
        st.vars.push(w);
        st.dom.push(if w <= 8 { full_bits(w) } else { [0; 4] });
        st.model.push(0);
        var(id, w)
    }
    #[allow(clippy::too_many_arguments)]
    fn model(
        &mut self,
        st: &mut Box<State>,
        fd: &'static FuncDef,
        base: usize,
        args: &[Opnd],
        aw: &[u8],
        mut av: Vec<V>,
        dst: u32,
        nret: u32,
    ) -> Flow {
        use Sp::*;
        let g = self.g;
        let cur = st.cur;
        macro_rules! ret {
            ($v:expr) => {{
                let v: V = $v;
                if nret > 0 {
                    st.threads[cur].regs[base + dst as usize] = v;
                }
                return Flow::Next;
            }};
        }
        macro_rules! c {
            ($i:expr) => {{
                let i = $i;
                match &av[i] {
                    V::C(x) => *x,
                    _ => {
                        let v = av[i].clone();
                        let k = self.concretize(st, base, args[i], &v, aw[i]);
                        av[i] = V::C(k);
                        k
                    }
                }
            }};
        }
        macro_rules! mt {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(MemErr::Bad(a)) => {
                        return Flow::End(End::Viol("memory".into(), format!("invalid access {a:#x} in {}", fd.name)))
                    }
                }
            };
        }
        match fd.special {
            RustAlloc | RustAllocZeroed => {
                let (n, al) = (c!(0), c!(1));
                match st.mem.malloc(&g.p, n, al) {
                    Some(a) => {
                        if fd.special == RustAllocZeroed {
                            mt!(st.mem.fill(&g.p, a, &V::C(0), n));
                        }
                        ret!(V::C(a))
                    }
                    None => Flow::End(End::Viol("oom".into(), format!("allocation of {n} bytes failed"))),
                }
            }
            RustDealloc => {
                let (a, n, al) = (c!(0), c!(1), c!(2));
                st.mem.mfree(&g.p, a, n, al);
                Flow::Next
            }
            RustRealloc => {
                let (a, n, al, nn) = (c!(0), c!(1), c!(2), c!(3));
                if al <= 16 && Mem::fits(n, nn) {
                    ret!(V::C(a))
                }
                match st.mem.malloc(&g.p, nn, al) {
                    Some(b) => {
                        mt!(st.mem.copy(&g.p, b, a, n.min(nn)));
                        st.mem.mfree(&g.p, a, n, al);
                        ret!(V::C(b))
                    }
                    None => Flow::End(End::Viol("oom".into(), format!("allocation of {nn} bytes failed"))),
                }
            }
            Malloc => {
                let n = c!(0);
                match st.mem.malloc(&g.p, n, 16) {
                    Some(a) => ret!(V::C(a)),
                    None => ret!(V::C(0)),
                }
            }
            Calloc => {
                let n = c!(0) * c!(1);
                match st.mem.malloc(&g.p, n, 16) {
                    Some(a) => {
                        mt!(st.mem.fill(&g.p, a, &V::C(0), n));
                        ret!(V::C(a))
                    }
                    None => ret!(V::C(0)),
                }
            }
            Free => Flow::Next,
            Realloc | PosixMemalign => Flow::End(End::Unsup(fd.name.clone())),
            Nop0 => {
                if nret > 0 {
                    for i in 0..nret {
                        st.threads[cur].regs[base + (dst + i) as usize] = V::C(0);
                    }
                }
                Flow::Next
            }
            PanicFmt => {
                // decode the Location { file: &CStr-ish (ptr,len), line, col }
                let l = fconst(av.last().unwrap()).unwrap_or(0);
                let at = self.location(st, l);
                Flow::End(End::Viol("panic".into(), at))
            }
            PanicAny => Flow::End(End::Viol("panic".into(), "unknown location".into())),
            Throw => {
                let x = c!(0);
                let th = &mut st.threads[st.cur];
                th.frames.last_mut().unwrap().pc += 1;
                Flow::Unwind(x)
            }
            Abort => Flow::End(End::Viol("abort".into(), fd.name.clone())),
            Exit => Flow::End(End::Ok),
            Memcpy => {
                let (d, s, n) = (c!(0), c!(1), c!(2));
                mt!(st.mem.copy(&g.p, d, s, n));
                ret!(V::C(d))
            }
            Memset => {
                let (d, n) = (c!(0), c!(2));
                let b = extract(&av[1], aw[1], 0, 8);
                mt!(st.mem.fill(&g.p, d, &b, n));
                ret!(V::C(d))
            }
            Bcmp | Memcmp => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                if n > 0 && (!st.mem.valid(p, n) || !st.mem.valid(q, n)) {
                    return Flow::End(End::Viol("memory".into(), "memcmp".into()));
                }
                if fd.special == Bcmp {
                    let mut diff = V::C(0);
                    for i in 0..n {
                        let (x, y) = (st.mem.get_byte(&g.p, p + i), st.mem.get_byte(&g.p, q + i));
                        let e = cmp(Op::Eq, 8, &x, &y);
                        if let V::C(0) = e {
                            diff = V::C(1);
                            break;
                        }
                        diff = bin(Op::Or, 1, &diff, &not1(&e));
                    }
                    ret!(zext(&diff, 1, 32))
                }
                let mut pairs = vec![];
                let mut r = V::C(0);
                for i in 0..n {
                    let (x, y) = (st.mem.get_byte(&g.p, p + i), st.mem.get_byte(&g.p, q + i));
                    let eq = cmp(Op::Eq, 8, &x, &y);
                    match eq {
                        V::C(1) => continue,
                        V::C(_) => {
                            let lt = cmp(Op::Ult, 8, &x, &y);
                            r = ite(&lt, &V::C(0xffff_ffff), &V::C(1), 32);
                            break;
                        }
                        _ => pairs.push((x, y, eq)),
                    }
                }
                for (x, y, eq) in pairs.into_iter().rev() {
                    let lt = cmp(Op::Ult, 8, &x, &y);
                    let d = ite(&lt, &V::C(0xffff_ffff), &V::C(1), 32);
                    r = ite(&eq, &r, &d, 32);
                }
                ret!(r)
            }
            Strlen => {
                let p = c!(0);
                let mut n = 0;
                loop {
                    match st.mem.get_byte(&g.p, p + n) {
                        V::C(0) => break,
                        V::C(_) => n += 1,
                        b => match cmp(Op::Eq, 8, &b, &V::C(0)) {
                            V::C(1) => break,
                            V::C(_) => n += 1,
                            V::S(e) => {
                                if self.feasible(st, &e).is_some() {
                                    return Flow::End(End::Unsup("symbolic strlen".into()));
                                }
                                n += 1;
                            }
                        },
                    }
                    if n > 1 << 20 {
                        return Flow::End(End::Viol("memory".into(), "strlen".into()));
                    }
                }
                ret!(V::C(n))
            }
            // ---------------- harness interface
            SxVar(w) => {
                if st.vars.len() >= 128 {
                    return Flow::End(End::Unsup("more than 128 symbolic variables".into()));
                }
                let v = self.new_var(st, w);
                // results narrower than the declared return width do not occur: u1 is a bool
                ret!(v)
            }
            SxBytes => {
                let (p, n) = (c!(0), c!(1));
                if st.vars.len() as u64 + n > 128 {
                    return Flow::End(End::Unsup("more than 128 symbolic variables".into()));
                }
                for i in 0..n {
                    let v = self.new_var(st, 8);
                    mt!(st.mem.write(&g.p, p + i, 1, &v));
                }
                Flow::Next
            }
            SxChoose => {
                let n = c!(0);
                if n == 0 || n > 256 {
                    return Flow::End(End::Unsup("sx_choose range".into()));
                }
                if n == 1 {
                    // keep the replay vector aligned: still consumes one variable
                    let _ = self.new_var(st, 8);
                    let id = st.vars.len() - 1;
                    st.dom[id] = [1, 0, 0, 0];
                    ret!(V::C(0))
                }
                let v = self.new_var(st, 8);
                let lt = cmp(Op::Ult, 8, &v, &V::C(if n == 256 { 255 } else { n }));
                if n < 256 {
                    self.assume(st, &lt);
                }
                ret!(zext(&v, 8, 32))
            }
            SxConcrete => {
                let v = c!(0);
                ret!(V::C(v))
            }
            SxAssume => {
                let v = extract(&av[0], aw[0], 0, 1);
                match &v {
                    V::C(1) => Flow::Next,
                    V::C(_) => Flow::End(End::Cut),
                    V::S(e) => {
                        if eval(&v, &st.model) == 0 {
                            match self.feasible(st, e) {
                                None => return Flow::End(End::Cut),
                                Some(m) => Self::set_model(st, &m),
                            }
                        }
                        self.assume(st, &v);
                        Flow::Next
                    }
                }
            }
            SxAssert => {
                let v = extract(&av[0], aw[0], 0, 1);
                let code = c!(1);
                g.st.asserts.fetch_add(1, Ordering::Relaxed);
                match &v {
                    V::C(1) => Flow::Next,
                    V::C(_) => Flow::End(End::Viol("assert".into(), format!("{code}"))),
                    V::S(_) => {
                        g.st.asserts_sym.fetch_add(1, Ordering::Relaxed);
                        let neg = not1(&v);
                        let V::S(ne) = &neg else { unreachable!() };
                        if let Some(m) = self.feasible(st, ne) {
                            let mut f = st.fork();
                            Self::set_model(&mut f, &m);
                            self.report(&f, "assert".into(), format!("{code}"));
                            // continue where it holds, if it can
                            if eval(&v, &st.model) == 0 {
                                let V::S(e) = &v else { unreachable!() };
                                match self.feasible(st, e) {
                                    None => return Flow::End(End::Cut),
                                    Some(m) => Self::set_model(st, &m),
                                }
                            }
                            self.assume(st, &v);
                        }
                        Flow::Next
                    }
                }
            }
            SxReach => {
                let k = c!(0);
                *self.reach.entry(k).or_default() += 1;
                Flow::Next
            }
            SxObserve => {
                if st.obs.len() < 4096 {
                    st.obs.push(av[0].clone());
                }
                Flow::Next
            }
            SxParam => {
                let k = c!(0);
                ret!(V::C(g.cfg.params.get(k as usize).copied().unwrap_or(0)))
            }
            SxIsSym => ret!(V::C(1)),
            SxPrint => {
                let (p, n) = (c!(0), c!(1));
                if g.cfg.verbose {
                    let s = st.mem.str_lossy(&g.p, p, n);
                    eprintln!("[harness] {s}   (path depth {}, steps {})", st.depth, st.steps);
                }
                Flow::Next
            }
            SxSched => {
                let n = c!(0);
                st.sched = st.sched_forks + (n & 0xffff);
                st.preempt = n >> 16;
                Flow::Next
            }
            SxEnd => Flow::End(End::Ok),
            SxCut => Flow::End(End::Cut),
            // ---------------- libc
            Errno => {
                let a = self.errno_addr(st);
                ret!(V::C(a))
            }
            Write => {
                let n = c!(2);
                if g.cfg.verbose {
                    let p = c!(1);
                    let s = st.mem.str_lossy(&g.p, p, n);
                    eprint!("[write] {s}");
                }
                ret!(V::C(n))
            }
            Writev => {
                let (p, n) = (c!(1), c!(2));
                let mut tot = 0;
                for i in 0..n {
                    if let V::C(l) = mt!(st.mem.read(&g.p, p + 16 * i + 8, 8)) {
                        tot += l;
                    }
                }
                ret!(V::C(tot))
            }
            ClockGettime => {
                let p = c!(1);
                st.clock += 1000;
                let t = st.clock;
                mt!(st.mem.write(&g.p, p, 8, &V::C(1_000_000 + t / 1_000_000_000)));
                mt!(st.mem.write(&g.p, p + 8, 8, &V::C(t % 1_000_000_000)));
                ret!(V::C(0))
            }
            Getrandom => {
                let (p, n) = (c!(0), c!(1));
                mt!(st.mem.fill(&g.p, p, &V::C(0x5a), n));
                ret!(V::C(n))
            }
            Getcwd => {
                let p = c!(0);
                mt!(st.mem.write_bytes(&g.p, p, b"/\0"));
                ret!(V::C(p))
            }
            Enoent => {
                let a = self.errno_addr(st);
                mt!(st.mem.write(&g.p, a, 4, &V::C(2)));
                ret!(V::C(match fd.name.as_str() {
                    "opendir" | "realpath" => 0,
                    "readlink" => u64::MAX,
                    _ => 0xffff_ffff,
                }))
            }
            KeyCreate => {
                let p = c!(0);
                mt!(st.mem.write(&g.p, p, 4, &V::C(1)));
                ret!(V::C(0))
            }
            Sysconf => {
                let k = c!(0);
                ret!(V::C(match k {
                    30 => 4096,
                    83 | 84 => 4,
                    _ => u64::MAX,
                }))
            }
            SchedGetaffinity => {
                let (n, p) = (c!(1), c!(2));
                mt!(st.mem.fill(&g.p, p, &V::C(0), n));
                mt!(st.mem.write(&g.p, p, 1, &V::C(0xf)));
                ret!(V::C(0))
            }
            PthreadSelf => ret!(V::C(cur as u64 + 1)),
            PthreadCreate => {
                let (pt, f, arg) = (c!(0), c!(2), c!(3));
                let tid = st.threads.len();
                if tid as u64 >= MAX_THREADS {
                    return Flow::End(End::Unsup("too many threads".into()));
                }
                mt!(st.mem.write(&g.p, pt, 8, &V::C(tid as u64 + 1)));
                let id = ((f - FADDR) / 16) as u32;
                let code = g.p.code(id);
                let mut regs = vec![V::C(0); code.nregs as usize];
                regs[0] = V::C(arg);
                let sp = STACK_BASE + STACK_SIZE * tid as u64;
                st.threads.push(Thread {
                    frames: vec![Frame { code, pc: 0, base: 0, dst: u32::MAX, nret: 0, sp }],
                    regs,
                    status: Status::Run,
                    sp,
                    tls: BTreeMap::new(),
                    errno: 0,
                    wake_ret: None,
                    exc: 0,
                    pick: false, seen: false,
                });
                if nret > 0 {
                    st.threads[cur].regs[base + dst as usize] = V::C(0);
                }
                // st.threads may have moved
                st.threads[cur].frames.last_mut().unwrap().pc += 1;
                Flow::Reload
            }
            PthreadJoin => {
                let t = c!(0) as usize - 1;
                if nret > 0 {
                    st.threads[cur].regs[base + dst as usize] = V::C(0);
                }
                st.threads[cur].frames.last_mut().unwrap().pc += 1;
                if st.threads[t].status != Status::Done {
                    st.threads[cur].status = Status::Join(t);
                }
                Flow::Reload
            }
            SchedYield | SxYield => {
                if nret > 0 {
                    st.threads[cur].regs[base + dst as usize] = V::C(0);
                }
                st.threads[cur].frames.last_mut().unwrap().pc += 1;
                if st.threads.len() > 1 {
                    st.clock += 1000;
                    if let Some(e) = self.next_thread(st) {
                        return Flow::End(e);
                    }
                }
                Flow::Reload
            }
            Nanosleep => {
                // treat the request as relative
                let p = if fd.name == "nanosleep" { c!(0) } else { c!(2) };
                let s = fconst(&mt!(st.mem.read(&g.p, p, 8))).unwrap_or(0);
                let n = fconst(&mt!(st.mem.read(&g.p, p + 8, 8))).unwrap_or(0);
                if nret > 0 {
                    st.threads[cur].regs[base + dst as usize] = V::C(0);
                }
                st.threads[cur].frames.last_mut().unwrap().pc += 1;
                let w = st.clock + s.saturating_sub(if s >= 1_000_000 { 1_000_000 } else { 0 }) * 1_000_000_000 + n;
                st.threads[cur].status = Status::Sleep(w);
                Flow::Reload
            }
            Syscall => {
                let nr = c!(0);
                match nr {
                    98 | 422 => {
                        // futex(uaddr, op, val, timeout, ...)
                        let (ua, op, val) = (c!(1), c!(2) & 0x7f, c!(3) & 0xffff_ffff);
                        match op {
                            0 | 9 => {
                                let v = mt!(st.mem.read(&g.p, ua, 4));
                                let V::C(v) = v else { return Flow::End(End::Unsup("symbolic futex".into())) };
                                if v != val {
                                    let a = self.errno_addr(st);
                                    mt!(st.mem.write(&g.p, a, 4, &V::C(11)));
                                    ret!(V::C(u64::MAX))
                                }
                                let tp = c!(4);
                                let mut wake = u64::MAX;
                                if tp != 0 {
                                    let s = fconst(&mt!(st.mem.read(&g.p, tp, 8))).unwrap_or(0);
                                    let n = fconst(&mt!(st.mem.read(&g.p, tp + 8, 8))).unwrap_or(0);
                                    // op 9 takes an absolute time, op 0 a relative one
                                    wake = if op == 9 {
                                        s.saturating_sub(1_000_000).saturating_mul(1_000_000_000).saturating_add(n)
                                    } else {
                                        st.clock.saturating_add(s.saturating_mul(1_000_000_000)).saturating_add(n)
                                    };
                                    wake = wake.min(u64::MAX - 1);
                                }
                                if nret > 0 {
                                    st.threads[cur].regs[base + dst as usize] = V::C(0);
                                }
                                st.threads[cur].frames.last_mut().unwrap().pc += 1;
                                st.threads[cur].status = Status::Futex(ua, wake);
                                Flow::Reload
                            }
                            1 | 10 => {
                                let mut n = 0;
                                for t in st.threads.iter_mut() {
                                    if n >= val {
                                        break;
                                    }
                                    if matches!(t.status, Status::Futex(a, _) if a == ua) {
                                        t.status = Status::Run;
                                        n += 1;
                                    }
                                }
                                ret!(V::C(n))
                            }
                            _ => Flow::End(End::Unsup(format!("futex op {op}"))),
                        }
                    }
                    278 => {
                        let (p, n) = (c!(1), c!(2));
                        mt!(st.mem.fill(&g.p, p, &V::C(0x5a), n));
                        ret!(V::C(n))
                    }
                    178 => ret!(V::C(cur as u64 + 1)),
                    291 => {
                        // statx: nothing exists
                        let a = self.errno_addr(st);
                        mt!(st.mem.write(&g.p, a, 4, &V::C(2)));
                        ret!(V::C(u64::MAX))
                    }
                    _ => Flow::End(End::Unsup(format!("syscall {nr}"))),
                }
            }
            Plain => unreachable!(),
        }
    }
    fn location(&mut self, st: &mut State, l: u64) -> String {
        if l == 0 || !st.mem.valid(l, 24) {
            return "?".into();
        }
        let rd = |st: &mut State, a: u64, n: usize| st.mem.read(&self.g.p, a, n).ok().and_then(|v| fconst(&v)).unwrap_or(0);
        let f = rd(st, l, 8);
        let n = rd(st, l + 8, 8);
        let line = rd(st, l + 16, 4);
        let col = rd(st, l + 20, 4);
        let file = st.mem.str_lossy(&self.g.p, f, n);
        format!("{}:{}:{}", file.trim_end_matches('\0'), line, col)
    }
    pub fn initial(&mut self, entry: u32) -> Box<State> {
        let code = self.g.p.code(entry);
        self.g.p.func(entry).entered.store(true, Ordering::Relaxed);
        Box::new(State {
            mem: Mem::new(),
            threads: vec![Thread {
                frames: vec![Frame { code, pc: 0, base: 0, dst: u32::MAX, nret: 0, sp: STACK_BASE }],
                regs: vec![V::C(0); code.nregs as usize],
                status: Status::Run,
                sp: STACK_BASE,
                tls: BTreeMap::new(),
                errno: 0,
                wake_ret: None,
                    exc: 0,
                pick: false, seen: false,
            }],
            cur: 0,
            vars: vec![],
            dom: vec![],
            cs: vec![],
            model: vec![],
            steps: 0,
            clock: 0,
            depth: 0,
            sched: 0,
            nsched: 0,
            sched_forks: 0,
            preempt: 0,
            choices: vec![],
            obs: vec![],
        })
    }
}

fn fv(w: u8, x: u64) -> f64 {
    if w == 32 {
        f32::from_bits(x as u32) as f64
    } else {
        f64::from_bits(x)
    }
}
fn fb(w: u8, v: f64) -> u64 {
    if w == 32 {
        (v as f32).to_bits() as u64
    } else {
        v.to_bits()
    }
}
fn fbin(op: FOp, w: u8, x: u64, y: u64) -> u64 {
    if w == 32 {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        let r = match op {
            FOp::Add => a + b,
            FOp::Sub => a - b,
            FOp::Mul => a * b,
            FOp::Div => a / b,
            FOp::Rem => a % b,
            FOp::Neg => -a,
        };
        return r.to_bits() as u64;
    }
    let (a, b) = (f64::from_bits(x), f64::from_bits(y));
    (match op {
        FOp::Add => a + b,
        FOp::Sub => a - b,
        FOp::Mul => a * b,
        FOp::Div => a / b,
        FOp::Rem => a % b,
        FOp::Neg => -a,
    })
    .to_bits()
}
fn fcmp(p: u8, w: u8, x: u64, y: u64) -> bool {
    let (a, b) = (fv(w, x), fv(w, y));
    let un = a.is_nan() || b.is_nan();
    match p {
        0 => false,
        1 => !un && a == b,
        2 => !un && a > b,
        3 => !un && a >= b,
        4 => !un && a < b,
        5 => !un && a <= b,
        6 => !un && a != b,
        7 => !un,
        8 => un,
        9 => un || a == b,
        10 => un || a > b,
        11 => un || a >= b,
        12 => un || a < b,
        13 => un || a <= b,
        14 => un || a != b,
        _ => true,
    }
}
fn fcast(k: CastK, from: u8, to: u8, x: u64) -> u64 {
    match k {
        CastK::FpExt | CastK::FpTrunc => fb(to, fv(from, x)),
        CastK::UiToFp => {
            if to == 32 {
                (x as f32).to_bits() as u64
            } else {
                (x as f64).to_bits()
            }
        }
        CastK::SiToFp => {
            let s = sext64(x, from);
            if to == 32 {
                (s as f32).to_bits() as u64
            } else {
                (s as f64).to_bits()
            }
        }
        CastK::FpToUi => (fv(from, x) as u64) & mask(to),
        CastK::FpToSi => (fv(from, x) as i64 as u64) & mask(to),
        _ => unreachable!(),
    }
}

/// a readable approximation of a v0-mangled path
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric()) {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + l <= b.len() && l > 0 {
                let s = &n[j..j + l];
                if s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !s.as_bytes()[0].is_ascii_digit() {
                    out.push(s.to_string());
                    i = j + l;
                    continue;
                }
            }
        }
        i += 1;
    }
    out.join("::")
}
